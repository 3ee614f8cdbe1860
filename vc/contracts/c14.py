"""C14: a CREX message is decoded as its text says, inside its bounds, and decoding always ends."""
from .common import *
from .varobj import gl,push
from .c11 import AV,vget,vput,isptr,mkinfo,R_var,VV,ev,evs,nop,vtable_with
from ..lib import str_get, conc_cstr, span_check
SRCS=['buffers/crex.cc','crex_decoder.cc','varinfo.cc','error.cc','bulletin.cc']
INST=['layout.cc','crex_layout.cc']
ASSUMPTIONS=['messages shorter than 2^31 characters','the std::string given to the decoder outlives it and ends with a NUL','C locale (isspace, isdigit)','strtol, strtoul and sscanf behave as the C standard says: the number written in decimal digits','Interpreter::run only moves forward in the message, using the methods of CrexParser proved here','Bulletin::obtain_subset and Subset::store_variable as in C07 and C11','CrexBulletin::load_tables as in C13']
I16=("i",16)
K=z3.BitVec('K',64); Q=z3.BitVec('Q',64)
B64=z3.BitVecSort(64); B16=z3.BitVecSort(16)
def blank(c): return z3.Or(c==32,z3.And(z3.UGE(c,9),z3.ULE(c,13)))
def isdig(c): return z3.And(z3.UGE(c,48),z3.ULE(c,57))
def num(ds,w=32):
    r=z3.BitVecVal(0,w)
    for d in ds: r=r*10+z3.ZeroExt(w-8,d-48)
    return r
class CI:
    """a CrexInput over a text of L characters, somewhere inside it"""
    def __init__(s,ctx,pos=None):
        E=ctx.E; st=ctx.st; s.E=E; s.ctx=ctx; s.L=ctx.bv('size',64); ctx.assume(z3.ULT(s.L,1<<31)); s.D=ctx.arr('D',48); s.d=ctx.bytesobj('message',s.D,z3.simplify(s.L+1),ro=True); ctx.assume(z3.Select(s.D,s.L)==0)
        s.p=E.alloc(st,'CrexInput',off(E,'CrexInput'),lazy=True); s.pos=ctx.bv('pos',64) if pos is None else pos; ctx.assume(z3.ULE(s.pos,s.L))
        E.store(st,PTR,s.d,s.at('data')); E.store(st,I64,s.L,s.at('data_len')); E.store(st,PTR,s.ptr(s.pos),s.at('cur')); s.sec=[ctx.bv('sec%d'%i,32) for i in range(5)]
        for i in range(5): E.store(st,I32,s.sec[i],s.at('sec').plus(4*i))
        s.chk=ctx.bv('has_check_digit',32); s.exp=ctx.bv('expected',32); E.store(st,I32,s.chk,s.at('has_check_digit')); E.store(st,I32,s.exp,s.at('expected_check_digit'))
    def at(s,f): return s.p.plus(off(s.E,'CrexInput',f))
    def ptr(s,i): return Ptr(s.d.obj,Lin.of(i))
    def B(s,i): return z3.Select(s.D,i if not isinstance(i,int) else v64(i))
    def cur(s,t):
        c=s.E.load(t,PTR,s.at('cur')); return s.posof(c)
    def posof(s,c):
        if not isinstance(c,Ptr) or c.obj!=s.d.obj: raise Unsupported('cursor outside of the message')
        return z3.simplify(Lin.of(c.off).bv())
    def get(s,t,f): return tobv(s.E.load(t,I32,s.at(f)),32)
    def frame(s,t,but=()):
        """what the function has no business with is unchanged"""
        c=[s.get(t,f)==x for f,x in (('has_check_digit',s.chk),('expected_check_digit',s.exp)) if f not in but]+[T64(s.E.load(t,I64,s.at('data_len')))==s.L]
        if 'sec' not in but: c+=[tobv(s.E.load(t,I32,s.at('sec').plus(4*i)),32)==s.sec[i] for i in range(5)]
        if 'cur' not in but: c.append(s.cur(t)==s.pos)
        s.ctx.prove(t,z3.And(*c),'nothing else changes')
    def past_blanks(s,t,a,b,what='stops at the next character that is not blank'):
        """b is the first position from a on that is not blank, or the end"""
        s.ctx.prove(t,z3.And(z3.ULE(a,b),z3.ULE(b,s.L),z3.Implies(z3.And(z3.ULE(a,K),z3.ULT(K,b)),blank(s.B(K))),z3.Or(b==s.L,z3.Not(blank(s.B(b))))),what)
def perr(E,st,a,ins): return Thrown(wr_err('error_parse'),info='parse')
def throwf(k): return lambda E,st,a,ins:Thrown(wr_err(k))
CX=r'^wreport::buffers::CrexInput::'
R_perr=[(CX+r'parse_error\(',perr)]
def s_strncmp(E,st,a,ins):
    """strncmp with a literal: reads up to the first difference"""
    n=norm(a[2]); x,y=a[0],a[1]; lit=conc_cstr(E,st,y)
    if lit is None: x,y=y,x; lit=conc_cstr(E,st,y)
    if lit is None or not isc(n) or n>len(lit) or st.mem[x.obj].mode!='bytes': raise Unsupported('strncmp')
    o=st.mem[x.obj]; p=Lin.of(x.off).bv(); eq=[]
    for i in range(n):
        E.prove(st,z3.Implies(z3.And(*eq) if eq else z3.BoolVal(True),z3.ULT(p+i,T64(o.size))),E.cname()+'memory-safety: strncmp inside '+o.name,'memory'); eq.append(z3.Select(o.arr,z3.simplify(p+i))==lit[i])
    r=E.fresh('strncmp',32); st.assume((r==0)==z3.And(*eq)); return r
R_cmp=[(r'^strncmp$',s_strncmp)]
# ------------------------------------------------------------------ callee contracts
NEXT=z3.Function('next',B64,B64)      # the first position from there on that is not blank, or the end
def move(E,st,p):
    I=E.ctx.con.I; p=z3.simplify(p); n=NEXT(p); st.assume(z3.And(z3.ULE(p,n),z3.ULE(n,I.L),z3.Or(n==I.L,z3.Not(blank(I.B(n)))))); E.store(st,PTR,I.ptr(n),I.at('cur')); return n
def c_skip(E,st,a,ins):
    I=E.ctx.con.I; p=I.cur(st); E.prove(st,z3.ULE(p,I.L),E.cname()+'memory-safety: the cursor is inside the message','memory'); push(st,'skip',p); move(E,st,p); return 0
def c_skipn(E,st,a,ins):
    I=E.ctx.con.I; p=I.cur(st); n=z3.ZeroExt(32,tobv(a[1],32)); E.prove(st,z3.ULE(n,I.L-p),E.cname()+'memory-safety: characters skipped are inside the message','memory'); st.assume(z3.ULE(n,I.L-p)); h=getattr(E.ctx.con,'on_skip',None)
    if h: h(E,st,p,n)
    move(E,st,z3.simplify(p+n)); return 0
def c_avail(E,st,a,ins):
    I=E.ctx.con.I; p=I.cur(st); ok=z3.simplify(z3.ULE(z3.ZeroExt(32,tobv(a[1],32)),I.L-p)); t=st.fork(); st.assume(ok); t.assume(z3.Not(ok)); return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='eof'))])
def c_eof(E,st,a,ins):
    I=E.ctx.con.I; p=I.cur(st); ok=z3.simplify(z3.ULT(p,I.L)); t=st.fork(); st.assume(ok); t.assume(z3.Not(ok)); return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='eof'))])
def c_iseof(E,st,a,ins):
    I=E.ctx.con.I; return z3.simplify(z3.UGE(I.cur(st),I.L))
R_skip=(CX+r'skip_spaces\(',c_skip); R_skipn=(CX+r'skip_data_and_spaces\(',c_skipn); R_avail=(CX+r'check_available_data\(',c_avail); R_eof=[(CX+r'check_eof\(',c_eof),(CX+r'eof\(',c_iseof)]
def moves(I,w,back):
    """possible measures of a loop over the text: the cursor, another pointer in it, or how far back one has gone"""
    out=[I.cur(w.st)]
    for k in w.keys:
        p=w.raw(k); q=I.posof(p) if isinstance(p,Ptr) and p.obj==I.d.obj else None; out.append(q)
        if back: out.append(None if q is None else z3.simplify(I.L-q))
    return out
class In(Contract):
    search='crex'; opts={'strides':(1,),'auto_unroll':True}
    def __init__(s,m,run,uses=()): s.m=m; s.uses=list(uses)+R_perr; s.name='CrexInput::'+m; s.fn=CX+m+r'\('; s.r=run
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('L',s.I.L)]
    def variant(s,E,w):
        """each iteration moves forward in the text, or back towards the start of the value"""
        return moves(s.I,w,s.m=='parse_value')
    def cands(s,E,entry,keys,fn,h):
        I=s.I; out=[]; c0=I.cur(entry.st)
        out.append(('cursor inside',lambda w:z3.And(z3.ULE(I.cur(w.st),I.L),z3.ULE(c0,I.cur(w.st)))))
        out.append(('blanks skipped',lambda w:z3.Implies(z3.And(z3.ULE(c0,K),z3.ULT(K,I.cur(w.st))),blank(I.B(K)))))
        for k in keys:
            def ptr(w,k=k): return w.raw(k) if isinstance(w.raw(k),Ptr) and w.raw(k).obj==I.d.obj else None
            p0=ptr(entry)
            if p0 is not None:
                a=I.posof(p0)
                out.append(('%s inside'%(k,),lambda w,k=k,a=a,f=ptr:z3.And(z3.ULE(a,I.posof(f(w))),z3.ULE(I.posof(f(w)),I.L))))
                out.append(('%s blanks skipped'%(k,),lambda w,k=k,a=a,f=ptr:z3.Implies(z3.And(z3.ULE(a,K),z3.ULT(K,I.posof(f(w)))),blank(I.B(K)))))
                out.append(('%s going back'%(k,),lambda w,k=k,a=a,f=ptr:z3.And(z3.ULE(I.posof(f(w)),a),z3.Implies(z3.And(z3.ULE(I.posof(f(w)),K),z3.ULT(K,a)),blank(I.B(K))))))
                for k2 in keys:
                    f2=lambda w,k2=k2: w.raw(k2) if isinstance(w.raw(k2),Ptr) and w.raw(k2).obj==I.d.obj else None
                    if k2!=k and f2(entry) is not None: out.append(('%s not before %s'%(k,k2),lambda w,f=ptr,f2=f2:z3.ULE(I.posof(f2(w)),I.posof(f(w)))))
                if getattr(s,'start',None) is not None: out.append(('%s not before the start'%(k,),lambda w,f=ptr:z3.ULE(s.start(w.st),I.posof(f(w)))))
        if getattr(s,'word',None):
            b=s.word
            for o in [b.obj]:
                out.append(('characters copied',lambda w:z3.Implies(z3.And(z3.ULT(K,I.cur(w.st)-I.pos)),z3.And(z3.Select(w.st.mem[b.obj].arr,K)==I.B(I.pos+K),z3.Not(blank(I.B(I.pos+K)))))))
                out.append(('as many as fit',lambda w:z3.ULE(I.cur(w.st)-I.pos,s.len-1)))
            for k in keys:
                if not isinstance(entry.raw(k),Ptr) and k[0] in ('phi','cell'): out.append(('%s characters read'%(k,),lambda w,k=k:w.term(k)==I.cur(w.st)-I.pos))
        return out
    def run(s,ctx,case):
        s.ctx=ctx; s.case=case; s.I=CI(ctx); s.r(s,ctx,s.I)
    def cases(s): return [(a,b) for a in (0,1) for b in (0,1)] if s.m=='parse_value' else [None]
    def group(s): return 1
    def replay(s,case,vals): return None
def must_ret(s,ctx,o,bad,what):
    """-> True on an ordinary return; errors are parse errors, exactly when bad"""
    if o.kind=='throw': ctx.prove(o.st,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_parse')),bad),'refused only '+what); return False
    ctx.prove(o.st,z3.Not(bad),'refused '+what); return True
def r_ctor(s,ctx,I):
    E=ctx.E; st=ctx.st; sp=E.alloc(st,'in',32); E.store(st,PTR,I.d,sp); E.store(st,I64,I.L,sp.plus(8)); fn=E.alloc(st,'fname',8); o=ctx.bv('off',64)
    p=E.alloc(st,'result',off(E,'CrexInput'),lazy=True)
    def post(x):
        t=x.st
        if not ctx.prove(t,x.kind=='ret','does not throw'): return
        I.p=p; ctx.prove(t,z3.And(z3.BoolVal(isptr(E.load(t,PTR,I.at('data')),I.d)),T64(E.load(t,I64,I.at('data_len')))==I.L,I.cur(t)==0,I.get(t,'has_check_digit')==0,T64(E.load(t,I64,I.at('offset')))==o),'starts at the beginning of the text, without check digits'); ctx.prove(t,isptr(E.load(t,PTR,I.at('fname')),fn),'knows the name of the file')
    ctx.call([p,sp,fn,o],post)
def tb1(x): return x if isinstance(x,z3.BoolRef) else z3.BoolVal(x) if isinstance(x,bool) else (z3.BoolVal(bool(x)) if isc(x) else x!=0)
def r_eof(s,ctx,I):
    def post(o):
        if ctx.prove(o.st,o.kind=='ret','does not throw'): ctx.prove(o.st,tb1(o.val)==(I.pos==I.L),'true exactly at the end'); I.frame(o.st)
    ctx.call([I.p],post)
def r_remaining(s,ctx,I):
    def post(o):
        if ctx.prove(o.st,o.kind=='ret','does not throw'): ctx.prove(o.st,tobv(o.val,32)==z3.Extract(31,0,I.L-I.pos),'the number of characters left'); I.frame(o.st)
    ctx.call([I.p],post)
def r_check_eof(s,ctx,I):
    e=ctx.E.alloc(ctx.st,'expected',8)
    def post(o):
        must_ret(s,ctx,o,I.pos==I.L,'at the end of the message'); I.frame(o.st)
    ctx.call([I.p,e],post)
def r_check_avail(s,ctx,I):
    e=ctx.E.alloc(ctx.st,'expected',8); n=ctx.bv('n',32)
    def post(o):
        must_ret(s,ctx,o,z3.UGT(z3.ZeroExt(32,n),I.L-I.pos),'when there are not that many characters left'); I.frame(o.st)
    ctx.call([I.p,n,e],post)
def r_skip_spaces(s,ctx,I):
    def post(o):
        if ctx.prove(o.st,o.kind=='ret','does not throw'): I.past_blanks(o.st,I.pos,I.cur(o.st)); I.frame(o.st,('cur',))
    ctx.call([I.p],post)
def r_skip_data(s,ctx,I):
    n=ctx.bv('n',32); N=z3.ZeroExt(32,n); ctx.assume(z3.ULE(I.pos+N,I.L))
    def post(o):
        if ctx.prove(o.st,o.kind=='ret','does not throw'): I.past_blanks(o.st,I.pos+N,I.cur(o.st)); I.frame(o.st,('cur',))
    ctx.call([I.p,n],post)
def r_mark(s,ctx,I):
    n=ctx.bv('n',32); ctx.assume(z3.ULT(n,5))
    def post(o):
        t=o.st
        if not must_ret(s,ctx,o,I.pos==I.L,'at the end of the message'): return
        I.frame(t,('sec',)); ctx.prove(t,z3.And(*[tobv(ctx.E.load(t,I32,I.at('sec').plus(4*i)),32)==z3.If(n==i,z3.Extract(31,0,I.pos),I.sec[i]) for i in range(5)]),'the section starts here')
    ctx.call([I.p,n],post)
def r_read_word(s,ctx,I):
    s.len=ctx.bv('len',64); ctx.assume(z3.And(z3.UGE(s.len,1),z3.ULT(s.len,1<<31))); b=s.word=ctx.bytesobj('word',z3.Array('OLD',B64,z3.BitVecSort(8)),s.len)
    def post(o):
        t=o.st
        if not ctx.prove(t,o.kind=='ret','does not throw'): return
        a=t.mem[b.obj].arr; sk=gl(t,'skip')
        if not ctx.prove(t,len(sk)==1,'blanks after the word are skipped'): return
        n=z3.simplify(sk[0]-I.pos)
        ctx.prove(t,z3.Implies(z3.ULT(K,n),z3.And(z3.Select(a,K)==I.B(I.pos+K),z3.Not(blank(I.B(I.pos+K))))),'gets the characters up to the next blank'); ctx.prove(t,z3.Or(n==s.len-1,sk[0]==I.L,blank(I.B(sk[0]))),'gets the whole word, or as much as fits'); ctx.prove(t,z3.And(z3.ULT(n,s.len),z3.Select(a,n)==0),'is terminated after it'); ctx.prove(t,I.cur(t)==NEXT(sk[0]),'moves to the next word'); I.frame(t,('cur',))
    ctx.call([I.p,b,s.len],post)
def r_parse(s,ctx,I):
    E=ctx.E; st=ctx.st; n=ctx.bv('len',32); sg=ctx.bv('signed',32); N=z3.ZeroExt(32,n); ctx.assume(z3.ULT(N,1<<20)); ctx.assume(z3.ULE(I.exp,9)); ds=E.alloc(st,'d_start',8,lazy=True); de=E.alloc(st,'d_end',8,lazy=True)
    ctx.assume(z3.And((I.chk!=0)==bool(s.case[0]),(sg!=0)==bool(s.case[1]))); has=z3.BoolVal(bool(s.case[0])); start=z3.simplify(I.pos+s.case[0]); s.start=lambda t:start; mis=z3.And(has,z3.ZeroExt(24,I.B(I.pos))!=I.exp+48); stop=z3.simplify(start+N+(z3.If(I.B(start)==45,v64(1),v64(0)) if s.case[1] else v64(0)))
    def post(o):
        t=o.st
        if not must_ret(s,ctx,o,z3.Or(z3.UGT(I.pos+N+2,I.L),mis),'when the value or its check digit are not there'): return
        a,e=I.posof(E.load(t,PTR,ds)),I.posof(E.load(t,PTR,de))
        ctx.prove(t,a==start,'the value starts after the check digit'); ctx.prove(t,z3.And(z3.ULE(a,e),z3.ULE(e,stop),z3.Implies(z3.And(z3.ULE(e,K),z3.ULT(K,stop)),blank(I.B(K))),z3.Or(e==a,z3.Not(blank(I.B(e-1))))),'the value is as long as declared, with its sign, without trailing blanks')
        ctx.prove(t,I.cur(t)==NEXT(stop),'moves to the next value'); I.frame(t,('cur','expected_check_digit')); ctx.prove(t,I.get(t,'expected_check_digit')==z3.If(has,z3.If(I.exp==9,z3.BitVecVal(0,32),I.exp+1),I.exp),'check digits count up to 9 and start again')
    ctx.call([I.p,n,sg,ds,de],post)
CI_FUN=[In('CrexInput',r_ctor),In('eof',r_eof),In('remaining',r_remaining),In('check_eof',r_check_eof),In('check_available_data',r_check_avail),In('skip_spaces',r_skip_spaces),In('skip_data_and_spaces',r_skip_data),In('mark_section_start',r_mark),In('read_word',r_read_word,[R_skip]+R_eof),In('parse_value',r_parse,[R_skip,R_avail])]
CONTRACTS=CI_FUN
# ------------------------------------------------------------------ descriptors
class Parse(Contract):
    """a descriptor is a letter (or digit) for F and five digits"""
    name='varcode_parse'; fn=r'^wreport::varcode_parse\(char const\*\)'; search='varcode'
    def cases(s): return ['null','short','long']
    def cut(s,dem,h): return False
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st
        if case=='null': ctx.call([NULL],lambda o:ctx.prove(o.st,o.kind=='throw' and o.exc.typ==wr_err('error_consistency'),'there is no code in no text')); return
        n=ctx.bv('length',64); ctx.assume(z3.ULT(n,6) if case=='short' else z3.And(z3.UGE(n,6),z3.ULT(n,1<<31))); D=ctx.arr('D',16); p=ctx.bytesobj('text',D,z3.simplify(n+1),ro=True); c=[z3.Select(D,v64(i)) for i in range(6)]; ctx.assume(z3.Select(D,n)==0)
        for i in range(6): ctx.assume(z3.Implies(z3.ULT(v64(i),n),c[i]!=0))
        ok=z3.And(*[isdig(x) for x in c[1:]])
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.typ==wr_err('error_consistency'),'errors are consistency errors'); ctx.prove(t,z3.Or(z3.ULT(n,6),z3.Not(ok)),'refused only when it is not followed by five digits'); return
            ctx.prove(t,z3.And(z3.UGE(n,6),ok),'refused when it is not followed by five digits'); X,Y=num(c[1:3]),num(c[3:6]); r=tobv(o.val,16)
            for f,ls in enumerate(('B0','R1','C2','D3')): ctx.prove(t,z3.Implies(z3.And(z3.Or(*[c[0]==ord(l) for l in ls]),z3.ULE(X,63),z3.ULE(Y,255)),z3.ZeroExt(16,r)==(f<<14)+(X<<8)+Y),'is the descriptor written')
        ctx.call([p],post)
def fmt(E,st,f,args):
    """the characters a printf format produces: %c and zero padded numbers that fit their width"""
    out=[]; i=0; args=list(args)
    while i<len(f):
        m=re.match(r'%(?:(c)|0(\d)(hh)?([du]))',f[i:])
        if not m:
            if f[i]=='%': raise Unsupported('format '+f)
            out.append(z3.BitVecVal(ord(f[i]),8)); i+=1; continue
        i+=m.end(); x=tobv(args.pop(0),32)
        if m.group(1): out.append(z3.Extract(7,0,x)); continue
        if m.group(3): x=z3.Extract(7,0,x); x=z3.ZeroExt(24,x) if m.group(4)=='u' else z3.SignExt(24,x)
        n=int(m.group(2))
        if not E.prove(st,z3.And(z3.ULT(x,10**n)),E.cname()+'the number fits in its %d digits'%n): raise PathEnd('too wide')
        out+=[z3.simplify(z3.Extract(7,0,z3.URem(z3.UDiv(x,10**k),z3.BitVecVal(10,32)))+48) for k in range(n-1,-1,-1)]
    if args: raise Unsupported('format arguments')
    return out
def c_snprintf(E,st,a,ins):
    cs=fmt(E,st,conc_cstr(E,st,a[2]).decode(),a[3:]); n=norm(a[1])
    if not isc(n): raise Unsupported('snprintf size')
    span_check(E,st,a[0],n,'snprintf buffer')
    for i,c in enumerate((cs[:n-1] if n else [])+([0] if n else [])): E.store(st,I8,c,a[0].plus(i))
    return len(cs)
class Format(Contract):
    """and it is written the same way"""
    name='varcode_format'; fn=r'^wreport::varcode_format'; search='varcode'; uses=[(r'^snprintf$',c_snprintf)]
    def run(s,ctx,case):
        E=ctx.E; code=ctx.bv('code',16); sr=E.alloc(ctx.st,'result',32)
        def post(o):
            t=o.st
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            d,n=str_get(E,t,sr); a=t.mem[d.obj].arr; c=[z3.Select(a,v64(i)) for i in range(6)]; F=z3.LShR(code,14); X=z3.LShR(code,8)&63; Y=code&255
            ctx.prove(t,T64(n)==6,'is six characters long'); ctx.prove(t,z3.And(*[z3.Implies(F==i,c[0]==ord('BRCD'[i])) for i in range(4)]),'starts with the letter of F'); ctx.prove(t,z3.And(*[isdig(x) for x in c[1:]]),'followed by five digits'); ctx.prove(t,z3.And(num(c[1:3],16)==X,num(c[3:6],16)==Y),'which are X and Y')
        ctx.call([sr,code],post)
# ------------------------------------------------------------------ header
CODE=z3.Function('code_at',B64,B16); P=z3.Function('descriptor_pos',B64,B64)
def isdesc(c): return z3.Or(*[c==ord(x) for x in 'BRCD'])
def c_mark(E,st,a,ins):
    I=E.ctx.con.I; p=I.cur(st); n=norm(a[1]); ok=z3.simplify(z3.ULT(p,I.L)); t=st.fork(); st.assume(ok); t.assume(z3.Not(ok))
    if not isc(n) or n>4: raise Unsupported('section number')
    E.store(st,I32,z3.simplify(z3.Extract(31,0,p)),I.at('sec').plus(4*n)); return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='eof'))])
def c_word(E,st,a,ins):
    """read_word(buf,len): the characters up to the next blank, at most len-1"""
    c=E.ctx.con; I=c.I; p=I.cur(st); n=norm(a[2])
    if not isc(n) or n>64 or n<1: raise Unsupported('word size')
    span_check(E,st,a[1],n,'word'); ok=[]; g=z3.BoolVal(True); L=v64(0); o=bytes_of(E,st,a[1]); b=Lin.of(a[1].off).bv(); arr=o.arr
    for i in range(n-1): g=z3.simplify(z3.And(g,z3.ULT(p+i,I.L),z3.Not(blank(I.B(p+i))))); ok.append(g)
    h=getattr(c,'on_word',None); w=h(len(gl(st,'words'))) if h else None
    if w is None: w=E.fresh('word_length',64); st.assume(z3.ULE(w,n-1))
    for i in range(n-1): st.assume(z3.ULT(v64(i),w)==ok[i]); arr=z3.Store(arr,z3.simplify(b+i),z3.If(ok[i],I.B(p+i),z3.If(w==i,z3.BitVecVal(0,8),z3.Select(o.arr,b+i))))
    arr=z3.Store(arr,z3.simplify(b+n-1),z3.If(w==n-1,z3.BitVecVal(0,8),z3.Select(o.arr,b+n-1))); st.wobj(a[1].obj).arr=arr; push(st,'words',(a[1].obj,p,w,n)); st.assume(z3.ULE(p+w,I.L))
    if h: c.after_word(st)
    if not E.feasible(st): raise PathEnd('infeasible')
    move(E,st,z3.simplify(p+w)); return 0
def bytes_of(E,st,p):
    o=st.mem[p.obj]
    if o.mode!='bytes': E.tobytes(st,st.wobj(p.obj))
    return st.mem[p.obj]
def word_of(st,p):
    for w in gl(st,'words'):
        if isinstance(p,Ptr) and w[0]==p.obj: return w
    raise Unsupported('text from elsewhere')
def c_strlen(E,st,a,ins):
    """strlen of a word: characters before the first NUL"""
    o,p,w,n=word_of(st,a[0]); I=E.ctx.con.I; k=norm(a[0].off)
    if not isc(k): raise Unsupported('strlen')
    r=z3.simplify(w-k)
    for i in range(n-2,k-1,-1): r=z3.If(z3.And(z3.ULT(v64(i),w),I.B(p+i)==0),v64(i-k),r)
    return z3.simplify(r)
def c_strtoul(E,st,a,ins):
    o,p,w,n=word_of(st,a[0]); I=E.ctx.con.I; k=norm(a[0].off); r=E.fresh('number',64)
    if not isc(k) or norm(a[2])!=10 or a[1].obj!=0: raise Unsupported('strtoul')
    for m in range(1,10):
        if k+m>=n: break
        ds=[I.B(p+k+i) for i in range(m)]; st.assume(z3.Implies(z3.And(w==k+m,*[isdig(x) for x in ds]),r==num(ds,64)))
    return r
def c_sscanf(E,st,a,ins):
    o,p,w,n=word_of(st,a[0]); I=E.ctx.con.I; f=conc_cstr(E,st,a[1]).decode(); i=0; k=0; conds=[]; vals=[]
    if norm(a[0].off)!=0: raise Unsupported('sscanf')
    while i<len(f):
        m=re.match(r'%0?(\d+)(hh|h)?[ud]',f[i:])
        if m:
            wd=int(m.group(1)); ds=[I.B(p+k+j) for j in range(wd)]; conds+=[isdig(x) for x in ds]; vals.append((num(ds),{'hh':8,'h':16,None:32}[m.group(2)])); k+=wd; i+=m.end()
        elif f[i]=='%' or f[i].isspace(): raise Unsupported('sscanf format '+f)
        else: conds.append(I.B(p+k)==ord(f[i])); k+=1; i+=1
    ok=z3.And(z3.UGE(w,k),*conds); t=st.fork(); st.assume(ok); t.assume(z3.Not(ok)); out=[]
    for q,(v,b) in zip(a[2:],vals): E.store(st,("i",b),z3.simplify(z3.Extract(b-1,0,v)),q); E.store(t,("i",b),E.fresh('scanned',b),q)
    r=E.fresh('scanned',32); t.assume(z3.And(r>=-1,r<=len(vals))); return Multi([(st,len(vals)),(t,r)])
def c_varcode(E,st,a,ins):
    I=E.ctx.con.I; p=I.posof(a[0]); E.prove(st,z3.ULE(p,I.L),E.cname()+'memory-safety: descriptors are inside the message','memory'); t=st.fork(); v=CODE(p); st.assume(z3.ULE(p+6,I.L)); return Multi([(st,v),(t,Thrown(wr_err('error_consistency'),info='code'))])
def c_push(E,st,a,ins):
    """the next descriptor of the message is added"""
    c=E.ctx.con; I=c.I
    if a[0].obj!=c.out.obj or norm(a[0].off)!=off(E,'CrexBulletin','datadesc'): raise Unsupported('push_back on another vector')
    v=tobv(E.load(st,I16,a[1]),16); n,k=T64(st.g['#pushed']),T64(st.g['#passed']); p=I.cur(st)
    if E.must(st,n==k):
        if not E.prove(st,isdesc(I.B(p)),E.cname()+'only descriptors are added to the list'): return 0
        st.assume(P(k)==p)
    E.prove(st,z3.And(z3.ULE(n,k),v==CODE(P(n))),E.cname()+'the descriptors of the message are added, in order'); st.g['#pushed']=z3.simplify(n+1); return c.out
def c_tables(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); push(st,'tables',1); c.at_tables(st); return Multi([(st,0),(t,Thrown(wr_err('error_notfound'),info='tables'))])
def c_throwf(E,st,a,ins): return Thrown(wr_err(re.search(r'(error_\w+)::',DEM[E._cur[2]]).group(1)),info='own')
R_hdr=R_cmp+R_perr+R_eof+[R_skip,R_skipn,R_avail,(CX+r'mark_section_start\(',c_mark),(CX+r'read_word\(',c_word),(r'^strlen$',c_strlen),(r'^strtoul$|^__isoc\d+_strtoul$',c_strtoul),(r'^sscanf$|^__isoc\d+_sscanf$',c_sscanf),(r'^wreport::varcode_parse\(',c_varcode),(r'^std::vector<unsigned short, .*>::(push_back|emplace_back)(<.*>)?\(|^unsigned short& std::vector<unsigned short, .*>::emplace_back',c_push),(r'^wreport::CrexBulletin::load_tables\(',c_tables),(r'^wreport::error_consistency::throwf\(',c_throwf)]
F8='master_table_number edition_number master_table_version_number master_table_version_number_bufr data_category data_subcategory data_subcategory_local'.split()
class Bul(Contract):
    search='crex'; opts={'strides':(1,)}
    def bulletin(s,ctx):
        E=ctx.E; st=ctx.st; s.ctx=ctx; s.out=E.alloc(st,'CrexBulletin',off(E,'CrexBulletin'),lazy=True); s.f0={f:ctx.bv('b_'+f,8) for f in F8+['has_check_digit']}
        E.store(st,PTR,E.glob(st,'_ZTVN7wreport12CrexBulletinE').plus(16),s.out)
        for f,x in s.f0.items(): E.store(st,I8,x,s.at(f))
        dd=E.alloc(st,'datadesc',1<<20,'bytes'); dl=ctx.bv('ndesc',64); ctx.assume(z3.ULE(dl,1<<18)); E.store(st,PTR,dd,s.at('datadesc'))
        for i in (8,16): E.store(st,PTR,Ptr(dd.obj,Lin.of(dl).mul(2)),s.at('datadesc').plus(i))
    def at(s,f): return s.out.plus(off(s.ctx.E,'CrexBulletin',f))
    def get(s,t,f): return tobv(s.ctx.E.load(t,I8,s.at(f)),8)
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('L',s.I.L)]
    def variant(s,E,w): return moves(s.I,w,False)
class Header(Bul):
    weight=5; name='decode_header'; fn=r'^wreport::bulletin::\(anonymous namespace\)::decode_header\('; uses=R_hdr
    def on_skip(s,E,st,p,n):
        """the cursor moves over whole items"""
        I=s.I; b=I.B(p); ph=len(gl(st,'words'))
        if ph<2:
            E.prove(st,z3.And(p==0,n==6),E.cname()+'moves over the indicator'); return
        d=isdesc(b)
        for kind,c,m in (('a descriptor',d,6),('the check digit indicator',b==ord('E'),1),('the end of the list',z3.And(b==ord('+'),I.B(p+1)==ord('+')),2)):
            if E.must(st,c):
                E.prove(st,n==m,E.cname()+'moves over exactly '+kind)
                if m==6: st.assume(P(T64(st.g['#passed']))==p); st.g['#passed']=z3.simplify(T64(st.g['#passed'])+1)
                if m==1: st.g['#E']=v64(1)
                if m==2: st.g[('end',)]=1
                return
        E.prove(st,False,E.cname()+'moves over descriptors, check digit indicators and the end of the list only')
    def at_tables(s,t): s.check(t)
    def cases(s): return [(d,m) for d in (0,1) for m in (3,6,'other')]
    def group(s): return 1
    def on_word(s,i): return v64(s.case[1]+1) if i==1 and s.case[1]!='other' else None
    def after_word(s,st):
        ws=gl(st,'words'); I=s.I; p,w=ws[-1][1],ws[-1][2]
        if len(ws)==1: dg=z3.And(z3.UGE(w,7),*[isdig(I.B(p+i)) for i in range(1,7)]); st.assume(dg if s.case[0] else z3.Not(dg))
        elif len(ws)==2 and s.case[1]=='other': st.assume(z3.And(w!=4,w!=7))
    def cands(s,E,entry,keys,fn,h):
        I=s.I; g=lambda w,k:T64(w.st.g[k]); out=[('cursor inside',lambda w:z3.ULE(I.cur(w.st),I.L)),('descriptors passed are in the list',lambda w:g(w,'#pushed')==g(w,'#passed')),('flag',lambda w:z3.And(g(w,'#E')==z3.ZeroExt(56,s.get(w.st,'has_check_digit')),g(w,'#E')==z3.ZeroExt(32,I.get(w.st,'has_check_digit')),z3.ULE(g(w,'#E'),1),z3.Implies(g(w,'#E')==1,I.get(w.st,'expected_check_digit')==1)))]
        return out
    def run(s,ctx,case):
        E=ctx.E; s.case=case; s.bulletin(ctx); I=s.I=CI(ctx,v64(0)); st=ctx.st; ctx.assume(I.chk==0)
        for k in ('#pushed','#passed','#E'): st.g[k]=v64(0)
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.typ in [wr_err(x) for x in ('error_parse','error_consistency')] or o.exc.info=='tables','errors are parse or consistency errors'); return
            ctx.prove(t,len(gl(t,'tables'))==1,'the tables for the message are loaded')
            ctx.prove(t,bool(t.g.get(('end',))),'the list of descriptors ends with ++')
        ctx.call([I.p,s.out],post)
    def check(s,t):
        """when the tables are loaded the header says what the message says"""
        ctx=s.ctx; I=s.I; ws=gl(t,'words')
        ctx.prove(t,z3.And(*[I.B(i)==ord(c) for i,c in enumerate('CREX++')]),'the message starts with CREX++')
        if not ctx.prove(t,len(ws)==2,'there are an edition and a category'): return
        p,w=ws[0][1],ws[0][2]; d=[I.B(p+i) for i in range(8)]
        ctx.prove(t,z3.And(p==NEXT(v64(6)),d[0]==ord('T')),'the edition comes first'); dg=z3.And(z3.UGE(w,7),*[isdig(x) for x in d[1:7]])
        for i,f in enumerate(('master_table_number','edition_number','master_table_version_number')): ctx.prove(t,z3.Implies(dg,z3.ZeroExt(24,s.get(t,f))==num(d[1+2*i:3+2*i])),f+' is the one of the message')
        p2,w2=ws[1][1],ws[1][2]; a=[I.B(p2+i) for i in range(8)]; ctx.prove(t,z3.And(p2==NEXT(p+w),a[0]==ord('A')),'the category comes next')
        for m in (3,6):
            c=z3.And(w2==m+1,*[isdig(x) for x in a[1:m+1]]); cat3=num(a[1:4]); sub=num(a[4:7])
            ctx.prove(t,z3.Implies(c,z3.And(s.get(t,'data_category')==z3.Extract(7,0,cat3),s.get(t,'data_subcategory')==(z3.Extract(7,0,sub) if m==6 else z3.BitVecVal(255,8)),s.get(t,'data_subcategory_local')==(255 if m==6 else 0))),'category and subcategory are those of the message')
        ctx.prove(t,z3.Implies(z3.And(*[x!=0 for x in a[1:]]),z3.Or(w2==4,w2==7)),'categories have 3 or 6 digits')
        g=lambda k:T64(t.g[k]); ctx.prove(t,g('#pushed')==g('#passed'),'all the descriptors are in the list'); ctx.prove(t,z3.And(z3.ZeroExt(56,s.get(t,'has_check_digit'))==g('#E'),z3.ZeroExt(32,I.get(t,'has_check_digit'))==g('#E'),z3.Implies(g('#E')==1,I.get(t,'expected_check_digit')==1)),'check digits are used exactly when the message says so')
        ctx.prove(t,s.get(t,'master_table_version_number_bufr')==0,'there is no BUFR table version'); ctx.prove(t,tobv(ctx.E.load(t,I32,I.at('sec').plus(4)),32)==z3.Extract(31,0,NEXT(v64(6))),'section 1 starts after the indicator')
# ------------------------------------------------------------------ values
VAL=z3.Function('number_written',B64,B64,B64); CNT=z3.Function('digits',B64,B64,B64)   # what strtol makes of the characters from .. to ..
def c_parse(E,st,a,ins):
    """parse_value(len,signed,start,end): see its contract"""
    c=E.ctx.con; I=c.I; t=st.fork(); n=z3.ZeroExt(32,tobv(a[1],32)); push(st,'value',(n,a[2])); s,e,q=c.vstart,c.vend,c.vnext
    st.assume(z3.And(z3.ULE(I.pos,s),z3.ULE(s,e),z3.ULE(e,q),z3.ULT(q,I.L))); E.store(st,PTR,I.ptr(s),a[3]); E.store(st,PTR,I.ptr(e),a[4]); E.store(st,PTR,I.ptr(q),I.at('cur'))
    return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='value'))])
def c_strtol(E,st,a,ins):
    """the number in the text of the value; of another text, something else"""
    c=E.ctx.con; I=c.I; p=a[0]; o=st.mem[p.obj]; n=z3.simplify(c.vend-c.vstart); k=E.fresh('digits',64); v=E.fresh('number',64)
    if norm(a[2])!=10: raise Unsupported('strtol base')
    if o.mode=='bytes':
        b=Lin.of(p.off).bv(); span_check(E,st,p,z3.simplify(n+1),'strtol text')
        if E.must(st,z3.And(z3.Implies(z3.ULT(K,n),z3.Select(o.arr,b+K)==I.B(c.vstart+K)),z3.Select(o.arr,b+n)==0)): k=CNT(c.vstart,c.vend); v=VAL(c.vstart,c.vend); st.assume(z3.ULE(k,n))
    if a[1].obj: E.store(st,PTR,Ptr(p.obj,Lin.of(p.off).add(Lin.of(k))),a[1])
    return v
def c_seti(E,st,a,ins):
    t=st.fork(); ev(st,'seti',a[0],tobv(a[1],32)); vput(E,st,a[0],None,True,v64(1)); return Multi([(st,0),(t,Thrown(wr_err('error_domain'),info='callee'))])
def c_setc(E,st,a,ins):
    c=E.ctx.con; I=c.I; t=st.fork(); p=a[1]; n=z3.simplify(c.vend-c.vstart); o=st.mem[p.obj]; b=Lin.of(p.off).bv(); z=E.freshbool('text')
    if o.mode!='bytes': raise Unsupported('setc of other text')
    if '(char const*)' not in DEM[E._cur[2]]: d,m=str_get(E,st,p); o=st.mem[d.obj]; b=v64(0)
    ok=E.must(st,z3.And(z3.Implies(z3.ULT(K,n),z3.Select(o.arr,b+K)==I.B(c.vstart+K)),z3.Select(o.arr,b+n)==0)); ev(st,'setc',a[0],ok); vput(E,st,a[0],None,True,v64(2)); return Multi([(st,0),(t,Thrown(wr_err('error_domain'),info='callee'))])
def c_store(E,st,a,ins):
    ev(st,'store',a[0],vget(E,st,a[1])); return 0
def c_subset(E,st,a,ins):
    c=E.ctx.con; push(st,'subset',z3.ZeroExt(32,tobv(a[1],32))); return c.subset
def c_ctor(E,st,a,ins): push(st,'interp',(a[1],a[2])); return 0
R_val=[(CX+r'parse_value\(',c_parse),(r'^strtol$|^__isoc\d+_strtol$|^strtoll$|^__isoc\d+_strtoll$',c_strtol),(VV+r'seti\(int\)',c_seti),(VV+r'setc\(',c_setc)]+R_var+[(r'^wreport::Subset::store_variable\(wreport::Var( const)?&&?\)',c_store)]+R_perr
R_new=[(r'^wreport::Bulletin::obtain_subset\(unsigned int\)',c_subset),(r'^wreport::bulletin::Interpreter::Interpreter\(',c_ctor),(r'CrexParser::~CrexParser\(|^wreport::bulletin::Interpreter::~Interpreter\(',nop)]
PX=r'^wreport::bulletin::\(anonymous namespace\)::CrexParser::'
def fn(E,rx):
    r=[n for n in E.mod.funcs if re.search(rx,DEM.get(n,n))]
    if not r: raise Unsupported('no function '+rx)
    return r[0]
class Value(Bul):
    """one element of the template: a value is read, and becomes a variable of the subset"""
    uses=R_val+R_new; opts={'strides':(1,),'indirect':True}
    def __init__(s,m): s.m=m; s.name='CrexParser::'+m; s.fn=PX+m+r'\('
    def cases(s): return [0,1,2]
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.bulletin(ctx); I=s.I=CI(ctx); s.subset=E.alloc(st,'Subset',off(E,'Subset'),lazy=True); s.info,r=mkinfo(ctx,case); s.vstart,s.vend,s.vnext=[ctx.bv(x,64) for x in ('vstart','vend','vnext')]; p=E.alloc(st,'CrexParser',off(E,'Interpreter')+64,lazy=True)
        repl=s.m!='define_variable'; ctx.assume(z3.ULT(r['len'],1<<20)); code=r['code']; four=z3.Or(*[code==(31<<8)+y for y in (0,1,2,11,12)]) if repl else z3.BoolVal(False); vs,ve=s.vstart,s.vend; miss=I.B(vs)==ord('/'); num=z3.And(ve!=vs,CNT(vs,ve)==ve-vs); fits=z3.And(VAL(vs,ve)>=-(1<<31),VAL(vs,ve)<(1<<31))
        def made(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            sb=gl(o.st,'subset'); ctx.prove(o.st,sb[0]==5 if len(sb)==1 else False,'variables go to the subset asked for')
            ctx.st=o.st; ctx.call([p,s.info],post)
        def post(o):
            t=o.st; vs_=gl(t,'value')
            if o.kind=='throw':
                if o.exc.info in ('value','callee'): return
                bad=z3.And(z3.Not(miss),z3.Or(z3.Not(num),z3.Not(fits))) if case!=2 else z3.BoolVal(False)
                if repl: bad=z3.Or(bad,miss,z3.Extract(31,31,VAL(vs,ve))==1) if case!=2 else z3.BoolVal(True)
                ctx.prove(t,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_parse')),bad),'refused only when the value is not a number'); return
            if not ctx.prove(t,len(vs_)==1,'one value is read'): return
            n,sg=vs_[0]; ctx.prove(t,n==z3.If(four,v64(4),z3.ZeroExt(32,r['len'])),'as long as declared'); ctx.prove(t,(tobv(sg,32)!=0)==(case!=2),'numbers may have a sign')
            sto=evs(t,'store')
            if not ctx.prove(t,len(sto)==1 and isptr(sto[0][1],s.subset),'one variable is added to the subset'): return
            x=sto[0][2]; ctx.prove(t,z3.And(z3.BoolVal(isptr(x.info,s.info)),x.att==0,(x.isset==1)==z3.Not(miss)),'it describes the element, and is set unless it is missing')
            e=evs(t,'seti','setc')
            ctx.prove(t,z3.Or(z3.And(miss,z3.BoolVal(not e)),z3.And(z3.Not(miss),z3.BoolVal(len(e)==1))),'missing values are not set')
            if e and case!=2: ctx.prove(t,z3.And(num,fits,e[0][2]==z3.Extract(31,0,VAL(vs,ve))) if e[0][0]=='seti' else False,'its value is the number written')
            if e and case==2: ctx.prove(t,e[0][0]=='setc' and bool(e[0][2]),'its value is the text written')
            if repl and case!=2:
                ctx.prove(t,z3.And(z3.Not(miss),tobv(o.val,32)==z3.Extract(31,0,VAL(vs,ve)),VAL(vs,ve)>=0),'the number of repetitions is the one written')
        E.run(st,fn(E,PX+r'CrexParser\('),[p,s.out,5,I.p],made)
# ------------------------------------------------------------------ data section
def c_run(E,st,a,ins):
    """reads the values of one subset: moves forward"""
    c=E.ctx.con; I=c.I; t=st.fork(); p=I.cur(st); n=E.fresh('after_subset',64); st.assume(z3.And(z3.ULE(p,n),z3.ULE(n,I.L))); E.store(st,PTR,I.ptr(n),I.at('cur')); st.g['#runs']=z3.simplify(T64(st.g['#runs'])+1); E.prove(st,T64(st.g['#runs'])==T64(st.g['#subsets']),E.cname()+'each subset is read once'); return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='value'))])
def c_nsub(E,st,a,ins):
    c=E.ctx.con; i=z3.ZeroExt(32,tobv(a[1],32)); E.prove(st,i==z3.ZeroExt(32,z3.Extract(31,0,T64(st.g['#subsets']))),E.cname()+'subsets are added in order'); st.g['#subsets']=z3.simplify(T64(st.g['#subsets'])+1); return c.subset
class Data(Bul):
    weight=5; name='decode_data'; fn=r'^wreport::bulletin::\(anonymous namespace\)::decode_data\('; uses=[x for x in R_hdr]+[(r'^wreport::bulletin::Interpreter::run\(',c_run),(r'^wreport::Bulletin::obtain_subset\(unsigned int\)',c_nsub)]+R_new[1:]
    def cands(s,E,entry,keys,fn,h):
        I=s.I; g=lambda w,k:T64(w.st.g[k]); c0=I.cur(entry.st); out=[('cursor inside',lambda w:z3.And(z3.ULE(I.cur(w.st),I.L),z3.ULE(c0,I.cur(w.st)))),('one subset for each run',lambda w:g(w,'#subsets')==g(w,'#runs')),('some',lambda w:g(w,'#runs')!=0),('fewer than characters',lambda w:z3.ULE(g(w,'#runs'),I.cur(w.st)))]
        out.append(('no ++ so far',lambda w:z3.Implies(z3.And(z3.ULE(c0,K),z3.ULT(K,I.cur(w.st))),z3.Not(z3.And(I.B(K)==43,I.B(K+1)==43)))))
        for k in keys:
            if k[0] in ('phi','cell') and not isinstance(entry.raw(k),Ptr): out.append(('%s subsets'%(k,),lambda w,k=k:w.term(k)==z3.ZeroExt(32,z3.Extract(31,0,g(w,'#runs')))))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.bulletin(ctx); I=s.I=CI(ctx); st.g['#runs']=v64(0); st.g['#subsets']=v64(0); s.subset=E.alloc(st,'Subset',off(E,'Subset'),lazy=True); S=lambda t,i:z3.ZeroExt(32,tobv(E.load(t,I32,I.at('sec').plus(4*i)),32))
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.typ==wr_err('error_parse'),'errors are parse errors'); return
            g=lambda k:T64(t.g[k]); ctx.prove(t,z3.And(g('#runs')!=0,g('#runs')==g('#subsets')),'there is at least one subset, and each is read')
            c=I.cur(t); s2,s3,s4=[S(t,i) for i in (2,3,4)]; is_=lambda p,x:z3.And(*[I.B(p+i)==ord(y) for i,y in enumerate(x)])
            ctx.prove(t,is_(s4,'7777'),'the message ends with 7777'); ctx.prove(t,s2==I.pos,'section 2 starts where it is')
            sk=gl(t,'skip'); last=sk[-1]; sn=gl(t,'skipn')
            ctx.prove(t,z3.And(is_(last-2,'++'),s3==NEXT(last)),'the data ends with ++, and section 3 follows')
            if not sn: ctx.prove(t,z3.And(z3.Not(is_(s3,'SUPP')),s4==s3),'without an optional section the message ends')
            else: q=sn[-1][0]; ctx.prove(t,z3.And(z3.BoolVal(len(sn)==1),is_(s3,'SUPP'),z3.ULE(s3+4,q),is_(q,'++'),z3.Implies(z3.And(z3.ULE(s3+4,K),z3.ULT(K,q)),z3.Not(is_(K,'++'))),sn[-1][1]==2,s4==NEXT(q+2)),'the optional section ends at the first ++')
        ctx.call([I.p,s.out],post)
    def on_skip(s,E,st,p,n): push(st,'skipn',(p,n))
# ------------------------------------------------------------------ whole messages
AN=r'^wreport::bulletin::\(anonymous namespace\)::'
class Whole(Contract):
    """decoding a message: its header and then its data, from the text given"""
    search='crex'
    def __init__(s,m,data):
        s.m=m; s.data=data; s.name='CrexBulletin::'+m; s.fn=r'^wreport::CrexBulletin::'+m+r'\(std'
        s.uses=[(r'^wreport::CrexBulletin::create\(',s.m_create),(AN+r'decode_header\(',s.m_part('header')),(AN+r'decode_data\(',s.m_part('data')),(r'^std::unique_ptr<wreport::CrexBulletin,.*::~unique_ptr\(',nop),(r'^std::default_delete<wreport::CrexBulletin>::operator\(\)',nop)]
    def m_create(s,E,st,a,ins): push(st,'new',1); E.store(st,PTR,s.b,a[0]); return 0
    def m_part(s,k):
        def h(E,st,a,ins):
            t=st.fork(); i=a[0]; g=lambda f:i.plus(off(E,'CrexInput',f)); d=E.load(st,PTR,g('data')); c=E.load(st,PTR,g('cur')); push(st,'part',(k,i,a[1],isptr(d,s.d) and (k=='data' or isptr(c,s.d)),T64(E.load(st,I64,g('data_len'))),tobv(E.load(st,I32,g('has_check_digit')),32)))
            return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
        return h
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.ctx=ctx; s.b=E.alloc(st,'CrexBulletin',off(E,'CrexBulletin'),lazy=True); str_new(E,st,s.b.plus(off(E,'CrexBulletin','fname')),None,0); L=ctx.bv('size',64); ctx.assume(z3.ULT(L,1<<31)); D=ctx.arr('D',32); sp=E.alloc(st,'buf',32); s.d=str_new(E,st,sp,D,L)
        fl=ctx.bv('fname_length',64); ctx.assume(z3.ULT(fl,1<<16)); FN=ctx.arr('FNAME',16); fn=ctx.cstring('fname',FN,fl); o_=ctx.bv('offset',64); sr=E.alloc(st,'result',8,lazy=True)
        args=[sr,sp]+([NULL] if s.m=='decode_verbose' else [])+[fn,o_]
        def post(o):
            t=o.st; ps=gl(t,'part')
            for k,i,b,d,n,h in ps[:1]: ctx.prove(t,z3.And(z3.BoolVal(k=='header' and d and isptr(b,s.b)),n==L,h==0),'the header is decoded first, from the start of the text')
            if o.kind=='throw': ctx.prove(t,o.exc.info=='callee','no errors of its own'); return
            ctx.prove(t,[x[0] for x in ps]==['header']+['data']*s.data,'decodes '+('the header and the data' if s.data else 'the header'))
            for k,i,b,d,n,h in ps[1:]: ctx.prove(t,z3.And(z3.BoolVal(d and isptr(b,s.b) and isptr(i,ps[0][1])),n==L),'the data is decoded from where the header ends')
            ctx.prove(t,isptr(E.load(t,PTR,sr),s.b) and len(gl(t,'new'))==1,'the bulletin decoded is returned'); ctx.prove(t,T64(E.load(t,I64,s.b.plus(off(E,'CrexBulletin','offset'))))==o_,'it knows its offset')
            d,n=str_get(E,t,s.b.plus(off(E,'CrexBulletin','fname'))); ctx.prove(t,z3.And(T64(n)==fl,z3.Implies(z3.ULT(K,fl),z3.Select(t.mem[d.obj].arr,K)==z3.Select(FN,K))),'and its file name')
        ctx.call(args,post)
CONTRACTS=CI_FUN+[Parse(),Format(),Header(),Value('define_variable'),Value('define_delayed_replication_factor'),Data(),Whole('decode_header',False),Whole('decode',True),Whole('decode_verbose',True)]
