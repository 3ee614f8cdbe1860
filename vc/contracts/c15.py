"""C15: a bulletin is encoded to CREX as the text that says it."""
from .common import *
from .varobj import gl,push
from .c11 import vget,vput,isptr,mkinfo,R_var,VV,ev,evs,nop,vo
from .c14 import fn,CODE,Bul,off,I16,c_snprintf
from ..lib import str_get, str_new, conc_cstr, span_check, SR, add64
SRCS=['buffers/crex.cc','crex_encoder.cc','varinfo.cc','error.cc','bulletin.cc','bulletin/internals.cc']
INST=['layout.cc','crex_layout.cc']
ASSUMPTIONS=['vsnprintf behaves as the C standard says: the text of the format, cut to the size given, and its whole length','std::string as in the C++ standard','Interpreter::run calls the methods of the encoder for each element of the template (C09)','UncompressedEncoder::get_var as in C11','master table, edition and version numbers are at most 99: the format has two digits for them','texts longer than 2^31 characters are not considered']
K=z3.BitVec('K',64); J=z3.BitVec('J',64)
CO=r'^wreport::buffers::CrexOutput::'
DONE=v64(1<<40)
def ch(c): return z3.BitVecVal(ord(c),8)
class OUT:
    """a CrexOutput writing to a string"""
    def __init__(s,ctx,has=None):
        E=ctx.E; st=ctx.st; s.E=E; s.ctx=ctx; s.buf=E.alloc(st,'buf',32); s.N=ctx.bv('size',64); ctx.assume(z3.ULT(s.N,1<<31)); s.A=ctx.arr('OLD',16); str_new(E,st,s.buf,s.A,s.N); s.p=E.alloc(st,'CrexOutput',off(E,'CrexOutput'),lazy=True); E.store(st,PTR,s.buf,s.p)
        s.has=ctx.bv('has_check_digit',32); s.exp=ctx.bv('expected',32); ctx.assume(z3.ULE(s.exp,9)); E.store(st,I32,s.has,s.at('has_check_digit')); E.store(st,I32,s.exp,s.at('expected_check_digit'))
        if has is not None: ctx.assume((s.has!=0)==bool(has))
    def at(s,f): return s.p.plus(off(s.E,'CrexOutput',f))
    def get(s,t,f): return tobv(s.E.load(t,I32,s.at(f)),32)
    def next(s): return z3.If(s.has!=0,z3.If(s.exp==9,z3.BitVecVal(0,32),s.exp+1),s.exp)
    def frame(s,t,exp=None):
        s.ctx.prove(t,z3.And(s.get(t,'has_check_digit')==s.has,s.get(t,'expected_check_digit')==(s.exp if exp is None else exp)),'check digits '+('are left as they are' if exp is None else 'count from 0 to 9'))
        s.ctx.prove(t,isptr(s.E.load(t,PTR,s.p),s.buf),'the output is the same')
# ------------------------------------------------------------------ what is written, piece by piece
def items(E,st,f,args):
    """the pieces a printf format is made of"""
    out=[]; i=0; args=list(args)
    while i<len(f):
        m=re.match(r'%(?:(c)|(-\*\.\*s)|0(\d|\*)(hh)?([du])|(s))',f[i:])
        if not m:
            if f[i]=='%': raise Unsupported('format '+f)
            out.append(('c',ch(f[i]))); i+=1; continue
        i+=m.end()
        if m.group(1): out.append(('c',z3.simplify(z3.Extract(7,0,tobv(args.pop(0),32))))); continue
        if m.group(2): w,p,t=args[:3]; del args[:3]; out.append(('text',tobv(w,32),tobv(p,32),t)); continue
        if m.group(6):
            t=args.pop(0); lit=conc_cstr(E,st,t)
            if lit is None: raise Unsupported('format '+f)
            out+=[('c',z3.BitVecVal(x,8)) for x in lit]; continue
        w=tobv(args.pop(0),32) if m.group(3)=='*' else z3.BitVecVal(int(m.group(3)),32); x=tobv(args.pop(0),32)
        if m.group(4): x=z3.Extract(7,0,x); x=z3.ZeroExt(24,x) if m.group(5)=='u' else z3.SignExt(24,x)
        out.append(('dec',w,z3.simplify(x),m.group(5)))
    if args: raise Unsupported('format arguments')
    return out
def digits(E,st,it):
    """the characters of a number that fits its width"""
    w=norm(z3.simplify(it[1])); w=w.as_long() if hasattr(w,'as_long') else w; x=it[2]
    if not isinstance(w,int) or not 1<=w<=9: raise Unsupported('width of a number')
    if not E.prove(st,z3.ULT(x,10**w),E.cname()+'numbers fit in their %d digits'%w): raise PathEnd('too wide')
    return [('c',z3.simplify(z3.Extract(7,0,z3.URem(z3.UDiv(x,z3.BitVecVal(10**k,32)),z3.BitVecVal(10,32)))+48)) for k in range(w-1,-1,-1)]
def mine(E,st,p):
    c=E.ctx.con; b=getattr(c,'buf',None) or st.g.get(('buf',))
    if b is None and getattr(c,'anybuf',False): st.g[('buf',)]=p; return True
    return b is not None and isptr(p,b)
def s_append(E,st,a,ins):
    if not mine(E,st,a[0]): return NotImplemented
    n=norm(a[2])
    if not isc(n) or n>64: raise Unsupported('append of %s characters'%n)
    span_check(E,st,a[1],n,'string append source')
    for i in range(n): E.ctx.con.accept(E,st,('c',tobv(E.load(st,I8,a[1].plus(i)),8)))
    return a[0]
def s_appendc(E,st,a,ins):
    if not mine(E,st,a[0]): return NotImplemented
    l=conc_cstr(E,st,a[1])
    if l is None: raise Unsupported('append of unknown text')
    for x in l: E.ctx.con.accept(E,st,('c',z3.BitVecVal(x,8)))
    return a[0]
def s_appendn(E,st,a,ins):
    if not mine(E,st,a[0]): return NotImplemented
    E.ctx.con.accept(E,st,('rep',T64(a[1]),tobv(a[2],8))); return a[0]
def s_push(E,st,a,ins):
    if not mine(E,st,a[0]): return NotImplemented
    E.ctx.con.accept(E,st,('c',tobv(a[1],8))); return a[0]
def c_appendf(E,st,a,ins):
    """raw_appendf: see its contract"""
    b=E.load(st,PTR,a[0])
    if not mine(E,st,b): raise Unsupported('another output')
    f=conc_cstr(E,st,a[1])
    if f is None: raise Unsupported('unknown format')
    for it in items(E,st,f.decode('latin1'),a[2:]): E.ctx.con.accept(E,st,it)
    return 0
R_snk=[(SR+r'::append\(char const\*, unsigned long\)',s_append),(SR+r'::(append|operator\+=)\(char const\*\)',s_appendc),(SR+r'::append\(unsigned long, char\)',s_appendn),(SR+r'::(push_back|operator\+=)\(char\)',s_push)]
R_fmt=R_snk+[(CO+r'raw_appendf\(',c_appendf)]
# ------------------------------------------------------------------ primitives, on the characters of the buffer
class Prim(Contract):
    search='crexenc'; opts={'strides':(1,)}
    def __init__(s,m,run,uses=()): s.m=m; s.uses=list(uses); s.name='CrexOutput::'+m; s.fn=CO+m+r'\('; s.r=run
    def cases(s): return [0,1] if s.m=='raw_appendf' else [None]
    def run(s,ctx,case): s.ctx=ctx; s.case=case; s.r(s,ctx)
    def text(s,t,O,n,T,what):
        """the buffer is what it was followed by n characters T"""
        d,m=str_get(s.ctx.E,t,O.buf); a=t.mem[d.obj].arr; s.ctx.prove(t,T64(m)==O.N+n,what+': as many characters as it has'); s.ctx.prove(t,z3.Implies(z3.ULT(K,O.N+n),z3.Select(a,K)==z3.If(z3.ULT(K,O.N),z3.Select(O.A,K),T(K-O.N))),what)
def p_ctor(s,ctx):
    E=ctx.E; st=ctx.st; b=E.alloc(st,'buf',32); p=E.alloc(st,'CrexOutput',off(E,'CrexOutput'),lazy=True)
    def post(o):
        t=o.st; ctx.prove(t,o.kind=='ret' and isptr(E.load(t,PTR,p),b),'writes to the string given'); ctx.prove(t,z3.And(*[tobv(E.load(t,I32,p.plus(off(E,'CrexOutput',f))),32)==0 for f in ('has_check_digit','expected_check_digit')]),'starts without check digits')
    ctx.call([p,b],post)
def p_append(s,ctx):
    E=ctx.E; O=OUT(ctx); n=ctx.bv('len',32); N=z3.ZeroExt(32,n); ctx.assume(z3.ULT(N,1<<30)); T=ctx.arr('TEXT',16); p=ctx.bytesobj('text',T,z3.simplify(N+1),ro=True)
    def post(o):
        if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
        s.text(o.st,O,N,lambda k:z3.Select(T,k),'the characters given are added'); O.frame(o.st)
    ctx.call([O.p,p,n],post)
def v_print(E,st,a,ins):
    c=E.ctx.con; n=norm(a[1]); b=a[0]; span_check(E,st,b,n,'vsnprintf buffer')
    E.prove(st,isptr(a[2],c.fmt),E.cname()+'the format given is used')
    n=T64(n); st.wobj(b.obj)
    o=st.mem[b.obj]
    if o.mode!='bytes': E.tobytes(st,st.wobj(b.obj))
    o=st.wobj(b.obj); i=z3.BitVec('i_print',64); L=z3.simplify(c.LEN); w=z3.If(z3.ULT(L,n-1),L,n-1); at=Lin.of(b.off).bv(); old=o.arr
    x=E.fresharr('printed') if hasattr(E,'fresharr') else None
    o.arr=z3.Lambda([i],z3.If(z3.And(z3.ULT(i-at,w)),z3.Select(c.T,i-at),z3.If(i-at==w,z3.BitVecVal(0,8),z3.Select(old,i)))) if not c.case else old
    if st.writes is not None: st.writes.append((b.obj,None,None))
    return c.RET
def p_appendf(s,ctx):
    E=ctx.E; O=OUT(ctx); s.T=ctx.arr('PRINTED',16); s.RET=ctx.bv('printed_length',32); ctx.assume(s.RET<0 if s.case else z3.And(s.RET>=0,s.RET<(1<<30))); s.LEN=z3.ZeroExt(32,s.RET); s.fmt=E.alloc(ctx.st,'fmt',8)
    def post(o):
        t=o.st
        if s.case: ctx.prove(t,o.kind=='throw' and o.exc.typ==wr_err('error_consistency'),'what cannot be formatted is refused'); return
        if not ctx.prove(t,o.kind=='ret','does not throw'): return
        s.text(t,O,s.LEN,lambda k:z3.Select(s.T,k),'all the formatted text is added'); O.frame(t)
    ctx.call([O.p,s.fmt],post)
def p_digit(s,ctx):
    O=OUT(ctx)
    def post(o):
        if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
        s.text(o.st,O,z3.If(O.has!=0,v64(1),v64(0)),lambda k:z3.Extract(7,0,O.exp)+48,'the check digit is added when they are used'); O.frame(o.st,O.next())
    ctx.call([O.p],post)
# ------------------------------------------------------------------ values
def c_missing(E,st,a,ins):
    """append_missing: see its contract"""
    c=E.ctx.con; O=c.O; E.prove(st,z3.And(z3.BoolVal(isptr(a[0],O.p) and isptr(a[1],c.info)),T64(st.g['#k'])==0,c.missing),E.cname()+'the missing value is that of the element'); st.g['#k']=z3.simplify(c.first()+z3.ZeroExt(32,c.r['len'])); E.store(st,I32,z3.simplify(O.next()),O.at('expected_check_digit')); return 0
def v_enqi(E,st,a,ins):
    c=E.ctx.con; x=vget(E,st,a[0])
    if not isptr(a[0],c.var): raise Unsupported('another variable')
    t=st.fork(); st.assume(x.isset==1); t.assume(x.isset!=1); u=st.fork(); return Multi([(st,c.val),(t,Thrown(wr_err('error_notfound'),info='missing')),(u,Thrown(wr_err('error_type'),info='type'))])
def v_enqc(E,st,a,ins):
    c=E.ctx.con; x=vget(E,st,a[0])
    if not isptr(a[0],c.var): raise Unsupported('another variable')
    t=st.fork(); st.assume(x.isset==1); t.assume(x.isset!=1); u=st.fork(); return Multi([(st,c.text),(t,Thrown(wr_err('error_notfound'),info='missing')),(u,Thrown(wr_err('error_type'),info='type'))])
def c_appvar(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); ev(st,'append_var',a[0],a[1],a[2]); return Multi([(st,0),(t,Thrown(wr_err('error_type'),info='callee'))])
def c_getvar(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); ev(st,'get_var',a[0]); return Multi([(st,c.var),(t,Thrown(wr_err('error_consistency'),info='callee'))])
R_v=R_var+[(VV+r'enqi\(\) const',v_enqi),(VV+r'enqc\(\) const',v_enqc)]
class Val(Contract):
    """one value: a blank, its check digit, its field"""
    search='crexenc'; opts={'strides':(1,),'indirect':True}
    def first(s): return z3.If(s.O.has!=0,v64(2),v64(1))
    def accept(s,E,st,it):
        k=T64(st.g['#k']); f=s.first(); pr=lambda c,w:E.prove(st,c,E.cname()+w)
        if it[0]=='c': pr(it[1]==z3.If(k==0,ch(' '),z3.If(z3.ULT(k,f),z3.Extract(7,0,s.O.exp)+48,ch('/'))),'a value is a blank, its check digit, and slashes when it is missing'); pr(z3.Or(z3.ULT(k,f),s.missing),'only missing values are slashes'); st.g['#k']=z3.simplify(k+1)
        elif it[0]=='rep': pr(z3.And(z3.UGE(k,f),s.missing,it[2]==ch('/')),'only missing values are slashes'); st.g['#k']=z3.simplify(k+it[1])
        elif it[0]=='dec': pr(z3.And(k==f,z3.Not(s.missing),z3.BoolVal(s.kind!=2)),'numbers are written after their check digit'); pr(z3.And(it[1]==s.width,it[2]==s.val,z3.Or(it[2]>=0,z3.BoolVal(it[3]=='d'))),'numbers have as many digits as their element, and a sign when negative'); st.g['#k']=DONE
        elif it[0]=='text': pr(z3.And(k==f,z3.Not(s.missing),z3.BoolVal(s.kind==2)),'texts are written after their check digit'); pr(z3.And(it[1]==s.r['len'],it[2]==s.r['len'],z3.BoolVal(isptr(it[3],s.text))),'texts have as many characters as their element'); st.g['#k']=DONE
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return []
    def cands(s,E,entry,keys,fn,h):
        out=[]
        for k in keys:
            if k[0] in ('phi','cell') and not isinstance(entry.raw(k),Ptr):
                out.append(('%s slashes written'%(k,),lambda w,k=k:T64(w.st.g['#k'])==s.first()+w.term(k)))
                out.append(('%s slashes left'%(k,),lambda w,k=k:T64(w.st.g['#k'])==s.first()+z3.ZeroExt(32,s.r['len'])-w.term(k)))
                out.append(('%s up to len'%(k,),lambda w,k=k:z3.ULE(w.term(k),z3.ZeroExt(32,s.r['len']))))
        out.append(('blank and check digit written',lambda w:z3.UGE(T64(w.st.g['#k']),s.first())))
        return out
    def setup(s,ctx,kind):
        E=ctx.E; st=ctx.st; s.ctx=ctx; s.O=OUT(ctx); s.buf=s.O.buf; s.kind=kind; s.info,s.r=mkinfo(ctx,kind); ctx.assume(z3.ULT(s.r['len'],1<<20)); s.vinfo,_=mkinfo(ctx,kind,'vinfo'); s.var=E.alloc(st,'var',off(E,'Var'),lazy=True); x=ctx.bv('isset',8); ctx.assume(z3.ULE(x,1)); vput(E,st,s.var,s.vinfo,x,ctx.bv('value',64),v64(0)); s.missing=x==0; s.val=ctx.bv('number',32); s.text=E.alloc(st,'text',8); s.width=s.r['len']+z3.If(s.val<0,z3.BitVecVal(1,32),z3.BitVecVal(0,32)); st.g['#k']=v64(0)
    def written(s,t):
        k=T64(t.g['#k']); s.ctx.prove(t,k==z3.If(s.missing,s.first()+z3.ZeroExt(32,s.r['len']),DONE),'the whole value is written'); s.O.frame(t,s.O.next())
class Missing(Val):
    name='CrexOutput::append_missing'; fn=CO+r'append_missing\('; uses=R_fmt
    def cases(s): return [0,2]
    def run(s,ctx,case):
        s.setup(ctx,case); s.missing=z3.BoolVal(True)
        def post(o):
            if ctx.prove(o.st,o.kind=='ret','does not throw'): s.written(o.st)
        ctx.call([s.O.p,s.info],post)
class AppVar(Val):
    name='CrexOutput::append_var'; fn=CO+r'append_var\('; uses=R_v+R_fmt+[(CO+r'append_missing\(',c_missing)]
    def cases(s): return [0,1,2,3]
    def run(s,ctx,case):
        s.setup(ctx,case)
        def post(o):
            t=o.st
            if o.kind=='throw':
                if o.exc.info=='type': return
                ctx.prove(t,z3.And(z3.Not(s.missing),z3.BoolVal(case==3 and o.exc.typ==wr_err('error_unimplemented'))),'only binary values are refused'); return
            ctx.prove(t,z3.Or(s.missing,z3.BoolVal(case!=3)),'binary values are refused'); s.written(t)
        ctx.call([s.O.p,s.info,s.var],post)
DD=r'^wreport::\(anonymous namespace\)::DDSEncoder::'
def c_base(E,st,a,ins): ev(st,'base',a[1],tobv(a[2],32)); return 0
class Elem(Val):
    """one element of the template, from the next variable of the subset"""
    uses=R_v+R_fmt+[(CO+r'append_var\(',c_appvar),(CO+r'append_missing\(',c_missing),(r'^wreport::bulletin::UncompressedEncoder::get_var\(\)',c_getvar),(r'^wreport::bulletin::UncompressedEncoder::UncompressedEncoder\(',c_base),(r'^wreport::bulletin::UncompressedEncoder::~',nop),(r'^wreport::error_consistency::throwf\(',lambda E,st,a,ins:Thrown(wr_err('error_consistency'),info='own'))]
    def __init__(s,m): s.m=m; s.name='DDSEncoder::'+m; s.fn=DD+m+r'\('
    def cases(s): return [(0,k) for k in ((0,) if 'delayed' in s.m else (0,2))]
    def accept(s,E,st,it):
        if not st.g.get(('made',)): push(st,'sep',it); return
        Val.accept(s,E,st,it)
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.setup(ctx,case[1]); b=E.alloc(st,'CrexBulletin',off(E,'CrexBulletin'),lazy=True); s.enc=E.alloc(st,'DDSEncoder',1024,lazy=True); n=ctx.bv('subset_no',32); code=s.r['code']; four=z3.Or(*[code==(31<<8)+y for y in (0,1,2,11,12)])
        repl=s.m=='define_delayed_replication_factor'
        if repl: s.width=z3.BitVecVal(4,32)
        def made(o):
            t=o.st
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            sep=gl(t,'sep'); lit=[ch(x) for x in '+\r\r\n']; ctx.prove(t,z3.If(n==0,z3.BoolVal(not sep),z3.And(z3.BoolVal(len(sep)==4 and all(x[0]=='c' for x in sep)),*[x[1]==y for x,y in zip(sep,lit)])),'subsets after the first are preceded by a separator')
            e=evs(t,'base'); ctx.prove(t,z3.And(z3.BoolVal(len(e)==1 and isptr(e[0][1],b)),e[0][2]==n) if e else False,'encodes the subset asked for')
            if s.m=='DDSEncoder': return
            t.g[('made',)]=1; t.g['#k']=v64(0); ctx.st=t; ctx.call([s.enc,s.info],post)
        def post(o):
            t=o.st; g=evs(t,'get_var'); av=evs(t,'append_var'); k=T64(t.g['#k'])
            if o.kind=='throw':
                if o.exc.info in ('callee','type'): return
                ctx.prove(t,z3.And(z3.BoolVal(repl and o.exc.typ in (wr_err('error_consistency'),wr_err('error_notfound'))),four,z3.Or(s.missing,z3.UGT(s.val,9999))) if o.exc.info!='missing' or repl else False,'refused only when it is a count that does not fit'); return
            ctx.prove(t,len(g)==1 and isptr(g[0][1],s.enc),'uses the next variable')
            whole=z3.And(z3.BoolVal(len(av)==1 and isptr(av[0][1],s.O.p) and isptr(av[0][2],s.info) and isptr(av[0][3],s.var)),k==0)
            if not repl: ctx.prove(t,whole,'the variable is written'); return
            ctx.prove(t,z3.If(four,z3.And(k==DONE,z3.BoolVal(not av)),whole),'counts are written with four digits'); ctx.prove(t,z3.Implies(four,z3.And(z3.Not(s.missing),z3.ULE(s.val,9999))),'counts that do not fit are refused')
            ctx.prove(t,tobv(o.val,32)==z3.If(s.missing,z3.BitVecVal(0xffffffff,32),s.val),'the count is the value of the variable')
            if E.must(t,four): s.O.frame(t,s.O.next())
        f=fn(E,DD+r'DDSEncoder\(')
        if s.m=='DDSEncoder': ctx.call([s.enc,b,n,s.O.p],made)
        else: E.run(st,f,[s.enc,b,n,s.O.p],made)
# ------------------------------------------------------------------ header
class Sec1(Bul):
    weight=5; search='crexenc'; name='encode_sec1'; fn=r'^wreport::\(anonymous namespace\)::encode_sec1\('; uses=R_fmt+[(r'^snprintf$',c_snprintf)]
    variant=None; opts={'strides':(2,)}
    def cases(s): return [(a,b) for a in (0,1) for b in (0,1)]
    def D(s,i): return z3.Select(s.dd,i)
    def skip(s,i): d=s.D(i); return z3.And(z3.LShR(d,8)==31,z3.ULT(d&0xff,3))
    def chars(s,i):
        d=s.D(i); F=z3.LShR(d,14); X=z3.ZeroExt(16,z3.LShR(d,8)&63); Y=z3.ZeroExt(16,d&255); dg=lambda x,k:z3.Extract(7,0,z3.URem(z3.UDiv(x,z3.BitVecVal(10**k,32)),z3.BitVecVal(10,32)))+48
        return [z3.If(F==0,ch('B'),z3.If(F==1,ch('R'),z3.If(F==2,ch('C'),ch('D')))),dg(X,1),dg(X,0),dg(Y,2),dg(Y,1),dg(Y,0)]
    def ptrs(s,E,st):
        """positions in the list of descriptors the code is looking at"""
        out=[]
        def add(p):
            if isinstance(p,Ptr) and p.obj==s.ddp.obj:
                l=Lin.of(p.off).divexact(2)
                if l is not None and not any(l.bv().eq(x) for x in out): out.append(l.bv())
        for f in reversed(st.frames):
            for r in f.regs.values(): add(r)
        for o in st.mem.values():
            for c in (getattr(o,'cells',None) or {}).values(): add(c[1])
        return out
    def accept(s,E,st,it):
        if it[0]=='dec':
            for x in digits(E,st,it): s.accept(E,st,x)
            return
        if it[0]!='c': raise Unsupported('piece of the header')
        x=z3.simplify(it[1]); cn=lambda k:norm(z3.simplify(T64(st.g[k]))); c_=lambda k:(lambda v:v if isinstance(v,int) else (v.as_long() if z3.is_bv_value(v) else None))(cn(k)); pr=lambda c,w:E.prove(st,c,E.cname()+w); lst=T64(st.g['#last']); h=c_('#h'); N=len(s.hdr)
        if h is not None and h<N: pr(x==s.hdr[h],'the header says the tables and the category of the bulletin'); st.g['#h']=v64(h+1); return
        if not E.must(st,T64(st.g['#h'])==N): raise Unsupported('position in the header')
        def dec(k,m): 
            v=c_(k)
            if v is not None: return v
            for i in range(m+1):
                if E.must(st,T64(st.g[k])==i): return i
            raise Unsupported('position in the header')
        c,t=dec('#c',8),dec('#t',8)
        if t: pr(x==ch(' E++\r\r\n'[t]) if t<7 else z3.BoolVal(False),'the list of descriptors is terminated'); st.g['#t']=v64(t+1); return
        if c==0 or (c==1 and E.must(st,x==ord('E'))):
            if c==0 and not E.must(st,x==ord('+')): pr(x==ch(' '),'descriptors are separated by a blank'); st.g['#c']=v64(1); return
            pr((s.has!=0)==(c==1),'E is written when check digits are used'); pr(z3.Implies(z3.And(z3.ULE(lst,J),z3.ULT(J,s.n)),s.skip(J)),'no descriptor is left out'); st.g['#t']=v64(2 if c else 3); st.g['#c']=v64(0); return
        if c==1:
            for i in s.ptrs(E,st):
                if E.must(st,z3.And(z3.ULT(i,s.n),z3.ULE(lst,i),x==s.chars(i)[0])):
                    pr(z3.Implies(z3.And(z3.ULE(lst,J),z3.ULT(J,i)),s.skip(J)),'descriptors are written in order, none is left out'); pr(z3.Not(s.skip(i)),'delayed replication counts are not in the list'); st.g[('idx',)]=i; st.g['#c']=v64(2); return
            E.prove(st,False,E.cname()+'descriptors written are those of the bulletin'); raise PathEnd('not a descriptor')
        i=st.g[('idx',)]; pr(x==s.chars(i)[c-1],'descriptors are written with their letter and digits'); st.g['#c']=v64((c+1)%7)
        if c==6: st.g['#last']=z3.simplify(i+1)
    def loop_params(s,E,st): return [('n',s.n)]
    def cands(s,E,entry,keys,fn,h):
        g=lambda w,k:T64(w.st.g[k]); N=len(s.hdr); out=[('header',lambda w:g(w,'#h')==N),('between descriptors',lambda w:z3.And(g(w,'#c')==0,g(w,'#t')==0)),('inside',lambda w:z3.ULE(g(w,'#last'),s.n))]
        for k in keys:
            p=entry.raw(k)
            if isinstance(p,Ptr) and p.obj==s.ddp.obj:
                ix=lambda w,k=k:Lin.of(w.raw(k).off).divexact(2).bv()
                okk=lambda w,k=k:isinstance(w.raw(k),Ptr) and w.raw(k).obj==s.ddp.obj and Lin.of(w.raw(k).off).divexact(2) is not None
                out.append(('%s descriptors done'%(k,),lambda w,ix=ix,okk=okk:z3.And(z3.ULE(g(w,'#last'),ix(w)),z3.ULE(ix(w),s.n),z3.Implies(z3.And(z3.ULE(g(w,'#last'),J),z3.ULT(J,ix(w))),s.skip(J))) if okk(w) else z3.BoolVal(True)))
            elif k[0] in ('phi','cell') and not isinstance(p,Ptr):
                out.append(('%s descriptors done'%(k,),lambda w,k=k:z3.And(z3.ULE(g(w,'#last'),w.term(k)),z3.ULE(w.term(k),s.n),z3.Implies(z3.And(z3.ULE(g(w,'#last'),J),z3.ULT(J,w.term(k))),s.skip(J)))))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.bulletin(ctx); s.O=OUT(ctx,case[0]); s.buf=s.O.buf; s.has=s.O.has; f=s.f0; s.n=ctx.bv('ndescriptors',64); ctx.assume(z3.ULE(s.n,1<<24)); s.dd=z3.Array('DESCRIPTORS',z3.BitVecSort(64),z3.BitVecSort(16)); s.ddp=recobj(ctx,'datadesc',2,s.n,{0:(2,'i',s.dd)},True); E.store(st,PTR,s.ddp,s.at('datadesc'))
        for i in (8,16): E.store(st,PTR,Ptr(s.ddp.obj,Lin.of(s.n).mul(2)),s.at('datadesc').plus(i))
        for k in ('master_table_number','edition_number','master_table_version_number'): ctx.assume(z3.ULE(f[k],99))
        sub=f['data_subcategory']; ctx.assume((sub==255) if case[1]==0 else sub!=255); dg=lambda x,n:[z3.simplify(z3.Extract(7,0,z3.URem(z3.UDiv(z3.ZeroExt(24,x),z3.BitVecVal(10**k,32)),z3.BitVecVal(10,32)))+48) for k in range(n-1,-1,-1)]
        s.hdr=[ch('T')]+dg(f['master_table_number'],2)+dg(f['edition_number'],2)+dg(f['master_table_version_number'],2)+[ch(' '),ch('A')]+dg(f['data_category'],3)+(dg(sub,3) if case[1] else [])
        for k in ('#h','#c','#t','#last'): st.g[k]=v64(0)
        def post(o):
            t=o.st
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            ctx.prove(t,T64(t.g['#t'])==7,'the header is complete'); s.O.frame(t,z3.If(s.has!=0,z3.BitVecVal(1,32),s.O.exp))
        ctx.call([s.out,s.O.p],post)
# ------------------------------------------------------------------ whole messages
AN=r'^wreport::\(anonymous namespace\)::'
class Whole(Bul):
    search='crexenc'; name='CrexBulletin::encode'; fn=r'^wreport::CrexBulletin::encode(\[abi:\w+\])?\(\) const'; anybuf=True; variant=None
    START='CREX++\r\r\n'; END='++\r\r\n7777\r\r\n'
    def cases(s): return [None]
    def __init__(s): s.uses=R_fmt+[(AN+r'encode_sec1\(',s.c_sec1),(DD+r'DDSEncoder\(',s.c_new),(r'^wreport::bulletin::Interpreter::run\(',s.c_run),(DD+r'~DDSEncoder\(',nop),(r'^wreport::bulletin::UncompressedEncoder::~',nop),(SR+r'::reserve\(',nop),(SR+r'::basic_string\('+SR+r'&&\)',s.c_move)]
    def same(s,E,st,p): return isptr(E.load(st,PTR,p),st.g.get(('buf',)))
    def c_sec1(s,E,st,a,ins):
        o=a[1]; E.prove(st,z3.And(z3.BoolVal(isptr(a[0],s.out) and s.same(E,st,o)),T64(st.g['#k'])==9,tobv(E.load(st,I32,o.plus(off(E,'CrexOutput','has_check_digit'))),32)==z3.ZeroExt(24,s.f0['has_check_digit'])),E.cname()+'section 1 of the bulletin comes first, with its check digits'); st.g['#k']=v64(10); E.store(st,I32,E.fresh('check digit',32),o.plus(off(E,'CrexOutput','expected_check_digit'))); st.g[('ob',)]=o; return 0
    def c_new(s,E,st,a,ins):
        t=st.fork(); E.prove(st,z3.And(z3.BoolVal(isptr(a[1],s.out) and isptr(a[3],st.g.get(('ob',)))),T64(st.g['#k'])==10,z3.ZeroExt(32,tobv(a[2],32))==T64(st.g['#i'])),E.cname()+'subsets are written after the header, in order'); st.g[('enc',)]=a[0]; return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='callee'))])
    def c_run(s,E,st,a,ins):
        t=st.fork(); E.prove(st,isptr(a[0],st.g.get(('enc',))),E.cname()+'each subset is written once'); st.g[('enc',)]=None; st.g['#i']=z3.simplify(T64(st.g['#i'])+1); return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='callee'))])
    def c_move(s,E,st,a,ins):
        if st.g.get(('buf',)) is not None and isptr(a[1],st.g[('buf',)]): st.g[('res',)]=a[0]
        return NotImplemented
    def accept(s,E,st,it):
        if it[0]!='c': raise Unsupported('piece of the message')
        k=next((i for i in range(30) if E.must(st,T64(st.g['#k'])==i)),None)
        if k is None: raise Unsupported('position in the message')
        x=it[1]; pr=lambda c,w:E.prove(st,c,E.cname()+w)
        if k<9: pr(x==ch(s.START[k]),'the message starts with the indicator')
        else:
            j=k-10; pr(x==ch(s.END[j]) if 0<=j<len(s.END) else z3.BoolVal(False),'the message ends with the end of its data and 7777')
            if j==0: pr(T64(st.g['#i'])==s.n,'all the subsets are written')
        st.g['#k']=v64(k+1)
    def loop_params(s,E,st): return [('n',s.n)]
    def cands(s,E,entry,keys,fn,h):
        g=lambda w,k:T64(w.st.g[k]); out=[('after the header',lambda w:g(w,'#k')==10),('inside',lambda w:z3.ULE(g(w,'#i'),s.n))]
        for k in keys:
            p=entry.raw(k)
            if k[0] in ('phi','cell') and not isinstance(p,Ptr): out.append(('%s subsets'%(k,),lambda w,k=k:w.term(k)==g(w,'#i')))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.bulletin(ctx); ctx.assume(z3.ULE(s.f0['has_check_digit'],1)); s.n=ctx.bv('nsubsets',64); ctx.assume(z3.ULT(s.n,1<<31)); z=off(E,'Subset'); sb=E.alloc(st,'subsets',1<<42,lazy=True); E.store(st,PTR,sb,s.at('subsets'))
        for i in (8,16): E.store(st,PTR,Ptr(sb.obj,Lin.of(s.n).mul(z)),s.at('subsets').plus(i))
        sr=E.alloc(st,'result',32,lazy=True); st.g['#k']=v64(0); st.g['#i']=v64(0)
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.info=='callee','no errors of its own'); return
            ctx.prove(t,z3.And(T64(t.g['#k'])==10+len(s.END),T64(t.g['#i'])==s.n),'the message is complete'); b=t.g.get(('res',)) or t.g.get(('buf',)); ctx.prove(t,isptr(b,sr),'the text written is returned')
        ctx.call([sr,s.out],post)
CONTRACTS=[Prim('CrexOutput',p_ctor),Prim('raw_append',p_append),Prim('raw_appendf',p_appendf,[(r'^vsnprintf$',v_print)]),Prim('encode_check_digit',p_digit),Missing(),AppVar(),Elem('DDSEncoder'),Elem('define_variable'),Elem('define_delayed_replication_factor'),Sec1(),Whole()]
