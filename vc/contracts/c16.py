"""C16: messages are read from a file where they are, whole, and none is skipped."""
from .common import *
from .varobj import gl,push
from .c11 import isptr
from ..lib import str_get, str_new, conc_cstr, span_check, SR, add64, lam_copy
SRCS=['bulletin.cc','error.cc']
INST=['layout.cc']
ASSUMPTIONS=['getc, fread, ftell, ftello and ferror behave as the C standard says, and set errno only when they fail','files are shorter than 2^40 characters and messages read from them shorter than 2^31','std::string as in the C++ standard']
K=z3.BitVec('K',64)
B8=z3.BitVecSort(8); B64=z3.BitVecSort(64)
def ch(c): return z3.BitVecVal(ord(c),8)
# ------------------------------------------------------------------ the file: its characters, and the position in it
class FILE_:
    def __init__(s,ctx):
        st=ctx.st; s.ctx=ctx; s.F=z3.Array('FILE',B64,B8); s.L=ctx.bv('file_size',64); ctx.assume(z3.ULT(s.L,1<<40)); s.start=ctx.bv('start',64); ctx.assume(z3.ULE(s.start,s.L)); st.g['#pos']=s.start; st.g['#err']=v64(0); s.p=ctx.E.alloc(st,'FILE',8); s.err=ctx.E.alloc(st,'errno',4,lazy=True); ctx.E.store(st,I32,ctx.bv('errno',32),s.err)
    def B(s,i): return z3.Select(s.F,i)
    def pos(s,t): return T64(t.g['#pos'])
def f_of(E,p):
    f=E.ctx.con.f
    if not isptr(p,f.p): raise Unsupported('another file')
    return f
def fail(E,st,f):
    """a read error can happen at any time"""
    t=st.fork(); e=E.fresh('errno',32); t.assume(e!=0); E.store(t,I32,e,f.err); t.g['#err']=v64(1); return t
def c_getc(E,st,a,ins):
    f=f_of(E,a[0]); p=f.pos(st); t=st.fork(); u=fail(E,st,f); st.assume(z3.ULT(p,f.L)); t.assume(p==f.L); st.g['#pos']=z3.simplify(p+1); h=getattr(E.ctx.con,'on_char',None)
    if h: h(E,st,p)
    return Multi([(st,z3.ZeroExt(24,f.B(p))),(t,z3.BitVecVal(0xffffffff,32)),(u,z3.BitVecVal(0xffffffff,32))])
def c_fread(E,st,a,ins):
    f=f_of(E,a[3]); sz,n=norm(a[1]),norm(a[2]); z=z3.simplify(T64(sz)*T64(n)); p=f.pos(st); span_check(E,st,a[0],norm(z) if not z3.is_bv_value(z) else z.as_long(),'fread buffer')
    t=st.fork(); u=fail(E,st,f); st.assume(z3.ULE(z,f.L-p)); t.assume(z3.UGT(z,f.L-p)); d=a[0]
    o=st.mem[d.obj]
    if o.mode!='bytes': E.tobytes(st,st.wobj(d.obj))
    o=st.wobj(d.obj); o.arr=lam_copy(o.arr,Lin.of(d.off).bv(),f.F,p,z)
    if st.writes is not None: st.writes.append((d.obj,None,None))
    st.g['#pos']=z3.simplify(p+z); out=[(st,n)]
    for w in (t,u): r=E.fresh('items_read',64); w.assume(z3.ULT(r,T64(n))); q=E.fresh('pos',64); w.assume(z3.And(z3.ULE(p,q),z3.ULE(q,f.L))); w.g['#pos']=q; out.append((w,r))
    return Multi(out)
def c_tell(E,st,a,ins): return f_of(E,a[0]).pos(st)
def c_ferror(E,st,a,ins): f_of(E,a[0]); return z3.simplify(z3.Extract(31,0,T64(st.g['#err'])))
def c_errno(E,st,a,ins): return E.ctx.con.f.err
def c_throwf(E,st,a,ins): return Thrown(wr_err(re.search(r'(error_\w+)::',DEM[E._cur[2]]).group(1)),info='own')
R_io=[(r'^(_IO_)?f?getc(_unlocked)?$',c_getc),(r'^fread$',c_fread),(r'^ftello?(64)?$',c_tell),(r'^ferror$',c_ferror),(r'^__errno_location$',c_errno),(r'^wreport::error_\w+::throwf\(',c_throwf)]
def at(f,p,sig): return z3.And(*[f.B(p+i)==ch(c) for i,c in enumerate(sig)])
# ------------------------------------------------------------------ looking for the start of a message
class Seek(Contract):
    """goes past the first signature in the file"""
    search='framing'; name='seek_past_signature'; fn=r'^wreport::\(anonymous namespace\)::seek_past_signature\('; uses=R_io; opts={'strides':(1,)}
    def cases(s): return [(g,n) for g in ('BUFR','CREX++') for n in (0,1)]
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('n',v64(len(s.sig)))]
    def variant(s,E,w): return s.f.pos(w.st)
    def cands(s,E,entry,keys,fn,h):
        f=s.f; n=len(s.sig); c0=f.start; pos=lambda w:f.pos(w.st); out=[('inside',lambda w:z3.And(z3.ULE(c0,pos(w)),z3.ULE(pos(w),f.L)))]
        out.append(('no error so far',lambda w:z3.And(T64(w.st.g['#err'])==0,tobv(E.load(w.st,I32,f.err),32)==0)))
        for k in keys:
            if k[0] not in ('phi','cell') or isinstance(entry.raw(k),Ptr): continue
            for nm,g in (('%s'%(k,),lambda w,k=k:w.term(k)),('%d-%s'%(n,k),lambda w,k=k:n-w.term(k))):
                out.append((nm+' characters found',lambda w,g=g:z3.And(z3.ULE(g(w),n),z3.ULE(g(w),pos(w)-c0),*[z3.Implies(z3.UGT(g(w),i),f.B(pos(w)-g(w)+i)==ch(s.sig[i])) for i in range(n)])))
                out.append((nm+' nothing before',lambda w,g=g:z3.Implies(z3.And(z3.ULE(c0,K),z3.ULT(K,pos(w)-g(w)),z3.ULE(K,f.L)),z3.Or(*[z3.And(z3.ULT(K+j,pos(w)),f.B(K+j)!=ch(s.sig[j])) for j in range(n)]))))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.sig=case[0]; n=len(s.sig); f=s.f=FILE_(ctx); ctx.assume(z3.ULT(K,1<<41)); A=z3.Array('SIGNATURE',B64,B8); sg=ctx.bytesobj('signature',A,n+1,ro=True)
        for i,c in enumerate(s.sig+'\0'): ctx.assume(z3.Select(A,v64(i))==ch(c))
        name=ctx.cstring('fname',ctx.arr('FN',8),ctx.bv('fname_length',64)) if case[1] else NULL
        def post(o):
            t=o.st; p=f.pos(t)
            if o.kind=='throw': ctx.prove(t,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_system')),T64(t.g['#err'])==1),'fails only when the file cannot be read'); return
            ctx.prove(t,T64(t.g['#err'])==0,'fails when the file cannot be read'); r=bit(o.val)
            ctx.prove(t,z3.Implies(r,z3.And(z3.ULE(f.start+n,p),z3.ULE(p,f.L),at(f,p-n,s.sig))),'found: the signature has just been read')
            ctx.prove(t,z3.Implies(z3.And(r,z3.ULE(f.start,K),z3.ULT(K,p-n)),z3.Not(at(f,K,s.sig))),'found: there is none before')
            ctx.prove(t,z3.Implies(z3.Not(r),z3.And(p==f.L,z3.Implies(z3.And(z3.ULE(f.start,K),z3.ULE(K+n,f.L)),z3.Not(at(f,K,s.sig))))),'not found: there is none in the rest of the file')
        ctx.call([f.p,sg,n,name],post)
def bit(x):
    if isinstance(x,bool): return z3.BoolVal(x)
    if isinstance(x,int): return z3.BoolVal(x!=0)
    if z3.is_bool(x): return x
    return x!=0
def c_seek(E,st,a,ins):
    """seek_past_signature: see its contract"""
    c=E.ctx.con; f=f_of(E,a[0]); sig=conc_cstr(E,st,a[1])
    if gl(st,'seek'): raise Unsupported('second signature')
    E.prove(st,z3.BoolVal(sig is not None and sig.decode()==c.SIG and norm(a[2])==len(c.SIG)),E.cname()+'looks for the signature of its messages'); n=len(c.SIG); t=st.fork(); u=fail(E,st,f); p=c.msg
    st.assume(z3.And(z3.ULE(f.start,p),z3.ULE(p+n,f.L),at(f,p,c.SIG))); st.g['#pos']=z3.simplify(p+n); push(st,'seek',1); t.g['#pos']=f.L; push(t,'none',1)
    return Multi([(st,1),(t,0),(u,Thrown(wr_err('error_system'),info='io'))])
SK=(r'^wreport::\(anonymous namespace\)::seek_past_signature\(',c_seek)
class Read(Contract):
    search='framing'
    def cases(s): return [(a,b) for a in (0,1) for b in (0,1)]
    def setup(s,ctx,case):
        E=ctx.E; st=ctx.st; s.ctx=ctx; s.f=FILE_(ctx); s.msg=ctx.bv('message',64); s.buf=E.alloc(st,'buf',32); n=ctx.bv('old_size',64); ctx.assume(z3.ULT(n,1<<31)); str_new(E,st,s.buf,ctx.arr('OLD',8),n); s.fnm=ctx.cstring('fname',ctx.arr('FN',8),ctx.bv('fname_length',64)) if case[0] else NULL; s.off=E.alloc(st,'offset',8,lazy=True) if case[1] else NULL
        if case[1]: E.store(st,I64,ctx.bv('old_offset',64),s.off)
        return [s.f.p,s.buf,s.fnm,s.off]
    def found(s,t,o):
        """-> True when a message has been read"""
        ctx=s.ctx; r=bit(o.val)
        if gl(t,'none') or not gl(t,'seek'): ctx.prove(t,z3.And(z3.Not(r),z3.BoolVal(bool(gl(t,'none')))),'false only when there are no more messages'); return False
        ctx.prove(t,r,'true when a message has been read'); ctx.prove(t,T64(t.g['#err'])==0,'fails when the file cannot be read')
        if isinstance(s.off,Ptr) and s.off.obj: ctx.prove(t,T64(ctx.E.load(t,I64,s.off))==s.msg,'the offset is that of the message')
        return True
class ReadBufr(Read):
    SIG='BUFR'; name='BufrBulletin::read'; fn=r'^wreport::BufrBulletin::read\('; uses=R_io+[SK]; opts={'strides':(1,)}
    def run(s,ctx,case):
        args=s.setup(ctx,case); f=s.f; p=s.msg; n=z3.ZeroExt(40,z3.Concat(f.B(p+4),f.B(p+5),f.B(p+6)))
        def post(o):
            t=o.st; head=z3.ULE(p+8,f.L); err=T64(t.g['#err'])!=0
            if o.kind=='throw':
                if o.exc.info=='io': return
                bad=z3.Or(err,z3.Not(head),z3.ULT(n,12),z3.UGT(p+n,f.L)); ctx.prove(t,bad if gl(t,'seek') else z3.BoolVal(False),'fails only when the message is not whole'); ctx.prove(t,z3.Implies(z3.And(z3.Not(err),head),z3.BoolVal(o.exc.typ==wr_err('error_consistency'))),'messages that are not whole are consistency errors'); return
            if not s.found(t,o): return
            d,m=str_get(ctx.E,t,s.buf); ctx.prove(t,z3.And(head,z3.UGE(n,12),z3.ULE(p+n,f.L)),'messages that are not whole are refused'); ctx.prove(t,z3.And(T64(m)==n,f.pos(t)==p+n),'reads as much as the message says'); ctx.prove(t,z3.Implies(z3.ULT(K,n),z3.Select(t.mem[d.obj].arr,K)==f.B(p+K)),'gives the characters of the message')
        ctx.call(args,post)
# ------------------------------------------------------------------ the end of a CREX message: ++, one or more CR or LF, 7777
# the ghost #q says how much of the end is matched by what has been read (the automaton of the pattern)
STATES=(0,1,2,3,5,6,7,8)
def step(q,c):
    nl=z3.Or(c==10,c==13); b=lambda x:z3.BitVecVal(x,8); plus=c==43; sv=c==55
    r=b(0)
    r=z3.If(plus,z3.If(z3.Or(q==1,q==2),b(2),b(1)),z3.If(z3.And(nl,z3.Or(q==2,q==3)),b(3),z3.If(z3.And(sv,q==3),b(5),z3.If(z3.And(sv,z3.UGE(q,5),z3.ULT(q,8)),q+1,b(0)))))
    return r
def k_clear(E,st,a,ins):
    c=E.ctx.con
    if not isptr(a[0],c.buf): return NotImplemented
    st.g['#len']=v64(0); return 0
def k_put(E,st,x):
    c=E.ctx.con; n=T64(st.g['#len']); E.prove(st,z3.And(z3.BoolVal(bool(gl(st,'seek'))),x==c.f.B(c.msg+n)),E.cname()+'gives the characters of the message, in order'); st.g['#len']=z3.simplify(n+1)
def k_char(E,st,a,ins):
    if not isptr(a[0],E.ctx.con.buf): return NotImplemented
    k_put(E,st,tobv(a[1],8)); return a[0]
def k_lit(E,st,a,ins):
    c=E.ctx.con
    if not isptr(a[0],c.buf): return NotImplemented
    l=conc_cstr(E,st,a[1])
    if l is None: raise Unsupported('text appended')
    if '::operator=' in DEM[E._cur[2]] or '::assign' in DEM[E._cur[2]]: st.g['#len']=v64(0)
    if len(a)>2 and isc(norm(a[2])): l=l[:norm(a[2])]
    for x in l: k_put(E,st,z3.BitVecVal(x,8))
    return a[0]
def k_fill(E,st,a,ins):
    if not isptr(a[0],E.ctx.con.buf): return NotImplemented
    n=norm(a[1])
    if not isc(n) or n>16: raise Unsupported('fill')
    for i in range(n): k_put(E,st,tobv(a[2],8))
    return a[0]
class ReadCrex(Read):
    SIG='CREX++'; name='CrexBulletin::read'; fn=r'^wreport::CrexBulletin::read\('; opts={'strides':(1,)}
    uses=R_io+[SK,(SR+r'::clear\(\)',k_clear),(SR+r'::(push_back|operator\+=)\(char\)',k_char),(SR+r'::append\(unsigned long, char\)',k_fill),(SR+r'::(append|operator\+=|operator=|assign)\(char const\*(, unsigned long)?\)',k_lit)]
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return []
    def variant(s,E,w): return s.f.pos(w.st)
    def on_char(s,E,st,p):
        q=st.g['#q']; E.prove(st,q!=8,E.cname()+'does not read past the end of the message'); st.g['#q']=z3.simplify(step(q,s.f.B(p)))
    def cands(s,E,entry,keys,fn,h):
        f=s.f; b=s.msg+6; pos=lambda w:f.pos(w.st); Q=lambda w:w.st.g['#q']; out=[('inside',lambda w:z3.And(z3.ULE(b,pos(w)),z3.ULE(pos(w),f.L))),('no error so far',lambda w:T64(w.st.g['#err'])==0),('characters given',lambda w:T64(w.st.g['#len'])==pos(w)-s.msg),('states',lambda w:z3.Or(*[Q(w)==i for i in STATES]))]
        for k in keys:
            if k[0] not in ('phi','cell') or isinstance(entry.raw(k),Ptr): continue
            # what the variable holds in each state
            for q in STATES:
                for v in range(9): out.append(('%s in state %d is %d'%(str(k),q,v),lambda w,k=k,q=q,v=v:z3.Implies(Q(w)==q,w.term(k)==v)))
        return out
    def run(s,ctx,case):
        args=s.setup(ctx,case); f=s.f; ctx.st.g['#len']=ctx.bv('old_length',64); ctx.st.g['#q']=z3.BitVecVal(0,8)
        def post(o):
            t=o.st; e=f.pos(t); q=t.g['#q']
            if o.kind=='throw':
                if o.exc.info=='io': return
                err=T64(t.g['#err'])!=0; ctx.prove(t,z3.Or(err,z3.And(q!=8,e==f.L)) if gl(t,'seek') else z3.BoolVal(False),'fails only when the end of the message is not there'); ctx.prove(t,z3.Or(err,z3.BoolVal(o.exc.typ==wr_err('error_parse'))),'messages without an end are parse errors'); return
            if not s.found(t,o): return
            ctx.prove(t,q==8,'reads up to the end of the message'); ctx.prove(t,T64(t.g['#len'])==e-s.msg,'gives all the message and nothing else')
        ctx.call(args,post)
# ------------------------------------------------------------------ writing
def w_put(E,st,n,sel,what):
    """n characters go to the file: they are the next ones expected"""
    c=E.ctx.con; w=T64(st.g['#out']); E.prove(st,z3.ULE(w+n,c.total),E.cname()+'nothing but the message is written'); E.prove(st,z3.Implies(z3.And(z3.ULE(w,K),z3.ULT(K,w+n)),sel(K-w)==c.exp(K)),E.cname()+'the characters of the message are written, in order'); st.g['#out']=z3.simplify(w+n)
def wfail(E,st):
    t=st.fork(); e=E.fresh('errno',32); t.assume(e!=0); E.store(t,I32,e,E.ctx.con.f.err); t.g['#err']=v64(1); return t
def w_fwrite(E,st,a,ins):
    f_of(E,a[3]); sz,n=norm(a[1]),norm(a[2]); z=z3.simplify(T64(sz)*T64(n)); span_check(E,st,a[0],norm(z) if not z3.is_bv_value(z) else z.as_long(),'fwrite data')
    t=wfail(E,st); r=E.fresh('items_written',64); t.assume(z3.ULT(r,T64(n))); e=st.fork(); e.assume(z==0); st.assume(z!=0); o=st.mem[a[0].obj]
    if o.mode!='bytes': E.tobytes(st,st.wobj(a[0].obj)); o=st.mem[a[0].obj]
    off=Lin.of(a[0].off).bv(); arr=o.arr; w_put(E,st,z,lambda i:z3.Select(arr,off+i),'fwrite'); return Multi([(st,n),(e,0),(t,r)])
def w_fputs(E,st,a,ins):
    f_of(E,a[1]); l=conc_cstr(E,st,a[0])
    if l is None: raise Unsupported('text written')
    t=wfail(E,st)
    def sel(i):
        r=z3.BitVecVal(0,8)
        for j,x in enumerate(l): r=z3.If(i==j,z3.BitVecVal(x,8),r)
        return r
    w_put(E,st,v64(len(l)),sel,'fputs'); r=E.fresh('fputs',32); st.assume(r>=0); return Multi([(st,r),(t,z3.BitVecVal(0xffffffff,32))])
def w_putc(E,st,a,ins):
    f_of(E,a[1]); t=wfail(E,st); x=tobv(a[0],32); w_put(E,st,v64(1),lambda i:z3.Extract(7,0,x),'putc'); return Multi([(st,x&255),(t,z3.BitVecVal(0xffffffff,32))])
class Write(Contract):
    search='framing'; uses=R_io+[(r'^fwrite(_unlocked)?$',w_fwrite),(r'^fputs(_unlocked)?$',w_fputs),(r'^(_IO_)?f?putc(_unlocked)?$',w_putc)]; opts={'strides':(1,)}
    def __init__(s,cl,tail): s.name=cl+'::write'; s.fn=r'^wreport::%s::write\('%cl; s.tail=tail
    def cases(s): return [0,1]
    def exp(s,i):
        r=z3.BitVecVal(0,8)
        for j,x in enumerate(s.tail): r=z3.If(i==s.n+j,ch(x),r)
        return z3.If(z3.ULT(i,s.n),z3.Select(s.A,i),r)
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; f=s.f=FILE_(ctx); s.A=ctx.arr('MESSAGE',8); s.n=ctx.bv('message_size',64); ctx.assume(z3.ULT(s.n,1<<31)); s.total=s.n+len(s.tail); buf=E.alloc(st,'buf',32); str_new(E,st,buf,s.A,s.n); st.g['#out']=v64(0); nm=ctx.cstring('fname',ctx.arr('FN',8),ctx.bv('fname_length',64)) if case else NULL
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_system')),z3.Or(s.n==0,T64(t.g['#err'])==1)),'fails only when the file cannot be written'); return
            ctx.prove(t,T64(t.g['#err'])==0,'fails when the file cannot be written'); ctx.prove(t,T64(t.g['#out'])==s.total,'all the message is written')
        ctx.call([buf,f.p,nm],post)
CONTRACTS=[Seek(),ReadBufr(),ReadCrex(),Write('BufrBulletin',''),Write('CrexBulletin','\r\r\n')]
