"""Ghost model of whole variables: numbers, owned buffers, attribute chains."""
from .varlib import *
from ..lib import bytes_obj
MAXLEN=1<<20
K=z3.BitVec('K',64)
TY=[INTEGER,DECIMAL,STRING,BINARY]
class BUFVAR(VAR):
    """text or opaque variable; alloc: has a buffer already (contents arbitrary)"""
    def __init__(s,ctx,type,alloc,pre='v',isset=None):
        inf=VINFO(ctx,type,0,rng=False,pre='' if pre=='v' else pre+'_'); ctx.assume(z3.And(z3.UGE(inf.len,1),z3.ULT(inf.len,MAXLEN)))
        if type==BINARY:
            ctx.assume(z3.And(z3.ULT(inf.bit_len,8*MAXLEN),z3.UGE(inf.bit_len,1),inf.len==z3.UDiv(inf.bit_len+7,z3.BitVecVal(8,32))))
        s.len64=z3.ZeroExt(32,inf.len)
        s.B=None; val=NULL
        if alloc:
            s.B=ctx.arr(pre+'B',24); val=ctx.bytesobj(pre+'.buffer',s.B,s.len64+1)
        VAR.__init__(s,ctx,inf,pre,val=val,isset=isset if alloc else z3.BitVecVal(0,8))
        s.buf0=val
    def buf(s,st):
        p=s.get(st,'m_value',PTR)
        return p if isinstance(p,Ptr) and p.obj else None
    def check_buf(s,o):
        """the variable owns a live buffer of len+1 bytes"""
        ctx=s.ctx; st=o.st; p=s.buf(st)
        if not ctx.prove(st,p is not None and st.mem[p.obj].alive,'a set text variable has a live buffer'): return None
        ctx.prove(st,z3.And(T64(st.mem[p.obj].size)==s.len64+1,Lin.of(p.off).bv()==0),'the buffer has room for the declared length and the terminator')
        from ..lib import bytes_obj
        return bytes_obj(ctx.E,st,p).arr
def umin(a,b): return z3.If(z3.ULT(a,b),a,b)
class OVAR:
    """a variable of any type in any state: unset, set, or unset while still owning a buffer"""
    def __init__(s,ctx,pre,type,attrs,info=None,alloc=1):
        E=ctx.E; s.ctx=ctx; s.type=type; s.pre=pre
        if type in (INTEGER,DECIMAL):
            s.info=info or VINFO(ctx,type,2 if type==DECIMAL else 0,rng=False,pre=pre+'_')
            s.v=VAR(ctx,s.info,pre); s.B=None; s.buf0=NULL
        elif info is None:
            s.v=BUFVAR(ctx,type,alloc,pre); s.info=s.v.info; s.B=s.v.B; s.buf0=s.v.buf0
        else:
            s.info=info; s.len64=z3.ZeroExt(32,info.len); s.B=None; s.buf0=NULL
            if alloc: s.B=ctx.arr(pre+'B',24); s.buf0=ctx.bytesobj(pre+'.buffer',s.B,s.len64+1)
            s.v=VAR(ctx,info,pre,val=s.buf0,isset=None if alloc else z3.BitVecVal(0,8))
        s.p=s.v.p; s.isset0=s.v.isset0; s.i0=s.v.i0; s.len64=z3.ZeroExt(32,s.info.len)
        s.attr=NULL
        if attrs:
            s.attr=E.alloc(ctx.st,pre+'.attr',off(E,'Var'))     # opaque: only recursive calls look inside
        s.v.set(ctx.st,'m_attrs',PTR,s.attr)
    def get(s,st,f,t): return s.v.get(st,f,t)
    def isset(s,st): return s.v.isset(st)
    def attrs(s,st): return s.get(st,'m_attrs',PTR)
    def bufp(s,st,type=None):
        p=s.get(st,'m_value',PTR); return p if isinstance(p,Ptr) else None
def same_ptr(a,b): return isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj and norm(a.off)==norm(b.off)
def opaque(E,st,p): return isinstance(p,Ptr) and p.obj and st.mem[p.obj].name.endswith('.attr')
def gl(st,k): return st.g.get((k,),())
def push(st,k,x): st.g[(k,)]=gl(st,k)+(x,)
def sum_dtor(E,st,a,ins):
    p=a[0]
    if not (isinstance(p,Ptr) and p.obj): E.fail_path(st,'memory-safety: destruction of NULL')
    if not st.mem[p.obj].alive or p.obj in gl(st,'dead'): E.fail_path(st,'memory-safety: variable destroyed twice')
    push(st,'dead',p.obj); return 0
def sum_copy(E,st,a,ins):
    d,sr=a
    if sr.obj in gl(st,'dead') or not st.mem[sr.obj].alive: E.fail_path(st,'memory-safety: copy of a destroyed variable')
    push(st,'copies',(d.obj,sr.obj)); return 0
def sum_eq(E,st,a,ins):
    """recursive use of operator== on the rest of the chains"""
    r=E.freshbool('attrs_equal'); push(st,'eqs',(a[0],a[1],r)); return r
R_dtor=(r'^wreport::Var::~Var\(\)$',sum_dtor)
R_copy=(r'^wreport::Var::Var\(wreport::Var const&\)$',sum_copy)
R_eq=(r'^wreport::Var::operator==\(wreport::Var const&\) const$',sum_eq)
R_ne=(r'^wreport::Var::operator!=\(wreport::Var const&\) const$',lambda E,st,a,ins:z3.Not(sum_eq(E,st,a,ins)))
def check_same_value(ctx,st,dst,src,srcarr,what):
    """dst holds the value src had before"""
    E=ctx.E; t=src.type
    if t in (INTEGER,DECIMAL):
        ctx.prove(st,z3.Implies(src.isset0==1,tobv(dst.get(st,'m_value',I32),32)==src.i0),what+'the stored number is the same'); return None
    u=st.fork(); u.assume(src.isset0==1)
    if not E.feasible(u): return None
    p=dst.bufp(u)
    if not ctx.prove(u,p is not None and p.obj!=0 and u.mem[p.obj].alive,what+'a set variable has a buffer of its own'): return None
    ctx.prove(u,z3.And(T64(u.mem[p.obj].size)==src.len64+1,T64(norm(p.off) if isc(norm(p.off)) else p.off)==0),what+'the buffer has room for the declared length')
    a=bytes_obj(E,u,p).arr
    n=src.len64 if t==BINARY else src.len64+1
    ctx.prove(u,z3.Implies(z3.ULT(K,n),z3.Select(a,K)==z3.Select(srcarr,K)),what+'every byte of the value is the same')
    return p
def check_src_intact(ctx,st,src):
    E=ctx.E
    ctx.prove(st,z3.And(src.isset(st)==src.isset0,z3.BoolVal(same_ptr(src.attrs(st),src.attr)),z3.BoolVal(same_ptr(src.get(st,'m_info',PTR),src.info.p))),'the source is unchanged')
    if src.type in (INTEGER,DECIMAL): ctx.prove(st,z3.Implies(src.isset0==1,tobv(src.get(st,'m_value',I32),32)==src.i0),'the source keeps its number')
    else:
        ctx.prove(st,same_ptr(src.bufp(st) or NULL,src.buf0),'the source keeps its buffer')
        if src.buf0.obj: ctx.prove(st,z3.And(z3.BoolVal(st.mem[src.buf0.obj].alive),z3.Implies(z3.ULT(K,src.len64+1),z3.Select(st.mem[src.buf0.obj].arr,K)==z3.Select(src.B,K))),'the source keeps its text')
    if src.attr.obj: ctx.prove(st,src.attr.obj not in gl(st,'dead') and st.mem[src.attr.obj].alive,'the attributes of the source are kept')
def check_attr_copy(ctx,st,dst,src):
    p=dst.attrs(st)
    if not src.attr.obj: ctx.prove(st,isinstance(p,Ptr) and p.obj==0,'no attributes are copied from a variable without'); return
    cp=[d for d,s_ in gl(st,'copies') if s_==src.attr.obj]
    ctx.prove(st,isinstance(p,Ptr) and p.obj in cp and p.obj not in gl(st,'dead') and st.mem[p.obj].alive,'the attributes are copied')
def leak(ctx,st,allowed,what='no buffer is leaked'):
    """every heap block allocated for a value, before or during the call, is owned by one of the variables"""
    bad=[o for o in st.mem.values() if o.alive and o.id in st.g.get(('heap',),()) and o.id not in allowed]
    ctx.prove(st,not bad,what)

