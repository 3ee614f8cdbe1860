"""C05: variables are values: copy, move, assignment, comparison and destruction."""
from .varlib import *
from .varobj import *
from ..frame import recursive
import re
SRCS=['var.cc','varinfo.cc','options.cc','error.cc']
INST=['layout.cc','bits.cc']
ASSUMPTIONS=['attribute chains are finite and acyclic (induction over the chain: recursive calls on the rest of the chain are used by their contract)',
 'memcmp/strcmp are assumed contracts']

def src_cases(): return [(t,a) for t in TY for a in (0,1)]
class CopyCtor(Contract):
    name='Var(const Var&)'; fn=R_copy[0]; uses=[R_dtor,R_copy]; search='varcopy'
    def cases(s): return src_cases()
    def run(s,ctx,case):
        t,at=case; E=ctx.E; src=OVAR(ctx,'src',t,at)
        d=RAWVAR(ctx)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,same_ptr(d.get(st,'m_info',PTR),src.info.p),'the copy has the same description')
            ctx.prove(st,d.isset(st)==src.isset0,'the copy is set when the original is')
            p=check_same_value(ctx,st,d,src,src.B,'')
            if p is not None: ctx.prove(st,p.obj!=src.buf0.obj,'the copy does not share the buffer of the original')
            check_src_intact(ctx,st,src); check_attr_copy(ctx,st,d,src)
        ctx.call([d.p,src.p],post)
class RAWVAR:
    """storage for a Var about to be constructed"""
    def __init__(s,ctx): s.ctx=ctx; s.p=ctx.E.alloc(ctx.st,'dst.Var',off(ctx.E,'Var'))
    def get(s,st,f,t): return s.ctx.E.load(st,t,s.p.plus(off(s.ctx.E,'Var',f)))
    def isset(s,st): return tobv(s.get(st,'m_isset',I8),8)
    def attrs(s,st): return s.get(st,'m_attrs',PTR)
    def bufp(s,st):
        p=s.get(st,'m_value',PTR); return p if isinstance(p,Ptr) else None
def check_moved(ctx,st,d,src):
    """value and attributes moved out of src"""
    E=ctx.E
    ctx.prove(st,d.isset(st)==src.isset0,'the destination is set when the source was')
    ctx.prove(st,src.isset(st)==0,'the source is left unset')
    check_same_value(ctx,st,d,src,src.B,'')
    ctx.prove(st,same_ptr(d.attrs(st),src.attr),'the attributes are moved to the destination')
    ctx.prove(st,same_ptr(src.attrs(st),NULL),'the source has no attributes left')
    if src.type in (STRING,BINARY):
        a,b=d.bufp(st),src.bufp(st)
        u=st.fork(); u.assume(src.isset0==1)
        if E.feasible(u):
            a,b=d.bufp(u),src.bufp(u)
            ctx.prove(u,not(a is not None and b is not None and a.obj and a.obj==b.obj),'source and destination do not share a buffer')
class MoveCtor(Contract):
    name='Var(Var&&)'; fn=r'^wreport::Var::Var\(wreport::Var&&\)$'; uses=[R_dtor,R_copy]; search='varcopy'
    def cases(s): return src_cases()
    def run(s,ctx,case):
        t,at=case; src=OVAR(ctx,'src',t,at); d=RAWVAR(ctx)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,same_ptr(d.get(st,'m_info',PTR),src.info.p),'the destination has the same description')
            check_moved(ctx,st,d,src)
        ctx.call([d.p,src.p],post)
def dest_cases():
    r=[]
    for st_ in TY:
        for dt in TY:
            for same in ((0,1) if st_==dt else (0,)):
                for al in ((0,1) if dt>=2 else (0,)):
                    for at in ((0,0),(1,0),(0,1),(1,1)): r.append((st_,dt,same,al)+at)
    return r
class Assign(Contract):
    """operator= leaves the destination equal to the source whatever it held before"""
    def __init__(s,mv):
        s.mv=mv; s.name='operator=(Var%s)'%('&&' if mv else ' const&'); s.fn=r'^wreport::Var::operator=\(wreport::Var%s\)$'%('&&' if mv else ' const&')
        s.uses=[R_dtor,R_copy]; s.search='varcopy'
    def cases(s): return dest_cases()
    def run(s,ctx,case):
        t,dt,same,al,sa,da=case; E=ctx.E
        src=OVAR(ctx,'src',t,sa); d=OVAR(ctx,'dst',dt,da,info=src.info if same else None,alloc=al)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,same_ptr(o.val,d.p),'returns the destination')
            ctx.prove(st,same_ptr(d.get(st,'m_info',PTR),src.info.p),'the destination has the description of the source')
            if s.mv: check_moved(ctx,st,d,src)
            else:
                ctx.prove(st,d.isset(st)==src.isset0,'the destination is set when the source is')
                p=check_same_value(ctx,st,d,src,src.B,'')
                if p is not None: ctx.prove(st,p.obj!=src.buf0.obj,'the destination does not share the buffer of the source')
                check_src_intact(ctx,st,src); check_attr_copy(ctx,st,d,src)
            if d.attr.obj: ctx.prove(st,gl(st,'dead').count(d.attr.obj)==1 and not st.mem[d.attr.obj].alive,'the old attributes are deleted once')
            if d.buf0.obj:
                p,q=(d.bufp(st),src.bufp(st)) if t in (STRING,BINARY) else (None,None)
                owned=[x.obj for x in (p,q) if x is not None]
                ctx.prove(st,not st.mem[d.buf0.obj].alive or d.buf0.obj in owned,'the old buffer is released or reused')
                ctx.prove(st,st.mem[d.buf0.obj].alive or d.buf0.obj not in owned,'a released buffer is not used any more')
        ctx.call([d.p,src.p],post)
class AssignSelf(Contract):
    def __init__(s,mv): s.mv=mv; s.name='operator=(Var%s) on itself'%('&&' if mv else ' const&'); s.fn=Assign(mv).fn; s.uses=[R_dtor,R_copy]; s.search='varcopy'
    def cases(s): return src_cases()
    def run(s,ctx,case):
        t,at=case; src=OVAR(ctx,'src',t,at)
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            ctx.prove(o.st,same_ptr(o.val,src.p),'returns the variable'); check_src_intact(ctx,o.st,src)
        ctx.call([src.p,src.p],post)
class AssignAttr(Contract):
    """assigning a variable from its own first attribute"""
    def __init__(s,mv): s.mv=mv; s.name='operator=(Var%s) from an own attribute'%('&&' if mv else ' const&'); s.fn=Assign(mv).fn; s.uses=[R_dtor,R_copy]; s.search='varcopy'
    def cases(s): return [(t,dt,a) for t in (INTEGER,STRING) for dt in (INTEGER,STRING) for a in (0,1)]
    def run(s,ctx,case):
        t,dt,at=case; E=ctx.E
        src=OVAR(ctx,'src',t,at); d=OVAR(ctx,'dst',dt,0); d.v.set(ctx.st,'m_attrs',PTR,src.p)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,same_ptr(d.get(st,'m_info',PTR),src.info.p),'the destination has the description of the source')
            ctx.prove(st,d.isset(st)==src.isset0,'the destination is set when the source was')
            check_same_value(ctx,st,d,src,src.B,'')
            if s.mv: ctx.prove(st,same_ptr(d.attrs(st),src.attr),'the attributes are moved to the destination')
            else: check_attr_copy(ctx,st,d,src)
            ctx.prove(st,gl(st,'dead').count(src.p.obj)==1,'the old attribute is deleted once')
        ctx.call([d.p,src.p],post)
class Dtor(Contract):
    name='~Var'; fn=R_dtor[0]; uses=[R_dtor]; search='varcopy'
    def cases(s): return [(t,a,al) for t,a in src_cases() for al in (0,1)]
    def run(s,ctx,case):
        t,at,al=case; v=OVAR(ctx,'v',t,at,alloc=al)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            if v.buf0.obj: ctx.prove(st,not st.mem[v.buf0.obj].alive,'the buffer is released')
            if v.attr.obj: ctx.prove(st,gl(st,'dead')==(v.attr.obj,) and not st.mem[v.attr.obj].alive,'the attributes are deleted once')
        ctx.call([v.p],post)

def cmp_stub(kind):
    def f(E,st,a,ins):
        r=E.fresh(kind,32); push(st,'cmps',(kind,a[0],a[1],a[2] if len(a)>2 else None,r)); 
        return r
    return f
R_cmp=[(r'^(memcmp|bcmp)$',cmp_stub('memcmp')),(r'^strcmp$',cmp_stub('strcmp'))]
def spec_value_equal(ctx,st,a,b):
    """-> Bool: values equal, given what memcmp/strcmp answered; obligations on how they were called"""
    num=lambda t:t in (INTEGER,DECIMAL)
    both=z3.And(a.isset0==1,b.isset0==1); none=z3.And(a.isset0==0,b.isset0==0)
    if num(a.type)!=num(b.type) or (not num(a.type) and a.type!=b.type): v=z3.BoolVal(False)
    elif num(a.type): v=a.i0==b.i0
    else:
        cs=[c for c in gl(st,'cmps')]
        if a.type==BINARY and not cs:
            v=z3.BoolVal(False); ctx.prove(st,z3.Implies(both,a.info.len!=b.info.len),'opaque values of the same length are compared')
        elif not cs: v=z3.BoolVal(False); ctx.prove(st,z3.Not(both),'text values are compared')
        else:
            k,p,q,n,r=cs[0]
            ok=len(cs)==1 and {p.obj,q.obj}=={a.buf0.obj,b.buf0.obj} and norm(p.off)==0 and norm(q.off)==0
            if a.type==STRING: ctx.prove(st,ok and k=='strcmp','text is compared up to its end')
            else: ctx.prove(st,z3.And(z3.BoolVal(ok and k=='memcmp'),T64(n)==a.len64,a.info.len==b.info.len),'opaque values are compared on all their bytes')
            v=r==0
    return z3.Or(none,z3.And(both,v))
class ValueEquals(Contract):
    name='Var::value_equals'; fn=r'^wreport::Var::value_equals\('; uses=R_cmp; search='vareq'
    def cases(s): return [(a,b) for a in TY for b in TY]
    def run(s,ctx,case):
        a=OVAR(ctx,'a',case[0],0); b=OVAR(ctx,'b',case[1],0)
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            r=tobv(zext(o.val,1,8) if not isc(o.val) else o.val,8)!=0
            ctx.prove(o.st,r==spec_value_equal(ctx,o.st,a,b),'equal exactly when both are unset or both hold the same value')
        ctx.call([a.p,b.p],post)
class OpEq(Contract):
    name='Var::operator=='; fn=R_eq[0]; uses=R_cmp+[R_eq,R_ne]; search='vareq'
    def cases(s): return [(a,b,x,y) for a in TY for b in TY for x in (0,1) for y in (0,1)]+['loop']
    def cut(s,dem,h): return s.L is not None
    def cands(s,E,entry,keys,fn,h):
        if s.L is None: return []
        (A,n),(B,m)=s.L; out=[]; J=s.J
        def ix(w,k,o): return w.index(k) if isinstance(w.raw(k),Ptr) and w.raw(k).obj==o.obj else None
        def isnull(w,k): return isinstance(w.raw(k),Ptr) and not w.raw(k).obj
        for k in keys:
            for o,c in ((A,n),(B,m)):
                def one(w,k=k,o=o,c=c):
                    i=ix(w,k,o); return z3.BoolVal(True) if i is None else z3.And(z3.ULT(i,c),z3.Implies(z3.ULT(J,i),s.good(J)))
                out.append(('all equal before %s'%(k,),one))
            for k2 in keys:
                if k2==k: continue
                def pair(w,k=k,k2=k2):
                    i,j=ix(w,k,A),ix(w,k2,B)
                    if i is not None and j is not None: return i==j
                    if i is not None and isnull(w,k2): return z3.And(i==m,z3.Implies(z3.ULT(J,i),s.good(J)))
                    if j is not None and isnull(w,k): return z3.And(j==n,z3.Implies(z3.ULT(J,j),s.good(J)))
                    if isnull(w,k) and isnull(w,k2): return z3.And(n==m,z3.Implies(z3.ULT(J,n),s.good(J)))
                    return z3.BoolVal(True)
                out.append(('%s and %s go together'%(k,k2),pair))
        return out
    def loop(s,ctx):
        """code that compares two chains in a loop: all nodes, by code and value"""
        E=ctx.E; z=off(E,'Var'); iz=off(E,'Varinfo'); S64=z3.BitVecSort(64); s.J=J=z3.BitVec('J',64); VE=z3.Array('value_equal',S64,z3.BoolSort()); C=[z3.Array('codes%d'%i,S64,z3.BitVecSort(16)) for i in (0,1)]; EQ=z3.Bool('all_equal'); s.L=[]
        n,m=ctx.bv('n',64),ctx.bv('m',64); ctx.assume(z3.And(z3.UGE(n,1),z3.ULT(n,1<<16),z3.UGE(m,1),z3.ULT(m,1<<16)))
        s.good=lambda i:z3.And(z3.Select(C[0],i)==z3.Select(C[1],i),z3.Select(VE,i))
        ctx.assume(z3.Implies(EQ,n==m))
        def ax(st,i): st.assume(z3.Implies(z3.And(EQ,z3.ULT(i,n),z3.ULT(i,m)),s.good(i)))
        for q,c in ((0,n),(1,m)):
            def code(E,st,i,q=q): ax(st,i); return cur_int(z3.simplify(z3.Select(C[q],i)),16)
            infos=recobj(ctx,'infos%d'%q,iz,c,{off(E,'Varinfo','code'):(2,'i',code)})
            def nxt(E,st,i,q=q,c=c):
                last=z3.simplify(i+1==c)
                if E.must(st,last): return NULL
                if E.must(st,z3.Not(last)): return Ptr(s.L[q][0].obj,Lin.of(z3.simplify(i+1)).mul(z))
                raise NeedFork([last,z3.Not(last)])
            s.L.append((recobj(ctx,'nodes%d'%q,z,c,{off(E,'Var','m_info'):(8,'p',lambda E,st,i,infos=infos:Ptr(infos.obj,Lin.of(i).mul(iz))),off(E,'Var','m_attrs'):(8,'p',nxt)}),c))
        (A,_),(B,_)=s.L
        def veq(E,st,a,ins):
            if s.L is None: return NotImplemented
            p,q=a
            if p.obj==B.obj: p,q=q,p
            i=Lin.of(p.off).divexact(z) if isinstance(p,Ptr) and p.obj==A.obj else None; j=Lin.of(q.off).divexact(z) if isinstance(q,Ptr) and q.obj==B.obj else None
            E.prove(st,i is not None and j is not None and E.must(st,i.bv()==j.bv()),E.cname()+'attributes at the same place are compared'); ax(st,i.bv()); return z3.Select(VE,i.bv())
        E.local.insert(0,(re.compile(r'^wreport::Var::value_equals\('),veq))
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            r=tobv(zext(o.val,1,8) if not isc(o.val) else o.val,8)!=0
            ctx.prove(st,z3.Implies(r,z3.And(n==m,z3.Implies(z3.ULT(J,n),s.good(J)))),'equal only when all the values and attributes are'); ctx.prove(st,z3.Implies(z3.Not(r),z3.Not(EQ)),'different only when a value or an attribute is')
        ctx.call([A,B],post)
    def run(s,ctx,case):
        s.L=None
        if (case=='loop')==recursive(ctx.E,ctx.fname): return 'n/a'
        if case=='loop': return s.loop(ctx)
        a=OVAR(ctx,'a',case[0],case[2]); b=OVAR(ctx,'b',case[1],case[3])
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            r=tobv(zext(o.val,1,8) if not isc(o.val) else o.val,8)!=0
            co=a.info.code==b.info.code
            u=st.fork(); u.assume(z3.Not(co))
            if ctx.E.feasible(u): ctx.prove(u,z3.Not(r),'variables with different codes differ')
            st.assume(co)
            if not ctx.E.feasible(st): return
            ve=spec_value_equal(ctx,st,a,b) if not(a.type>=2 and a.type==b.type and not gl(st,'cmps')) else None
            if ve is None:
                # decided without looking at the values
                n=z3.And(a.isset0==0,b.isset0==0); ve=n; ctx.prove(st,z3.Implies(z3.And(a.isset0==1,b.isset0==1),z3.Or(z3.BoolVal(a.type==BINARY),z3.Not(r))),'set values are compared')
            if case[2] and case[3]:
                es=gl(st,'eqs')
                u=st.fork(); u.assume(z3.Not(ve))
                if ctx.E.feasible(u): ctx.prove(u,z3.Not(r),'variables with different values differ')
                st.assume(ve)
                if not ctx.E.feasible(st): return
                if not ctx.prove(st,len(es)==1 and {es[0][0].obj,es[0][1].obj}=={a.attr.obj,b.attr.obj},'the attributes are compared'): return
                ctx.prove(st,r==es[0][2],'equal exactly when values and attributes are')
            else: ctx.prove(st,r==z3.And(ve,z3.BoolVal(case[2]==case[3])),'equal exactly when the values are, and both or none have attributes')
        ctx.call([a.p,b.p],post)
class CtorFrom(Contract):
    """Var(info, var) converts the value and copies the attributes"""
    name='Var(Varinfo, const Var&)'; fn=r'^wreport::Var::Var\(wreport::_Varinfo const\*, wreport::Var const&\)$'; search='varcopy'
    uses=[R_dtor,R_copy,(r'^wreport::Var::setval\(wreport::Var const&\)',lambda E,st,a,ins:(push(st,'setval',(a[0],a[1])),0)[1])]
    def cases(s): return src_cases()
    def run(s,ctx,case):
        t,at=case; src=OVAR(ctx,'src',t,at); d=RAWVAR(ctx); inf=VINFO(ctx,INTEGER,0,rng=False,pre='n_')
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,same_ptr(d.get(st,'m_info',PTR),inf.p),'the new variable has the given description')
            sv=gl(st,'setval'); ctx.prove(st,len(sv)==1 and same_ptr(sv[0][0],d.p) and same_ptr(sv[0][1],src.p),'the value is converted once')
            check_attr_copy(ctx,st,d,src); check_src_intact(ctx,st,src)
        ctx.call([d.p,inf.p,src.p],post)
CONTRACTS=[CopyCtor(),MoveCtor(),Assign(0),Assign(1),AssignSelf(0),AssignSelf(1),AssignAttr(0),AssignAttr(1),Dtor(),ValueEquals(),OpEq(),CtorFrom()]
