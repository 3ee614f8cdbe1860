"""C06: the attributes of a variable are a map from code to variable."""
from .varlib import *
from .varobj import *
from ..frame import recursive
from .. import lib
SRCS=['var.cc','varinfo.cc','options.cc','error.cc']
INST=['layout.cc','bits.cc']
ASSUMPTIONS=['attribute chains are finite and acyclic: seta/unseta are proved by induction over the chain (a recursive call on the rest of the chain is used by the contract)',
 'codes in a chain are strictly increasing before each operation (established by every operation that changes a chain)']
J=z3.BitVec('J',64)
class LIST:
    """an attribute chain of any length: node i has code C[i], strictly increasing"""
    def __init__(s,ctx,n,hints):
        E=ctx.E; s.n=n; s.C=z3.Array('codes',z3.BitVecSort(64),z3.BitVecSort(16))
        s.hints=hints; st=ctx.st; z=off(E,'Var')
        def code(E,st,i):
            c=z3.Select(s.C,i)
            for h in s.hints:    # instances of: the chain is sorted
                st.assume(z3.Implies(z3.And(z3.ULT(i,h),z3.ULT(h,n)),z3.ULT(c,z3.Select(s.C,h)))); st.assume(z3.Implies(z3.And(z3.ULT(h,i),z3.ULT(i,n)),z3.ULT(z3.Select(s.C,h),c)))
            return cur_int(z3.simplify(c),16)
        s.infos=recobj(ctx,'infos',off(E,'Varinfo'),n,{off(E,'Varinfo','code'):(2,'i',code)})
        iz=off(E,'Varinfo')
        def info(E,st,i): return Ptr(s.infos.obj,Lin.of(i).mul(iz))
        def nxt(E,st,i):
            last=z3.simplify(i+1==n)
            if E.must(st,last): return NULL
            if E.must(st,z3.Not(last)): return Ptr(s.nodes.obj,Lin.of(i).add(Lin(1,{})).mul(z))
            raise NeedFork([last,z3.Not(last)])
        s.nodes=recobj(ctx,'nodes',z,n,{off(E,'Var','m_info'):(8,'p',info),off(E,'Var','m_attrs'):(8,'p',nxt)})
class Enqa(Contract):
    """finds the attribute with the code asked for, if there is one"""
    name='Var::enqa'; fn=r'^wreport::Var::enqa\('; search='attrs'
    def cases(s): return ['empty','some']
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h):
        L=s.L; out=[]
        if L is None: return out
        for k in keys:
            ix=lambda w,k=k:w.index(k)
            def f(g):
                def q(w,k=k):
                    i=w.index(k)
                    return z3.BoolVal(True) if i is None else g(i)
                return q
            out.append(('%s in chain'%(k,),f(lambda i:z3.ULT(i,L.n))))
            out.append(('not found before %s'%(k,),f(lambda i:z3.Implies(z3.ULT(J,i),z3.Select(L.C,J)!=s.code))))
            def end(w,k=k):
                return z3.Implies(z3.ULT(J,L.n),z3.Select(L.C,J)!=s.code) if isinstance(w.raw(k),Ptr) and not w.raw(k).obj else z3.BoolVal(True)
            out.append(('not found when %s is at the end'%(k,),end))
        return out
    def run(s,ctx,case):
        E=ctx.E; inf=VINFO(ctx,INTEGER,0,rng=False); v=VAR(ctx,inf); s.code=code=ctx.bv('wanted',16); s.L=None
        if case=='some':
            n=ctx.bv('n',64); ctx.assume(z3.And(z3.UGE(n,1),z3.ULT(n,1<<16))); s.L=LIST(ctx,n,[J]); v.set(ctx.st,'m_attrs',PTR,s.L.nodes)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            p=o.val; L=s.L
            if not p.obj:
                if L: ctx.prove(st,z3.Implies(z3.ULT(J,L.n),z3.Select(L.C,J)!=code),'returns nothing only when no attribute has the code')
                return
            if not ctx.prove(st,L is not None and p.obj==L.nodes.obj,'returns an attribute of the variable'): return
            i=Lin.of(p.off).divexact(off(E,'Var'))
            if not ctx.prove(st,i is not None,'returns an attribute of the variable'): return
            ctx.prove(st,z3.And(z3.ULT(i.bv(),L.n),z3.Select(L.C,i.bv())==code),'returns the attribute with the code asked for')
        ctx.call([v.p,code],post)

class CHAIN:
    """the variable (node 0) and its attributes (nodes 1 to n-1, codes strictly increasing), with links that can be changed: for code that walks the chain in a loop"""
    def __init__(s,ctx):
        E=ctx.E; s.z=z=off(E,'Var'); s.n=n=ctx.bv('n',64); ctx.assume(z3.And(z3.UGE(n,1),z3.ULT(n,1<<16))); s.C=z3.Array('codes',z3.BitVecSort(64),z3.BitVecSort(16)); ctx.st.g['#links']=0
        def code(E,st,i):
            c=z3.Select(s.C,i)
            for h in (J,i-1,i+1): st.assume(z3.And(z3.Implies(z3.And(z3.UGE(i,1),z3.ULT(i,h),z3.ULT(h,n)),z3.ULT(c,z3.Select(s.C,h))),z3.Implies(z3.And(z3.UGE(h,1),z3.ULT(h,i),z3.ULT(i,n)),z3.ULT(z3.Select(s.C,h),c))))
            return cur_int(z3.simplify(c),16)
        iz=off(E,'Varinfo'); s.infos=recobj(ctx,'infos',iz,n,{off(E,'Varinfo','code'):(2,'i',code)})
        def nxt(E,st,i):
            for j,v in reversed(gl(st,'links')):
                if E.must(st,i==j): return v
                if not E.must(st,i!=j): raise NeedFork([i==j,i!=j])
            return s.orig(E,st,i)
        def write(E,st,i,v):
            push(st,'links',(i,v)); st.g['#links']=tobv(st.g['#links'],64)+1
        nxt.write=write
        s.nodes=recobj(ctx,'nodes',z,n,{off(E,'Var','m_info'):(8,'p',lambda E,st,i:Ptr(s.infos.obj,Lin.of(i).mul(iz))),off(E,'Var','m_attrs'):(8,'p',nxt)},ro=False); s.link=nxt
    def node(s,i): return Ptr(s.nodes.obj,Lin.of(i).mul(s.z))
    def orig(s,E,st,i):
        last=z3.simplify(i+1==s.n)
        if E.must(st,last): return NULL
        if E.must(st,z3.Not(last)): return s.node(z3.simplify(i+1))
        raise NeedFork([last,z3.Not(last)])
    def idx(s,p): return None if not isinstance(p,Ptr) or p.obj!=s.nodes.obj else Lin.of(p.off).divexact(s.z)
    def dtor(s,E,st,a,ins):
        i=s.idx(a[0])
        if i is None: return sum_dtor(E,st,a,ins)
        for d,_ in gl(st,'gone'): E.prove(st,i.bv()!=d,E.cname()+'memory-safety: variable destroyed twice')
        push(st,'gone',(i.bv(),s.link(E,st,i.bv()))); st.g['#links']=tobv(st.g['#links'],64)+1; return 0
    def delete(s,E,st,a,ins):
        i=s.idx(a[0])
        if i is None: return lib._del(E,st,a,ins)
        push(st,'freed',i.bv()); st.g['#links']=tobv(st.g['#links'],64)+1; return 0
    def cands(s,code,keys):
        out=[]
        def at(k,g): return lambda w,k=k:z3.BoolVal(True) if w.index(k) is None else g(w.index(k))
        for k in keys:
            out+=[('%s in chain'%(k,),at(k,lambda i:z3.ULT(i,s.n))),('%s is an attribute'%(k,),at(k,lambda i:z3.UGE(i,1))),('%s is before the code'%(k,),at(k,lambda i:z3.Or(i==0,z3.ULT(z3.Select(s.C,i),code)))),
              ('what precedes %s is before the code'%(k,),at(k,lambda i:z3.Or(i==1,z3.ULT(z3.Select(s.C,i-1),code)))),('J up to %s is not the code'%(k,),at(k,lambda i:z3.Implies(z3.And(z3.UGE(J,1),z3.ULE(J,i)),z3.Select(s.C,J)!=code)))]
            for k2 in keys:
                if k2==k: continue
                def pair(w,k=k,k2=k2):
                    i,j=w.index(k),w.index(k2)
                    if i is None: return z3.BoolVal(True)
                    if j is None: return i+1==s.n if isinstance(w.raw(k2),Ptr) and not w.raw(k2).obj else z3.BoolVal(True)
                    return j==i+1
                out.append(('%s follows %s'%(k2,k),pair))
        return out
    def changed(s,ctx,st,want):
        """the links that changed are exactly want: [(index, pointer)], nodes gone: [index]"""
        E=ctx.E; W=gl(st,'links'); g=gl(st,'gone')
        ctx.prove(st,tobv(st.g['#links'],64)==len(W)+len(g)+len(gl(st,'freed')),'the chain is changed in one place only')
        for i,v in W: ctx.prove(st,z3.Or(*([i==j for j,_ in want]+[i==d for d,_ in g])),'no other link is changed')
        for j,p in want:
            q=s.link(E,st,j); ctx.prove(st,q.obj==p.obj and (not q.obj or E.must(st,Lin.of(q.off).bv()==Lin.of(p.off).bv())),'the chain is linked again')
        for d,l in g: ctx.prove(st,not l.obj,'the rest of the chain is not deleted with the attribute')
        ctx.prove(st,len(g)==len(gl(st,'freed')) and all(E.must(st,a==b[0]) for a,b in zip(gl(st,'freed'),g)),'what is removed is released once')
def recur(kind):
    """recursive use of seta/unseta on the rest of the chain, by contract (induction hypothesis)"""
    def f(E,st,a,ins):
        c=E.ctx.con
        node=a[0]; 
        E.prove(st,isinstance(node,Ptr) and node.obj==c.head.p.obj,E.cname()+'recursion: on the rest of the chain')
        if kind=='seta':
            ap=E.load(st,PTR,a[1]); E.prove(st,isinstance(ap,Ptr) and ap.obj==c.A.p.obj,E.cname()+'recursion: passes the attribute on'); 
            E.prove(st,z3.ULT(c.head.info.code,c.A.info.code),E.cname()+'recursion: only past smaller codes')
            E.store(st,PTR,NULL,a[1])
        else:
            E.prove(st,tobv(a[1],16)==c.code,E.cname()+'recursion: same code'); E.prove(st,z3.ULT(c.head.info.code,c.code),E.cname()+'recursion: only past smaller codes')
        t=E.alloc(st,'rest.after',off(E,'Var')); push(st,'rec',t.obj)
        E.store(st,PTR,t,node.plus(off(E,'Var','m_attrs')))
        return 0
    return f
class Seta(Contract):
    """sorted insertion or replacement, the rest of the chain untouched"""
    name='Var::seta(unique_ptr)'; fn=r'^wreport::Var::seta\(std::unique_ptr<wreport::Var'; search='attrs'
    uses=[R_dtor,R_copy,(r'^wreport::Var::seta\(std::unique_ptr<wreport::Var',recur('seta'))]
    def cases(s): return [(shape,at,t) for shape in ('empty','last','more') for at in (0,1) for t in TY]+[('loop',at,INTEGER) for at in (0,1)]
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h): return s.L.cands(s.A.info.code,keys) if s.L else []
    def run(s,ctx,case):
        shape,at,t=case; E=ctx.E; s.L=None
        if (shape=='loop')==recursive(E,ctx.fname): return 'n/a'
        if shape=='loop': return s.loop(ctx,at,t)
        s.A=A=OVAR(ctx,'a',t,at); me=OVAR(ctx,'me',INTEGER,0); s.head=None
        if shape!='empty':
            s.head=h=OVAR(ctx,'head',INTEGER,shape=='more'); me.v.set(ctx.st,'m_attrs',PTR,h.p)
        up=E.alloc(ctx.st,'unique_ptr',8); E.store(ctx.st,PTR,A.p,up)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,same_ptr(E.load(st,PTR,up),NULL),'takes ownership of the attribute')
            if at: ctx.prove(st,gl(st,'dead').count(A.attr.obj)==1,'attributes of the attribute are dropped')
            ctx.prove(st,z3.And(A.isset(st)==A.isset0,z3.BoolVal(same_ptr(A.get(st,'m_info',PTR),A.info.p))),'the attribute keeps its code and set state')
            if t<2: ctx.prove(st,tobv(A.get(st,'m_value',I32),32)==A.i0,'the attribute keeps its value')
            else: ctx.prove(st,same_ptr(A.bufp(st),A.buf0) and st.mem[A.buf0.obj].alive,'the attribute keeps its value')
            ctx.prove(st,A.p.obj not in gl(st,'dead') and st.mem[A.p.obj].alive,'the attribute is kept')
            h=s.head; m=me.attrs(st)
            if h is None:
                ctx.prove(st,same_ptr(m,A.p) and same_ptr(A.attrs(st),NULL),'first attribute'); return
            hc,ac=h.info.code,A.info.code; rec=gl(st,'rec'); hdead=gl(st,'dead').count(h.p.obj)
            ctx.prove(st,z3.Implies(z3.ULT(ac,hc),z3.BoolVal(same_ptr(m,A.p) and same_ptr(A.attrs(st),h.p) and not rec and not hdead and same_ptr(h.attrs(st),h.attr))),'a smaller code goes before the first one')
            ctx.prove(st,z3.Implies(ac==hc,z3.BoolVal(same_ptr(m,A.p) and same_ptr(A.attrs(st),h.attr) and not rec and hdead==1 and not st.mem[h.p.obj].alive and (not h.attr.obj or h.attr.obj not in gl(st,'dead')))),'the same code replaces the old attribute and keeps the rest')
            ctx.prove(st,z3.Implies(z3.ULT(hc,ac),z3.BoolVal(same_ptr(m,h.p) and len(rec)==1 and not hdead and h.attrs(st).obj==rec[0] if rec else False)),'a larger code goes into the rest of the chain')
            if hdead: ctx.prove(st,same_dead_tail(E,st,h),'the rest of the chain is not deleted with the replaced attribute')
        ctx.call([me.p,up],post)
def seta_loop(s,ctx,at,t):
        E=ctx.E; s.A=A=OVAR(ctx,'a',t,at); s.L=L=CHAIN(ctx); up=E.alloc(ctx.st,'unique_ptr',8); E.store(ctx.st,PTR,A.p,up); ac=A.info.code; s.head=None
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,same_ptr(E.load(st,PTR,up),NULL),'takes ownership of the attribute')
            if at: ctx.prove(st,gl(st,'dead').count(A.attr.obj)==1,'attributes of the attribute are dropped')
            ctx.prove(st,z3.And(A.isset(st)==A.isset0,z3.BoolVal(same_ptr(A.get(st,'m_info',PTR),A.info.p)),tobv(A.get(st,'m_value',I32),32)==A.i0),'the attribute keeps its code, set state and value')
            ctx.prove(st,A.p.obj not in gl(st,'dead') and st.mem[A.p.obj].alive,'the attribute is kept')
            ins=[i for i,v in gl(st,'links') if v.obj==A.p.obj]
            if not ctx.prove(st,len(ins)==1,'the attribute is in the chain'): return
            i=ins[0]; g=[d for d,_ in gl(st,'gone')]; ctx.prove(st,z3.Implies(i!=0,z3.ULT(z3.Select(L.C,i),ac)),'it follows smaller codes only'); nx=A.attrs(st)
            if g:
                ctx.prove(st,z3.And(z3.BoolVal(len(g)==1),g[0]==i+1,z3.ULT(g[0],L.n),z3.Select(L.C,g[0])==ac),'the attribute removed is the one with the same code'); want=L.orig(E,st,g[0])
            else:
                want=L.orig(E,st,i)
                if want.obj: ctx.prove(st,z3.ULT(ac,z3.Select(L.C,i+1)),'it precedes larger codes only')
            ctx.prove(st,nx.obj==want.obj and (not nx.obj or E.must(st,Lin.of(nx.off).bv()==Lin.of(want.off).bv())),'the rest of the chain is kept')
            L.changed(ctx,st,[(i,A.p)])
        ctx.call([L.nodes,up],post)
Seta.loop=seta_loop
def chain_dtor(h):
    def f(E,st,a,ins):
        L=getattr(E.ctx.con,'L',None)
        return L.dtor(E,st,a,ins) if L else h(E,st,a,ins)
    return f
R_chdel=(r'^operator delete\(void\*.*',lambda E,st,a,ins:E.ctx.con.L.delete(E,st,a,ins) if getattr(E.ctx.con,'L',None) else lib._del(E,st,a,ins))
def same_dead_tail(E,st,h):
    """what the destructor of the replaced node could reach: recorded when it ran"""
    return all(x==h.p.obj and t==0 for x,t in gl(st,'deadtail') if x==h.p.obj)
def sum_dtor_tail(E,st,a,ins):
    p=a[0]
    r=sum_dtor(E,st,a,ins)
    if st.mem[p.obj].name.startswith('head'):
        t=E.load(st,PTR,p.plus(off(E,'Var','m_attrs'))); push(st,'deadtail',(p.obj,t.obj))
    return r
Seta.uses=[(R_dtor[0],chain_dtor(sum_dtor_tail)),R_chdel]+Seta.uses[1:]
class Unseta(Contract):
    name='Var::unseta'; fn=r'^wreport::Var::unseta\('; search='attrs'
    uses=[(R_dtor[0],chain_dtor(sum_dtor_tail)),R_chdel,(r'^wreport::Var::unseta\(',recur('unseta'))]
    def cases(s): return ['empty','last','more','loop']
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h): return s.L.cands(s.code,keys) if s.L else []
    def loop(s,ctx):
        E=ctx.E; s.L=L=CHAIN(ctx); s.code=code=ctx.bv('wanted',16)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            g=[d for d,_ in gl(st,'gone')]
            if not g:
                ctx.prove(st,z3.Implies(z3.And(z3.UGE(J,1),z3.ULT(J,L.n)),z3.Select(L.C,J)!=code),'nothing is removed only when no attribute has the code'); L.changed(ctx,st,[]); return
            ctx.prove(st,z3.And(z3.BoolVal(len(g)==1),z3.UGE(g[0],1),z3.ULT(g[0],L.n),z3.Select(L.C,g[0])==code),'the attribute removed is the one with the code'); L.changed(ctx,st,[(z3.simplify(g[0]-1),L.orig(E,st,g[0]))])
        ctx.call([L.nodes,code],post)
    def run(s,ctx,shape):
        E=ctx.E; s.L=None
        if (shape=='loop')==recursive(E,ctx.fname): return 'n/a'
        if shape=='loop': return s.loop(ctx)
        me=OVAR(ctx,'me',INTEGER,0); s.head=None; s.code=code=ctx.bv('wanted',16)
        if shape!='empty':
            s.head=OVAR(ctx,'head',INTEGER,shape=='more'); me.v.set(ctx.st,'m_attrs',PTR,s.head.p)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            h=s.head; m=me.attrs(st)
            ctx.prove(st,z3.And(me.isset(st)==me.isset0,tobv(me.get(st,'m_value',I32),32)==me.i0),'the value of the variable is unchanged')
            if h is None: ctx.prove(st,same_ptr(m,NULL),'no attributes'); return
            hc=h.info.code; rec=gl(st,'rec'); hdead=gl(st,'dead').count(h.p.obj)
            ctx.prove(st,z3.Implies(z3.ULT(code,hc),z3.BoolVal(same_ptr(m,h.p) and not rec and not hdead and same_ptr(h.attrs(st),h.attr))),'an absent code changes nothing')
            ctx.prove(st,z3.Implies(code==hc,z3.BoolVal(same_ptr(m,h.attr) and not rec and hdead==1 and not st.mem[h.p.obj].alive)),'the attribute with the code is removed and the rest kept')
            ctx.prove(st,z3.Implies(z3.ULT(hc,code),z3.BoolVal(same_ptr(m,h.p) and not hdead and ((len(rec)==1 and h.attrs(st).obj==rec[0]) or (not h.attr.obj and same_ptr(h.attrs(st),NULL))))),'a larger code is removed from the rest of the chain')
            if hdead: ctx.prove(st,same_dead_tail(E,st,h),'the rest of the chain is not deleted with the attribute')
        ctx.call([me.p,code],post)
class SetaBy(Contract):
    """seta(const Var&) inserts a copy; seta(Var&&) inserts the moved value"""
    def __init__(s,mv):
        s.mv=mv; s.name='Var::seta(Var%s)'%('&&' if mv else ' const&'); s.fn=r'^wreport::Var::seta\(wreport::Var%s\)'%('&&' if mv else ' const&'); s.search='attrs'
        def ins(E,st,a,ins):
            p=E.load(st,PTR,a[1]); push(st,'ins',(a[0],p.obj)); E.store(st,PTR,NULL,a[1]); return 0
        s.uses=[R_dtor,R_copy,(r'^wreport::Var::seta\(std::unique_ptr<wreport::Var',ins),(r'^wreport::Var::Var\(wreport::Var&&\)$',lambda E,st,a,ins:(push(st,'moves',(a[0].obj,a[1].obj)),0)[1])]
    def cases(s): return src_cases2()
    def run(s,ctx,case):
        t,at=case; src=OVAR(ctx,'src',t,at); me=OVAR(ctx,'me',INTEGER,0)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            i=gl(st,'ins'); k=gl(st,'moves' if s.mv else 'copies')
            ctx.prove(st,len(i)==1 and same_ptr(i[0][0],me.p) and (i[0][1],src.p.obj) in k,'inserts the given attribute')
            if not s.mv: check_src_intact(ctx,st,src)
        ctx.call([me.p,src.p],post)
def src_cases2(): return [(t,a) for t in TY for a in (0,1)]
class SetAttrs(Contract):
    """replaces all the attributes with a copy of the other variable's"""
    name='Var::setattrs'; fn=r'^wreport::Var::setattrs\('; uses=[R_dtor,R_copy]; search='attrs'
    def cases(s): return [(a,b,self) for a in (0,1) for b in (0,1) for self in (0,1) if not(self and a!=b)]
    def run(s,ctx,case):
        a,b,self=case; E=ctx.E; me=OVAR(ctx,'me',INTEGER,a); src=me if self else OVAR(ctx,'src',STRING,b); old=me.attr
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,z3.And(me.isset(st)==me.isset0,tobv(me.get(st,'m_value',I32),32)==me.i0,z3.BoolVal(same_ptr(me.get(st,'m_info',PTR),me.info.p))),'the value is unchanged')
            p=me.attrs(st)
            if self:
                if a:
                    cp=[d for d,x in gl(st,'copies') if x==old.obj]
                    ctx.prove(st,p.obj not in gl(st,'dead') and (p.obj==old.obj or p.obj in cp),'the variable keeps its attributes')
                else: ctx.prove(st,same_ptr(p,NULL),'no attributes'); 
                return
            check_attr_copy(ctx,st,me,src); check_src_intact(ctx,st,src)
            if old.obj: ctx.prove(st,gl(st,'dead').count(old.obj)==1 and not st.mem[old.obj].alive,'the old attributes are deleted once')
        ctx.call([me.p,src.p],post)
class ClearAttrs(Contract):
    name='Var::clear_attrs'; fn=r'^wreport::Var::clear_attrs\('; uses=[R_dtor]; search='attrs'
    def cases(s): return [0,1]
    def run(s,ctx,a):
        me=OVAR(ctx,'me',INTEGER,a)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,same_ptr(me.attrs(st),NULL),'no attributes are left')
            ctx.prove(st,z3.And(me.isset(st)==me.isset0,tobv(me.get(st,'m_value',I32),32)==me.i0),'the value is unchanged')
            if a: ctx.prove(st,gl(st,'dead')==(me.attr.obj,) and not st.mem[me.attr.obj].alive,'the attributes are deleted once')
        ctx.call([me.p],post)
class NextAttr(Contract):
    name='Var::next_attr'; fn=r'^wreport::Var::next_attr\('; search='attrs'
    def cases(s): return [0,1]
    def run(s,ctx,a):
        me=OVAR(ctx,'me',INTEGER,a)
        def post(o): ctx.prove(o.st,o.kind=='ret' and same_ptr(o.val,me.attr),'walks the chain')
        ctx.call([me.p],post)
class MapLemma(Contract):
    """by induction over the chain, the structural contracts of seta and unseta make the chain a sorted map"""
    name='lemma: sorted insertion/removal is map update'; fn=None
    def run(s,ctx,case):
        # chain = head (code h, id x) followed by a rest with map M, all of whose codes are > h
        C16=z3.BitVecSort(16); M=z3.Array('rest',C16,z3.BitVecSort(32)); h,c,q=(ctx.bv(n,16) for n in ('h','c','q')); x,y=ctx.bv('x',32),ctx.bv('y',32)
        ctx.assume(z3.And(x!=0,y!=0)); st=ctx.st
        st.assume(z3.Implies(z3.ULE(q,h),z3.Select(M,q)==0)); st.assume(z3.Implies(z3.ULE(c,h),z3.Select(M,c)==0))
        whole=lambda hd,cd,rest:z3.If(q==cd,hd,rest)
        before=z3.If(q==h,x,z3.Select(M,q))
        upd=z3.If(q==c,y,before); rem=z3.If(q==c,z3.BitVecVal(0,32),before)
        # seta: three structural cases
        after=z3.If(z3.ULT(c,h),z3.If(q==c,y,z3.If(q==h,x,z3.Select(M,q))),z3.If(c==h,z3.If(q==c,y,z3.Select(M,q)),z3.If(q==h,x,z3.Select(z3.Store(M,c,y),q))))
        ctx.prove(st,after==upd,'seta sets exactly the attribute with its code')
        after=z3.If(z3.ULT(c,h),before,z3.If(c==h,z3.Select(M,q),z3.If(q==h,x,z3.Select(z3.Store(M,c,z3.BitVecVal(0,32)),q))))
        ctx.prove(st,after==rem,'unseta removes exactly the attribute with its code')
        # sortedness: new head is smaller than everything after it
        nh=z3.If(z3.ULE(c,h),c,h)
        rest=z3.If(z3.ULT(c,h),z3.If(q==h,x,z3.Select(M,q)),z3.If(c==h,z3.Select(M,q),z3.Select(z3.Store(M,c,y),q)))
        ctx.prove(st,z3.Implies(rest!=0,z3.ULT(nh,q)),'the chain stays strictly increasing')
CONTRACTS=[Enqa(),Seta(),Unseta(),SetaBy(0),SetaBy(1),SetAttrs(),ClearAttrs(),NextAttr(),MapLemma()]
