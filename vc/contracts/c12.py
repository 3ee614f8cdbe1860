"""C12: a table gives the entry that was asked for, as it was asked for, and looking things up does not change what others see."""
from .common import *
from .varobj import gl,push
SRCS=['vartable.cc','dtable.cc','tables.cc','varinfo.cc','error.cc']
INST=['layout.cc','vartable_layout.cc','dtable_layout.cc']
ASSUMPTIONS=['entries of a loaded B table are in strictly increasing order of code (obtain, under contract here, refuses anything else); entries of a D table file are in increasing order (the loader does not check it)',
 'tables of less than 2^24 entries','entries of B tables are numbers or text (the loaders make no other)','alteration chains are finite and acyclic: get_alteration is proved by induction over the chain',
 '_Varinfo::compute_range as proved in C02','memory allocation does not fail']
I16=("i",16)
J=z3.BitVec('J',64)
ND=r'\(anonymous namespace\)::'
def sel(a,i): return z3.Select(a,i)
def idx(st,p,o,z):
    if not isinstance(p,Ptr) or p.obj!=o.obj: return None,None
    try: return E_recidx(st.mem[p.obj],p.off)
    except Unsupported: return None,None
def E_recidx(o,off_):
    l=Lin.of(off_); f=l.c%o.stride if not l.c>>63 else (l.c-(1<<64))%o.stride; q=Lin(l.c-f,l.t).divexact(o.stride)
    return (None,None) if q is None else (q.bv(),f)
def pathname(ctx,p):
    E=ctx.E; st=ctx.st; b=ctx.bytesobj('pathname',ctx.arr('PATH',8),v64(100),ro=True); ctx.assume(sel(ctx.arrs['PATH'][0],v64(99))==0); E.store(st,PTR,b,p); E.store(st,I64,99,p.plus(8))
class SORTED:
    """n records in strictly increasing order of code"""
    def init(s,ctx,nm):
        s.ctx=ctx; s.n=n=ctx.bv(nm,64); ctx.assume(z3.ULT(n,1<<24)); s.C=z3.Array('codes',z3.BitVecSort(64),z3.BitVecSort(16))
    def code(s,E,st,i):
        c=sel(s.C,i); push(st,'reads',i)
        for h in (J,i-1,i+1): st.assume(z3.And(z3.Implies(z3.And(z3.ULT(i,h),z3.ULT(h,s.n)),z3.ULT(c,sel(s.C,h))),z3.Implies(z3.And(z3.ULT(h,i),z3.ULT(i,s.n)),z3.ULT(sel(s.C,h),c))))
        return c
    def vec(s,E,st,p,o,z,n):
        at=lambda i:Ptr(o.obj,Lin.of(i).mul(z)); E.store(st,PTR,at(0),p); E.store(st,PTR,at(n),p.plus(8)); E.store(st,PTR,at(n),p.plus(16))
    def absent(s,code): return z3.Implies(z3.ULT(J,s.n),sel(s.C,J)!=code)
    def cands(s,code,keys,entry):
        out=[]; n=s.n
        def t(w,k):
            i=w.index(k)
            if i is not None: return i
            return None if isinstance(w.raw(k),Ptr) else w.term(k,True)
        ks=[k for k in keys if t(entry,k) is not None]
        def c1(k,nm,g): out.append(('%s %s'%(k,nm),lambda w,k=k,g=g:z3.BoolVal(True) if t(w,k) is None else g(t(w,k))))
        for k in ks:
            c1(k,'>=-1',lambda x:x>=-1); c1(k,'>=0',lambda x:x>=0); c1(k,'<=n',lambda x:x<=n); c1(k,'<n',lambda x:x<n)
            for d in (-1,0,1):
                c1(k,'J<%+d: below'%d,lambda x,d=d:z3.Implies(z3.And(J>=0,J<x+d,J<n),z3.ULT(sel(s.C,J),code)))
                c1(k,'J<%+d: up to'%d,lambda x,d=d:z3.Implies(z3.And(J>=0,J<x+d,J<n),z3.ULE(sel(s.C,J),code)))
                c1(k,'J>=%+d: above'%d,lambda x,d=d:z3.Implies(z3.And(J>=0,J>=x+d,J<n),z3.UGT(sel(s.C,J),code)))
                c1(k,'J>=%+d: from'%d,lambda x,d=d:z3.Implies(z3.And(J>=0,J>=x+d,J<n),z3.UGE(sel(s.C,J),code)))
            c1(k,'there: up to',lambda x:z3.Or(x<0,z3.ULE(sel(s.C,x),code)))
            for k2 in ks:
                if k2==k: continue
                def c2(nm,g): out.append(('%s %s %s'%(k,nm,k2),lambda w,k=k,k2=k2,g=g:z3.BoolVal(True) if t(w,k) is None or t(w,k2) is None else g(t(w,k),t(w,k2))))
                c2('<',lambda x,y:x<y); c2('<=',lambda x,y:x<=y); c2('+ in table',lambda x,y:z3.And(x+y<=n,y>=0))
                c2('J>=+: from',lambda x,y:z3.Implies(z3.And(J>=0,J>=x+y,J<n),z3.UGE(sel(s.C,J),code))); c2('J>=+: above',lambda x,y:z3.Implies(z3.And(J>=0,J>=x+y,J<n),z3.UGT(sel(s.C,J),code)))
        return out
NF={'scale':I32,'len':I32,'bit_ref':I32,'bit_len':I32,'type':I32,'imin':I32,'imax':I32}
class BTABLE(SORTED):
    def __init__(s,ctx):
        E=ctx.E; st=ctx.st; s.init(ctx,'entries'); s.z=z=off(E,'VartableEntry'); v0=off(E,'VartableEntry','varinfo'); s.v0=v0; f={}; s.F={}
        fo=lambda n:v0+off(E,'Varinfo',n)
        f[fo('code')]=(2,'i',s.code)
        for n in NF: s.F[n]=z3.Array('T_'+n,z3.BitVecSort(64),z3.BitVecSort(32)); f[fo(n)]=(4,'i',lambda E,st,i,n=n:s.field(n,i,st))
        s.B=z3.Array('T_bytes',z3.BitVecSort(64),z3.BitVecSort(8)); s.txt=[]
        for n,l in (('desc',64),('unit',24)):
            for j in range(l): f[fo(n)+j]=(1,'i',lambda E,st,i,j=fo(n)+j:sel(s.B,i*z+j)); s.txt.append(fo(n)+j-v0)
        for n in ('dmin','dmax'): f[fo(n)]=(8,'f',lambda E,st,i,n=n:FV(z3.Select(z3.Array('T_'+n,z3.BitVecSort(64),z3.RealSort()),i)))
        s.m=ctx.bv('alterations',64); ctx.assume(z3.ULT(s.m,1<<24))
        s.A={n:z3.Array('A_'+n,z3.BitVecSort(64),z3.BitVecSort(32)) for n in ('scale','bit_ref','bit_len')}
        s.alts=recobj(ctx,'alterations',z,s.m,{**{fo(n):(4,'i',s.A[n]) for n in s.A},off(E,'VartableEntry','alterations'):(8,'p',s.next)})
        def link(E,st,i):
            for j,v in reversed(gl(st,'links')):
                if not E.must(st,i==j): raise Unsupported('two entries are changed')
                return v
            if not E.must(st,sel(s.C,i)==s.ctx.con.code): raise Unsupported('alterations of another entry')
            return s.node(E,st,v64(0))
        def write(E,st,i,v): push(st,'links',(i,v)); st.g['#links']=tobv(st.g['#links'],64)+1
        link.write=write; st.g['#links']=0
        f[off(E,'VartableEntry','alterations')]=(8,'p',link)
        s.ents=recobj(ctx,'entries',z,s.n,f,ro=False)
        s.p=E.alloc(st,'table',off(E,'VartableBase'),lazy=True); pathname(ctx,s.p.plus(8)); s.vec(E,st,s.p.plus(off(E,'VartableBase','entries')),s.ents,z,s.n)
    def field(s,n,i,st=None):
        v=sel(s.F[n],i)
        if n=='type' and st is not None: st.assume(z3.ULE(v,2))
        return v
    def node(s,E,st,k):
        last=z3.simplify(k==s.m)
        if E.must(st,last): return NULL
        if E.must(st,z3.Not(last)): return Ptr(s.alts.obj,Lin.of(k).mul(s.z))
        raise NeedFork([last,z3.Not(last)])
    def next(s,E,st,i): return s.node(E,st,z3.simplify(i+1))
    def same(s,k,new): return z3.And(*[sel(s.A[n],k)==v for n,v in new.items()])
    def untouched(s,ctx,t): ctx.prove(t,tobv(t.g['#links'],64)==0,'looking up does not change the table')
def entry_result(ctx,o,T,code,v):
    """the returned pointer is the varinfo of the entry with that code -> index"""
    t=o.st; i,r=idx(t,v,T.ents,T.z)
    if not ctx.prove(t,i is not None and r==T.v0,'an entry of the table is returned'): return None
    ctx.prove(t,z3.And(z3.ULT(i,T.n),sel(T.C,i)==code),'the entry is the one with the code asked for'); return i
class Lookup(Contract):
    search='btable'
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h): return s.T.cands(s.code,keys,entry)
    def run(s,ctx,case):
        s.T=BTABLE(ctx); s.code=ctx.bv('code',16); ctx.call([s.T.p,s.code],lambda o:s.post(ctx,o))
class Query(Lookup):
    name='Vartable::query'; fn=r'^wreport::'+ND+r'VartableBase::query\(unsigned short\) const'
    def post(s,ctx,o):
        s.T.untouched(ctx,o.st)
        if o.kind=='throw':
            ctx.prove(o.st,o.exc.typ==wr_err('error_notfound'),'the error is error_notfound'); ctx.prove(o.st,s.T.absent(s.code),'not found only when it is not in the table'); return
        entry_result(ctx,o,s.T,s.code,o.val)
class Contains(Lookup):
    name='Vartable::contains'; fn=r'^wreport::'+ND+r'VartableBase::contains\(unsigned short\) const'
    def post(s,ctx,o):
        t=o.st; s.T.untouched(ctx,t)
        if not ctx.prove(t,o.kind=='ret','does not throw'): return
        r=o.val; r=z3.BoolVal(bool(r)) if isc(r) or isinstance(r,bool) else (r if isinstance(r,z3.BoolRef) else r!=0)
        ctx.prove(t,z3.Or(r,s.T.absent(s.code)),'false only when it is not in the table')
        ctx.prove(t,z3.Or(z3.Not(r),*[z3.And(z3.ULT(i,s.T.n),sel(s.T.C,i)==s.code) for i in gl(t,'reads')]),'true only when it is in the table')
def sum_range(E,st,a,ins):
    p=a[0]; snap={n:tobv(E.load(st,I32,p.plus(off(E,'Varinfo',n))),32) for n in ('scale','len','bit_ref','bit_len','type')}; snap['code']=tobv(E.load(st,I16,p.plus(off(E,'Varinfo','code'))),16)
    push(st,'ranges',(p,snap))
    for n in ('imin','imax'): E.store(st,I32,E.fresh(n,32),p.plus(off(E,'Varinfo',n)))
    for n in ('dmin','dmax'): E.store(st,F64,FV(E.freshreal(n)),p.plus(off(E,'Varinfo',n)))
    return 0
R_range=(r'^wreport::_Varinfo::compute_range\(',sum_range)
GA=r'^wreport::'+ND+r'VartableEntry::get_alteration\('
def rec_ga(E,st,a,ins):
    """get_alteration on the rest of the chain, by contract"""
    c=E.ctx.con; T=c.T
    i,r=idx(st,a[0],T.alts,T.z)
    if i is None or not recursive(E,E._cur[2]): return NotImplemented
    new=dict(scale=tobv(a[1],32),bit_len=tobv(a[2],32),bit_ref=tobv(a[3],32)); t=st.fork(); k=E.fresh('found',64)
    for n,v in new.items():
        if not E.prove(st,v==c.new[n],E.cname()+'the rest of the chain is searched for the same alteration'): return NULL
    st.assume(z3.And(z3.ULE(i,k),z3.ULT(k,T.m),T.same(k,c.new)))
    t.assume(z3.Implies(z3.And(z3.ULE(i,J),z3.ULT(J,T.m)),z3.Not(T.same(J,c.new))))
    return Multi([(st,Ptr(T.alts.obj,Lin.of(k).mul(T.z))),(t,NULL)])
def digits(b):
    r=z3.BitVecVal(0,32)
    for i in range(1,33): r=z3.If(b==i,z3.BitVecVal(len(str(2**i)),32),r)
    return r
class GetAlteration(Lookup):
    """on alteration i of the chain"""
    name='VartableEntry::get_alteration'; fn=GA; internal=True; uses=[(GA,rec_ga)]
    def cands(s,E,entry,keys,fn,h): return alt_cands(s,keys)
    def run(s,ctx,case):
        E=ctx.E; s.T=T=BTABLE(ctx); s.code=ctx.bv('code',16); i=ctx.bv('i',64); ctx.assume(z3.ULT(i,T.m)); s.i=i
        s.new=new={n:ctx.bv('new_'+n,32) for n in ('scale','bit_len','bit_ref')}
        def post(o):
            t=o.st
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            if isinstance(o.val,Ptr) and not o.val.obj: ctx.prove(t,z3.Implies(z3.And(z3.ULE(i,J),z3.ULT(J,T.m)),z3.Not(T.same(J,new))),'nothing is returned only when there is no such alteration'); return
            k,r=idx(t,o.val,T.alts,T.z)
            if not ctx.prove(t,k is not None and r==0,'an alteration of the chain is returned'): return
            ctx.prove(t,z3.And(z3.ULT(k,T.m),T.same(k,new)),'it has the scale, width and reference value asked for')
        ctx.call([Ptr(T.alts.obj,Lin.of(i).mul(T.z)),new['scale'],new['bit_len'],new['bit_ref']],post)
def alt_cands(s,keys):
    T=s.T; out=[]
    for k in keys:
        def f(w,k=k):
            p=w.raw(k); i=w.index(k)
            if i is None or p.obj!=T.alts.obj: return z3.BoolVal(True)
            return z3.And(z3.ULT(i,T.m),z3.Implies(z3.ULT(J,i),z3.Not(T.same(J,s.new))))
        def g(w,k=k):
            p=w.raw(k); i=w.index(k)
            if i is None or p.obj!=T.alts.obj: return z3.BoolVal(True)
            return z3.And(z3.ULT(i,T.m),z3.Implies(z3.And(z3.ULE(getattr(s,'i',v64(0)),J),z3.ULT(J,i)),z3.Not(T.same(J,s.new))))
        out+=[('%s in chain, nothing before'%(k,),f),('%s in chain, nothing between'%(k,),g)]
    return out
class QueryAltered(Lookup):
    opts={'switch_merge':8}
    name='Vartable::query_altered'; fn=r'^wreport::'+ND+r'VartableBase::query_altered\('; uses=[(GA,rec_ga),R_range]
    def cands(s,E,entry,keys,fn,h): return s.T.cands(s.code,keys,entry)+alt_cands(s,keys)
    def run(s,ctx,case):
        E=ctx.E; s.T=T=BTABLE(ctx); s.code=code=ctx.bv('code',16); s.new=new={n:ctx.bv('new_'+n,32) for n in ('scale','bit_len','bit_ref')}
        def post(o):
            t=o.st; links=gl(t,'links')
            if o.kind=='throw':
                T.untouched(ctx,t)
                if o.exc.typ==wr_err('error_notfound'): ctx.prove(t,T.absent(code),'not found only when it is not in the table'); return
                ctx.prove(t,o.exc.typ==wr_err('error_consistency'),'errors are error_notfound or error_consistency')
                rd=gl(t,'reads'); i=rd[-1] if rd else v64(0); ty=T.field('type',i)
                ctx.prove(t,z3.And(z3.ULT(i,T.n),sel(T.C,i)==code,z3.ULE(ty,1),z3.Or(new['scale']<-16,new['scale']>16,new['bit_len']==0,z3.UGT(new['bit_len'],32))),'only numbers with a scale or a width that is not supported are refused'); return
            i,r=idx(t,o.val,T.ents,T.z)
            if i is not None:
                ctx.prove(t,r==T.v0 ,'a description is returned'); ctx.prove(t,z3.And(z3.ULT(i,T.n),sel(T.C,i)==code),'the entry is the one with the code asked for')
                ctx.prove(t,z3.And(*[T.field(n,i)==v for n,v in new.items()]),'the entry of the table is returned only when it is as asked for'); T.untouched(ctx,t); return
            k,r=idx(t,o.val,T.alts,T.z)
            if k is not None:
                ctx.prove(t,r==T.v0,'a description is returned'); ctx.prove(t,z3.And(z3.ULT(k,T.m),T.same(k,new)),'an existing alteration is returned only when it is as asked for'); T.untouched(ctx,t); return
            p=o.val
            if not ctx.prove(t,isinstance(p,Ptr) and p.obj and t.mem[p.obj].alive and norm(p.off)==T.v0,'a description is returned'): return
            e=Ptr(p.obj,Lin.of(0))
            if not ctx.prove(t,len(links)>=1,'a new alteration is kept by the table'): return
            ctx.prove(t,tobv(t.g['#links'],64)==len(links),'the table is changed in one place only')
            i,v=links[-1]
            ctx.prove(t,isinstance(v,Ptr) and v.obj==p.obj and norm(v.off)==0,'a new alteration is kept by the table')
            ctx.prove(t,z3.And(z3.ULT(i,T.n),sel(T.C,i)==code),'it is an alteration of the entry with the code asked for')
            nx=E.load(t,PTR,e.plus(off(E,'VartableEntry','alterations'))); want=T.node(E,t,v64(0))
            ctx.prove(t,isinstance(nx,Ptr) and nx.obj==want.obj and norm(nx.off)==norm(want.off),'the other alterations are kept')
            g=lambda n,w=I32:tobv(E.load(t,w,p.plus(off(E,'Varinfo',n))),w[1])
            ctx.prove(t,g('code',I16)==code,'the code is kept')
            for n,w in new.items(): ctx.prove(t,g(n)==w,n+' is as asked for')
            ty=T.field('type',i); ctx.prove(t,g('type')==z3.If(ty==2,ty,z3.If(new['scale']!=0,z3.BitVecVal(1,32),z3.BitVecVal(0,32))),'text stays text; numbers are decimal when they have a scale')
            ctx.prove(t,z3.Implies(ty!=2,z3.And(new['scale']>=-16,new['scale']<=16,new['bit_len']!=0,z3.ULE(new['bit_len'],32))),'numbers with a scale or a width that is not supported are refused')
            ctx.prove(t,g('len')==z3.If(ty==2,z3.LShR(new['bit_len'],3),digits(new['bit_len'])),'the width in characters is the one of the new width in bits')
            ctx.prove(t,z3.simplify(z3.And(*[tobv(E.load(t,I8,p.plus(b)),8)==sel(T.B,i*T.z+T.v0+b) for b in T.txt])),'description and unit are the same')
            rg=[q for q in gl(t,'ranges') if q[0].obj==p.obj]
            if ctx.prove(t,len(rg)>=1,'the domain is computed'):
                for n,w in rg[-1][1].items(): ctx.prove(t,g(n,I16 if n=='code' else I32)==w,'the domain is the one of the altered description')
        ctx.call([T.p,code,new['scale'],new['bit_len'],new['bit_ref']],post)
class DTABLE(SORTED):
    def __init__(s,ctx):
        E=ctx.E; st=ctx.st; s.init(ctx,'entries'); s.z=z=off(E,'DEntry'); s.nv=ctx.bv('ncodes',64); ctx.assume(z3.ULT(s.nv,1<<30))
        s.b=z3.Array('begins',z3.BitVecSort(64),z3.BitVecSort(32)); s.e=z3.Array('ends',z3.BitVecSort(64),z3.BitVecSort(32))
        o=lambda f:off(E,'DEntry',f)
        s.ents=recobj(ctx,'entries',z,s.n,{o('code'):(2,'i',s.code),o('begin'):(4,'i',lambda E,st,i:s.rng(st,s.b,i)),o('end'):(4,'i',lambda E,st,i:s.rng(st,s.e,i))})
        s.codes=E.alloc(st,'varcodes',z3.simplify(2*s.nv),'bytes',ro=True); st.mem[s.codes.obj].arr=ctx.arr('varcodes',64)
        s.p=E.alloc(st,'dtable',off(E,'DTableBase'),lazy=True); pathname(ctx,s.p.plus(8)); s.vec(E,st,s.p.plus(off(E,'DTableBase','entries')),s.ents,z,s.n); s.vec(E,st,s.p.plus(off(E,'DTableBase','varcodes')),s.codes,2,s.nv)
    def rng(s,st,a,i):
        b,e=sel(s.b,i),sel(s.e,i); st.assume(z3.And(z3.ULE(b,e),z3.ULE(z3.ZeroExt(32,e),s.nv))); return sel(a,i)
class DQuery(Contract):
    name='DTable::query'; search='dtable'; fn=r'^wreport::'+ND+r'DTableBase::query\(unsigned short\) const'
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h): return s.T.cands(s.code,keys,entry)
    def run(s,ctx,case):
        E=ctx.E; s.T=T=DTABLE(ctx); s.code=code=ctx.bv('code',16)
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.typ==wr_err('error_notfound'),'the error is error_notfound'); ctx.prove(t,T.absent(code),'not found only when it is not in the table'); return
            b,e=o.val
            if not ctx.prove(t,all(isinstance(x,Ptr) and x.obj==T.codes.obj for x in (b,e)),'the expansion is a part of the table'): return
            i=gl(t,'reads'); i=i[-1] if i else v64(0)
            ctx.prove(t,z3.And(z3.ULT(i,T.n),sel(T.C,i)==code),'the entry is the one with the code asked for')
            ctx.prove(t,z3.And(Lin.of(b.off).bv()==2*z3.ZeroExt(32,sel(T.b,i)),Lin.of(e.off).bv()==2*z3.ZeroExt(32,sel(T.e,i))),'the expansion is the one of that entry, all of it')
        ctx.call([T.p,code],post)
CONTRACTS=[Query(),Contains(),GetAlteration(),QueryAltered(),DQuery()]
# ---------------------------------------------------------------- appending entries
VE=r'std::vector<wreport::'+ND+r'VartableEntry, .*>::'
def append_entry(E,st,a,ins):
    c=E.ctx.con; z=c.z; n=c.n
    v=E.load(st,PTR,a[1].plus(off(E,'VartableEntry','alterations'))) if len(a)>1 else NULL
    E.prove(st,isinstance(v,Ptr) and not v.obj,E.cname()+'a new entry has no alterations')
    push(st,'appended',1); E.store(st,PTR,Ptr(c.ents.obj,Lin.of(n+1).mul(z)),c.vp.plus(8))
    return Ptr(c.ents.obj,Lin.of(n).mul(z))
class Obtain(Contract):
    name='Vartable: entries are added in order'; internal=True; search='btable'; fn=r'^wreport::'+ND+r'VartableBase::obtain\('
    uses=[(VE+r'(emplace_back|push_back)(<.*>)?\(',append_entry)]
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.n=n=ctx.bv('entries',64); ctx.assume(z3.ULT(n,1<<24)); s.z=z=off(E,'VartableEntry'); v0=off(E,'VartableEntry','varinfo'); co=v0+off(E,'Varinfo','code')
        C=z3.Array('codes',z3.BitVecSort(64),z3.BitVecSort(16)); s.ents=recobj(ctx,'entries',z,n+1,{co:(2,'i',C)},ro=False)
        p=E.alloc(st,'table',off(E,'VartableBase'),lazy=True); pathname(ctx,p.plus(8)); s.vp=p.plus(off(E,'VartableBase','entries')); at=lambda i:Ptr(s.ents.obj,Lin.of(i).mul(z))
        E.store(st,PTR,at(0),s.vp); E.store(st,PTR,at(n),s.vp.plus(8)); E.store(st,PTR,at(n+1),s.vp.plus(16))
        code=ctx.bv('code',16); ln=ctx.bv('line_no',32); ctx.assume(z3.Implies(z3.ULT(J,n-1),z3.ULT(sel(C,J),sel(C,n-1))))
        def post(o):
            t=o.st; C2=t.mem[s.ents.obj].fields[co][2]; e=E.load(t,PTR,s.vp.plus(8)); ap=len(gl(t,'appended'))
            ctx.prove(t,z3.Implies(z3.ULT(J,n),sel(C2,J)==sel(C,J)),'the entries that were there are kept')
            if o.kind=='throw':
                ctx.prove(t,o.exc.typ==wr_err('error_parse') and not ap,'errors are error_parse, nothing is added'); ctx.prove(t,z3.And(n!=0,z3.UGE(sel(C,n-1),code)),'only codes out of order are refused'); return
            ctx.prove(t,ap==1,'one entry is added'); i,r=idx(t,o.val,s.ents,z)
            if not ctx.prove(t,i is not None and r==v0,'the new entry is returned'): return
            ctx.prove(t,i==n,'the new entry is the last one'); ctx.prove(t,sel(C2,n)==code,'it has the code asked for'); ctx.prove(t,z3.Implies(z3.ULT(J,n),z3.ULT(sel(C2,J),sel(C2,n))),'entries stay in increasing order of code')
        ctx.call([p,ln,code],post)
# ---------------------------------------------------------------- descriptions made up for a bulletin
MAPR=r'std::map<.*wreport::_Varinfo, .*>::'
def map_key(E,st,p):
    c=E.ctx.con
    if c.kz=='s':
        d,n=lib.str_get(E,st,p); arr=lib.bytes_obj(E,st,Ptr(d.obj,Lin.of(0))).arr; return (T64(n),lambda i,arr=arr,o=Lin.of(d.off).bv():z3.Select(arr,o+i))
    return tobv(E.load(st,('i',8*c.kz),p),8*c.kz)
def map_look(E,st,kp):
    """-> states in which the key is present / absent. What is present was put there by a previous request, with the key that the code makes for it"""
    c=E.ctx.con; k=map_key(E,st,kp); have=gl(st,'key')
    if have:
        k0,hit,node=have[-1]
        if c.kz=='s': E.prove(st,z3.And(k[0]==k0[0],z3.Implies(z3.ULT(J,k[0]),k[1](J)==k0[1](J))),E.cname()+'the same key is used to look up and to add')
        else: E.prove(st,k==k0,E.cname()+'the same key is used to look up and to add')
        return [(st,hit,node)]
    sub=[(x,z3.FreshConst(x.sort(),'earlier')) for x in c.inputs]; f=lambda e:z3.substitute(e,*sub); new=dict((id(a),b) for a,b in sub)
    t=st.fork(); node=E.alloc(st,'node',32+c.voff+off(E,'Varinfo'),lazy=True); push(st,'key',(k,True,node)); push(t,'key',(k,False,None))
    c.spec(E,st,node.plus(32+c.voff),[b for _,b in sub],True); st.assume(f(c.pre))
    if c.kz=='s':
        st.assume(f(k[0])==k[0])
        for i in (J,k[0]-1,k[0]-2,v64(0),v64(1)): st.assume(z3.Implies(z3.ULT(i,k[0]),f(k[1](i))==k[1](i)))
    else: st.assume(f(k)==k)
    return [(st,True,node),(t,False,None)]
def mm_end(E,st,a,ins): return E.ctx.con.mend
def mm_find(E,st,a,ins): return Multi([(s,n if h else E.ctx.con.mend) for s,h,n in map_look(E,st,a[1])])
def mm_count(E,st,a,ins): return Multi([(s,1 if h else 0) for s,h,n in map_look(E,st,a[1])])
def mm_add(E,st):
    c=E.ctx.con; n=E.alloc(st,'new node',32+c.voff+off(E,'Varinfo'),lazy=True); k,_,_=gl(st,'key')[-1]; push(st,'key',(k,True,n)); push(st,'added',n.obj); return n
def mm_emplace(E,st,a,ins):
    r=[]
    for s,h,n in map_look(E,st,a[1]):
        r.append((s,[n if h else mm_add(E,s),0 if h else 1]))
    return Multi(r)
def mm_index(E,st,a,ins): return Multi([(s,(n if h else mm_add(E,s)).plus(32+E.ctx.con.voff)) for s,h,n in map_look(E,st,a[1])])
def mm_at(E,st,a,ins):
    r=[]
    for s,h,n in map_look(E,st,a[1]): r.append((s,n.plus(32+E.ctx.con.voff) if h else Thrown('std::out_of_range')))
    return Multi(r)
R_mm=[(MAPR+r'c?end\(\)',mm_end),(MAPR+r'find\(',mm_find),(MAPR+r'count\(',mm_count),(MAPR+r'(emplace|insert|try_emplace)(<.*>)?\(',mm_emplace),(MAPR+r'operator\[\]\(',mm_index),(MAPR+r'at\(',mm_at)]
class Made(Contract):
    search='tables_made'; uses=R_mm+[R_range]
    def fields(s,E,ins): raise NotImplementedError
    def spec(s,E,st,p,ins,make,ctx=None):
        o=lambda n:p.plus(off(E,'Varinfo',n))
        for n,w,v in s.fields(ins):
            if make: E.store(st,w,v,o(n))
            elif n=='len' and s.kz==4:
                x=tobv(E.load(st,w,o(n)),32)
                if p.obj not in gl(st,'added'): ctx.prove(st,x==v,'len is the one asked for'); continue
                nb=F.bvint(E,st,s.bits,False); nl=F.bvint(E,st,x,False); ctx.prove(st,z3.And(8*nl>=nb,8*nl<nb+8),'the length in bytes is the one that holds that many bits')
            else: ctx.prove(st,tobv(E.load(st,w,o(n)),w[1])==v,n+' is the one asked for')
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; p=E.alloc(st,'Tables',off(E,'Tables'),lazy=True); s.mend=E.alloc(st,'map end',64,lazy=True); s.pre=z3.BoolVal(True); args=s.setup(ctx,p); ctx.assume(s.pre)
        def post(o):
            t=o.st
            if o.kind=='throw':
                ctx.prove(t,o.exc.typ==wr_err('error_consistency'),'errors are error_consistency'); ctx.prove(t,s.refused(),'refused only when it is not supported'); return
            v=o.val; k=gl(t,'key')
            if not ctx.prove(t,isinstance(v,Ptr) and len(k)>=1 and k[-1][1] and v.obj==k[-1][2].obj and norm(v.off)==32+s.voff,'a description kept by the tables is returned'): return
            s.spec(E,t,v,s.inputs,False,ctx)
            if v.obj in gl(t,'added'): ctx.prove(t,[q for q in gl(t,'ranges') if q[0].obj==v.obj]!=[],'the domain is computed')
        ctx.call(args,post)
    def refused(s): return False
class GetBitmap(Made):
    name='Tables::get_bitmap'; fn=r'^wreport::Tables::get_bitmap\('; kz='s'; voff=32
    def setup(s,ctx,p):
        E=ctx.E; s.BM=z3.Array('BITMAP',z3.BitVecSort(64),z3.BitVecSort(8)); s.n=ctx.bv('n',64); s.code=ctx.bv('code',16); s.inputs=[s.BM,s.n,s.code]; s.pre=z3.ULT(s.n,1<<31)
        sp=E.alloc(ctx.st,'bitmap',32,lazy=True); lib.str_new(E,ctx.st,sp,s.BM,s.n,'bitmap'); return [p,s.code,sp]
    def fields(s,ins):
        _,n,code=ins; l=z3.Extract(31,0,n); return [('code',I16,code),('type',I32,z3.BitVecVal(2,32)),('len',I32,l),('bit_len',I32,8*l),('scale',I32,z3.BitVecVal(0,32)),('bit_ref',I32,z3.BitVecVal(0,32))]
class GetChardata(Made):
    name='Tables::get_chardata'; fn=r'^wreport::Tables::get_chardata\('; kz=2; voff=8
    def setup(s,ctx,p):
        s.code=ctx.bv('code',16); s.len=ctx.bv('len',32); s.inputs=[s.code,s.len]; s.pre=s.len==z3.ZeroExt(24,z3.Extract(7,0,s.code)); return [p,s.code,s.len]
    def fields(s,ins):
        code,l=ins; return [('code',I16,code),('type',I32,z3.BitVecVal(2,32)),('len',I32,l),('bit_len',I32,8*l),('scale',I32,z3.BitVecVal(0,32)),('bit_ref',I32,z3.BitVecVal(0,32))]
class GetUnknown(Made):
    name='Tables::get_unknown'; fn=r'^wreport::Tables::get_unknown\('; kz=4; voff=8
    def setup(s,ctx,p): s.code=ctx.bv('code',16); s.bits=ctx.bv('bit_len',32); s.inputs=[s.code,s.bits]; s.pre=z3.ULE(s.bits,0xffff); return [p,s.code,s.bits]
    def fields(s,ins):
        code,b=ins; return [('code',I16,code),('type',I32,z3.BitVecVal(3,32)),('len',I32,z3.UDiv(b+7,z3.BitVecVal(8,32))),('bit_len',I32,b),('scale',I32,z3.BitVecVal(0,32)),('bit_ref',I32,z3.BitVecVal(0,32))]
CONTRACTS+=[Obtain(),GetBitmap(),GetChardata(),GetUnknown()]
