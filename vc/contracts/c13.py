"""C13: the tables used for a bulletin are the best acceptable match for what its header asks for."""
from .common import *
from .varobj import gl,push
from .c12 import sel,idx,J
SRCS=['tableinfo.cc','internals/tabledir.cc','tables.cc','bulletin.cc','error.cc','notes.cc']
INST=['layout.cc','tabledir_layout.cc']
ASSUMPTIONS=['std::map finds what was stored under an equivalent key (operator< is proved to make keys equivalent only when they are equal)','the tables of a directory do not change once the index is built','dynamic_cast, std::vector iteration as in the C++ standard',
 'fewer than 2^24 tables; table files are read and identified as their names say (Dir::refresh is not under contract)']
I16=("i",16)
ND=r'\(anonymous namespace\)::'
BF=[('originating_centre',16),('originating_subcentre',16),('master_table_number',8),('master_table_version_number',8),('master_table_version_number_local',8)]
CF=[('edition_number',8)]+BF+[('master_table_version_number_bufr',8)]
def flds(k): return BF if k=='Bufr' else CF
def tb(v): return z3.BoolVal(bool(v)) if isc(v) or isinstance(v,bool) else (v if isinstance(v,z3.BoolRef) else v!=0)
class ID:
    """a table identifier with arbitrary contents"""
    def __init__(s,ctx,kind,nm,st=None):
        E=ctx.E; s.kind=kind; s.p=E.alloc(ctx.st,nm,off(E,kind+'TableID'),lazy=True,ro=False); s.v={}
        for f,w in flds(kind): s.v[f]=ctx.bv(nm+'_'+f,w); E.store(ctx.st,('i',w),s.v[f],s.p.plus(off(E,kind+'TableID',f)))
def acceptable(bk,b,ck,c):
    """candidate c (kind ck) can be used when b (kind bk) is asked for"""
    same=c['master_table_number']==b['master_table_number']
    if bk=='Bufr': return z3.And(same,z3.UGE(c['master_table_version_number'],b['master_table_version_number'])) if ck=='Bufr' else z3.BoolVal(False)
    if ck=='Bufr': return z3.And(same,z3.UGE(c['master_table_version_number'],b['master_table_version_number_bufr']))
    return z3.And(same,c['edition_number']==b['edition_number'],z3.UGE(c['master_table_version_number'],b['master_table_version_number']),z3.UGE(c['master_table_version_number_bufr'],b['master_table_version_number_bufr']))
def I(n): return z3.BitVecVal(n,32)
def ze(x): return z3.ZeroExt(32-x.size(),x)
def rank(bk,b,ck,c,against):
    """how far the candidate is from what is asked for: smaller is better, in order of importance (against: kind of the other candidate)"""
    r=[]
    if ck==against:
        r.append(ze(c['master_table_version_number']))
        if ck=='Crex': r.append(ze(c['master_table_version_number_bufr']))
    else: r.append(ze(c['master_table_version_number'] if ck=='Bufr' else c['master_table_version_number_bufr']))
    exact=c['originating_centre']==b['originating_centre']
    r.append(z3.If(exact,I(0),z3.If(c['originating_centre']==0,I(1),z3.If(c['originating_centre']==0xffff,I(2),I(3)))))
    l,w=ze(c['master_table_version_number_local']),ze(b['master_table_version_number_local'])
    r.append(z3.If(z3.Or(z3.Not(exact),w==0),I(0),z3.If(z3.UGE(l,w),l,I(1000)-l)))
    r.append(z3.If(z3.Or(z3.Not(exact),c['originating_subcentre']==b['originating_subcentre']),I(0),I(1)))
    return r
def lex(x,y,eq):
    """x before y (or equal, when eq)"""
    r=z3.BoolVal(eq)
    for a,b in reversed(list(zip(x,y))): r=z3.Or(z3.ULT(a,b),z3.And(a==b,r))
    return r
class Acceptable(Contract):
    search='tabledir'
    def __init__(s,bk,ck): s.bk,s.ck=bk,ck; s.name='%sTableID::is_acceptable_replacement(%sTableID)'%(bk,ck); s.fn=r'^wreport::%sTableID::is_acceptable_replacement\(wreport::%sTableID const&\) const'%(bk,ck)
    def run(s,ctx,case):
        b=ID(ctx,s.bk,'wanted'); c=ID(ctx,s.ck,'candidate')
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            ctx.prove(o.st,tb(o.val)==acceptable(s.bk,b.v,s.ck,c.v),'acceptable exactly when it is for the same master table (and CREX edition) and not older')
        ctx.call([b.p,c.p],post)
class Closest(Contract):
    search='tabledir'
    def __init__(s,bk,k1,k2): s.bk,s.k1,s.k2=bk,k1,k2; s.name='%sTableID::closest_match(%s, %s)'%(bk,k1,k2); s.fn=r'^wreport::%sTableID::closest_match\(wreport::%sTableID const&, wreport::%sTableID const&\) const'%(bk,k1,k2)
    def run(s,ctx,case):
        b=ID(ctx,s.bk,'wanted'); x=ID(ctx,s.k1,'first'); y=ID(ctx,s.k2,'second')
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            v=tobv(o.val,32); rx=rank(s.bk,b.v,s.k1,x.v,s.k2); ry=rank(s.bk,b.v,s.k2,y.v,s.k1)
            ctx.prove(o.st,(v<0)==lex(rx,ry,False),'the first is preferred exactly when it is closer'); ctx.prove(o.st,(v>0)==lex(ry,rx,False),'the second is preferred exactly when it is closer')
        ctx.call([b.p,x.p,y.p],post)
class Less(Contract):
    """identifiers are equivalent only when equal: each has its own entry in the cache"""
    search='tabledir'
    def __init__(s,k): s.k=k; s.name='%sTableID::operator<'%k; s.fn=r'^wreport::%sTableID::operator<\('%k
    def run(s,ctx,case):
        x=ID(ctx,s.k,'x'); y=ID(ctx,s.k,'y'); z=ID(ctx,s.k,'z')
        eq=z3.And(*[x.v[f]==y.v[f] for f,_ in flds(s.k)]); E=ctx.E
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            a=tb(o.val); s.res.append((o.st,a))
        s.res=[]; st=ctx.st.fork(); ctx.call([x.p,y.p],post)
        # the relation as a formula over x and y
        rel=s.rel(ctx,x,y,s.res)
        sub=lambda p,q:z3.substitute(rel,*([(x.v[f],p.v[f]) for f,_ in flds(s.k)]+[(y.v[f],q.v[f]) for f,_ in flds(s.k)]))
        ctx.prove(st,z3.Implies(eq,z3.Not(rel)),'nothing is before itself'); ctx.prove(st,z3.Or(eq,rel,sub(y,x)),'different identifiers are ordered'); ctx.prove(st,z3.Not(z3.And(rel,sub(y,x))),'the order has a direction'); ctx.prove(st,z3.Implies(z3.And(rel,sub(y,z)),sub(x,z)),'the order is transitive')
    def rel(s,ctx,x,y,res):
        r=z3.BoolVal(False)
        for st,a in res: r=z3.Or(r,z3.And(*([p for p in st.pc]+[a])))
        return r
# ---------------------------------------------------------------- the search
def rd_id(E,st,kind,p):
    o=E.check_access(st,p,off(E,kind+'TableID'),'read')
    return {f:tobv(E.rd(st,o,p.plus(off(E,kind+'TableID',f)).off,w//8,('i',w)),w) for f,w in flds(kind)}
def table_of(E,st,kind,p):
    """the table whose identifier p is (possibly a copy of it)"""
    X=E.ctx.con.X; v=rd_id(E,st,kind,p); i=None
    for f,_ in flds(kind):
        e=v[f]
        if not z3.is_select(e) or not e.arg(0).eq(X.F[kind][f]) or (i is not None and not e.arg(1).eq(i)): raise Unsupported('identifier of no table')
        i=e.arg(1)
    return i
def wanted(E,st,kind,p):
    v=rd_id(E,st,kind,p); w=E.ctx.con.id.v
    E.prove(st,z3.And(*[v[f]==w[f] for f,_ in flds(kind)]),E.cname()+'tables are judged against the identifier asked for','pre')
def m_acc(bk,ck):
    """whether table i is acceptable is a function of what is asked for and of i (proved: is_acceptable_replacement)"""
    def h(E,st,a,ins):
        wanted(E,st,bk,a[0])
        if (bk,ck)==('Bufr','Crex'): return 0
        return sel(E.ctx.con.X.ACC[ck],table_of(E,st,ck,a[1]))==1
    return h
def m_close(bk,k1,k2):
    """the sign of closest_match is that of a comparison between the closeness of the tables (proved: closest_match)"""
    def h(E,st,a,ins):
        wanted(E,st,bk,a[0]); X=E.ctx.con.X; i,j=table_of(E,st,k1,a[1]),table_of(E,st,k2,a[2]); r=E.fresh('closest',32); rx,ry=X.rank(k1,i,k2),X.rank(k2,j,k1)
        st.assume((r<0)==z3.ULT(rx,ry)); st.assume((r>0)==z3.ULT(ry,rx))
        if k1!=k2: push(st,'cross',(k1,i)); push(st,'cross',(k2,j))
        return r
    return h
R_ids=[(r'^wreport::%sTableID::is_acceptable_replacement\(wreport::%sTableID const&\) const'%(b,c),m_acc(b,c)) for b in ('Bufr','Crex') for c in ('Bufr','Crex')]
R_ids+=[(r'^wreport::%sTableID::closest_match\(wreport::%sTableID const&, wreport::%sTableID const&\) const'%x,m_close(*x)) for x in (('Bufr','Bufr','Bufr'),('Crex','Bufr','Bufr'),('Crex','Crex','Crex'),('Crex','Bufr','Crex'))]
def dyncast(E,st,a,ins):
    X=E.ctx.con.X; p=a[0]; t=E.glob_name(a[2]) if hasattr(E,'glob_name') else st.mem[a[2].obj].name
    want='Bufr' if 'BufrTable' in t else 'Crex' if 'CrexTable' in t else None
    if want is None: raise Unsupported('dynamic_cast to '+t)
    for k in ('Bufr','Crex'):
        if p.obj==X.recs[k].obj: return p if k==want else NULL
    if p.obj==X.other.obj: return NULL
    raise Unsupported('dynamic_cast of another object')
class INDEX:
    """m directories with n tables in all, of any kind"""
    def __init__(s,ctx):
        E=ctx.E; st=ctx.st; s.ctx=ctx; s.n=n=ctx.bv('tables',64); s.m=m=ctx.bv('dirs',64); ctx.assume(z3.And(z3.ULT(n,1<<24),z3.ULT(m,1<<16)))
        s.K=z3.Array('kind',z3.BitVecSort(64),z3.BitVecSort(8)); s.S=z3.Array('start',z3.BitVecSort(64),z3.BitVecSort(64)); ctx.assume(z3.And(sel(s.S,v64(0))==0,sel(s.S,m)==n))
        txt=ctx.bytesobj('name',ctx.arr('NAME',8),v64(64),ro=True); s.F={}; s.recs={}; s.z={}
        for k in ('Bufr','Crex'):
            o=off(E,k+'Table','id'); f={off(E,'Table','btable_id'):(8,'p',lambda E,st,i:txt),off(E,'Table','btable_id')+8:(8,'i',lambda E,st,i:v64(63))}; s.F[k]={}; s.z[k]=off(E,k+'Table')
            for nm,w in flds(k): s.F[k][nm]=z3.Array('%s_%s'%(k,nm),z3.BitVecSort(64),z3.BitVecSort(w)); f[o+off(E,k+'TableID',nm)]=(w//8,'i',s.F[k][nm])
            s.recs[k]=recobj(ctx,k+' tables',s.z[k],n,f)
        s.RANK={(k,x):z3.Array('CLOSE_%s%s'%(k,x),z3.BitVecSort(64),z3.BitVecSort(64)) for k in ('Bufr','Crex') for x in (0,1)}; s.ACC={k:z3.Array('ACCEPTABLE_'+k,z3.BitVecSort(64),z3.BitVecSort(8)) for k in ('Bufr','Crex')}
        s.other=E.alloc(st,'raw table',off(E,'Table'),lazy=True,ro=True)
        s.ptrs=recobj(ctx,'table pointers',8,n,{0:(8,'p',s.ptr)})
        o=off(E,'Dir','tables'); s.zd=off(E,'Dir')
        def start(d):
            def f(E,st,i):
                a,b=sel(s.S,i),sel(s.S,i+1); st.assume(z3.Implies(z3.ULT(i,s.m),z3.And(z3.ULE(a,b),z3.ULE(b,n)))); return Ptr(s.ptrs.obj,Lin.of(a if not d else b).mul(8))
            return f
        s.dirs=recobj(ctx,'dirs',s.zd,m,{o:(8,'p',start(0)),o+8:(8,'p',start(1))})
        s.p=E.alloc(st,'Index',off(E,'Index'),lazy=True); v=s.p.plus(off(E,'Index','dirs')); at=lambda i:Ptr(s.dirs.obj,Lin.of(i).mul(s.zd)); E.store(st,PTR,at(0),v); E.store(st,PTR,at(m),v.plus(8)); E.store(st,PTR,at(m),v.plus(16))
    def ptr(s,E,st,i):
        k=sel(s.K,i); cs=[z3.And(z3.ULT(i,s.n),k==0),z3.And(z3.ULT(i,s.n),k==1),z3.Not(z3.ULE(k,1))]
        for c,kind in zip(cs,('Bufr','Crex','o')):
            if E.must(st,c): return s.other if kind=='o' else Ptr(s.recs[kind].obj,Lin.of(i).mul(s.z[kind]))
        raise NeedFork(cs)
    def rank(s,k,i,against): return sel(s.RANK[(k,int(k!=against))],i)
    def id(s,k,i): return {f:sel(a,i) for f,a in s.F[k].items()}
    def which(s,p):
        """-> kind, index of a table pointer"""
        for k in ('Bufr','Crex'):
            if isinstance(p,Ptr) and p.obj==s.recs[k].obj:
                l=Lin.of(p.off).divexact(s.z[k]); return (None,None) if l is None else (k,l.bv())
        return None,None
MF=r'std::map<wreport::%sTableID, wreport::tabledir::Table const\*, .*>::'
class Find(Contract):
    weight=40
    search='tabledir'; opts={'tls_init':True,'lia_first':True,'lia_houdini':True}
    def __init__(s,k): s.k=k; s.name='Index::find_'+k.lower(); s.fn=r'^wreport::tabledir::Index::find_%s\('%k.lower(); s.uses=R_ids+[(r'^__dynamic_cast$',dyncast),(MF%k+r'find\(',s.m_find),(MF%k+r'c?end\(\)',s.m_end),(MF%k+r'(operator\[\])\(',s.m_at),(MF%k+r'(insert|emplace|try_emplace|insert_or_assign)(<.*>)?\(|'+MF%k+r'insert\b',s.m_ins),(r'^wreport::notes::logf\(',lambda E,st,a,ins:0)]
    def key(s,E,st,p):
        v=rd_id(E,st,s.k,p)
        E.prove(st,z3.And(*[v[f]==s.id.v[f] for f,_ in flds(s.k)]),E.cname()+'results are kept under the identifier asked for')
    def m_find(s,E,st,a,ins):
        s.key(E,st,a[1]); t=st.fork(); t.g[('hit',)]=1; return Multi([(st,s.mend),(t,s.node)])
    def m_end(s,E,st,a,ins): return s.mend
    def m_at(s,E,st,a,ins):
        s.key(E,st,a[1]); push(st,'stored',1); return s.slot
    def m_ins(s,E,st,a,ins):
        # insert(pair) or emplace(key,value): the key was not there, or the function has already returned
        s.key(E,st,a[1]); v=a[1].plus((off(E,s.k+'TableID')+7)//8*8) if len(a)==2 else a[2]; E.store(st,PTR,E.load(st,PTR,v),s.slot); push(st,'stored',1); return [s.node,1]
    def cut(s,dem,h): return True
    def cases(s): return ['Bufr','Crex']
    def better(s,R,J,same):
        """table R is at least as close as J"""
        (k1,i),(k2,j)=R,J; X=s.X; x,y=X.rank(k1,i,k2),X.rank(k2,j,k1)
        return z3.ULE(x,y) if k1!=k2 else z3.Or(z3.ULT(x,y),z3.And(x==y,z3.ULE(i,j)))      # the first found, between equals
    def ok(s,k,i): return z3.BoolVal(False) if (s.k,k)==('Bufr','Crex') else z3.And(z3.ULT(i,s.X.n),sel(s.X.K,i)==(0 if k=='Bufr' else 1),sel(s.X.ACC[k],i)==1)
    def cands(s,E,entry,keys,fn,h):
        X=s.X; out=[]; jk=s.case; okJ=s.ok(jk,J)
        best=[k for k in keys if k[0] in('cell','phi')]
        okp=lambda k,os:isinstance(entry.raw(k),Ptr) and entry.raw(k).obj in os
        best=[b for b in best if okp(b,(0,X.recs['Bufr'].obj,X.recs['Crex'].obj))]; keys=[p for p in keys if okp(p,(0,X.ptrs.obj,X.dirs.obj))]
        for b in best:
            def okb(w,b=b):
                k,i=X.which(w.raw(b)); return z3.BoolVal(True) if k is None else s.ok(k,i)
            out.append(('%s is acceptable'%(b,),okb))
            for p in keys:
                if p==b: continue
                def done(w,b=b,p=p):
                    q=w.raw(p)
                    if not isinstance(q,Ptr) or w.index(p) is None: return z3.BoolVal(True)
                    if q.obj==X.ptrs.obj: lim=w.index(p)
                    elif q.obj==X.dirs.obj: lim=sel(X.S,w.index(p))
                    else: return z3.BoolVal(True)
                    r=w.raw(b)
                    if not isinstance(r,Ptr): return z3.BoolVal(True)
                    k,i=X.which(r)
                    if k is None: return z3.Implies(z3.And(okJ,z3.ULT(J,lim)),z3.BoolVal(False)) if not r.obj else z3.BoolVal(True)
                    return z3.And(z3.ULT(i,lim),z3.Implies(z3.And(okJ,z3.ULT(J,lim)),s.better((k,i),(jk,J),True))) if k==jk else z3.ULT(i,lim)
                out.append(('%s is the best before %s'%(b,p),done))
        for p in keys:
            def inr(w,p=p):
                q=w.raw(p)
                if not isinstance(q,Ptr) or w.index(p) is None: return z3.BoolVal(True)
                if q.obj==X.ptrs.obj: return z3.ULE(w.index(p),X.n)
                if q.obj==X.dirs.obj: return z3.ULE(w.index(p),X.m)
                return z3.BoolVal(True)
            out.append(('%s in range'%(p,),inr))
            for nm,q in list(entry.st.frames[-1].regs.items()):
                if isinstance(q,Ptr) and q.obj in (X.ptrs.obj,X.dirs.obj):
                    try: lim=E.recidx(entry.st.mem[q.obj],q.off)[0]
                    except Unsupported: continue
                    out.append(('%s up to %s'%(p,nm),lambda w,p=p,q=q,lim=lim:z3.BoolVal(True) if not isinstance(w.raw(p),Ptr) or w.raw(p).obj!=q.obj or w.index(p) is None else z3.ULE(w.index(p),lim)))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.case=case; s.X=X=INDEX(ctx); s.id=ID(ctx,s.k,'wanted'); vo=(off(E,s.k+'TableID')+7)//8*8
        s.mend=E.alloc(st,'map end',64,lazy=True); s.node=E.alloc(st,'cached',64,lazy=True); s.slot=E.alloc(st,'cache slot',8,lazy=True); s.cached=E.alloc(st,'cached table',8,lazy=True); E.store(st,PTR,s.cached,s.node.plus(32+vo)); E.store(st,PTR,NULL,s.slot)
        def post(o):
            t=o.st; r=o.val
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            if t.g.get(('hit',)): ctx.prove(t,isinstance(r,Ptr) and r.obj==s.cached.obj,'what was found before is given again'); return
            okJ=s.ok(case,J)
            if isinstance(r,Ptr) and not r.obj:
                ctx.prove(t,z3.Not(okJ),'nothing is found only when no table is acceptable'); ctx.prove(t,not gl(t,'stored') or E.load(t,PTR,s.slot).obj==0,'nothing is remembered'); return
            k,i=X.which(r)
            if not ctx.prove(t,k is not None,'a table of one of the directories is given'): return
            ctx.prove(t,s.ok(k,i),'the table is acceptable')
            v=E.load(t,PTR,s.slot) if gl(t,'stored') else r
            ctx.prove(t,isinstance(v,Ptr) and v.obj==r.obj and norm(v.off)==norm(r.off),'the table found is remembered')
            if k==case: ctx.prove(t,z3.Implies(okJ,s.better((k,i),(case,J),True)),'no acceptable table of the same kind is closer')
            else:
                w=[]
                for kc,ic in gl(t,'cross'):
                    if kc==case: w.append(z3.And(s.ok(kc,ic),s.better((kc,ic),(case,J),True),s.better((k,i),(kc,ic),False)))
                ctx.prove(t,z3.Implies(okJ,z3.Or(*w)) if w else z3.Not(okJ),'it is at least as close as the closest of the other kind')
        ctx.call([X.p,s.id.p],post)
# ---------------------------------------------------------------- who asks, and what is done with the answer
class Delegate(Contract):
    """Tabledirs::find_*: the answer of the index of its own directories"""
    search='tabledir'
    def __init__(s,k): s.k=k; s.name='Tabledirs::find_'+k.lower(); s.fn=r'^wreport::tabledir::Tabledirs::find_%s\('%k.lower(); s.uses=[(r'^wreport::tabledir::Index::Index\(',s.m_new),(r'^wreport::tabledir::Index::find_%s\('%k.lower(),s.m_find)]
    def cases(s): return ['first','again']
    def m_new(s,E,st,a,ins):
        E.prove(st,isinstance(a[1],Ptr) and a[1].obj==s.p.obj and norm(a[1].off)==off(E,'Tabledirs','dirs'),E.cname()+'the index is made of these directories','pre'); push(st,'made',a[0]); return None
    def m_find(s,E,st,a,ins):
        v=rd_id(E,st,s.k,a[1]); E.prove(st,z3.And(*[v[f]==s.id.v[f] for f,_ in flds(s.k)]),E.cname()+'the table looked for is the one asked for','pre')
        E.prove(st,a[0].obj==(gl(st,'made')[-1].obj if gl(st,'made') else s.ix.obj),E.cname()+'the table is looked for in the index','pre'); push(st,'asked',1); return s.t
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.id=ID(ctx,s.k,'wanted'); s.p=E.alloc(st,'Tabledirs',off(E,'Tabledirs'),lazy=True); s.ix=E.alloc(st,'index',off(E,'Index'),lazy=True); s.t=E.alloc(st,'table',off(E,'Table'),lazy=True)
        E.store(st,PTR,NULL if case=='first' else s.ix,s.p.plus(off(E,'Tabledirs','index')))
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            ctx.prove(o.st,isinstance(o.val,Ptr) and o.val.obj==s.t.obj and bool(gl(o.st,'asked')),'what the index gives is given'); q=E.load(o.st,PTR,s.p.plus(off(E,'Tabledirs','index')))
            ctx.prove(o.st,q.obj==(gl(o.st,'made')[-1].obj if gl(o.st,'made') else s.ix.obj),'the index is kept'); ctx.prove(o.st,len(gl(o.st,'made'))==(case=='first'),'the index is made once')
        ctx.call([s.p,s.id.p],post)
class Load(Contract):
    """Tables::load_*: the B and D tables of the table found"""
    search='tabledir'
    def __init__(s,k):
        s.k=k; l=k.lower(); s.name='Tables::load_'+l; s.fn=r'^wreport::Tables::load_%s\('%l
        s.uses=[(r'^wreport::tabledir::Tabledirs::get\(',lambda E,st,a,ins:s.dirs),(r'^wreport::tabledir::Tabledirs::find_%s\('%l,s.m_find),(r'^wreport::Vartable::load_%s\('%l,s.m_load('btable')),(r'^wreport::DTable::load_%s\('%l,s.m_load('dtable'))]
    def m_find(s,E,st,a,ins):
        v=rd_id(E,st,s.k,a[1]); E.prove(st,z3.And(*[v[f]==s.id.v[f] for f,_ in flds(s.k)]),E.cname()+'the table looked for is the one asked for','pre'); E.prove(st,a[0].obj==s.dirs.obj,E.cname()+'in the table directories','pre')
        t=st.fork(); t.g[('none',)]=1; return Multi([(st,s.t),(t,NULL)])
    def m_load(s,w):
        def h(E,st,a,ins):
            if re.search(r'\(char const\*\)',DEM[E._cur[2]]): d,n=a[0],None
            else: d,n=str_get(E,st,a[0])
            A,N=s.path[w]; x=z3.Select(st.mem[d.obj].arr,tobv(Lin.of(d.off).add(Lin.of(J)),64))
            E.prove(st,z3.And(*([T64(n)==N] if n is not None else [])+[z3.Implies(z3.ULE(J,N) if n is None else z3.ULT(J,N),x==sel(A,J))]),E.cname()+'the %s is the one of the table found'%w,'pre'); t=st.fork(); t.g[('bad',)]=1; return Multi([(st,s.got[w]),(t,Thrown(wr_err('error_notfound')))])
        return h
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.id=ID(ctx,s.k,'wanted'); al=lambda n,z:E.alloc(st,n,z,lazy=True)
        s.dirs=al('Tabledirs',off(E,'Tabledirs')); s.t=al('table',off(E,'Table')); s.got={'btable':al('B table',8),'dtable':al('D table',8)}; p=al('Tables',off(E,'Tables'))
        s.path={}
        for w in s.got:
            A,N=ctx.arr('PATH_'+w,8),ctx.bv('pathlen_'+w,64); ctx.assume(z3.And(z3.ULT(N,4096),sel(A,N)==0)); s.path[w]=(A,N); q=s.t.plus(off(E,'Table',w+'_pathname')); E.store(st,PTR,ctx.bytesobj(w+' path',A,N+1,ro=True),q); E.store(st,I64,N,q.plus(8))
        def post(o):
            if o.kind=='throw':
                ctx.prove(o.st,o.exc.typ==wr_err('error_notfound'),'the error is error_notfound'); ctx.prove(o.st,bool(o.st.g.get(('none',)) or o.st.g.get(('bad',))),'refused only when there is no acceptable table, or it cannot be read'); return
            for w in ('btable','dtable'):
                q=E.load(o.st,PTR,p.plus(off(E,'Tables',w))); ctx.prove(o.st,isinstance(q,Ptr) and q.obj==s.got[w].obj,'the %s of the table found is used'%w)
            ctx.prove(o.st,not o.st.g.get(('none',)),'not finding a table is an error')
        ctx.call([p,s.id.p],post)
class Ask(Contract):
    """load_tables: the identifier looked for is made of the header fields it is named after"""
    search='tabledir'
    def __init__(s,k): s.k=k; s.name=k+'Bulletin::load_tables'; s.fn=r'^wreport::%sBulletin::load_tables\('%k; s.uses=[(r'^wreport::Tables::load_%s\('%k.lower(),s.m_load)]
    def m_load(s,E,st,a,ins):
        E.prove(st,isinstance(a[0],Ptr) and a[0].obj==s.p.obj and norm(a[0].off)==off(E,s.k+'Bulletin','tables'),E.cname()+'the tables are those of the bulletin','pre'); v=rd_id(E,st,s.k,a[1])
        for f,_ in flds(s.k): E.prove(st,v[f]==s.v[f],E.cname()+f+' is the one of the header','pre')
        push(st,'loaded',1); return None
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.p=E.alloc(st,s.k+'Bulletin',off(E,s.k+'Bulletin'),lazy=True); s.v={}
        for f,w in flds(s.k): s.v[f]=ctx.bv(f,w); E.store(st,('i',w),s.v[f],s.p.plus(off(E,s.k+'Bulletin',f)))
        def post(o): ctx.prove(o.st,o.kind=='ret' and len(gl(o.st,'loaded'))==1,'tables are loaded')
        ctx.call([s.p],post)
# ---------------------------------------------------------------- which tables a directory has
PA=r'std::filesystem::__cxx11::path::'; ST=r'std::__cxx11::basic_string<char, [^<>]*<char>, std::allocator<char> ?>'
def cp(E,st,dst,src,name):
    d,n=str_get(E,st,src); o=st.mem[d.obj]; A=o.arr if d.off==0 else None
    if A is None: raise Unsupported('string inside a buffer')
    str_new(E,st,dst,A,n,name)
def p_copy(E,st,a,ins): cp(E,st,a[0],a[1],'path'); return None
def p_empty(E,st,a,ins): str_new(E,st,a[0],None,0,'path'); return None
def p_join(E,st,a,ins):
    """dir / name: the file called name in dir"""
    n=E.fresh('joined',64); st.assume(z3.ULT(n,1<<20)); d=str_new(E,st,a[0],None,n,'path'); st.g[('join',d.obj)]=(txt(E,st,a[1]),txt(E,st,a[2])); return None
def p_move(E,st,a,ins):
    d,n=str_get(E,st,a[1]); E.store(st,PTR,d,a[0]); E.store(st,I64,n,a[0].plus(8)); str_new(E,st,a[1],None,0,'path'); return a[0]
def txt(E,st,p):
    d,n=str_get(E,st,p); o=st.mem[d.obj]; return (o.arr,Lin.of(d.off).bv(),T64(n))
def same(x,y,K):
    """texts x and y are equal (at K)"""
    return z3.And(x[2]==y[2],z3.Implies(z3.ULT(K,x[2]),z3.Select(x[0],x[1]+K)==z3.Select(y[0],y[1]+K)))
R_path=[(r'^'+PA+r'path\(\)$',p_empty),(r'^'+PA+r'path<.*>\(',p_copy),(r'^'+PA+r'path\(.*(basic_string|path const&|path&&)',p_copy),(r'^std::filesystem::__cxx11::operator/\(',p_join),(r'^'+PA+r'operator=\(.*path&&\)',p_move),(r'^'+PA+r'~path\(\)',lambda E,st,a,ins:None)]
def text(ctx,p,nm,N=None,lo=0):
    E=ctx.E; st=ctx.st; A=ctx.arr(nm,8); n=ctx.bv(nm+'_len',64) if N is None else v64(N); ctx.assume(z3.And(z3.ULT(n,4096),z3.UGE(n,lo),sel(A,n)==0)); E.store(st,PTR,ctx.bytesobj(nm,A,n+1,ro=True),p); E.store(st,I64,n,p.plus(8)); return (A,v64(0),n)
def ext(A,o,n): return z3.And(z3.UGE(n,4),*[z3.Select(A,o+n-4+i)==ord(c) for i,c in enumerate('.txt')])
class TableCtor(Contract):
    """the files that belong to a table, given the name of its B table file"""
    name='Table::Table'; fn=r'^wreport::tabledir::Table::Table\('; search='tabledir'
    def __init__(s): s.uses=R_path+[(ST+r'::rfind\(char, unsigned long\) const',s.m_rfind)]
    def m_rfind(s,E,st,a,ins):
        A,o,n=txt(E,st,a[0]); 
        if not (isc(a[1]) and isc(a[2]) and a[2]==mask(64)): raise Unsupported('rfind from a position')
        r=E.fresh('rfind',64); c=z3.BitVecVal(a[1]&255,8); none=r==v64(mask(64))
        for i in range(1,5): x=n-i; st.assume(z3.Implies(z3.And(z3.UGE(n,i),z3.Select(A,o+x)==c),z3.And(z3.Not(none),z3.UGE(r,x))))
        st.assume(z3.Or(none,z3.And(z3.ULT(r,n),z3.Select(A,o+r)==c))); return r
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; p=E.alloc(st,'Table',off(E,'Table'),lazy=True); d=E.alloc(st,'dirname',40,lazy=True); f=E.alloc(st,'filename',32,lazy=True); D=text(ctx,d,'DIRNAME'); F=text(ctx,f,'FILENAME',lo=5); ctx.assume(ext(*F))
        Dn=(z3.Store(F[0],v64(0),z3.BitVecVal(68,8)),F[1],F[2]); cut=lambda x:(x[0],x[1],x[2]-4)
        def post(o):
            t=o.st
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            for w,x in (('btable',F),('dtable',Dn)):
                q=E.load(t,PTR,p.plus(off(E,'Table',w+'_pathname'))); j=t.g.get(('join',q.obj))
                if ctx.prove(t,j is not None,'the %s is a file in the directory'%w): ctx.prove(t,same(j[0],D,J),'the %s is in the same directory'%w); ctx.prove(t,same(j[1],x,J),'the %s has its own name'%w)
                ctx.prove(t,same(txt(E,t,p.plus(off(E,'Table',w+'_id'))),cut(x),J),'the %s is called as its file'%w)
        ctx.call([p,d,f],post)
def num(ds):
    r=z3.BitVecVal(0,32)
    for d in ds: r=r*10+z3.ZeroExt(24,d-48)
    return r
def isdig(d): return z3.And(z3.UGE(d,48),z3.ULE(d,57))
def named(L,c):
    """what a file called c (L characters) says about its table: (condition, kind, {field: value})"""
    g=lambda i,n:num(c[i:i+n])
    if L==11: return z3.And(*[isdig(x) for x in c[1:7]]),'Crex',{'master_table_number':g(1,2),'edition_number':g(3,2),'master_table_version_number':g(5,2)}
    if L==20: return z3.And(*[x==48 for x in c[1:6]]+[isdig(x) for x in c[6:16]]),'Bufr',{'originating_subcentre':g(6,3),'originating_centre':g(9,3),'master_table_version_number':g(12,2),'master_table_version_number_local':g(14,2)}
    if L==24: return z3.And(*[x==48 for x in c[1:3]]+[isdig(x) for x in c[3:20]]),'Bufr',{'originating_subcentre':g(6,4),'originating_centre':g(10,4),'master_table_version_number':g(14,3),'master_table_version_number_local':g(17,3)}
IT=r'^wreport::sys::Path::iterator::'
class Refresh(Contract):
    """reading a directory: each table file found in it becomes a table, identified as its name says"""
    weight=15; name='Dir::refresh'; fn=r'^wreport::tabledir::Dir::refresh\('; search='tabledir'; opts={'tls_init':True}
    def cases(s): return ['short',11,20,24,'other']
    def __init__(s):
        no=lambda E,st,a,ins:None
        s.uses=R_path+[(r'^std::filesystem::exists\(',lambda E,st,a,ins:s.m_exists(E,st,a)),(r'^wreport::sys::Path::Path\(',no),(r'^wreport::sys::\w+::~\w+\(',no),(r'^wreport::sys::(Path|\w*FileDescriptor)::fstat\(',s.m_stat),(r'^wreport::sys::Path::(begin|end)\(',s.m_it),(IT+r'(iterator|~iterator)\(',no),(IT+r'operator(!=|==)\(',s.m_ne),(IT+r'operator(\*|->)\(',lambda E,st,a,ins:s.ent),(IT+r'operator\+\+\(',s.m_next),(r'^__isoc\d+_sscanf$|^sscanf$',s.m_scan),(r'^wreport::tabledir::Table::Table\(',s.m_table),(r'^std::vector<wreport::tabledir::Table\*, .*>::(push_back|emplace_back.*)\(',s.m_push)]
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h): return []
    def m_exists(s,E,st,a):
        E.prove(st,same(txt(E,st,a[0]),s.D,J),E.cname()+'the directory asked for is looked at','pre'); st.g[('exists',)]=b=E.freshbool('exists'); return b
    def m_stat(s,E,st,a,ins): E.store(st,I64,s.now,a[1].plus(off(E,'stat','st_mtim'))); return None
    def m_it(s,E,st,a,ins): push(st,'read',1); return 0
    def m_ne(s,E,st,a,ins):
        t=st.fork(); ne='operator!=' in DEM[E._cur[2]]; return Multi([(st,int(ne)),(t,int(not ne))])
    def chars(s,E,st):
        A=st.mem[s.ent.obj].arr; return [z3.Select(A,v64(s.dn+i)) for i in range(32)]
    def m_next(s,E,st,a,ins):
        s.check(E,st); st.g[('pushed',)]=[]; o=st.wobj(s.ent.obj); E.fcount+=1; A=o.arr=z3.Array('entry!%d'%E.fcount,z3.BitVecSort(64),z3.BitVecSort(8)); s.facts(st,A); return a[0]
    def facts(s,st,A): st.assume(z3.Select(A,s.dn+s.L)==0)
    def check(s,E,st):
        """when the next entry is asked for, this one has been considered"""
        c=s.chars(E,st); A=st.mem[s.ent.obj].arr; ps=gl(st,'pushed'); n=E.cname(); isx=z3.And(z3.UGE(s.L,5),ext(A,v64(s.dn),s.L))
        P=lambda cond,w:E.prove(st,cond,n+w)
        P(z3.BoolVal(len(ps)<=1),'a file is at most one table')
        B=z3.And(isx,c[0]==ord('B')); raw=z3.And(isx,c[0]!=ord('B'),c[0]!=ord('D'))
        P(z3.Implies(z3.Or(z3.Not(isx),c[0]==ord('D')),z3.BoolVal(not ps)),'other files are ignored')
        P(z3.Implies(raw,z3.BoolVal(len(ps)==1 and ps[0][0]=='raw')),'files with other names are only found by name')
        if s.case in (11,20,24):
            ok,kind,v=named(s.case,c); fits=z3.And(*[z3.ULE(v[f],(1<<w)-1) for f,w in flds(kind) if f in v])
            if not ps or ps[0][0]!=kind: P(z3.Not(z3.And(B,ok,fits)),'the table is indexed'); return
            for f,w in flds(kind):
                want=z3.Extract(w-1,0,v[f]) if f in v else z3.BitVecVal(0,w); P(z3.Implies(z3.And(B,ok,fits),ps[0][1][f]==want),'%s is the one of the file name'%f)
        else: P(z3.Implies(B,z3.BoolVal(not ps)),'files with names of other lengths are ignored')
    def m_scan(s,E,st,a,ins):
        f=conc_cstr(E,st,a[1]).decode(); n=len(re.findall('%',f))
        if a[0].obj!=s.ent.obj or norm(a[0].off)!=s.dn: raise Unsupported('sscanf of other text')
        c=s.chars(E,st); i=0; k=0; conds=[]; vals=[]
        while i<len(f):
            m=re.match(r'%0?(\d+)d',f[i:])
            if m: w=int(m.group(1)); conds+=[isdig(x) for x in c[k:k+w]]; vals.append(num(c[k:k+w])); k+=w; i+=m.end()
            elif f[i]=='%' or f[i].isspace(): raise Unsupported('sscanf format '+f)
            else: conds.append(c[k]==ord(f[i])); k+=1; i+=1
        if k>=len(c): raise Unsupported('long sscanf format')
        ok=z3.And(z3.UGE(s.L,k),*conds); t=st.fork(); st.assume(ok); t.assume(z3.Not(ok)); out=[]
        if E.feasible(st):
            for p,v in zip(a[2:],vals): E.store(st,I32,v,p)
            out.append((st,n))
        for p in a[2:]: E.store(t,I32,E.fresh('scanned',32),p)
        r=E.fresh('scanned',32); t.assume(z3.And(r>=-1,r<=n)); out.append((t,r)); return Multi(out)
    def m_table(s,E,st,a,ins):
        A=st.mem[s.ent.obj].arr; n=E.cname(); E.prove(st,same(txt(E,st,a[1]),s.D,J),n+'tables are in the directory read','pre'); E.prove(st,same(txt(E,st,a[2]),(A,v64(s.dn),s.L),J),n+'tables are called as the file','pre'); st.g[('table',a[0].obj)]=1; return None
    def m_push(s,E,st,a,ins):
        p=E.load(st,PTR,a[1]) if isinstance(a[1],Ptr) and not st.g.get(('table',a[1].obj)) else a[1]
        E.prove(st,bool(st.g.get(('table',p.obj))),E.cname()+'what is indexed is a table','pre'); z=norm(st.mem[p.obj].size); kind={off(E,'Table'):'raw',off(E,'BufrTable'):'Bufr',off(E,'CrexTable'):'Crex'}
        vt=E.load(st,PTR,p) if 0 in st.mem[p.obj].cells else None; nm=st.mem[vt.obj].name if vt is not None else ''; k='Bufr' if 'BufrTable' in nm else 'Crex' if 'CrexTable' in nm else 'raw'
        push(st,'pushed',(k,None if k=='raw' else rd_id(E,st,k,p.plus(off(E,k+'Table','id'))))); return p
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.case=case; s.dn=off(E,'dirent','d_name'); s.L=v64(case) if isinstance(case,int) else ctx.bv('namelen',64); s.now=ctx.bv('now',64)
        if case=='short': ctx.assume(z3.ULT(s.L,5))
        if case=='other': ctx.assume(z3.And(z3.UGE(s.L,5),z3.ULE(s.L,255),*[s.L!=x for x in (11,20,24)]))
        s.ent=ctx.bytesobj('dirent',ctx.arr('ENTRY',8),v64(280),ro=False); s.facts(ctx.st,ctx.arrs['ENTRY'][0]); st.mem[s.ent.obj].tag=('cstr',z3.simplify(s.L+s.dn) if not isc(s.L) else s.L+s.dn)
        p=E.alloc(st,'Dir',off(E,'Dir'),lazy=True); s.D=text(ctx,p,'PATHNAME'); mt=ctx.bv('mtime',64); E.store(st,I64,mt,p.plus(off(E,'Dir','mtime'))); v=p.plus(off(E,'Dir','tables'))
        for i in range(3): E.store(st,PTR,NULL,v.plus(8*i))
        def post(o):
            t=o.st
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            ctx.prove(t,z3.Implies(z3.And(tb(t.g.get(('exists',),False)),mt<s.now),z3.BoolVal(bool(gl(t,'read')))),'a directory that changed is read')
            if gl(t,'read'): ctx.prove(t,T64(E.load(t,I64,p.plus(off(E,'Dir','mtime'))))==s.now,'when it was read is remembered')
        ctx.call([p],post)
class AddDir(Contract):
    """a directory added after tables were looked for is searched too: the index is made again"""
    name='Tabledirs::add_directory'; fn=r'^wreport::tabledir::Tabledirs::add_directory\('; search='tabledir'
    def __init__(s): s.uses=[(r'^wreport::tabledir::Index::~Index\(',s.m_gone),(r'^bool std::operator==<char, ',s.m_eq),(r'^std::vector<std::__cxx11::basic_string<char.*>::push_back\(',s.m_push)]
    def cases(s): return ['no index','index']
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h):
        out=[]
        for p in keys:
            q=entry.raw(p)
            if isinstance(q,Ptr) and q.obj==s.ents.obj: out.append(('%s in range'%(p,),lambda v,p=p:z3.ULE(v.index(p),s.n)))
        return out
    def m_gone(s,E,st,a,ins): push(st,'gone',1); return None
    def m_eq(s,E,st,a,ins):
        if not any(isinstance(x,Ptr) and x.obj==s.ents.obj for x in a[:2]): raise Unsupported('comparison of other strings')
        t=st.fork(); t.g[('dup',)]=1; return Multi([(st,0),(t,1)])
    def m_push(s,E,st,a,ins):
        E.prove(st,isinstance(a[0],Ptr) and a[0].obj==s.p.obj and norm(a[0].off)==off(E,'Tabledirs','dirs'),E.cname()+'the directory is added to the others','pre')
        A,o,n=txt(E,st,a[1]); B,o2,m=s.D; E.prove(st,z3.Or(z3.And(n==1,z3.Select(A,o)==47),z3.ULE(n,m)),E.cname()+'the directory added is the one given','pre'); push(st,'added',1); return None
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.p=E.alloc(st,'Tabledirs',off(E,'Tabledirs'),lazy=True); d=E.alloc(st,'dir',32,lazy=True); s.D=text(ctx,d,'DIRNAME'); s.n=n=ctx.bv('dirs',64); ctx.assume(z3.ULT(n,1<<20)); txt1=ctx.bytesobj('name',ctx.arr('NAME',8),v64(64),ro=True)
        s.ents=recobj(ctx,'dirs',32,n,{0:(8,'p',lambda E,st,i:txt1),8:(8,'i',lambda E,st,i:v64(63))}); v=s.p.plus(off(E,'Tabledirs','dirs')); at=lambda i:Ptr(s.ents.obj,Lin.of(i).mul(32)); E.store(st,PTR,at(0),v); E.store(st,PTR,at(n),v.plus(8)); E.store(st,PTR,at(n),v.plus(16))
        ix=E.alloc(st,'index',off(E,'Index'),lazy=True); ip=s.p.plus(off(E,'Tabledirs','index')); E.store(st,PTR,ix if case=='index' else NULL,ip)
        def post(o):
            t=o.st
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            ctx.prove(t,len(gl(t,'added'))==(0 if t.g.get(('dup',)) else 1),'a directory is added once'); q=E.load(t,PTR,ip)
            if gl(t,'added'): ctx.prove(t,q.obj==0,'tables of the new directory are searched'); ctx.prove(t,len(gl(t,'gone'))==(case=='index'),'the old index is released')
            else: ctx.prove(t,q.obj==(ix.obj if case=='index' else 0) and not gl(t,'gone'),'the index is left alone')
        ctx.call([s.p,d],post)
CONTRACTS=[Acceptable(b,c) for b in ('Bufr','Crex') for c in ('Bufr','Crex')]+[Closest('Bufr','Bufr','Bufr'),Closest('Crex','Bufr','Bufr'),Closest('Crex','Crex','Crex'),Closest('Crex','Bufr','Crex')]+[Less('Bufr'),Less('Crex')]
CONTRACTS+=[Find('Bufr'),Find('Crex')]
CONTRACTS+=[c(k) for c in (Delegate,Load,Ask) for k in ('Bufr','Crex')]
CONTRACTS+=[TableCtor()]
CONTRACTS+=[Refresh()]
CONTRACTS+=[AddDir()]
