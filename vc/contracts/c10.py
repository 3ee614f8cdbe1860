"""C10: a data present bitmap selects exactly the variables it marks, in order."""
from .common import *
SRCS=['bulletin/bitmaps.cc','bufr/input.cc','bulletin/interpreter.cc','error.cc']
INST=['layout.cc']
ASSUMPTIONS=['subsets and bitmaps of less than 2^31 elements','std::vector<unsigned>::push_back appends its argument','Var copy and destruction as proved in C05','counting is monotonic (the number of variables from s to the anchor does not decrease as s decreases)']
I16=("i",16)
K=z3.BitVec('K',64)
NVA=z3.Array('count_from',z3.BitVecSort(64),z3.BitVecSort(64))
def NV(i): return z3.Select(NVA,i)     # data variables in [s,anchor)
def WF(c): return z3.LShR(c,14)
class REFS:
    """std::vector<unsigned> in memory"""
    def __init__(s,ctx,p,n,arr):
        E=ctx.E; st=ctx.st; s.p=p; s.o=ctx.bytesobj('refs',arr,v64(1<<40)); s.set(E,st,n)
    def set(s,E,st,n):
        b=Ptr(s.o.obj,Lin.of(0)); E.store(st,PTR,b,s.p); E.store(st,PTR,s.at(n),s.p.plus(8)); E.store(st,PTR,s.at(v64(1<<38)),s.p.plus(16))
    def at(s,i): return Ptr(s.o.obj,Lin.of(i).mul(4))
    def val(s,st,i): a=st.mem[s.o.obj].arr; return cat([z3.Select(a,4*i+j) for j in (3,2,1,0)])
class SUBSET:
    """n variables with arbitrary codes: std::vector<Var> in memory"""
    def __init__(s,ctx,n):
        E=ctx.E; st=ctx.st; s.n=n; s.C=z3.Array('CODES',z3.BitVecSort(64),z3.BitVecSort(16)); s.hook=None
        vs,vi=off(E,'Var'),off(E,'Varinfo')
        s.infos=recobj(ctx,'infos',vi,n,{off(E,'Varinfo','code'):(2,'i',s.code_at)})
        s.vars=recobj(ctx,'variables',vs,n,{off(E,'Var','m_info'):(8,'p',lambda E,st,i:Ptr(s.infos.obj,Lin.of(i).mul(vi)))})
        s.p=E.alloc(st,'Subset',off(E,'Subset'),lazy=True); o=off(E,'Subset','vec'); at=lambda i:Ptr(s.vars.obj,Lin.of(i).mul(vs))
        E.store(st,PTR,at(0),s.p.plus(o)); E.store(st,PTR,at(n),s.p.plus(o+8)); E.store(st,PTR,at(n),s.p.plus(o+16))
    def code_at(s,E,st,i):
        if s.hook: s.hook(st,i)
        return z3.Select(s.C,i)
def isdata(S,i): return WF(z3.Select(S.C,i))==0
def cntax(S,anchor,st,i):
    """the definition of the count, at the elements that are looked at"""
    one=lambda j:z3.If(isdata(S,j),v64(1),v64(0))
    for j in (i,K,v64(0)):
        st.assume(z3.Implies(z3.ULT(j,anchor),NV(j)==NV(j+1)+one(j))); st.assume(z3.ULE(NV(j),anchor-j)); st.assume(z3.ULE(NV(j+1),anchor))
    for j in (K,v64(0)):
        for b in (i,i+1): st.assume(z3.Implies(z3.And(z3.ULT(j,b),z3.ULE(b,anchor)),z3.UGE(NV(j),NV(b)+one(j))))
        st.assume(z3.Implies(z3.And(z3.ULT(i,j),z3.ULE(j,anchor)),z3.UGE(NV(i),NV(j)+one(i))))
def varcopy(E,st,a,ins): return 0
def enqc(E,st,a,ins):
    c=E.ctx.con; t=st.fork()
    if a[0].obj!=c.bvar.obj: raise Unsupported('enqc of another variable')
    return Multi([(st,c.bytes),(t,Thrown(wr_err('error_notfound'),info='unset'))])
def vecctor(E,st,a,ins): E.ctx.con.refs=None; return 0
def push(E,st,a,ins):
    c=E.ctx.con; r=c.R; v=z3.ZeroExt(32,tobv(E.load(st,I32,a[1]),32)); n=T64(st.g['#nref']); c.on_push(st,v)
    if a[0].obj!=r.p.obj: raise Unsupported('push_back on another vector')
    o=st.wobj(r.o.obj)
    for j in range(4): o.arr=z3.Store(o.arr,4*n+j,z3.Extract(8*j+7,8*j,v))
    if st.writes is not None: st.writes.append((r.o.obj,None,None))
    n=z3.simplify(n+1); st.g['#nref']=n; E.store(st,PTR,r.at(n),r.p.plus(8)); return 0
VU=r'^std::vector<unsigned int, .*>::'
def nop(E,st,a,ins): return 0
R_vecu=[(VU+r'vector\(\)',nop),(VU+r'(push_back|emplace_back)(<.*>)?\(|^unsigned int& std::vector<unsigned int, .*>::emplace_back',push),(VU+r'~vector\(',nop),(VU+r'reserve\(',nop)]
class BitmapCtor(Contract):
    name='Bitmap::Bitmap'; opts={'strides':(4,),'lia_first':True,'lia_houdini':True}; fn=r'^wreport::bulletin::Bitmap::Bitmap\(wreport::Var const&, wreport::Subset const&, unsigned int\)'; search='bitmap'
    uses=R_vecu+[(r'^wreport::Var::Var\(wreport::Var const&\)',nop),(r'^wreport::Var::~Var\(',nop),(r'^wreport::Var::enqc\(\) const',enqc)]
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('anchor',s.anchor),('len',s.len)]
    def want(s,i): return z3.And(z3.ULT(i,s.anchor),isdata(s.S,i),z3.ULE(NV(i),s.len),z3.Select(s.BM,s.len-NV(i))==ord('+'))
    def on_push(s,st,v):
        s.ctx.prove(st,s.want(v),'only data variables marked in the bitmap are selected')
        s.ctx.prove(st,z3.ULT(v,T64(st.g['#last'])),'variables are selected in order'); st.g['#last']=v
        h=st.g['#hasK']; st.g['#hasK']=z3.simplify(z3.If(v==K,v64(1),h))
    def cands(s,E,entry,keys,fn,h):
        out=[]; n=s.len; A=s.anchor; L=('g','#last'); H=('g','#hasK')
        ks=[k for k in keys if k[0] in ('phi','cell') and entry.term(k) is not None]
        for k in ks:
            t=lambda w,k=k:w.term(k)
            for nm,f in (('count in bitmap',lambda w,t=t:z3.And(z3.ULE(t(w),A),z3.ULT(NV(t(w)),n))),('count up to the bitmap',lambda w,t=t:z3.And(z3.ULE(t(w),A),z3.ULE(NV(t(w)),n))),('fewer from there',lambda w,t=t:z3.And(z3.ULE(t(w),A),z3.UGE(NV(v64(0)),NV(t(w))),z3.Implies(z3.ULT(K,t(w)),z3.UGE(NV(K),NV(t(w))+z3.If(isdata(s.S,K),v64(1),v64(0)))))),('up to anchor',lambda w,t=t:z3.ULE(t(w),A)),('up to len',lambda w,t=t:z3.ULE(t(w),n))):
                out.append(('%s %s'%(k,nm),f))
            out.append(('%s > 0'%(k,),lambda w,t=t:t(w)!=0))
            for d in (0,1):
                out.append(('%s+%d: count as on entry'%(k,d),lambda w,t=t,d=d,e=entry.term(k):NV(t(w)+d)==NV(e+d)))
                out.append(('%s+%d: visited'%(k,d),lambda w,t=t,d=d:z3.Implies(z3.And(z3.UGE(K,t(w)+d),s.want(K)),w.term(H)==1)))
                out.append(('%s+%d: last'%(k,d),lambda w,t=t,d=d:z3.UGE(w.term(L),t(w)+d)))
                out.append(('%s+%d: fresh'%(k,d),lambda w,t=t,d=d:z3.Implies(z3.ULT(K,t(w)+d),w.term(H)==0)))
            out.append(('%s < anchor'%(k,),lambda w,t=t:z3.ULT(t(w),A))); out.append(('%s < len'%(k,),lambda w,t=t:z3.ULT(t(w),n)))
            for k2 in ks:
                if k2 is k: continue
                for d in (0,1):
                    for e in (0,1): out.append(('count from %s+%d is len-%s-%d'%(k,d,k2,e),lambda w,k=k,k2=k2,d=d,e=e:NV(w.term(k)+d)==n-w.term(k2)-e))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.anchor=z3.ZeroExt(32,ctx.bv('anchor',32)); N=ctx.bv('N',64); ctx.assume(z3.ULT(N,1<<31)); ctx.assume(z3.ULE(s.anchor,N))
        s.S=SUBSET(ctx,N); s.S.hook=lambda st,i:cntax(s.S,s.anchor,st,i)
        l32=ctx.bv('len',32); s.len=z3.ZeroExt(32,l32); ctx.assume(z3.ULT(s.len,1<<31)); s.BM=ctx.arr('BM',16); s.bytes=ctx.bytesobj('bitmap value',s.BM,s.len+1,ro=True)
        inf=E.alloc(st,'bitmap info',off(E,'Varinfo'),lazy=True); E.store(st,I32,l32,inf.plus(off(E,'Varinfo','len')))
        s.bvar=E.alloc(st,'bitmap var',off(E,'Var'),lazy=True); E.store(st,PTR,inf,s.bvar.plus(off(E,'Var','m_info')))
        p=E.alloc(st,'Bitmap',off(E,'Bitmap'),lazy=True); s.R=R=REFS(ctx,p.plus(off(E,'Bitmap','refs')),0,z3.Array('REFS',z3.BitVecSort(64),z3.BitVecSort(8)))
        st.g['#nref']=z3.BitVecVal(0,64); st.g['#last']=z3.BitVecVal(1<<40,64); st.g['#hasK']=z3.BitVecVal(0,64)
        ctx.assume(NV(s.anchor)==0); cntax(s.S,s.anchor,st,s.anchor-1)
        def post(o):
            t=o.st
            ok=z3.And(s.len!=0,s.anchor!=0,z3.UGE(NV(v64(0)),s.len))
            if o.kind=='throw':
                if o.exc.info=='unset': return
                ctx.prove(t,o.exc.typ==wr_err('error_consistency'),'errors are consistency errors'); ctx.prove(t,z3.Not(ok),'refused only when empty, or longer than the variables it refers to'); return
            ctx.prove(t,ok,'a bitmap longer than the variables it refers to is refused')
            ctx.prove(t,z3.Implies(s.want(K),t.g['#hasK']==1),'every data variable marked in the bitmap is selected')
            e=E.load(t,PTR,p.plus(off(E,'Bitmap','iter'))); ctx.prove(t,isinstance(e,Ptr) and e.obj==R.o.obj and Lin.of(e.off).bv()==4*T64(t.g['#nref']),'iteration starts from the first variable selected')
        ctx.call([p,s.bvar,s.S.p,z3.Extract(31,0,s.anchor)],post)
class BITMAP:
    """a Bitmap with m references, the iteration having k left"""
    def __init__(s,ctx,nm,heap=False):
        E=ctx.E; st=ctx.st; s.E=E; s.ctx=ctx; s.p=E.alloc(st,nm,off(E,'Bitmap'),lazy=True)
        if heap: st.g[('heap',)]=st.g.get(('heap',),())+(s.p.obj,)
        s.m=ctx.bv(nm+'_m',64); s.k=ctx.bv(nm+'_k',64); ctx.assume(z3.And(z3.ULT(s.m,1<<32),z3.ULE(s.k,s.m)))
        s.R=REFS(ctx,s.p.plus(off(E,'Bitmap','refs')),s.m,ctx.arr(nm+'_REFS',16)); E.store(st,PTR,s.R.at(s.k),s.p.plus(off(E,'Bitmap','iter')))
    def iter(s,st):
        e=s.E.load(st,PTR,s.p.plus(off(s.E,'Bitmap','iter'))); return Lin.of(e.off).bv() if isinstance(e,Ptr) and e.obj==s.R.o.obj else None
    def iter_is(s,st,k):
        i=s.iter(st); return False if i is None else i==4*T64(k)
    def refs_same(s,st): 
        b=s.E.load(st,PTR,s.R.p); e=s.E.load(st,PTR,s.R.p.plus(8))
        if not(isinstance(b,Ptr) and b.obj==s.R.o.obj and isinstance(e,Ptr) and e.obj==s.R.o.obj): return False
        return z3.And(Lin.of(b.off).bv()==0,Lin.of(e.off).bv()==4*s.m,z3.Select(st.mem[s.R.o.obj].arr,K)==z3.Select(s.ctx.arrs[st.mem[s.p.obj].name+'_REFS'][0],K))
class BitmapNext(Contract):
    name='Bitmap::next'; fn=r'^wreport::bulletin::Bitmap::next\(\)'; search='bitmap'
    def run(s,ctx,case):
        b=BITMAP(ctx,'b'); ctx.assume(b.k!=0)
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            ctx.prove(o.st,tobv(o.val,32)==b.R.val(o.st,b.k-1),'is the next variable selected'); ctx.prove(o.st,b.iter_is(o.st,b.k-1),'one less is left'); ctx.prove(o.st,b.refs_same(o.st),'the selection is unchanged')
        ctx.call([b.p],post)
class BitmapEob(Contract):
    name='Bitmap::eob'; fn=r'^wreport::bulletin::Bitmap::eob\(\) const'; search='bitmap'
    def run(s,ctx,case):
        b=BITMAP(ctx,'b')
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            r=o.val; r=z3.BoolVal(bool(r)) if isc(r) or isinstance(r,bool) else (r if isinstance(r,z3.BoolRef) else r!=0)
            ctx.prove(o.st,r==(b.k==0),'true exactly when no variable is left'); ctx.prove(o.st,b.iter_is(o.st,b.k),'nothing changes')
        ctx.call([b.p],post)
class BitmapReuse(Contract):
    name='Bitmap::reuse'; fn=r'^wreport::bulletin::Bitmap::reuse\(\)'; search='bitmap'
    def run(s,ctx,case):
        b=BITMAP(ctx,'b')
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            ctx.prove(o.st,b.iter_is(o.st,b.m),'iteration starts again from the first variable selected'); ctx.prove(o.st,b.refs_same(o.st),'the selection is unchanged')
        ctx.call([b.p],post)
# ---------------------------------------------------------------- the bitmap in use and the last one used
def new_bitmap(E,st,a,ins):
    """Bitmap::Bitmap as specified above: m selected variables, all of them left to visit, or a consistency error"""
    c=E.ctx.con; c.ctx.prove(st,isinstance(a[1],Ptr) and a[1].obj==c.var.obj and isinstance(a[2],Ptr) and a[2].obj==c.subset.obj,'the bitmap is made for the given variable and subset')
    if len(a)>3: c.ctx.prove(st,tobv(a[3],32)==c.anchor,'the bitmap is anchored where asked')
    t=st.fork(); m=c.m; o=E.alloc(st,'newrefs',v64(1<<40),'bytes'); at=lambda i:Ptr(o.obj,Lin.of(i).mul(4))
    st.mem[o.obj].arr=z3.Array('NEWREFS',z3.BitVecSort(64),z3.BitVecSort(8))
    R=a[0].plus(off(E,'Bitmap','refs')); E.store(st,PTR,at(0),R); E.store(st,PTR,at(m),R.plus(8)); E.store(st,PTR,at(m),R.plus(16)); E.store(st,PTR,at(m),a[0].plus(off(E,'Bitmap','iter')))
    st.g[('made',)]=st.g.get(('made',),())+(a[0].obj,)
    return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='ctor'))])
class BITMAPS:
    def __init__(s,ctx,cur,last):
        E=ctx.E; st=ctx.st; s.E=E; s.ctx=ctx; st.g[('heap',)]=()
        s.p=E.alloc(st,'Bitmaps',off(E,'Bitmaps'),lazy=True); s.cur=BITMAP(ctx,'current',True) if cur else None; s.last=BITMAP(ctx,'last',True) if last else None
        if s.cur: ctx.assume(s.cur.k!=0)
        E.store(st,PTR,s.cur.p if cur else NULL,s.at('current')); E.store(st,PTR,s.last.p if last else NULL,s.at('last'))
    def at(s,f): return s.p.plus(off(s.E,'Bitmaps',f))
    def get(s,st,f): return s.E.load(st,PTR,s.at(f))
    def owned(s,st,what='',freed=()):
        """each live bitmap is owned once"""
        c,l=s.get(st,'current'),s.get(st,'last'); ps=[p.obj for p in (c,l) if isinstance(p,Ptr) and p.obj]
        s.ctx.prove(st,len(set(ps))==len(ps) and all(st.mem[o].alive for o in ps),what+'the bitmaps kept are alive'); 
        mine=[x.p.obj for x in (s.cur,s.last) if x]+list(st.g.get(('made',),()))
        s.ctx.prove(st,all(not st.mem[o].alive or o in ps for o in mine),what+'no bitmap is leaked')
        return c,l
def isnull(p): return isinstance(p,Ptr) and p.obj==0
def isb(p,o): return isinstance(p,Ptr) and p.obj==o
BMS=r'^wreport::bulletin::Bitmaps::'
class BMSContract(Contract):
    search='bitmap'; uses=[(r'^wreport::bulletin::Bitmap::Bitmap\(wreport::Var const&, wreport::Subset const&(, unsigned int)?\)',new_bitmap),(r'^wreport::bulletin::Bitmap::~Bitmap\(',nop)]
    def cases(s): return [(c,l) for c in (0,1) for l in (0,1)]
    def group(s): return 4
class Define(BMSContract):
    name='Bitmaps::define'; fn=BMS+r'define\(wreport::Var const&, wreport::Subset const&, unsigned int\)'
    def run(s,ctx,case):
        E=ctx.E; B=BITMAPS(ctx,*case); s.var=E.alloc(ctx.st,'var',off(E,'Var'),lazy=True); s.subset=E.alloc(ctx.st,'subset',off(E,'Subset'),lazy=True); s.anchor=ctx.bv('anchor',32); s.m=ctx.bv('m',64); ctx.assume(z3.ULT(s.m,1<<32))
        def post(o):
            t=o.st; c,l=B.owned(t)
            if o.kind=='throw': ctx.prove(t,o.exc.info=='ctor','no errors of its own'); return
            made=t.g.get(('made',),())
            if not ctx.prove(t,len(made)==1,'one bitmap is made'): return
            if isnull(c): ctx.prove(t,s.m==0,'the new bitmap is in use'); ctx.prove(t,isb(l,made[0]),'a bitmap that selects nothing is the last one used')
            else:
                ctx.prove(t,isb(c,made[0]),'the new bitmap is in use'); ctx.prove(t,s.m!=0,'a bitmap that selects nothing is not in use'); ctx.prove(t,isb(l,B.last.p.obj) if case[1] else isnull(l),'the last bitmap is kept')
        ctx.call([B.p,s.var,s.subset,s.anchor],post)
class Next(BMSContract):
    name='Bitmaps::next'; fn=BMS+r'next\(\)'
    def run(s,ctx,case):
        B=BITMAPS(ctx,*case)
        def post(o):
            t=o.st; c,l=B.owned(t)
            if o.kind=='throw': ctx.prove(t,o.exc.typ==wr_err('error_consistency'),'a consistency error'); ctx.prove(t,not case[0],'throws only without a bitmap in use'); return
            if not ctx.prove(t,case[0]==1,'throws without a bitmap in use'): return
            b=B.cur; ctx.prove(t,tobv(o.val,32)==b.R.val(t,b.k-1),'is the next variable selected')
            if isnull(c): ctx.prove(t,b.k==1,'the bitmap stays in use until all is visited'); ctx.prove(t,isb(l,b.p.obj),'after all is visited it is the last bitmap used')
            else: ctx.prove(t,isb(c,b.p.obj),'the bitmap stays in use'); ctx.prove(t,b.k!=1,'the bitmap is in use only until all is visited'); ctx.prove(t,isb(l,B.last.p.obj) if case[1] else isnull(l),'the last bitmap is kept')
            ctx.prove(t,b.iter_is(t,b.k-1),'one less is left'); ctx.prove(t,b.refs_same(t),'the selection is unchanged')
        ctx.call([B.p],post)
class ReuseLast(BMSContract):
    name='Bitmaps::reuse_last'; fn=BMS+r'reuse_last\(\)'
    def run(s,ctx,case):
        B=BITMAPS(ctx,*case)
        def post(o):
            t=o.st; c,l=B.owned(t)
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            if not case[1]: ctx.prove(t,isnull(c),'without a last bitmap none is in use'); return
            b=B.last
            if isnull(c): ctx.prove(t,b.m==0,'the last bitmap is in use again')
            else: ctx.prove(t,isb(c,b.p.obj),'the last bitmap is in use again'); ctx.prove(t,b.m!=0,'a bitmap that selects nothing is not in use'); ctx.prove(t,b.iter_is(t,b.m),'from its first variable'); ctx.prove(t,b.refs_same(t),'the selection is unchanged')
        ctx.call([B.p],post)
class DiscardLast(BMSContract):
    name='Bitmaps::discard_last'; fn=BMS+r'discard_last\(\)'
    def run(s,ctx,case):
        B=BITMAPS(ctx,*case)
        def post(o):
            t=o.st; c,l=B.owned(t)
            if not ctx.prove(t,o.kind=='ret','does not throw'): return
            ctx.prove(t,isnull(l),'there is no last bitmap'); ctx.prove(t,isb(c,B.cur.p.obj) if case[0] else isnull(c),'the bitmap in use stays in use')
            if case[0]: ctx.prove(t,B.cur.iter_is(t,B.cur.k),'and is where it was')
        ctx.call([B.p],post)
class Dtor(BMSContract):
    name='Bitmaps::~Bitmaps'; fn=BMS+r'~Bitmaps\(\)'
    def run(s,ctx,case):
        B=BITMAPS(ctx,*case)
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            ctx.prove(o.st,all(not o.st.mem[x.p.obj].alive for x in (B.cur,B.last) if x),'all bitmaps are freed')
        ctx.call([B.p],post)
CONTRACTS=[BitmapCtor(),BitmapNext(),BitmapEob(),BitmapReuse(),Define(),Next(),ReuseLast(),DiscardLast(),Dtor()]
