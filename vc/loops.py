"""Loop cutting: a loop is replaced by its invariant.

The invariant is inferred by Houdini: start from a set of candidate formulas
(generic templates over the loop's variables plus candidates supplied by the
contract), drop those that do not hold on entry, then drop those not preserved
by an arbitrary iteration, until the rest is inductive.  The loop body and the
code after the loop are then verified from an arbitrary state satisfying the
inductive candidates: no bound on the number of iterations."""
import z3, time
from . import lia
from .engine import *

class Cut:
    __slots__=('backedges','trial','header','inv')
    def __init__(s,h,trial): s.header=h; s.trial=trial; s.backedges=[]; s.inv=None

class View:
    """values of the loop variables in a state (state positioned at the header)"""
    def __init__(s,E,st,keys,entry=None):
        s.E=E; s.st=st; s.keys=keys; s.entry=entry
    def raw(s,k):
        if k[0]=='phi': return s.st.frames[-1].regs[k[1]]
        if k[0]=='cell':
            c=s.st.mem[k[1]].cells.get(k[2])
            return c[1] if c is not None and c[0]==k[3] else None
        if k[0]=='arr': return s.st.mem[k[1]].arr
        if k[0]=='size': return s.st.mem[k[1]].size
        if k[0]=='g': return s.st.g.get(k[1])
    def term(s,k,signed=False):
        """64-bit term or None"""
        v=s.raw(k); w=k[-1] if k[0]!='g' else None
        if v is None or isinstance(v,(FV,float,Undef,list)): return None
        if isinstance(v,Ptr): return Lin.of(v.off).bv()
        if isinstance(v,PInt): return None
        if isinstance(v,(bool,z3.BoolRef)):
            return zext(v,1,64) if not isinstance(v,bool) else z3.BitVecVal(int(v),64)
        if isinstance(v,Lin): return v.bv()
        if isinstance(v,int):
            wd=s.width(k)
            if signed and wd<64 and v>>(wd-1): v|=mask(64)^mask(wd)
            return z3.BitVecVal(v,64)
        if v.size()==64: return v
        if v.size()>64: return None
        return z3.SignExt(64-v.size(),v) if signed else z3.ZeroExt(64-v.size(),v)
    def index(s,k):
        """record index of a pointer into an array of records, or None"""
        p=s.raw(k)
        if not isinstance(p,Ptr) or not p.obj or s.st.mem[p.obj].mode!='rec': return None
        z=s.st.mem[p.obj].stride; l=Lin.of(p.off); q=Lin(l.c-resid(l,z),l.t).divexact(z)
        return None if q is None else q.bv()
    def width(s,k):
        if k[0]=='phi': return k[2]
        if k[0]=='cell': return 8*k[3]
        return 64

def default_cands(E,view,keys,entry,params):
    """generic templates; closures over a View"""
    out=[]
    ints=[k for k in keys if k[0] in('phi','cell','g','size') and entry.term(k) is not None]
    e={k:entry.term(k) for k in ints}
    es={k:entry.term(k,True) for k in ints}
    def add(n,f): out.append((n,f))
    for k in ints:
        add('%s unchanged'%(k,),lambda v,k=k:v.term(k)==e[k])
        add('%s >= entry'%(k,),lambda v,k=k:z3.UGE(v.term(k),e[k]))
        add('%s <= entry'%(k,),lambda v,k=k:z3.ULE(v.term(k),e[k]))
        add('%s s>= entry'%(k,),lambda v,k=k:v.term(k,True)>=es[k])
        add('%s s<= entry'%(k,),lambda v,k=k:v.term(k,True)<=es[k])
        add('%s s>= 0'%(k,),lambda v,k=k:v.term(k,True)>=0)
        add('%s <= 1'%(k,),lambda v,k=k:z3.ULE(v.term(k),1))
        for n,g in params:
            add('%s == %s'%(k,n),lambda v,k=k,g=g:v.term(k)==g)
            add('%s <= %s'%(k,n),lambda v,k=k,g=g:z3.ULE(v.term(k),g))
            add('%s >= %s'%(k,n),lambda v,k=k,g=g:z3.UGE(v.term(k),g))
            add('%s s<= %s'%(k,n),lambda v,k=k,g=g:v.term(k,True)<=g)
    for i,k in enumerate(ints):
        for k2 in ints[i+1:]:
            for c in E.opts.get('strides',(1,2,4,8)):
                C=z3.BitVecVal(c,64)
                add('%s-entry == %d*(%s-entry)'%(k,c,k2),lambda v,k=k,k2=k2,C=C:v.term(k)-e[k]==C*(v.term(k2)-e[k2]))
                if c!=1: add('%s-entry == %d*(%s-entry)'%(k2,c,k),lambda v,k=k,k2=k2,C=C:v.term(k2)-e[k2]==C*(v.term(k)-e[k]))
                add('%s + %d*%s == entry'%(k,c,k2),lambda v,k=k,k2=k2,C=C:v.term(k)-e[k]==-C*(v.term(k2)-e[k2]))
                if c!=1: add('%s + %d*%s == entry'%(k2,c,k),lambda v,k=k,k2=k2,C=C:v.term(k2)-e[k2]==-C*(v.term(k)-e[k]))
            add('%s <= %s'%(k,k2),lambda v,k=k,k2=k2:z3.ULE(v.term(k),v.term(k2)))
            add('%s >= %s'%(k,k2),lambda v,k=k,k2=k2:z3.UGE(v.term(k),v.term(k2)))
    return out

def inst(c,v):
    try: return c[1](v)
    except (z3.Z3Exception,TypeError,AttributeError,KeyError): return None

def cut_loop(E,st,header,work):
    fr=st.frames[-1]; fn=fr.fn
    where='%s/%s'%(DEM.get(fn.name,fn.name),header)
    phis=[]
    for ph in fn.blocks[header].phis:
        t=ph.a[0]
        phis.append(('phi',ph.dst,t[1] if t[0]=='i' else 64))
    keys=list(phis)
    gkeys=[k for k in st.g if isinstance(k,str) and k.startswith('#')]
    alts={}     # pointer key -> set of object ids it may take
    entry_objs=set(st.mem)
    entry_state=st.fork()
    def ptrkeys(): return [k for k in keys if isinstance(entry.raw(k),Ptr)]
    fv_nan=None
    t0=time.time()
    iters=0
    depth=len(st.frames)
    mods_arr=set(); mods_cell=set(); mods_g=set(); mods_size=set(); mods_rec=set()
    E.cut_active=getattr(E,'cut_active',0)+1
    con=getattr(E,'ctx',None) and E.ctx.con; var0=getattr(con,'variant',None)
    try:
        while True:
            iters+=1
            if iters>60: raise Unsupported('invariant inference does not converge in '+where)
            keys=phis+sorted(('cell',o,f,z) for o,f,z in mods_cell)+[('g',k) for k in sorted(mods_g)]+[('size',o) for o in sorted(mods_size)]
            entry=View(E,entry_state,keys); entry.entry=entry
            if iters==1 or newkeys:
                params=[(n,t) for n,t in (E.loop_params(E,entry_state) if E.loop_params else [])]
                C=default_cands(E,entry,keys,entry,params)
                if E.cands: C+=E.cands(E,entry,keys,fn,header)
                # entry filter
                C=houdini_filter(E,entry_state,[ (c,inst(c,entry)) for c in C])
            # havoc
            hss=[]
            combos=[{}]
            for k in ptrkeys():
                o=alts.setdefault(k,{entry.raw(k).obj})
                combos=[dict(c,**{str(k):x}) for c in combos for x in sorted(o)]
            for combo in combos:
                h=entry_state.fork()
                havoc(E,h,keys,mods_arr,mods_rec,combo,entry)
                hv=View(E,h,keys); hv.entry=entry
                for c in C:
                    f=inst(c,hv)
                    if f is not None: h.assume(f)
                if var0: h.g[('variant',header,depth)]=var0(E,hv)
                hss.append(h)
            # trial run
            no,nf,npc=len(E.obl),len(E.fails),E.path_count
            cut=Cut(header,True)
            wl=[]; w0=[]
            for h in hss:
                h.frames[-1].cuts[header]=cut
                h.writes=wl
                h.dead=False
                w0.append(h)
            E.trial=getattr(E,'trial',0)+1
            sv=E.stops; E.stops=[]
            try: E.explore(w0,lambda o:None)
            finally: E.trial-=1; E.stops=sv
            del E.obl[no:]; del E.fails[nf:]; E.path_count=npc
            if st.writes is not None: st.writes.extend(wl)
            # new modified locations?
            newkeys=False
            for o,f,z in wl:
                if o not in entry_objs: continue
                ob=entry_state.mem[o]
                if ob.mode=='bytes' or f is None:
                    if ob.mode=='rec':
                        if o not in mods_rec: mods_rec.add(o); newkeys=True
                    elif ob.mode=='bytes':
                        if o not in mods_arr: mods_arr.add(o); newkeys=True
                    else:
                        # symbolic store into cells object: convert entry object
                        E.tobytes(entry_state,ob); mods_arr.add(o)
                        mods_cell={m for m in mods_cell if m[0]!=o}
                        newkeys=True
                elif ob.mode=='rec':
                    if o not in mods_rec: mods_rec.add(o); newkeys=True
                elif (o,f,z) not in mods_cell:
                    c=ob.cells.get(f)
                    if c is None or c[0]!=z:
                        # normalise the entry cell to the written size
                        ok=False
                        if z in(1,2,4,8):
                            try:
                                v=E.assemble(entry_state,entry_state.mem[o],f,z,('i',8*z),'i')
                                w=entry_state.wobj(o); E.clear_range(entry_state,w,f,z); w.cells[f]=(z,v,'i'); ok=True
                            except Unsupported: pass
                        if not ok: raise Unsupported('loop write to unspecified cell %s+%d in %s'%(ob.name,f,where))
                    mods_cell.add((o,f,z)); newkeys=True
            for b in cut.backedges:
                for k in b.g:
                    if isinstance(k,str) and k.startswith('#') and k not in mods_g and not same(b.g[k],entry_state.g.get(k)):
                        # compare against the havoc state's value (not havocked): changed by the body
                        mods_g.add(k); newkeys=True
                for o in entry_objs:
                    if o in b.mem and not same(b.mem[o].size,entry_state.mem[o].size) and o not in mods_size:
                        mods_size.add(o); newkeys=True
                    if o in b.mem and b.mem[o].alive!=entry_state.mem[o].alive: raise Unsupported('object freed in loop '+where)
            for k in ptrkeys():
                for b in cut.backedges:
                    v=View(E,b,keys).raw(k)
                    if isinstance(v,Undef): continue
                    if not isinstance(v,Ptr): raise Unsupported('pointer loop variable changes kind in '+where)
                    if v.obj and v.obj not in entry_objs: raise Unsupported('loop-carried pointer to object allocated in the loop: '+where)
                    if v.obj and b.mem[v.obj].mode=='rec' and Lin.of(v.off).add(Lin(-recres(entry.raw(k),v.obj,b.mem[v.obj].stride),{})).divexact(b.mem[v.obj].stride) is None: raise Unsupported('loop pointer inside a record: '+where)
                    if v.obj not in alts[k]: alts[k].add(v.obj); newkeys=True
            if newkeys: continue
            # inductiveness
            C2=C
            for b in cut.backedges:
                b.frames[-1].cuts={}
                bv=View(E,b,keys); bv.entry=entry
                C2=houdini_filter(E,b,[(c,inst(c,bv)) for c in C2])
            if len(C2)==len(C): break
            C=C2
    finally:
        E.cut_active-=1
    if var0 and not getattr(E,'trial',0):
        # termination: a measure grows at each iteration (and is bounded, or it would leave the object it measures);
        # of several possible measures, one that grows in all the iterations is enough
        ms=[]
        for b in cut.backedges:
            bv=View(E,b,keys); bv.entry=entry; m0=b.g.get(('variant',header,depth)); m1=var0(E,bv)
            if m0 is None: continue
            if not isinstance(m1,list): m0,m1=[m0],[m1]
            ms.append((b,[(x,y) for x,y in zip(m0,m1)]))
        if ms:
            n=min(len(l) for b,l in ms); pick=next((i for i in range(n) if n==1 or all(l[i][0] is not None and l[i][1] is not None and E.must(b,z3.UGT(l[i][1],l[i][0])) for b,l in ms)),0)
            for b,l in ms:
                try: E.prove(b,z3.UGT(l[pick][1],l[pick][0]) if l and l[pick][0] is not None and l[pick][1] is not None else False,E.cname()+'loop %s: each iteration makes progress'%where,'termination')
                except PathEnd: pass
    for c in C: E.obl.append((E.cname()+'loop %s: invariant "%s" holds initially and is preserved'%(where,c[0]),'proved','z3',0.0))
    E.cutlog.append((where,len(cut.backedges),iters,[c[0] for c in C]))
    # continue from the invariant
    final=Cut(header,False); final.inv=C
    for h in hss:
        x=h.fork() if False else h
    # hss were consumed by the trial run: rebuild
    for combo in combos:
        h=entry_state.fork()
        havoc(E,h,keys,mods_arr,mods_rec,combo,entry)
        hv=View(E,h,keys); hv.entry=entry
        for c in C:
            f=inst(c,hv)
            if f is not None: h.assume(f)
        h.frames[-1].cuts[header]=final
        h.writes=st.writes
        h.dead=False
        work.append(h)
    st.dead=True

def same(a,b):
    if a is b: return True
    if isinstance(a,int) and isinstance(b,int): return a==b
    if isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef): return a.eq(b)
    if isinstance(a,Lin) and isinstance(b,Lin): return a.bv().eq(b.bv())
    try: return a==b and not isinstance(a,z3.ExprRef)
    except Exception: return False

def resid(l,z): return (l.c if not (l.c>>63) else l.c-(1<<64))%z
def recres(v,obj,z):
    """offset inside the record of a pointer that walks an array of records"""
    return resid(Lin.of(v.off),z) if isinstance(v,Ptr) and v.obj==obj else 0
def havoc(E,h,keys,mods_arr,mods_rec,combo,entry):
    fr=h.frames[-1]
    for k in keys:
        v=entry.raw(k)
        if isinstance(v,Ptr):
            o=combo.get(str(k),v.obj)
            if o==0: nv=NULL
            elif h.mem[o].mode=='rec': nv=Ptr(o,Lin.of(E.fresh('hv_'+str(k[1])+'_ix',64)).mul(h.mem[o].stride).add(Lin(recres(v,o,h.mem[o].stride),{})))
            else: nv=Ptr(o,Lin.of(E.fresh('hv_'+str(k[1])+'_off',64)))
        elif isinstance(v,(FV,float)):
            nv=FV(E.freshreal('hv'),E.freshbool('hvnan'),E.freshbool('hvinf'))
        elif isinstance(v,list): raise Unsupported('aggregate loop variable')
        elif isinstance(v,FnRef): raise Unsupported('function pointer loop variable')
        elif isinstance(v,(bool,z3.BoolRef)): nv=E.freshbool('hv_'+str(k[1]))
        elif k[0]=='phi':
            nv=E.freshbool('hv_'+k[1]) if k[2]==1 else E.fresh('hv_'+k[1],k[2])
        elif k[0]=='cell': nv=E.fresh('hv_cell%d'%k[2],8*k[3])
        elif k[0]=='size': nv=E.fresh('hv_size',64)
        elif k[0]=='g':
            if isinstance(v,z3.BitVecRef): nv=E.fresh('hv_g'+k[1],v.size())
            elif isinstance(v,z3.ExprRef): nv=z3.FreshConst(v.sort(),'hv_g')
            elif isinstance(v,(int,Lin)): nv=E.fresh('hv_g'+k[1],64)
            else: raise Unsupported('ghost '+k[1])
        if k[0]=='phi': fr.regs[k[1]]=nv
        elif k[0]=='cell':
            w=h.wobj(k[1]); kind=w.cells[k[2]][2]
            w.cells[k[2]]=(k[3],nv,kind)
        elif k[0]=='size': h.wobj(k[1]).size=nv
        elif k[0]=='g': h.g[k[1]]=nv
    for o in mods_arr:
        w=h.wobj(o); E.fcount+=1
        w.arr=z3.Array('hv_%s!%d'%(w.name,E.fcount),z3.BitVecSort(64),z3.BitVecSort(8))
    for o in mods_rec:
        w=h.wobj(o)
        for f,(fs,fk,fa) in list(w.fields.items()):
            if not callable(fa):
                E.fcount+=1
                w.fields[f]=(fs,fk,z3.Array('hv_%s_%d!%d'%(w.name,f,E.fcount),fa.domain(),fa.range()))

def houdini_filter(E,st,cf):
    """keep the candidates whose formula is implied by st.pc"""
    cf=[(c,f) for c,f in cf if f is not None]
    keep=[]
    for c,f in cf:
        if isinstance(f,bool):
            if f: keep.append((c,None))
            continue
        g=z3.simplify(f)
        if z3.is_true(g): keep.append((c,None))
        elif z3.is_false(g): continue
        else: keep.append((c,g))
    t0=time.time()
    if E.opts.get('lia_houdini'):
        ix=[i for i,x in enumerate(keep) if x[1] is not None]
        r=lia.houdini(st.pc,[keep[i][1] for i in ix],E.opts.get('houdini_timeout',8000))
        if r is not None:
            ok=set(ix[j] for j in r); E.solver_time+=time.time()-t0
            return [c for i,(c,f) in enumerate(keep) if f is None or i in ok]
    while True:
        rest=[f for c,f in keep if f is not None]
        if not rest: break
        sol=z3.Solver(); sol.set('timeout',E.opts.get('houdini_timeout',8000))
        sol.add(*st.pc); sol.add(z3.Not(z3.And(*rest)))
        r=sol.check()
        if r==z3.unsat: break
        if r==z3.sat:
            m=sol.model()
            k2=[]
            for c,f in keep:
                if f is None: k2.append((c,f)); continue
                v=m.eval(f,model_completion=True)
                if z3.is_true(v): k2.append((c,f))
                elif z3.is_false(v): pass
                else: pass   # not decided by the model: drop
            if len(k2)==len(keep):
                k2=[x for x in keep if x[1] is None or prove1(E,st,x[1])]
                keep=k2; break
            keep=k2
        else:
            k2=[x for x in keep if x[1] is None or prove1(E,st,x[1])]
            keep=k2; break
    E.solver_time+=time.time()-t0
    return [c for c,f in keep]

def prove1(E,st,f):
    sol=z3.Solver(); sol.set('timeout',E.opts.get('houdini_one',3000))
    if E.opts.get('lia_first') and lia.unsat(st.pc+[z3.Not(f)],1000): return True
    sol.add(*st.pc); sol.add(z3.Not(f))
    r=sol.check()
    return r==z3.unsat or (r==z3.unknown and lia.unsat(st.pc+[z3.Not(f)],3000))
