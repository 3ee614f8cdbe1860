"""State merging at immediate postdominators (keeps path counts linear in bounded loops)."""
import z3,math
from .engine import *

def ipdoms(fn):
    """immediate postdominators on the normal (non-unwinding) control-flow graph"""
    r=getattr(fn,'_ipdom',None)
    if r is not None: return r
    succ={}
    for n,b in fn.blocks.items():
        t=b.insts[-1]
        succ[n]=[t.a[3]] if t.op=='invoke' else list(b.succ)
    exits=[n for n,b in fn.blocks.items() if b.insts[-1].op=='ret']
    # blocks that reach a ret
    pred={n:[] for n in fn.blocks}
    for n in succ:
        for x in succ[n]: pred[x].append(n)
    reach=set(exits); todo=list(exits)
    while todo:
        x=todo.pop()
        for p in pred[x]:
            if p not in reach: reach.add(p); todo.append(p)
    allr=set(reach)
    pd={n:({n} if n in exits else set(allr)) for n in reach}
    ch=True
    while ch:
        ch=False
        for n in reach:
            if n in exits: continue
            ss=[pd[x] for x in succ[n] if x in reach]
            new=set.intersection(*ss)|{n} if ss else {n}
            if new!=pd[n]: pd[n]=new; ch=True
    r={}
    for n in reach:
        c=pd[n]-{n}
        # the closest strict postdominator is the one postdominated by all others
        r[n]=next((x for x in c if len(pd[x])==len(c)),None)
    fn._ipdom=r
    return r

class NoMerge(Exception): pass

def ite(c,x,y):
    if x is y: return x
    if isinstance(x,int) and isinstance(y,int) and not isinstance(x,bool) and not isinstance(y,bool) and x==y: return x
    if isinstance(x,z3.ExprRef) and isinstance(y,z3.ExprRef) and x.eq(y): return x
    if isinstance(x,Undef) and isinstance(y,Undef): return x
    if isinstance(x,Ptr) and isinstance(y,Ptr):
        if x.obj!=y.obj: raise NoMerge('ptr')
        a,b=Lin.of(x.off),Lin.of(y.off)
        if a.bv().eq(b.bv()): return x
        g=0                                             # keep a common stride visible
        sg=lambda k:k if k<1<<63 else (1<<64)-k
        for l in (a,b):
            for k,_ in l.t.values(): g=math.gcd(g,sg(k))
        g=math.gcd(g,sg((a.c-b.c)&((1<<64)-1)))
        if g>=16 and (a.t or b.t) and a.c<1<<62 and b.c<1<<62:
            f=a.c%g; qa,qb=(Lin(l.c-f,l.t).divexact(g) for l in (a,b))
            if qa is not None and qb is not None: return Ptr(x.obj,Lin.of(z3.If(c,qa.bv(),qb.bv())).mul(g).add(Lin(f,{})))
        return Ptr(x.obj,Lin.of(z3.If(c,a.bv(),b.bv())))
    if isinstance(x,(bool,z3.BoolRef)) and isinstance(y,(bool,z3.BoolRef)):
        if isinstance(x,bool) and isinstance(y,bool) and x==y: return x
        return z3.If(c,z3.BoolVal(x) if isinstance(x,bool) else x,z3.BoolVal(y) if isinstance(y,bool) else y)
    raise NoMerge('kind')
def ite_int(c,x,y,w):
    if x is y: return x
    if isinstance(x,(PInt,Undef,FnRef)) or isinstance(y,(PInt,Undef,FnRef)):
        if type(x)==type(y) and isinstance(x,Undef): return x
        if isinstance(x,PInt) and isinstance(y,PInt): return PInt(ite(c,x.p,y.p))
        raise NoMerge('pint')
    if isinstance(x,(bool,z3.BoolRef)) or isinstance(y,(bool,z3.BoolRef)):
        return ite(c,tobool(x),tobool(y))
    a,b=tobv(x,w),tobv(y,w)
    if a.eq(b): return x
    return z3.simplify(z3.If(c,a,b))
def ite_val(c,x,y,kind,w):
    if kind=='i': return ite_int(c,x,y,w)
    if kind=='p': return ite(c,x,y)
    if kind=='f':
        if x is y: return x
        if isinstance(x,float) and isinstance(y,float) and x==y: return x
        from .floats import fite
        return fite(c,x,y)
    raise NoMerge('kind')
def guess(c,x,y):
    """registers: no type information kept; widths from the values"""
    if x is y: return x
    if isinstance(x,int) and isinstance(y,int) and x==y: return x
    if isinstance(x,Ptr) or isinstance(y,Ptr) or isinstance(x,(bool,z3.BoolRef)) and isinstance(y,(bool,z3.BoolRef)): return ite(c,x,y)
    from .floats import FV
    if isinstance(x,(float,FV)) or isinstance(y,(float,FV)):
        from .floats import fite
        return fite(c,x,y)
    ws=[v.size() for v in (x,y) if isinstance(v,z3.BitVecRef)]+[64 for v in (x,y) if isinstance(v,Lin)]
    if not ws: raise NoMerge('width')
    return ite_int(c,x,y,ws[0])

def merge2(a,b,fn):
    """merge states a,b (same stop point); returns the merged state or raises NoMerge"""
    n=0
    while n<len(a.pc) and n<len(b.pc) and a.pc[n] is b.pc[n]: n+=1
    da,db=a.pc[n:],b.pc[n:]
    if not da or not db: raise NoMerge('pc')
    c=da[0] if len(da)==1 else z3.And(*da)
    cb=db[0] if len(db)==1 else z3.And(*db)
    if len(a.frames)!=len(b.frames) or a.exc is not b.exc or a.pend is not b.pend or a.writes is not b.writes or len(a.caught)!=len(b.caught): raise NoMerge('shape')
    m=a.fork(); m.dead=False
    # registers
    for i,(fa,fb) in enumerate(zip(a.frames,b.frames)):
        fm=m.frames[i]
        if fa.fn is not fb.fn or fa.block!=fb.block or fa.pc!=fb.pc or fa.retdst!=fb.retdst: raise NoMerge('frame')
        if i<len(a.frames)-1:
            # callers' registers must be untouched between branch and join
            if len(fa.regs)!=len(fb.regs) or any(k not in fb.regs or fb.regs[k] is not v for k,v in fa.regs.items()): raise NoMerge('caller')
            continue
        phis={(ph.dst):ph.a[0] for ph in fn.blocks[fa.block].phis}
        if fa.block!=fb.block or set(fa.cuts)!=set(fb.cuts): raise NoMerge('frame')
        regs={}
        for k in fa.regs:
            if k not in fb.regs: continue
            x,y=fa.regs[k],fb.regs[k]
            if k in phis:
                t=phis[k]
                if t[0]=='i': regs[k]=ite_int(c,x,y,t[1]) if t[1]>1 else ite_int(c,tobool(x),tobool(y),1)
                elif t[0]=='f64': regs[k]=ite_val(c,x,y,'f',64)
                else: regs[k]=ite(c,x,y)
            else:
                if x is y: regs[k]=x; continue
                try: regs[k]=guess(c,x,y)
                except (NoMerge,z3.Z3Exception,AttributeError,TypeError,Unsupported): pass
        fm.regs=regs
    # memory
    for o in set(a.mem)|set(b.mem):
        if o not in a.mem: m.mem[o]=b.mem[o]; continue
        if o not in b.mem: continue
        oa,ob=a.mem[o],b.mem[o]
        if oa is ob: continue
        if oa.mode!=ob.mode or oa.alive!=ob.alive or oa.tag!=ob.tag: raise NoMerge('obj')
        w=m.wobj(o)
        if not (oa.size is ob.size or (isinstance(oa.size,int) and isinstance(ob.size,int) and oa.size==ob.size)):
            w.size=z3.simplify(z3.If(c,tobv(oa.size,64),tobv(ob.size,64)))
        if oa.mode=='cells':
            if set(oa.cells)!=set(ob.cells):
                if not oa.lazy: raise NoMerge('cells')
            cells={}
            for f in oa.cells:
                if f not in ob.cells: raise NoMerge('cells')
                (za,va,ka),(zb,vb,kb)=oa.cells[f],ob.cells[f]
                if za!=zb: raise NoMerge('cells')
                if va is vb: cells[f]=oa.cells[f]; continue
                if ka!=kb: raise NoMerge('cells')
                cells[f]=(za,ite_val(c,va,vb,ka,8*za),ka)
            w.cells=cells
        elif oa.mode=='bytes':
            if not oa.arr.eq(ob.arr): w.arr=z3.If(c,oa.arr,ob.arr)
        else:
            for f in oa.fields:
                (s1,k1,x),(s2,k2,y)=oa.fields[f],ob.fields[f]
                if x is y: continue
                if callable(x) or callable(y): raise NoMerge('rec')
                if not x.eq(y): w.fields[f]=(s1,k1,z3.If(c,x,y))
    # ghosts
    g={}
    for k in set(a.g)|set(b.g):
        if isinstance(k,tuple):      # caches of definitional facts: only valid if present in both
            if k in a.g and k in b.g and a.g[k] is b.g[k]: g[k]=a.g[k]
            continue
        if k not in a.g or k not in b.g: raise NoMerge('ghost')
        x,y=a.g[k],b.g[k]
        if x is y: g[k]=x; continue
        if isinstance(x,(z3.BitVecRef,Lin)) or isinstance(y,(z3.BitVecRef,Lin)): g[k]=guess(c,x,y)
        elif isinstance(x,z3.ExprRef) and isinstance(y,z3.ExprRef) and x.sort()==y.sort(): g[k]=x if x.eq(y) else z3.If(c,x,y)
        else:
            try: eq=bool(x==y)
            except Exception: eq=False
            if not eq: raise NoMerge('ghost')
            g[k]=x
    m.g=g
    m.pc=list(a.pc[:n]); m.pc.append(z3.simplify(z3.Or(c,cb)))
    if z3.is_true(m.pc[-1]): m.pc.pop()
    m.steps=max(a.steps,b.steps)
    return m

def merge_all(states,fn):
    out=[]
    for s in states:
        for i,o in enumerate(out):
            try: out[i]=merge2(o,s,fn); break
            except NoMerge: continue
        else: out.append(s)
    return out
