"""Symbolic executor / verification-condition generator over LLVM IR.

Everything here is generic: no knowledge of wreport.  Contracts (pre-states,
postconditions, callee summaries) live in vc/contracts/*.
"""
import z3, time, re, sys, subprocess, os, tempfile
from . import lia
from .irparse import *

sys.setrecursionlimit(20000)

class PathEnd(Exception):
    """the current path is abandoned (reason recorded)"""
class Fork(Exception):
    pass

def mask(w): return (1<<w)-1

# ---------------------------------------------------------------- values
def cpu():
    t=os.times(); return t.user+t.system+t.children_user+t.children_system
class Lin:
    """64-bit linear expression: const + sum coef*term (mod 2^64), terms are z3 BV64"""
    __slots__=('c','t')
    def __init__(s,c,t): s.c=c & mask(64); s.t=t      # t: dict id -> (coef, term)
    @staticmethod
    def of(v):
        if isinstance(v,Lin): return v
        if isinstance(v,int): return Lin(v,{})
        v2=v
        if z3.is_bv_value(v2): return Lin(v2.as_long(),{})
        # decompose simple sums/products so that strides stay visible
        k=v.decl().kind()
        if k==z3.Z3_OP_BADD:
            r=Lin(0,{})
            for a in v.children(): r=r.add(Lin.of(a))
            return r
        if k==z3.Z3_OP_BMUL and v.num_args()==2 and z3.is_bv_value(v.arg(0)):
            return Lin.of(v.arg(1)).mul(v.arg(0).as_long())
        if k==z3.Z3_OP_BNEG:
            return Lin.of(v.arg(0)).mul(mask(64))
        if k==z3.Z3_OP_BSUB and v.num_args()==2:
            return Lin.of(v.arg(0)).sub(Lin.of(v.arg(1)))
        return Lin(0,{v.get_id():(1,v)})
    def add(s,o):
        t=dict(s.t)
        for k,(c,x) in o.t.items():
            c2=(t[k][0]+c)&mask(64) if k in t else c
            if c2==0: t.pop(k,None)
            else: t[k]=(c2,x)
        return Lin(s.c+o.c,t)
    def mul(s,k):
        k&=mask(64)
        if k==0: return Lin(0,{})
        t={}
        for i,(c,x) in s.t.items():
            c2=(c*k)&mask(64)
            if c2: t[i]=(c2,x)
        return Lin(s.c*k,t)
    def sub(s,o): return s.add(o.mul(mask(64)))
    def const(s): return s.c if not s.t else None
    def bv(s):
        r=None
        for c,x in s.t.values():
            y=x if c==1 else z3.BitVecVal(c,64)*x
            r=y if r is None else r+y
        if r is None: return z3.BitVecVal(s.c,64)
        return r if s.c==0 else r+z3.BitVecVal(s.c,64)
    def norm(s):
        return s.c if not s.t else s
    def divexact(s,d):
        """divide every signed coefficient by d, or None"""
        def q(c):
            sc=c-(1<<64) if c>>63 else c
            return None if sc%d else sc//d
        c=q(s.c)
        if c is None: return None
        t={}
        for i,(k,x) in s.t.items():
            k2=q(k)
            if k2 is None: return None
            t[i]=(k2&mask(64),x)
        return Lin(c,t)
    def __repr__(s): return 'Lin(%s)'%s.bv()

class Ptr:
    __slots__=('obj','off')
    def __init__(s,obj,off=0):
        s.obj=obj; s.off=off.norm() if isinstance(off,Lin) else off
    def __repr__(s): return 'Ptr(%s,%s)'%(s.obj,s.off)
    def plus(s,lin):
        if isinstance(s.off,int) and isinstance(lin,int): return Ptr(s.obj,(s.off+lin)&mask(64))
        return Ptr(s.obj,Lin.of(s.off).add(Lin.of(lin)))
NULL=Ptr(0,0)

class FnRef:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return 'Fn(%s)'%s.name

class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()

class FV:
    """abstract double: r is a z3 Real, nan/inf z3 Bool or python bool.
    inf -> sign is the sign of r."""
    __slots__=('r','nan','inf')
    def __init__(s,r,nan=False,inf=False): s.r=r; s.nan=nan; s.inf=inf
    def __repr__(s): return 'FV(%s,%s,%s)'%(s.r,s.nan,s.inf)

def tobv(v,w):
    if isinstance(v,bool): v=int(v)
    if isinstance(v,int): return z3.BitVecVal(v,w)
    if isinstance(v,Lin): return v.bv()
    if isinstance(v,Undef): return z3.FreshConst(z3.BitVecSort(w),'undef')
    if isinstance(v,Ptr) :
        if v.obj==0: return Lin.of(v.off).bv()
        return z3.BitVec('addr!%d'%v.obj,64)+Lin.of(v.off).bv()
    if isinstance(v,PInt): return tobv(v.p,64)
    if isinstance(v,FnRef): return z3.BitVec('fnaddr!'+v.name,64)
    if isinstance(v,FV): raise Unsupported('float used as int bits')
    return v

class PInt:
    """ptrtoint result"""
    __slots__=('p',)
    def __init__(s,p): s.p=p

def isc(v): return isinstance(v,int)

def simp(e):
    e=z3.simplify(e)
    return e

def tobool(v):
    """i1 value -> python bool or z3 Bool"""
    if isinstance(v,bool): return v
    if isinstance(v,int): return bool(v)
    if isinstance(v,z3.BoolRef): return v
    if isinstance(v,Undef): return z3.FreshConst(z3.BoolSort(),'undefb')
    return v==z3.BitVecVal(1,1)

def cur_int(v,w):
    """normalise BV constants to python int"""
    if isinstance(v,z3.BitVecRef):
        if z3.is_bv_value(v): return v.as_long()
    return v

# ---------------------------------------------------------------- memory
class Obj:
    """memory object.
    mode 'cells': dict off -> (size, value, kind)   kind in 'i','p','f'
    mode 'bytes': z3 Array BV64->BV8
    mode 'rec'  : array of records; stride, fields: off -> (size, kind, z3 array | python fn(idxterm)->value)
    """
    __slots__=('id','name','size','mode','cells','arr','stride','fields','alive','lazy','ro','writes','tag','origin','snap')
    def __init__(s,id,name,size,mode='cells',lazy=False,ro=False):
        s.id=id; s.name=name; s.size=size; s.mode=mode; s.cells={}; s.arr=None; s.stride=None; s.fields=None
        s.alive=True; s.lazy=lazy; s.ro=ro; s.tag=None; s.origin=None; s.snap=None
    def copy(s):
        o=Obj(s.id,s.name,s.size,s.mode,s.lazy,s.ro)
        o.cells=dict(s.cells); o.arr=s.arr; o.stride=s.stride; o.fields=dict(s.fields) if s.fields else None
        o.alive=s.alive; o.tag=s.tag; o.origin=s.origin; o.snap=s.snap
        return o

class Frame:
    __slots__=('fn','regs','block','pc','prev','retdst','inv','cuts','allocas','ghost')
    def __init__(s,fn):
        s.fn=fn; s.regs={}; s.block=fn.entry; s.pc=0; s.prev=None; s.retdst=None; s.inv=None; s.cuts={}; s.allocas=[]; s.ghost=None
    def copy(s):
        f=Frame.__new__(Frame)
        f.fn=s.fn; f.regs=dict(s.regs); f.block=s.block; f.pc=s.pc; f.prev=s.prev; f.retdst=s.retdst; f.inv=s.inv
        f.cuts=dict(s.cuts); f.allocas=list(s.allocas); f.ghost=s.ghost
        return f

class State:
    __slots__=('mem','own','pc','frames','g','exc','steps','trace','pend','writes','caught','dead')
    def __init__(s):
        s.mem={}; s.own=set(); s.pc=[]; s.frames=[]; s.g={}; s.exc=None; s.steps=0; s.trace=[]; s.pend=None; s.writes=None; s.caught=[]; s.dead=False
    def fork(s):
        t=State()
        t.mem=dict(s.mem); t.own=set(); s.own=set()
        t.pc=list(s.pc); t.frames=[f.copy() for f in s.frames]; t.g=dict(s.g); t.exc=s.exc; t.steps=s.steps
        t.trace=list(s.trace); t.pend=s.pend; t.writes=s.writes; t.caught=list(s.caught)
        return t
    def wobj(s,id):
        o=s.mem[id]
        if id not in s.own:
            o=o.copy(); s.mem[id]=o; s.own.add(id)
        return o
    def assume(s,c):
        if c is True: return
        if c is False: c=z3.BoolVal(False)
        s.pc.append(c)

class Thrown:
    def __init__(s,typ,ptr=None,info=None): s.typ=typ; s.ptr=ptr; s.info=info
    def __repr__(s): return 'throw %s'%s.typ

class Outcome:
    """kind: 'ret' 'throw' 'abort'"""
    def __init__(s,kind,st,val=None,exc=None): s.kind=kind; s.st=st; s.val=val; s.exc=exc

class Stop:
    """a join point where states are collected to be merged"""
    __slots__=('depth','block','states')
    def __init__(s,d,b): s.depth=d; s.block=b; s.states=[]

class Failure:
    def __init__(s,name,kind,detail,model=None,st=None,case=None,smt=None):
        s.name=name; s.kind=kind; s.detail=detail; s.model=model; s.st=st; s.case=case; s.smt=smt

DEM={}
def demangle_all(names):
    need=[n for n in names if n not in DEM]
    if need:
        r=subprocess.run(['c++filt'],input='\n'.join(need),capture_output=True,text=True).stdout.split('\n')
        for a,b in zip(need,r): DEM[a]=b

class Engine:
    def __init__(s,mod,stubs=None,contracts=None,opts=None):
        s.mod=mod
        demangle_all(list(mod.funcs)+list(mod.decls))
        s.stubs=stubs or []          # list of (compiled regex on demangled, handler)
        s.local=[]                   # contract-specific stubs (searched first)
        s.stubcache={}
        s.obl=[]                     # (name, status, backend, time)
        s.fails=[]
        s.nid=[100]
        s.globs={}
        s.opts={'max_steps':400000,'max_paths':20000,'unroll':600,'timeout':20000,'branch_timeout':2000}
        if opts: s.opts.update(opts)
        s.solver_time=0.0
        s.inv_solver=None; s.inv_stack=[]
        s.trusted=set(); s.inlined=set(); s.used_contracts=set(); s.unsupported=[]
        s.cut_loops=lambda fn,header: False
        s.cands=None
        s.path_count=0
        s.tids={}
        s.fcount=0
        s.case=None
        s.on_write=None
        s.deadline=None
        s.assume_defs=[]
        s.use_cvc5=True
        s.float_side=[]
        s.cutlog=[]; s.loop_params=None; s.case_name=None
        s.forks=0; s.stops=[]

    # ------------------------------------------------ fresh
    def fresh(s,name,w):
        s.fcount+=1
        return z3.BitVec('%s!%d'%(name,s.fcount),w)
    def freshbool(s,name):
        s.fcount+=1
        return z3.Bool('%s!%d'%(name,s.fcount))
    def freshreal(s,name):
        s.fcount+=1
        return z3.Real('%s!%d'%(name,s.fcount))
    def newid(s):
        s.nid[0]+=1; return s.nid[0]
    def alloc(s,st,name,size,mode='cells',lazy=False,ro=False):
        id=s.newid(); o=Obj(id,name,size,mode,lazy,ro)
        if mode=='bytes':
            o.arr=z3.Array('%s!m%d'%(name,id),z3.BitVecSort(64),z3.BitVecSort(8))
        st.mem[id]=o; st.own.add(id)
        return Ptr(id,0)

    # ------------------------------------------------ solver
    def sync(s,pc):
        if s.inv_solver is None:
            s.inv_solver=z3.Solver(); s.inv_solver.set('timeout',s.opts['branch_timeout']); s.inv_stack=[]
        k=0
        while k<len(s.inv_stack) and k<len(pc) and s.inv_stack[k] is pc[k]: k+=1
        if len(s.inv_stack)>k:
            s.inv_solver.pop(len(s.inv_stack)-k); del s.inv_stack[k:]
        for c in pc[k:]:
            s.inv_solver.push(); s.inv_solver.add(c); s.inv_stack.append(c)
    def feasible(s,st,cond=None):
        """may be True on unknown"""
        if cond is not None:
            if cond is True: cond=None
            elif cond is False: return False
            else:
                c=z3.simplify(cond)
                if z3.is_false(c): return False
                if z3.is_true(c): return True
        t=time.time()
        s.sync(st.pc)
        if cond is None: r=s.inv_solver.check()
        else: r=s.inv_solver.check(cond)
        if r==z3.unknown and lia.unsat(st.pc+([cond] if cond is not None else []),2000): r=z3.unsat
        s.solver_time+=time.time()-t
        return r!=z3.unsat
    def must(s,st,cond):
        """definitely holds under pc (False on unknown)"""
        if cond is True: return True
        if cond is False: return False
        c=z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return not s.feasible(st)
        t=time.time()
        s.sync(st.pc)
        r=s.inv_solver.check(z3.Not(c))
        if r==z3.unknown and lia.unsat(st.pc+[z3.Not(c)],2000): r=z3.unsat
        s.solver_time+=time.time()-t
        return r==z3.unsat
    def solve(s,cs,timeout=None):
        """-> ('unsat'|'sat'|'unknown', model, backend)"""
        t0=time.time()
        timeout=timeout or s.opts['timeout']
        try:
            if s.opts.get('lia_first') and lia.unsat(cs,1000): return 'unsat',None,'z3-lia'
            sol=z3.Solver(); sol.set('timeout',min(1500,timeout))
            sol.add(*cs)
            r=sol.check()
            if r==z3.unsat: return 'unsat',None,'z3'
            if r==z3.sat: return 'sat',sol.model(),'z3'
            if lia.unsat(cs,4000): return 'unsat',None,'z3-lia'
            sol=z3.Solver(); sol.set('timeout',timeout)
            sol.add(*cs)
            r=sol.check()
            if r==z3.unsat: return 'unsat',None,'z3'
            if r==z3.sat: return 'sat',sol.model(),'z3'
            if s.use_cvc5:
                x=s.cvc5(sol.to_smt2(),timeout)
                if x=='unsat': return 'unsat',None,'cvc5'
            return 'unknown',None,'z3+cvc5'
        finally:
            s.solver_time+=time.time()-t0
    def cvc5(s,smt,timeout):
        with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as f:
            f.write('(set-logic ALL)\n'+smt.replace('(set-info :status unknown)','')); nm=f.name
        try:
            r=subprocess.run(['cvc5','--tlimit=%d'%timeout,nm],capture_output=True,text=True,timeout=timeout/1000+10)
            return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        except Exception: return 'unknown'
        finally: os.unlink(nm)
    def prove(s,st,cond,name,kind='post',detail=''):
        """discharge obligation; returns True iff proved"""
        t0=time.time()
        if cond is True: s.obl.append((name,'proved','fold',0.0)); return True
        if cond is not False:
            c=z3.simplify(cond)
            if z3.is_true(c): s.obl.append((name,'proved','simplify',time.time()-t0)); return True
        else: c=z3.BoolVal(False)
        r,m,b=s.solve(st.pc+[z3.Not(c)])
        dt=time.time()-t0
        if r=='unsat': s.obl.append((name,'proved',b,dt)); return True
        s.obl.append((name,'failed' if r=='sat' else 'unknown',b,dt))
        s.fails.append(Failure(name,kind if r=='sat' else 'unknown',detail,m,st,s.case))
        return False
    def prove_many(s,st,conds,kind='post'):
        """discharge several obligations [(name,cond)]: as one query, or one by one if that does not succeed"""
        t0=time.time(); cs=[(n,z3.simplify(c)) for n,c in conds]; left=[]
        for n,c in cs:
            if z3.is_true(c): s.obl.append((n,'proved','simplify',0.0))
            else: left.append((n,c))
        if not left: return True
        r,m,b=s.solve(st.pc+[z3.Not(z3.And(*[c for n,c in left]))])
        if r=='unsat':
            for n,c in left: s.obl.append((n,'proved',b,(time.time()-t0)/len(left)))
            return True
        return all([s.prove(st,c,n,kind) for n,c in left])
    def concretize(s,st,term,w,limit=300):
        """enumerate feasible values of term: list of ints or None"""
        vals=[]
        s.sync(st.pc)
        s.inv_solver.push()
        try:
            while True:
                r=s.inv_solver.check()
                if r==z3.unsat: return vals
                if r!=z3.sat: return None
                v=s.inv_solver.model().eval(term,model_completion=True).as_long()
                vals.append(v)
                if len(vals)>limit: return None
                s.inv_solver.add(term!=z3.BitVecVal(v,w))
        finally: s.inv_solver.pop()

    # ------------------------------------------------ globals
    def glob(s,st,name):
        if name in s.mod.funcs or name in s.mod.decls: return FnRef(name)
        key='@'+name
        if key in s.globs:
            id=s.globs[key]
            if id in st.mem: return Ptr(id,0)
        if name not in s.mod.globals: raise Unsupported('global '+name)
        t,init,const,tls=s.mod.global_def(name)
        if t=='alias':
            m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*$',s.mod.globals[name])
            return s.glob(st,m.group(1).strip('"'))
        try: size=s.mod.sizeof(t)
        except Unsupported: size=8
        id=s.globs.get(key)
        if id is None:
            id=s.newid(); s.globs[key]=id
        o=Obj(id,key,size,'cells',lazy=(init is None or not const),ro=const)
        st.mem[id]=o; st.own.add(id)
        if init is not None and const:
            s.init_const(st,o,0,t,init)
        elif init is not None and s.opts.get('init_globals',True) and (not tls or s.opts.get('tls_init')):
            s.init_const(st,o,0,t,init)
        return Ptr(id,0)
    def init_const(s,st,o,off,t,v):
        t=s.mod.resolve(t)
        if v[0]=='zero' or v[0]=='undef':
            if t[0]=='arr':
                for i in range(t[1]): s.init_const(st,o,off+i*s.mod.sizeof(t[2]),t[2],v)
            elif t[0]=='struct':
                for e,oo in zip(t[1],s.mod.offsets(t)): s.init_const(st,o,off+oo,e,v)
            else:
                o.cells[off]=(s.mod.sizeof(t), NULL if t[0]=='ptr' else (0.0 if t[0]=='f64' else 0), kindof(t))
        elif v[0]=='cstr':
            for i,b in enumerate(v[1]): o.cells[off+i]=(1,b,'i')
        elif v[0]=='agg':
            if t[0]=='arr':
                z=s.mod.sizeof(t[2])
                for i,(et,ev) in enumerate(v[1]): s.init_const(st,o,off+i*z,et,ev)
            else:
                for (et,ev),oo in zip(v[1],s.mod.offsets(t)): s.init_const(st,o,off+oo,et,ev)
        else:
            o.cells[off]=(s.mod.sizeof(t),s.const(st,t,v),kindof(t))
    def const(s,st,t,v):
        k=v[0]
        if k=='c':
            if t[0]=='ptr': return NULL
            return v[1]
        if k=='f': return v[1]
        if k=='g': return s.glob(st,v[1])
        if k=='undef':
            t=s.mod.resolve(t)
            if t[0]=='struct': return [UNDEF]*len(t[1])
            return UNDEF
        if k=='zero':
            t=s.mod.resolve(t)
            if t[0]=='ptr': return NULL
            if t[0]=='struct': return [s.const(st,e,v) for e in t[1]]
            if t[0]=='arr': return [s.const(st,t[2],v) for _ in range(t[1])]
            if t[0] in('f64','f32'): return 0.0
            return 0
        if k=='agg': return [s.const(st,a,b) for a,b in v[1]]
        if k=='cgep':
            base=s.const(st,v[2][0],v[2][1])
            return s.gep(st,v[1],base,[(a,s.const(st,a,b)) for a,b in v[3]])
        if k=='ccast':
            x=s.const(st,v[2][0],v[2][1])
            if v[1]=='ptrtoint': return PInt(x) if isinstance(x,Ptr) and x.obj else (Lin.of(x.off).norm() if isinstance(x,Ptr) else x)
            if v[1]=='inttoptr':
                if isinstance(x,PInt): return x.p
                if isc(x): return Ptr(0,x)
            return x
        raise Unsupported('const %r'%(v,))
    def val(s,st,t,v):
        if v[0]=='l':
            return st.frames[-1].regs[v[1]]
        return s.const(st,t,v)

    # ------------------------------------------------ pointers / memory
    def gep(s,st,bt,base,idx):
        if isinstance(base,FnRef): return base
        if isinstance(base,Undef): raise Unsupported('gep on undef')
        off=0; t=bt
        acc=Lin(0,{})
        first=True
        for it,iv in idx:
            if first:
                acc=acc.add(s.idx(it,iv).mul(s.mod.sizeof(t))); first=False; continue
            t=s.mod.resolve(t)
            if t[0]=='struct':
                acc=acc.add(Lin(s.mod.offsets(t)[iv],{})); t=t[1][iv]
            elif t[0] in('arr','vec'):
                acc=acc.add(s.idx(it,iv).mul(s.mod.sizeof(t[2]))); t=t[2]
            else: raise Unsupported('gep type')
        return base.plus(acc.norm())
    def idx(s,t,v):
        w=t[1]
        if isinstance(v,int):
            if w<64 and v>>(w-1): v|=mask(64)^mask(w)
            return Lin(v,{})
        if isinstance(v,Lin): return v
        if isinstance(v,PInt): raise Unsupported('ptr int index')
        v=tobv(v,w)
        if w<64: v=z3.SignExt(64-w,v)
        return Lin.of(v)
    def check_access(s,st,p,size,what):
        if isinstance(p,FnRef): raise Unsupported('data access to function')
        if p.obj==0:
            s.fail_path(st,'memory-safety: %s through null pointer'%what)
        o=st.mem.get(p.obj)
        if o is None: raise Unsupported('unknown object')
        if not o.alive:
            s.fail_path(st,'memory-safety: %s of freed object %s'%(what,o.name))
        if isinstance(p.off,int) and isinstance(o.size,int):
            off=p.off-(1<<64) if p.off>>63 else p.off
            if off<0 or off+size>o.size:
                s.fail_path(st,'memory-safety: %s at offset %d of %s (size %d)'%(what,off,o.name,o.size))
            return o
        if o.mode=='rec' and not isc(o.size) and 8<o.stride<1<<20:   # in terms of record numbers (n*stride does not wrap when n<2^40)
            n=Lin.of(o.size).divexact(o.stride)
            if n is not None:
                try:
                    i,f=s.recidx(o,p.off)
                    if f+size<=o.stride and s.must(st,z3.And(z3.ULT(i,n.bv()),z3.ULT(n.bv(),z3.BitVecVal(1<<40,64)))):
                        s.obl.append((s.cname()+'memory-safety: %s of %s in bounds'%(what,o.name),'proved','z3',0.0)); return o
                except Unsupported: pass
        off=Lin.of(p.off).bv(); sz=tobv(o.size,64)
        # no-wrap form: off <= size - n  and size >= n
        cond=z3.And(z3.UGE(sz,z3.BitVecVal(size,64)),z3.ULE(off,sz-z3.BitVecVal(size,64)))
        nm='memory-safety: %s of %s in bounds'%(what,o.name)
        if not s.prove(st,cond,s.cname()+nm,'memory'):
            st.assume(cond)
            if not s.feasible(st): raise PathEnd('oob')
        return o
    def cname(s): return (s.case_name+': ') if getattr(s,'case_name',None) else ''
    def fail_path(s,st,name):
        """an unconditional failure on this path: obligation is pc infeasible"""
        s.prove(st,False,s.cname()+name,'memory')
        raise PathEnd(name)
    def load(s,st,t,p):
        t=s.mod.resolve(t)
        if t[0]=='struct':
            return [s.load(st,e,p.plus(o)) for e,o in zip(t[1],s.mod.offsets(t))]
        if t[0]=='arr':
            z=s.mod.sizeof(t[2]); return [s.load(st,t[2],p.plus(i*z)) for i in range(t[1])]
        size=(t[1]+7)//8 if t[0]=="i" else s.mod.sizeof(t)
        o=s.check_access(st,p,size,'read')
        return s.rd(st,o,p.off,size,t)
    def rd(s,st,o,off,size,t):
        k=kindof(t)
        if o.mode=='cells':
            if not isinstance(off,int) and size==1 and o.ro and not o.lazy and isc(o.size) and 1<o.size<=4096 and all(i in o.cells and o.cells[i][0]==1 and isc(o.cells[i][1]) for i in range(o.size)):
                # constant table, symbolic index (bounds already checked): multiplexer over the index bits
                ix=tobv(Lin.of(off),64); nb=(o.size-1).bit_length()
                def mux(lo,bit):
                    if lo>=o.size: return None
                    if bit<0: return z3.BitVecVal(o.cells[lo][1],8)
                    a,b_=mux(lo,bit-1),mux(lo+(1<<bit),bit-1)
                    return a if b_ is None or a.eq(b_) else z3.If(z3.Extract(bit,bit,ix)==1,b_,a)
                return s.narrow(cur_int(z3.simplify(mux(0,nb-1)),8),t,1)
            if not isinstance(off,int):
                off=s.symoff(st,o,off,size,t)
                if not isinstance(off,int): o=st.mem[o.id]
            if o.mode=='cells':
                off&=mask(64)
                c=o.cells.get(off)
                if c is not None and c[0]==size:
                    return s.coerce(st,c[1],c[2],k,size,t)
                # assemble from parts
                return s.assemble(st,o,off,size,t,k)
        if o.mode=='bytes':
            if k=='p' or k=='f': raise Unsupported('pointer/float load from byte array %s'%o.name)
            b=[z3.simplify(z3.Select(o.arr,tobv(Lin.of(off).add(Lin(i,{})),64))) for i in range(size)]
            if o.tag and o.tag[0]=='cstr' and o.ro:
                # instantiate the string precondition at the byte being read
                for i in range(size):
                    if z3.is_bv_value(b[i]): continue
                    ix=tobv(Lin.of(off).add(Lin(i,{})),64); ll=tobv(o.tag[1],64)
                    st.assume(z3.Implies(z3.ULT(ix,ll),b[i]!=0)); st.assume(z3.Implies(ix==ll,b[i]==0))
                    if len(o.tag)>2: o.tag[2](s,st,ix,b[i])     # ghost recurrences over the text
            v=b[0] if size==1 else z3.simplify(z3.Concat(*b[::-1]))
            return s.narrow(cur_int(v,8*size),t,size)
        if o.mode=='rec':
            i,f=s.recidx(o,off)
            if f not in o.fields: 
                if size==1 and ('char',) : pass
                raise Unsupported('record field %d of %s'%(f,o.name))
            fs,fk,fa=o.fields[f]
            if fs!=size or fk!=k: raise Unsupported('record field size/kind')
            if callable(fa): return fa(s,st,i)
            return s.narrow(cur_int(z3.simplify(z3.Select(fa,i)),8*size),t,size)
        raise Unsupported('mode '+o.mode)
    def recidx(s,o,off):
        l=Lin.of(off)
        f=l.c % o.stride if not (l.c>>63) else ((l.c-(1<<64))%o.stride)
        q=Lin(l.c-f,l.t).divexact(o.stride)
        if q is None: raise Unsupported('record offset not multiple of stride in %s: %s'%(o.name,l))
        return q.bv(),f
    def narrow(s,v,t,size):
        if t[0]=='i' and t[1]!=8*size:
            if isinstance(v,int): return v & mask(t[1])
            return z3.Extract(t[1]-1,0,v)
        return v
    def coerce(s,st,v,vk,k,size,t):
        if vk==k: return s.narrow(v,t,size)
        if isinstance(v,Undef): return v
        if k=='p' and vk=='i':
            if isinstance(v,PInt): return v.p
            if isc(v) and v==0: return NULL
            raise Unsupported('integer reloaded as pointer')
        if k=='i' and vk=='p':
            if isinstance(v,Ptr) and v.obj==0 and v.off==0: return 0
            return PInt(v)
        if k=='f' and vk=='i' and isc(v):
            return struct.unpack('<d',struct.pack('<Q',v))[0] if size==8 else struct.unpack('<f',struct.pack('<I',v))[0]
        if k=='i' and vk=='f' and isinstance(v,float):
            return struct.unpack('<Q',struct.pack('<d',v))[0]
        raise Unsupported('coerce %s->%s'%(vk,k))
    def assemble(s,st,o,off,size,t,k):
        # exact pieces or covering cell
        parts=[]; i=off
        ok=True
        while i<off+size:
            c=o.cells.get(i)
            if c is not None and i+c[0]<=off+size and c[2]=='i' and not isinstance(c[1],(PInt,Undef)):
                parts.append(tobv(c[1],8*c[0])); i+=c[0]; continue
            # covering cell?
            cov=None
            for co in range(max(0,i-15),i+1):
                cc=o.cells.get(co)
                if cc is not None and co+cc[0]>i: cov=(co,cc)
            if cov is not None and cov[1][2]=='i' and not isinstance(cov[1][1],PInt):
                co,cc=cov
                if isinstance(cc[1],Undef):
                    parts.append(s.fresh('undef',8)); i+=1; continue
                parts.append(z3.Extract(8*(i-co)+7,8*(i-co),tobv(cc[1],8*cc[0]))); i+=1; continue
            if cov is not None and cov[1][2]=='p':
                co,cc=cov
                if isinstance(cc[1],Ptr) and cc[1].obj==0 and cc[1].off==0:
                    parts.append(z3.BitVecVal(0,8)); i+=1; continue
                # partial read of a pointer: unknown bytes
                parts.append(s.fresh('ptrbyte',8)); i+=1; continue
            if cov is not None: raise Unsupported('partial read of %s'%o.name)
            # uninitialised / lazy
            if parts==[] and i==off and not any((j in o.cells) for j in range(off,off+size)):
                v=s.lazyval(st,o,off,size,t,k)
                return v
            v=s.lazyval(st,o,i,1,I8,'i'); parts.append(tobv(v,8)); i+=1
        v=parts[0] if len(parts)==1 else z3.Concat(*parts[::-1])
        v=cur_int(z3.simplify(v),8*size)
        if k=='p':
            if v==0 and isc(v): return NULL
            raise Unsupported('pointer assembled from bytes in %s'%o.name)
        if k=='f':
            if isc(v): return struct.unpack('<d',struct.pack('<Q',v))[0]
            raise Unsupported('float from bytes')
        return s.narrow(v,t,size)
    def lazyval(s,st,o,off,size,t,k):
        ow=st.wobj(o.id)
        if k=='i': v=s.fresh('%s+%d'%(o.name,off),8*size)
        elif k=='f': v=FV(s.freshreal('%s+%d'%(o.name,off)),s.freshbool('nan'),s.freshbool('inf'))
        else:
            if not o.lazy:
                v=UNDEF
            else: raise Unsupported('read of unspecified pointer %s+%d'%(o.name,off))
        ow.cells[off]=(size,v,k)
        return s.narrow(v,t,size) if k=='i' else v
    def symoff(s,st,o,off,size,t):
        """symbolic offset into a cells object: concretize if few values, else convert to bytes"""
        if all(c[2]=='i' and not isinstance(c[1],PInt) for c in o.cells.values()) and kindof(t)=='i':
            s.tobytes(st,o); return off
        term=Lin.of(off).bv()
        vals=s.concretize(st,term,64,64)
        if vals is None: raise Unsupported('symbolic offset into mixed object %s'%o.name)
        if len(vals)==1: return vals[0]
        raise NeedFork([term==z3.BitVecVal(v,64) for v in vals])
    def tobytes(s,st,o):
        w=st.wobj(o.id)
        if w.mode=='bytes': return w
        s.fcount+=1
        arr=z3.Array('%s!b%d_%d'%(o.name,o.id,s.fcount),z3.BitVecSort(64),z3.BitVecSort(8))
        for off,(z,v,k) in sorted(w.cells.items()):
            if isinstance(v,Undef): continue
            if k!='i':
                if isinstance(v,Ptr) and v.obj==0: v=0
                else: raise Unsupported('tobytes of pointer cell in %s'%o.name)
            v=tobv(v,8*z)
            for i in range(z):
                arr=z3.Store(arr,z3.BitVecVal(off+i,64),z3.simplify(z3.Extract(8*i+7,8*i,v)))
        w.mode='bytes'; w.arr=arr; w.cells={}
        return w
    def store(s,st,t,v,p):
        t=s.mod.resolve(t)
        if t[0]=='struct':
            for e,o,x in zip(t[1],s.mod.offsets(t),v if isinstance(v,list) else [UNDEF]*len(t[1])): s.store(st,e,x,p.plus(o))
            return
        if t[0]=='arr':
            z=s.mod.sizeof(t[2])
            for i in range(t[1]): s.store(st,t[2],v[i],p.plus(i*z))
            return
        size=(t[1]+7)//8 if t[0]=="i" else s.mod.sizeof(t)
        o=s.check_access(st,p,size,'write')
        if o.ro:
            s.fail_path(st,'memory-safety: write to read-only object %s'%o.name)
        s.wr(st,o,p.off,size,t,v)
    def wr(s,st,o,off,size,t,v):
        k=kindof(t)
        if k=='i' and t[0]=='i' and t[1]!=8*size:
            v=zext(v,t[1],8*size)
        if st.writes is not None: st.writes.append((o.id,off if isinstance(off,int) else None,size))
        w=st.wobj(o.id)
        if w.mode=='cells' and not isinstance(off,int):
            off=s.symoff(st,w,off,size,t); w=st.mem[o.id]
            w=st.wobj(o.id)
        if w.mode=='cells':
            if off not in w.cells or w.cells[off][0]!=size: s.clear_range(st,w,off,size)
            w.cells[off]=(size,v,k)
        elif w.mode=='bytes':
            if k!='i': 
                if isinstance(v,Ptr) and v.obj==0: v=0
                else: raise Unsupported('pointer store into byte array %s'%o.name)
            v=tobv(v,8*size)
            a=w.arr
            for i in range(size):
                a=z3.Store(a,tobv(Lin.of(off).add(Lin(i,{})),64),z3.simplify(z3.Extract(8*i+7,8*i,v)))
            w.arr=a
        elif w.mode=='rec':
            i,f=s.recidx(w,off)
            fs,fk,fa=w.fields.get(f,(None,)*3)
            if fs==size and fk==k and hasattr(fa,'write'): fa.write(s,st,i,v); return
            if fs!=size or fk!=k or callable(fa): raise Unsupported('record store')
            w.fields[f]=(fs,fk,z3.Store(fa,i,tobv(v,8*size)))
    def clear_range(s,st,w,off,size):
        for co in list(w.cells):
            if co not in w.cells: continue
            cz,cv,ck=w.cells[co]
            if co<off+size and co+cz>off:
                if co>=off and co+cz<=off+size: del w.cells[co]; continue
                # partial overwrite: split into bytes
                del w.cells[co]
                if ck!='i':
                    for j in range(cz): w.cells[co+j]=(1,s.fresh('clob',8),'i')
                elif isinstance(cv,(Undef,PInt)):
                    for j in range(cz): w.cells[co+j]=(1,s.fresh('clob',8),'i')
                else:
                    b=tobv(cv,8*cz)
                    for j in range(cz):
                        w.cells[co+j]=(1,cur_int(z3.simplify(z3.Extract(8*j+7,8*j,b)),8),'i')
                for j in range(size): w.cells.pop(off+j,None)

    # ------------------------------------------------ execution
    def run(s,st,fname,args,on_done):
        """explore all paths of function; on_done(Outcome)"""
        f=s.mod.funcs[fname].parse()
        fr=Frame(f)
        for (t,n),a in zip(f.params,args): fr.regs[n]=a
        st.frames=[fr]
        s.enter_block(st,f.entry,None)
        s.explore([st],on_done)
    def _emit(s,o):
        s.path_count+=1
        if s.path_count>s.opts['max_paths']: raise Unsupported('too many paths')
        if s._done is not None: s._done(o)
    _done=None
    def explore(s,work,on_done,stop=None):
        save=s._done
        s._done=on_done
        try: s._explore(work)
        finally: s._done=save
    def _explore(s,work):
        while work:
            st=work.pop()
            try:
                if s.deadline and cpu()>s.deadline: raise Unsupported('time budget exhausted')
                r=s.step_until(st,work)
                if r is not None: s._emit(r)
            except PathEnd as e:
                s.path_count+=1
    def step_until(s,st,work):
        """run st until it finishes; forks are pushed on work"""
        while True:
            if st.dead: return None
            fr=st.frames[-1]
            blk=fr.fn.blocks[fr.block]
            ins=blk.insts[fr.pc]
            st.steps+=1
            if st.steps>s.opts['max_steps']: raise Unsupported('step limit (loop not bounded?) in %s'%DEM.get(fr.fn.name,fr.fn.name))
            if st.steps%64==0 and s.deadline and cpu()>s.deadline: raise Unsupported('time budget exhausted')
            try:
                r=s.exec(st,fr,ins,work)
            except NeedFork as nf:
                first=None
                if nf.states is not None:
                    for x in nf.states: work.append(x)
                    return None
                for c in nf.conds:
                    x=st.fork(); x.assume(c)
                    if s.feasible(x): work.append(x)
                return None
            if r is not None:
                if r=='killed': return None
                return r
    def enter_block(s,st,name,prev):
        fr=st.frames[-1]
        blk=fr.fn.blocks[name]
        # leaving cut loops
        for h in list(fr.cuts):
            if name!=h and name not in fr.fn.loops[h]:
                if fr.cuts[h].trial:
                    st.dead=True; return
                del fr.cuts[h]
        newv={}
        if blk.phis:
            for ph in blk.phis:
                for v,b in ph.a[1]:
                    if b==prev:
                        newv[ph.dst]=s.val(st,ph.a[0],v); break
                else: raise Unsupported('phi')
            fr.regs.update(newv)
        fr.prev=prev; fr.block=name; fr.pc=0
        if name in fr.fn.loops:
            if name in fr.cuts:
                cut=fr.cuts[name]
                cut.backedges.append(st)
                st.dead=True
                return
            if prev is not None and s.cut_loops(fr.fn,name) and not (s.opts.get('auto_unroll') and s.static_exit(st,fr,blk)):
                raise CutHere(name)
        if s.stops:
            sp=s.stops[-1]
            if sp.block==name and sp.depth==len(st.frames):
                sp.states.append(st); st.dead=True
    def static_exit(s,st,fr,blk):
        """the exit test in the loop header has a concrete outcome this time: unroll instead of cutting"""
        env={}
        def v(t,x):
            if x[0]=='l': r=env.get(x[1],fr.regs.get(x[1]))
            else: r=s.const(st,t,x)
            if isinstance(r,Lin): r=r.norm()
            if isinstance(r,Ptr): return r if (r.off if isc(r.off) else Lin.of(r.off).const()) is not None else None
            return r if isc(r) else None
        for ins in blk.insts:
            a=ins.a; op=ins.op
            if op=='load':
                p=v(PTR,a[1]); o=st.mem.get(p.obj) if isinstance(p,Ptr) and p.obj else None; env[ins.dst]=None
                if o is not None and o.mode=='cells' and o.alive:
                    c=o.cells.get(Lin.of(p.off).const()); t=s.mod.resolve(a[0])
                    if c is not None and c[0]==(t[1]//8 if t[0]=='i' else s.mod.sizeof(t)) and (isinstance(c[1],Ptr) if t==PTR else isc(c[1])): env[ins.dst]=c[1]
            elif op=='icmp':
                x,y=v(a[1],a[2]),v(a[1],a[3])
                env[ins.dst]=s.icmp(st,a[0],a[1],x,y) if x is not None and y is not None else None
            elif op in BIN:
                x,y=v(a[0],a[1]),v(a[0],a[2])
                env[ins.dst]=s.binop(st,op,a[0],x,y,a[3]) if x is not None and y is not None else None
            elif op=='cast':
                x=v(a[1],a[2]); env[ins.dst]=s.cast(st,a[0],a[1],x,a[3]) if x is not None else None
            elif op=='br' and a[0] is not None:
                c=a[0]; r=env.get(c[1],fr.regs.get(c[1])) if c[0]=='l' else None
                return isinstance(r,(int,bool))
            elif ins.dst: env[ins.dst]=None
        return False
    def goto(s,st,name,work):
        fr=st.frames[-1]
        cur=fr.block
        try:
            s.enter_block(st,name,cur)
        except CutHere as c:
            s.do_cut(st,c.header,work)
    # ---- loop cutting with Houdini-inferred invariants
    def do_cut(s,st,header,work):
        from .loops import cut_loop
        cut_loop(s,st,header,work)
    def exec(s,st,fr,ins,work):
        op=ins.op; a=ins.a
        if op in BIN:
            t=a[0]
            fr.regs[ins.dst]=s.binop(st,op,t,s.val(st,t,a[1]),s.val(st,t,a[2]),a[3]); fr.pc+=1; return
        if op=='load':
            p=s.val(st,PTR,a[1])
            if isinstance(p,Undef): s.fail_path(st,'memory-safety: read through uninitialised pointer')
            fr.regs[ins.dst]=s.load(st,a[0],p); fr.pc+=1; return
        if op=='store':
            p=s.val(st,PTR,a[2])
            if isinstance(p,Undef): s.fail_path(st,'memory-safety: write through uninitialised pointer')
            s.store(st,a[0],s.val(st,a[0],a[1]),p); fr.pc+=1; return
        if op=='gep':
            base=s.val(st,PTR,a[1])
            fr.regs[ins.dst]=s.gep(st,a[0],base,[(t,s.val(st,t,v)) for t,v in a[2]]); fr.pc+=1; return
        if op=='br':
            if a[0] is None:
                s.goto(st,a[1],work); return
            c=tobool(s.val(st,I1,a[0]))
            return s.branch(st,c,a[1],a[2],work)
        if op=='icmp':
            fr.regs[ins.dst]=s.icmp(st,a[0],a[1],s.val(st,a[1],a[2]),s.val(st,a[1],a[3])); fr.pc+=1; return
        if op=='fcmp':
            from .floats import fcmp
            fr.regs[ins.dst]=fcmp(s,st,a[0],s.val(st,a[1],a[2]),s.val(st,a[1],a[3])); fr.pc+=1; return
        if op=='cast':
            fr.regs[ins.dst]=s.cast(st,a[0],a[1],s.val(st,a[1],a[2]),a[3]); fr.pc+=1; return
        if op=='select':
            c=tobool(s.val(st,I1,a[0])); x=s.val(st,a[1],a[2]); y=s.val(st,a[1],a[3])
            fr.regs[ins.dst]=s.select(st,c,a[1],x,y); fr.pc+=1; return
        if op=='call' or op=='invoke': return s.call(st,fr,ins,work)
        if op=='ret':
            v=None if a[0] is None else s.val(st,a[0],a[1])
            return s.do_ret(st,v,work)
        if op=='switch':
            (t,v)=a[0]; x=s.val(st,t,v); w=t[1]
            if isc(x):
                for cv,l in a[2]:
                    if cv==x: s.goto(st,l,work); return
                s.goto(st,a[1],work); return
            x=tobv(x,w); targets=[]
            groups={}
            for cv,l in a[2]: groups.setdefault(l,[]).append(x==z3.BitVecVal(cv,w))
            opts=[]
            for l,cs in groups.items(): opts.append((z3.Or(*cs) if len(cs)>1 else cs[0],l))
            alln=[z3.Not(c) for c,_ in opts]
            opts.append((z3.And(*alln) if alln else True,a[1]))
            feas=[(c,l) for c,l in opts if s.feasible(st,c)]
            if s.opts.get('switch_merge') and len(feas)>=s.opts['switch_merge']:
                from .merge import ipdoms,merge_all
                J=ipdoms(fr.fn).get(fr.block)
                if J is not None:
                    stop=Stop(len(st.frames),J); s.stops.append(stop)
                    try:
                        wl=[]
                        for c,l in feas:
                            x2=st.fork(); x2.assume(c); s.goto(x2,l,wl)
                            if not x2.dead: wl.append(x2)
                        s._explore(wl)
                    finally: s.stops.pop()
                    for x2 in stop.states: x2.dead=False
                    for x2 in merge_all(stop.states,fr.fn): work.append(x2)
                    st.dead=True; return
            for c,l in feas[:-1]:
                x2=st.fork(); x2.assume(c); s.goto(x2,l,work)
                if not x2.dead: work.append(x2)
            if not feas: raise PathEnd('infeasible')
            c,l=feas[-1]
            st.assume(c); s.goto(st,l,work)
            return
        if op=='alloca':
            n=1
            if a[1] is not None: n=s.val(st,a[1][0],a[1][1])
            size=s.mod.sizeof(a[0])
            size=size*n if isc(n) else Lin.of(zext(n,a[1][0][1],64)).mul(size).bv()
            p=s.alloc(st,'%'+ins.dst,size); fr.regs[ins.dst]=p; fr.pc+=1; return
        if op=='unreachable':
            raise PathEnd('unreachable')
        if op=='extractvalue':
            v=s.val(st,None,a[0])
            for i in a[1]: v=v[i]
            fr.regs[ins.dst]=v; fr.pc+=1; return
        if op=='insertvalue':
            v=s.val(st,a[0][0],a[0][1]); x=s.val(st,a[1][0],a[1][1])
            v=list(v)
            if len(a[2])!=1: raise Unsupported('insertvalue nested')
            v[a[2][0]]=x; fr.regs[ins.dst]=v; fr.pc+=1; return
        if op=='landingpad':
            exc=st.exc; sel=0
            for c in a[0]:
                if c[0]=='g':
                    if s.catches(c[1],exc.typ): sel=s.tid(c[1]); break
                elif c==('c',0): sel=s.tid('*'); break
            p=exc.ptr if exc.ptr is not None else Ptr(st.g.setdefault('excobj',s.alloc(st,'exc',256,lazy=True).obj),0)
            fr.regs[ins.dst]=[p,sel]; fr.pc+=1; return
        if op=='resume':
            return s.unwind(st,work)
        if op=='freeze': fr.regs[ins.dst]=s.val(st,a[0],a[1]); fr.pc+=1; return
        if op=='fneg':
            from .floats import fneg
            fr.regs[ins.dst]=fneg(s,st,s.val(st,a[0],a[1])); fr.pc+=1; return
        raise Unsupported('instruction '+ins.txt)
    def branch(s,st,c,l1,l2,work):
        if c is True: s.goto(st,l1,work); return
        if c is False: s.goto(st,l2,work); return
        cs=z3.simplify(c)
        if z3.is_true(cs): s.goto(st,l1,work); return
        if z3.is_false(cs): s.goto(st,l2,work); return
        f1=s.feasible(st,cs)
        if not f1:
            st.assume(z3.Not(cs)); s.goto(st,l2,work); return
        f2=s.feasible(st,z3.Not(cs))
        if not f2:
            st.assume(cs); s.goto(st,l1,work); return
        s.forks+=1
        if s.forks>s.opts.get('merge_after',48):
            from .merge import ipdoms,merge_all
            fn=st.frames[-1].fn; J=ipdoms(fn).get(st.frames[-1].block)
            if J is not None:
                stop=Stop(len(st.frames),J)
                s.stops.append(stop)
                try:
                    w=[]
                    o=st.fork(); o.assume(z3.Not(cs)); a=st.fork(); a.assume(cs)
                    for x,l in ((o,l2),(a,l1)):
                        s.goto(x,l,w)
                        if not x.dead: w.append(x)
                    s._explore(w)
                finally: s.stops.pop()
                for x in stop.states: x.dead=False
                ms=merge_all(stop.states,fn)
                for x in ms: work.append(x)
                st.dead=True
                return
        o=st.fork(); o.assume(z3.Not(cs)); s.goto(o,l2,work)
        if not o.dead: work.append(o)
        st.assume(cs); s.goto(st,l1,work)
    def select(s,st,c,t,x,y):
        if c is True: return x
        if c is False: return y
        cs=z3.simplify(c)
        if z3.is_true(cs): return x
        if z3.is_false(cs): return y
        if t[0]=='i':
            if isc(x) and isc(y) and x==y: return x
            if isinstance(x,PInt) or isinstance(y,PInt): raise NeedFork([cs,z3.Not(cs)])
            if t[1]==1:
                bx=tobool(x); by=tobool(y)
                bx=z3.BoolVal(bx) if isinstance(bx,bool) else bx; by=z3.BoolVal(by) if isinstance(by,bool) else by
                return z3.If(cs,bx,by)
            return z3.If(cs,tobv(x,t[1]),tobv(y,t[1]))
        if t[0]=='ptr' and isinstance(x,Ptr) and isinstance(y,Ptr) and x.obj==y.obj:
            if x.obj and st.mem[x.obj].mode=='rec':     # stay at a record
                try:
                    z=st.mem[x.obj]; (i,f),(j,g)=s.recidx(z,x.off),s.recidx(z,y.off)
                    if f==g: return Ptr(x.obj,Lin.of(z3.If(cs,i,j)).mul(z.stride).add(Lin(f,{})))
                except Unsupported: pass
            return Ptr(x.obj,Lin.of(z3.If(cs,Lin.of(x.off).bv(),Lin.of(y.off).bv())))
        if t[0]=='f64':
            from .floats import fite
            return fite(cs,x,y)
        f=[c2 for c2 in (cs,z3.Not(cs)) if s.feasible(st,c2)]
        if len(f)==1: return x if f[0] is cs else y
        raise NeedFork([cs,z3.Not(cs)])
    # ---- returns / exceptions
    def do_ret(s,st,v,work):
        fr=st.frames.pop()
        if any(c.trial for c in fr.cuts.values()):
            st.dead=True; return 'killed'
        if not st.frames:
            return Outcome('ret',st,v)
        c=st.frames[-1]
        if fr.retdst is not None: c.regs[fr.retdst]=v
        if fr.inv is not None: s.goto(st,fr.inv[0],work)
        else: c.pc+=1
        return None
    def finish_call(s,st,ins,v,work):
        """stubbed call returned normally"""
        fr=st.frames[-1]
        if ins.dst is not None: fr.regs[ins.dst]=v
        if ins.op=='invoke': s.goto(st,ins.a[3],work)
        else: fr.pc+=1
        return None
    def throw(s,st,exc,work):
        """exception raised at the current call instruction of the top frame"""
        st.exc=exc
        fr=st.frames[-1]
        ins=fr.fn.blocks[fr.block].insts[fr.pc]
        if ins.op=='invoke' and s.lp_accepts(fr,ins.a[4],exc):
            s.goto(st,ins.a[4],work); return None
        return s.unwind(st,work)
    def lp_accepts(s,fr,lab,exc):
        lp=fr.fn.blocks[lab].insts[0]
        if lp.op!='landingpad': return True
        if lp.a[1]: return True
        for c in lp.a[0]:
            if c==('c',0): return True
            if c[0]=='g' and s.catches(c[1],exc.typ): return True
        return False
    def unwind(s,st,work):
        while True:
            fr=st.frames.pop()
            if any(c.trial for c in fr.cuts.values()):
                st.dead=True; return 'killed'
            if not st.frames: return Outcome('throw',st,None,st.exc)
            c=st.frames[-1]
            if fr.inv is not None and s.lp_accepts(c,fr.inv[1],st.exc):
                s.goto(st,fr.inv[1],work); return None
    def tid(s,name):
        return s.tids.setdefault(name,len(s.tids)+1)
    def catches(s,ti,typ):
        """does catch clause on typeinfo ti catch thrown typeinfo typ"""
        seen=set(); todo=[typ]
        while todo:
            x=todo.pop()
            if x==ti: return True
            if x in seen: continue
            seen.add(x)
            b=TYPE_BASES.get(x)
            if b: todo+=b
            r=s.mod.globals.get(x)
            if r and 'external' not in r.split()[:3]:
                for m in re.findall(r'ptr @(_ZTI[\w]+)',r): todo.append(m)
        return False
    # ---- calls
    def call(s,st,fr,ins,work):
        rt,callee,cargs=ins.a[0],ins.a[1],ins.a[2]
        if callee[0]=='g': name=callee[1]
        else:
            f=s.val(st,PTR,callee)
            if not isinstance(f,FnRef):
                h=s.opts.get('indirect')
                if h:
                    r=h(s,st,f,[s.val(st,t,v) if t[0]!='metadata' else None for t,v in cargs],ins,callee)
                    if r is not None: return s.apply(st,ins,r,work)
                raise Unsupported('indirect call '+ins.txt)
            name=f.name
        # resolve aliases
        if name not in s.mod.funcs and name not in s.mod.decls and name in s.mod.globals:
            f=s.glob(st,name)
            if isinstance(f,FnRef): name=f.name
        args=[s.val(st,t,v) if t[0]!='metadata' else None for t,v in cargs]
        h=s.find_stub(name)
        if h is not None:
            s._cur=(ins,fr,name)
            r=h(s,st,args,ins)
            if r is not NotImplemented:
                return s.apply(st,ins,r,work)
        return s.enter(st,ins,name,args,work)
    def enter(s,st,ins,name,args,work):
        """run the body of a function as (part of) the effect of call instruction ins"""
        f=s.mod.funcs.get(name)
        if f is None:
            raise Unsupported('call to external function without contract: %s'%DEM.get(name,name))
        f.parse()
        if len(st.frames)>200: raise Unsupported('recursion depth')
        s.inlined.add(DEM.get(name,name))
        nf=Frame(f)
        for (t,n),a in zip(f.params,args): nf.regs[n]=a
        nf.retdst=ins.dst
        nf.inv=(ins.a[3],ins.a[4]) if ins.op=='invoke' else None
        st.frames.append(nf)
        try: s.enter_block(st,f.entry,None)
        except CutHere as c: s.do_cut(st,c.header,work)
        return None
    def apply(s,st,ins,r,work):
        """r: value | Thrown | list of (state, value|Thrown) via Multi"""
        if isinstance(r,Multi):
            for x,v in r.items:
                if isinstance(v,Thrown): o=s.throw(x,v,work)
                elif isinstance(v,Enter): o=s.enter(x,ins,v.name,v.args,work)
                else: o=s.finish_call(x,ins,v,work)
                if isinstance(o,Outcome): s._emit(o)
                elif not x.dead: work.append(x)
            return 'killed'
        if isinstance(r,Thrown): return s.throw(st,r,work)
        if isinstance(r,Enter): return s.enter(st,ins,r.name,r.args,work)
        return s.finish_call(st,ins,r,work)
    def find_stub(s,name):
        if name in s.stubcache: return s.stubcache[name]
        d=DEM.get(name)
        if d is None:
            demangle_all([name]); d=DEM[name]
        r=None
        for rx,h in s.local:
            if rx.search(d): r=h; s.used_contracts.add(d); break
        if r is None:
            for rx,h in s.stubs:
                if rx.search(d): r=h; s.trusted.add(d); break
        s.stubcache[name]=r
        return r
    # ---- ops
    def binop(s,st,op,t,x,y,flags=()):
        if op[0]=='f' :
            from .floats import fbin
            return fbin(s,st,op,x,y)
        if t[0]!='i': raise Unsupported('vector op')
        w=t[1]
        if isinstance(x,Undef) or isinstance(y,Undef):
            if isinstance(x,Undef): x=s.fresh('undef',w)
            if isinstance(y,Undef): y=s.fresh('undef',w)
        if isinstance(x,PInt) or isinstance(y,PInt):
            return s.pint_op(st,op,x,y,flags)
        if isc(x) and isc(y):
            m=mask(w)
            sx=x-(1<<w) if x>>(w-1) else x; sy=y-(1<<w) if y>>(w-1) else y
            if op=='add': return (x+y)&m
            if op=='sub': return (x-y)&m
            if op=='mul': return (x*y)&m
            if op=='and': return x&y
            if op=='or': return x|y
            if op=='xor': return x^y
            if op in('udiv','sdiv','urem','srem') and y==0: s.fail_path(st,'arithmetic: division by zero')
            if op=='udiv': return x//y
            if op=='urem': return x%y
            if op=='sdiv':
                q=abs(sx)//abs(sy); q=-q if (sx<0)!=(sy<0) else q; return q&m
            if op=='srem':
                q=abs(sx)%abs(sy); q=-q if sx<0 else q; return q&m
            sh=y&(w-1) if y>=w else y
            if op=='shl': return (x<<sh)&m
            if op=='lshr': return x>>sh
            if op=='ashr': return (sx>>sh)&m
        # cheap identities
        if op in('add','sub','or','xor','shl','lshr','ashr') and isc(y) and y==0: return x
        if op in('add','or','xor') and isc(x) and x==0: return y
        if op=='mul' and isc(y) and y==1: return x
        if op=='and' and ((isc(y) and y==0) or (isc(x) and x==0)): return 0
        if w==1:
            bx=tobool(x); by=tobool(y)
            if op=='and': return band(bx,by)
            if op=='or': return bor(bx,by)
            if op=='xor':
                if isinstance(by,bool): return bnot(bx) if by else bx
                if isinstance(bx,bool): return bnot(by) if bx else by
                return z3.Xor(bx,by)
            raise Unsupported('i1 '+op)
        if w==64 and op in('add','sub','mul','shl','sdiv','udiv') and (isinstance(x,Lin) or isinstance(y,Lin) or op in('add','sub') ):
            lx=Lin.of(x); ly=Lin.of(y)
            if op=='add': return lx.add(ly).norm()
            if op=='sub': return lx.sub(ly).norm()
            if op=='mul':
                if not ly.t: return lx.mul(ly.c).norm()
                if not lx.t: return ly.mul(lx.c).norm()
            if op=='shl' and not ly.t: return lx.mul(1<<ly.c).norm()
            if op=='sdiv' and 'exact' in flags and not ly.t:
                q=lx.divexact(ly.c)
                if q is not None: return q.norm()
        if op in('ashr','lshr') and 'exact' in flags and w==64 and isc(y) and isinstance(x,Lin):
            q=x.divexact(1<<y)
            if q is not None: return q.norm()
        bx=tobv(x,w); by=tobv(y,w)
        if op=='add': r=bx+by
        elif op=='sub': r=bx-by
        elif op=='mul':
            for p,q in ((bx,by),(by,bx)):
                if z3.is_app_of(p,z3.Z3_OP_ITE) and z3.is_bv_value(p.arg(1)) and z3.is_bv_value(p.arg(2)): r=z3.If(p.arg(0),p.arg(1)*q,p.arg(2)*q); break
            else: r=bx*by
        elif op=='and': r=bx&by
        elif op=='or': r=bx|by
        elif op=='xor': r=bx^by
        elif op in('udiv','urem','sdiv','srem'):
            if not (isc(y)):
                nm=s.cname()+'arithmetic: divisor is not zero'
                if not s.prove(st,by!=0,nm,'memory'): raise PathEnd('div0')
            if isc(y) and op in('udiv','urem') and s.opts.get('divfresh') and w==32 and y&(y-1):
                k=('divmod',bx.get_id(),y)
                if k not in st.g:
                    q=s.fresh('q',32); m=s.fresh('m',32); z=lambda t:z3.ZeroExt(8,t)
                    st.assume(z3.And(z(bx)==z(q)*y+z(m),z3.ULT(m,y),z3.ULE(q,mask(32)//y)))
                    st.g[k]=(bx,q,m)
                return st.g[k][1 if op=='udiv' else 2]
            r={'udiv':z3.UDiv,'urem':z3.URem,'srem':z3.SRem}.get(op,lambda a,b:a/b)(bx,by)
        else:
            # out-of-range shift counts: masked as x86 does (recorded assumption)
            if isc(y): by=z3.BitVecVal(y&(w-1) if y>=w else y,w)
            else: by=by & z3.BitVecVal(w-1,w)
            r={'shl':lambda a,b:a<<b,'lshr':z3.LShR,'ashr':lambda a,b:a>>b}[op](bx,by)
        r=z3.simplify(r)
        return cur_int(r,w)
    def pint_op(s,st,op,x,y,flags):
        if op=='sub' and isinstance(x,PInt) and isinstance(y,PInt):
            if isinstance(x.p,Ptr) and isinstance(y.p,Ptr) and x.p.obj==y.p.obj:
                return Lin.of(x.p.off).sub(Lin.of(y.p.off)).norm()
        if op in('add','sub'):
            if isinstance(x,PInt) and not isinstance(y,PInt):
                l=Lin.of(y); return PInt(x.p.plus((l if op=='add' else l.mul(mask(64))).norm()))
            if op=='add' and not isinstance(x,PInt): return PInt(y.p.plus(Lin.of(x).norm()))
        if isinstance(x,PInt) and isinstance(x.p,Ptr) and x.p.obj==0: return s.binop(st,op,I64,Lin.of(x.p.off).norm(),y,flags)
        if isinstance(y,PInt) and isinstance(y.p,Ptr) and y.p.obj==0: return s.binop(st,op,I64,x,Lin.of(y.p.off).norm(),flags)
        bx=tobv(x,64); by=tobv(y,64)
        if op=='and': return z3.simplify(bx&by)
        if op=='sub': return z3.simplify(bx-by)
        if op=='add': return z3.simplify(bx+by)
        raise Unsupported('pointer arithmetic %s'%op)
    def icmp(s,st,pred,t,x,y):
        if t[0]=='ptr' or isinstance(x,PInt) or isinstance(y,PInt):
            if isinstance(x,PInt): x=x.p
            if isinstance(y,PInt): y=y.p
            if isc(x): x=Ptr(0,x)
            if isc(y): y=Ptr(0,y)
            return s.pcmp(st,pred,x,y)
        w=t[1]
        if isc(x) and isc(y):
            sx=x-(1<<w) if x>>(w-1) else x; sy=y-(1<<w) if y>>(w-1) else y
            return int({'eq':x==y,'ne':x!=y,'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y,'slt':sx<sy,'sle':sx<=sy,'sgt':sx>sy,'sge':sx>=sy}[pred])
        if w==1:
            bx=tobool(x); by=tobool(y)
            if pred in('eq','ne'):
                if isinstance(by,bool): e=bx if by else bnot(bx)
                elif isinstance(bx,bool): e=by if bx else bnot(by)
                else: e=bx==by
                return e if pred=='eq' else bnot(e)
            raise Unsupported('i1 icmp')
        bx=tobv(x,w); by=tobv(y,w)
        r={'eq':lambda a,b:a==b,'ne':lambda a,b:a!=b,'ult':z3.ULT,'ule':z3.ULE,'ugt':z3.UGT,'uge':z3.UGE,'slt':lambda a,b:a<b,'sle':lambda a,b:a<=b,'sgt':lambda a,b:a>b,'sge':lambda a,b:a>=b}[pred](bx,by)
        r=z3.simplify(r)
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return r
    def pcmp(s,st,pred,x,y):
        if isinstance(x,Undef) or isinstance(y,Undef): return s.freshbool('undefcmp')
        if isinstance(x,FnRef) or isinstance(y,FnRef):
            if isinstance(x,FnRef) and isinstance(y,FnRef): e=x.name==y.name
            else: e=False
            return int(e if pred=='eq' else not e)
        if x.obj!=y.obj:
            if pred=='eq': return 0
            if pred=='ne': return 1
            return s.freshbool('ptrcmp')
        dx=Lin.of(x.off); dy=Lin.of(y.off)
        if pred in('eq','ne'):
            d=dx.sub(dy)
            if not d.t:
                e=d.c==0; return int(e if pred=='eq' else not e)
            r=z3.simplify(dx.bv()==dy.bv())
            if z3.is_true(r): e=1
            elif z3.is_false(r): e=0
            else: return r if pred=='eq' else z3.Not(r)
            return e if pred=='eq' else 1-e
        return s.icmp(st,pred if pred[0]!='u' else 's'+pred[1:],I64,dx.norm(),dy.norm())
    def cast(s,st,op,t,x,tt):
        if op in('bitcast','addrspacecast') and t==tt: return x
        if op=='ptrtoint':
            if isinstance(x,Ptr) and x.obj==0:
                return Lin.of(x.off).norm()
            v=PInt(x)
            if tt[1]!=64: return z3.Extract(tt[1]-1,0,tobv(x,64))
            return v
        if op=='inttoptr':
            if isinstance(x,PInt): return x.p
            if isc(x): return Ptr(0,x)
            return Ptr(0,Lin.of(x))
        if op in('zext','sext','trunc'):
            a=t[1]; b=tt[1]
            if isinstance(x,Undef): return x
            if isinstance(x,PInt):
                x=tobv(x,64)
            if isc(x):
                if op=='trunc': return x & mask(b)
                if op=='sext' and x>>(a-1): return (x|(mask(b)^mask(a)))
                return x
            if a==1:
                c=tobool(x)
                if isinstance(c,bool): return (mask(b) if op=='sext' else 1) if c else 0
                return z3.If(c,z3.BitVecVal(mask(b) if op=='sext' else 1,b),z3.BitVecVal(0,b))
            x=tobv(x,a)
            if op=='trunc':
                r=z3.simplify(z3.Extract(b-1,0,x))
                if b==1: 
                    r=z3.simplify(r==z3.BitVecVal(1,1))
                    if z3.is_true(r): return 1
                    if z3.is_false(r): return 0
                    return r
            elif op=='zext': r=z3.simplify(z3.ZeroExt(b-a,x))
            else: r=z3.simplify(z3.SignExt(b-a,x))
            return cur_int(r,b)
        if op=='bitcast':
            if t[0]=='i' and tt[0]=='f64' and isc(x): return struct.unpack('<d',struct.pack('<Q',x))[0]
        from .floats import fcast
        return fcast(s,st,op,t,x,tt)

def band(a,b):
    if a is False or b is False: return 0
    if a is True: return b if not isinstance(b,bool) else int(b)
    if b is True: return a
    return z3.And(a,b)
def bor(a,b):
    if a is True or b is True: return 1
    if a is False: return b if not isinstance(b,bool) else int(b)
    if b is False: return a
    return z3.Or(a,b)
def bnot(a):
    if isinstance(a,bool): return not a
    return z3.Not(a)
def zext(v,a,b):
    if isinstance(v,bool): return int(v)
    if isinstance(v,int) or isinstance(v,(Undef,PInt,Lin)): return v
    if isinstance(v,z3.BoolRef): return z3.If(v,z3.BitVecVal(1,b),z3.BitVecVal(0,b))
    if a==b: return v
    return z3.simplify(z3.ZeroExt(b-a,v))
def kindof(t):
    if t[0]=='ptr': return 'p'
    if t[0] in('f64','f32','f80'): return 'f'
    return 'i'

class NeedFork(Exception):
    def __init__(s,conds=None,states=None): s.conds=conds; s.states=states
class CutHere(Exception):
    def __init__(s,h): s.header=h
class Enter:
    """outcome of a stubbed call: run this function (for calls to functions that take a callback)"""
    def __init__(s,name,args): s.name=name; s.args=args
class Multi:
    """several outcomes of a stubbed call: [(state, value | Thrown)]"""
    def __init__(s,items): s.items=items

# well-known C++ standard exception hierarchy (typeinfo symbols)
TYPE_BASES={
 '_ZTISt9bad_alloc':['_ZTISt9exception'],'_ZTISt12out_of_range':['_ZTISt11logic_error'],'_ZTISt12length_error':['_ZTISt11logic_error'],
 '_ZTISt16invalid_argument':['_ZTISt11logic_error'],'_ZTISt11logic_error':['_ZTISt9exception'],'_ZTISt13runtime_error':['_ZTISt9exception'],
}
