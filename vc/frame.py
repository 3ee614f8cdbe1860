"""Contract framework: a Contract states pre/post of one function of /repo and
is discharged by the engine; summaries are the same contracts as seen by callers."""
import re, time, z3, traceback
from .engine import *
from . import lib
from .lib import *

class Contract:
    """subclass or instantiate; attributes:
      name     obligation prefix (property clause)
      fn       regex on the demangled name of the function under contract
      cases()  list of case descriptors (exhaustive case split; each is one job unit)
      run(ctx,case)   builds the pre-state, calls ctx.call, states postconditions
      replay(case,vals) -> argv for the concrete harness, or None
      search   harness search command name or None
    """
    name=''; fn=None; internal=False; search=None; bounded=None
    opts={}
    uses=[]          # summaries: list of (regex, handler)
    def cases(s): return [None]
    def run(s,ctx,case): raise NotImplementedError
    def replay(s,case,vals): return None
    def cut(s,dem,header): return False
    def group(s): return 16

class Ctx:
    def __init__(s,E,con,case,fname):
        s.E=E; s.con=con; s.case=case; s.fname=fname; s.inputs={}; s.arrs={}
        s.st=State(); s.ret_paths=0; s.throw_paths=0
    # inputs (recorded for replay)
    def bv(s,name,w):
        v=z3.BitVec(name,w); s.inputs[name]=v; return v
    def arr(s,name,maxlen=64,at=None):
        a=z3.Array(name,z3.BitVecSort(64),z3.BitVecSort(8)); s.arrs[name]=(a,at,maxlen); return a
    def real(s,name):
        v=z3.Real(name); s.inputs[name]=v; return v
    def boolv(s,name):
        v=z3.Bool(name); s.inputs[name]=v; return v
    def assume(s,c): s.st.assume(c)
    def require_sat(s):
        """vacuity guard: the precondition is satisfiable"""
        r,m,b=s.E.solve(s.st.pc)
        s.E.obl.append((s.nm('precondition is satisfiable (cover)'),'proved' if r=='sat' else ('failed' if r=='unsat' else 'unknown'),b,0.0))
        if r=='unsat': s.E.fails.append(Failure(s.nm('precondition is satisfiable (cover)'),'vacuous','',None,s.st,s.case))
    def nm(s,x): return '%s: %s'%(s.con.name,x)
    def prove(s,st,c,x): return s.E.prove(st,c,s.nm(x))
    def prove_many(s,st,conds): return s.E.prove_many(st,[(s.nm(x),c) for x,c in conds])
    def bytesobj(s,name,arr,size,ro=False,tag=None):
        p=s.E.alloc(s.st,name,size,'bytes',ro=ro); o=s.st.mem[p.obj]; o.arr=arr; o.tag=tag
        return p
    def cstring(s,name,arr,L,ro=True,hook=None):
        """NUL-terminated byte string of length L (symbolic)"""
        p=s.bytesobj(name,arr,T64(add64(L,1)),ro,('cstr',L)+((hook,) if hook else ()))
        if ro: return p    # bytes before L are non-zero and byte L is zero: instantiated at each read
        i=z3.BitVec('cs!',64)
        s.assume(z3.Select(arr,T64(L))==0)
        s.assume(z3.ForAll([i],z3.Implies(z3.ULT(i,T64(L)),z3.Select(arr,i)!=0)))
        return p
    def call(s,args,post,fname=None):
        """symbolically execute the real function; post(outcome) states obligations"""
        E=s.E
        if s.st.pc: s.require_sat()
        def done(o):
            if o.kind=='ret': s.ret_paths+=1
            else: s.throw_paths+=1
            try: post(o)
            except PathEnd: pass
        E.run(s.st,fname or s.fname,args,done)

def recursive(E,fname):
    return any('@%s('%fname in l or '@"%s"('%fname in l for l in E.mod.funcs[fname].lines)
def find_fn(mod,rx):
    demangle_all(list(mod.funcs))
    c=re.compile(rx)
    r=[n for n in mod.funcs if c.search(DEM[n])]
    return r

def run_case(mod,con,case,deadline=None,stubs=None):
    """-> dict(result)"""
    t0=time.time()
    E=Engine(mod,stubs or lib.STUBS,opts=dict(con.opts))
    E.local=[(re.compile(rx),h) for rx,h in con.uses]
    E.case=case; E.case_name=con.name
    E.cut_loops=lambda fn,h: con.cut(DEM.get(fn.name,fn.name),h)
    E.deadline=cpu()+(deadline or 120)     # processor time: a loaded machine is slower, not wrong
    if hasattr(con,'cands'): E.cands=con.cands
    if hasattr(con,'loop_params'): E.loop_params=con.loop_params
    res=dict(name=con.name,case=repr(case),obl=[],fails=[],undecided=[],fn=None)
    fns=find_fn(mod,con.fn) if con.fn else [None]
    if not fns:
        res['missing']=True; return res
    ctx=Ctx(E,con,case,fns[0])
    E.ctx=ctx; con.ctx=ctx
    res['fn']=DEM.get(fns[0],fns[0]) if fns[0] else con.name
    na=False
    try:
        na=con.run(ctx,case)=='n/a'      # the case is for another shape of the code
    except Unsupported as e:
        res['undecided'].append('unsupported: '+str(e))
    except z3.Z3Exception as e:
        res['undecided'].append('z3: '+str(e)[:300])
    except RecursionError as e:
        res['undecided'].append('recursion')
    except (KeyError,AttributeError,TypeError,IndexError,AssertionError,ValueError) as e:
        res['undecided'].append('internal: '+traceback.format_exc()[-1500:])
    if con.fn and not na and ctx.ret_paths+ctx.throw_paths==0 and not res['undecided'] and not E.fails:
        res['undecided'].append('vacuous: no path reaches a function exit')
    res['obl']=E.obl
    for f in E.fails:
        vals=None; argv=None
        if f.kind=='unknown': res['undecided'].append('solver gave no answer: '+f.name)
        if f.model is not None:
            vals={}
            for k,v in ctx.inputs.items():
                try:
                    x=f.model.eval(v,model_completion=True)
                    vals[k]=x.as_long() if z3.is_bv(x) else (bool(z3.is_true(x)) if z3.is_bool(x) else (x.as_long() if z3.is_int(x) else str(x.as_decimal(20))))
                except Exception as e: vals[k]=None
            for k,(a,at,n) in ctx.arrs.items():
                base=0
                bs=[]
                for i in range(n):
                    try: bs.append(f.model.eval(z3.Select(a,z3.BitVecVal(i,64)),model_completion=True).as_long())
                    except Exception: bs.append(0)
                vals[k]=bs
            try: argv=con.replay(case,vals)
            except Exception as e: argv=None
        res['fails'].append(dict(name=f.name,kind=f.kind,detail=f.detail,vals=vals,argv=argv,case=repr(case)))
    res['time']=time.time()-t0; res['solver']=E.solver_time; res['paths']=E.path_count
    res['inlined']=sorted(E.inlined); res['trusted']=sorted(E.trusted); res['used']=sorted(E.used_contracts)
    res['cuts']=E.cutlog
    return res
