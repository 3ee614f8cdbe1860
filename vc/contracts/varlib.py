"""Ghost model of Varinfo and Var used by the contracts on variables."""
from .common import *
from fractions import Fraction
import math
INTEGER,DECIMAL,STRING,BINARY=0,1,2,3
TYPES={INTEGER:'Integer',DECIMAL:'Decimal',STRING:'String',BINARY:'Binary'}
I16=('i',16)
UR=z3.RealVal(Fraction(1,2**53))
S32=z3.BitVecSort(32)
def si(x): return z3.BV2Int(x,True)
def scale_cases(): return list(range(-24,25))

class VINFO:
    """a Varinfo satisfying the invariant established by _Varinfo::compute_range (contract in this property set):
       dmin/dmax are imin/imax divided by 10^scale, correctly rounded"""
    def __init__(s,ctx,type,scale=0,pre='',sym_len=None,rng=True):
        E=ctx.E; st=ctx.st; s.ctx=ctx; s.type=type; s.scale=scale; s.pre=pre
        s.size=off(E,'Varinfo')
        s.p=E.alloc(st,pre+'varinfo',s.size,lazy=True)
        st.mem[s.p.obj].ro=False
        s.code=ctx.bv(pre+'code',16); s.len=ctx.bv(pre+'len',32); s.bit_ref=ctx.bv(pre+'bit_ref',32); s.bit_len=ctx.bv(pre+'bit_len',32)
        s.imin=ctx.bv(pre+'imin',32); s.imax=ctx.bv(pre+'imax',32)
        s.set('code',I16,s.code); s.set('type',I32,type); s.set('scale',I32,scale&0xffffffff)
        s.set('len',I32,s.len); s.set('bit_ref',I32,s.bit_ref); s.set('bit_len',I32,s.bit_len)
        s.set('imin',I32,s.imin); s.set('imax',I32,s.imax)
        if rng and type in (INTEGER,DECIMAL):
            ctx.assume(s.imin<=s.imax)
            s.nmin=F.bvint(E,st,s.imin,True); s.nmax=F.bvint(E,st,s.imax,True)
            ctx.assume(s.nmin<=s.nmax)
            if scale==0: s.dmin=F.FVI(s.nmin); s.dmax=F.FVI(s.nmax)
            else:
                s.dmin=FV(z3.Real(pre+'dmin')); s.dmax=FV(z3.Real(pre+'dmax'))
                ctx.assume(s.dmin.r==rdec(E,st,s.nmin,scale)); ctx.assume(s.dmax.r==rdec(E,st,s.nmax,scale))
            s.set('dmin',F64,s.dmin); s.set('dmax',F64,s.dmax)
    def set(s,f,t,v): s.ctx.E.store(s.ctx.st,t,v,s.p.plus(off(s.ctx.E,'Varinfo',f)))
    def get(s,st,f,t): return s.ctx.E.load(st,t,s.p.plus(off(s.ctx.E,'Varinfo',f)))
def dec(n,scale):
    """exact value of integer n at the given decimal scale"""
    n=z3.ToReal(n) if z3.is_int(n) else n
    return n/z3.RealVal(10**scale) if scale>=0 else n*z3.RealVal(10**-scale)
def rdec(E,st,n,scale):
    """the double that decode_decimal gives for n: n and the power of 10 as a double, one rounding"""
    c=z3.RealVal(Fraction(math.pow(10,abs(scale)))); n=z3.ToReal(n)
    return F.flr(E,st,z3.simplify(n/c if scale>=0 else n*c))
def ulps(scale): return 1 if abs(scale)<=22 else 3     # 10^23 is not a double
def undec(r,scale):
    return r*z3.RealVal(10**scale) if scale>=0 else r/z3.RealVal(10**-scale)
def near(r,e,k):
    """|r-e| <= k*2^-53*|e|, same sign"""
    return z3.And(z3.Implies(e>=0,z3.And(r>=e*(1-k*UR),r<=e*(1+k*UR))),z3.Implies(e<0,z3.And(r<=e*(1-k*UR),r>=e*(1+k*UR))))

class VAR:
    """a Var; numeric: symbolic isset/value.  text: buffer allocated or not, as given"""
    def __init__(s,ctx,info,pre='v',isset=None,val=None,attrs=NULL):
        E=ctx.E; st=ctx.st; s.ctx=ctx; s.info=info; s.size=off(E,'Var')
        s.p=E.alloc(st,pre+'.Var',s.size)
        s.set(st,'m_info',PTR,info.p)
        s.isset0=ctx.bv(pre+'_isset',8) if isset is None else isset
        if isset is None: ctx.assume(z3.ULE(s.isset0,1))
        s.set(st,'m_isset',I8,s.isset0)
        # the union: zero initialised, so the upper half of a number is zero
        s.i0=ctx.bv(pre+'_i',32) if val is None else val
        if info.type in(INTEGER,DECIMAL):
            s.set(st,'m_value',PTR,NULL); s.set(st,'m_value',I32,s.i0)
        else: s.set(st,'m_value',PTR,val if val is not None else NULL)
        s.set(st,'m_attrs',PTR,attrs)
    def set(s,st,f,t,v): s.ctx.E.store(st,t,v,s.p.plus(off(s.ctx.E,'Var',f)))
    def get(s,st,f,t): return s.ctx.E.load(st,t,s.p.plus(off(s.ctx.E,'Var',f)))
    def isset(s,st): return tobv(s.get(st,'m_isset',I8),8)
    def i(s,st): return tobv(s.get(st,'m_value',I32),32)

class OPTIONS:
    """the thread's domain-error options, all combinations"""
    def __init__(s,ctx,hook=None):
        E=ctx.E; st=ctx.st; s.ctx=ctx
        s.silent=ctx.bv('opt_silent',8); s.clamp=ctx.bv('opt_clamp',8)
        ctx.assume(z3.ULE(s.silent,1)); ctx.assume(z3.ULE(s.clamp,1))
        N='_ZN7wreport7options%d%sE'
        E.store(st,I8,s.silent,E.glob(st,N%(24,'var_silent_domain_errors')))
        E.store(st,I8,s.clamp,E.glob(st,N%(23,'var_clamp_domain_errors')))
        s.hook=hook
        if hook:
            vt=E.alloc(st,'hook.vtable',32); o=E.alloc(st,'hook',8)
            for k,n in enumerate(('vp_hook_dtor','vp_hook_dtor','vp_hook_int','vp_hook_double')): E.store(st,PTR,FnRef(n),vt.plus(8*k))
            E.store(st,PTR,vt,o); p=o
        else: p=NULL
        E.store(st,PTR,p,E.glob(st,N%(22,'var_hook_domain_errors')))
        st.g['#hooked']=z3.BitVecVal(0,64)
        s.S=s.silent==1; s.C=s.clamp==1; s.H=z3.BoolVal(bool(hook))
def _hook(E,st,a,ins):
    st.g['#hooked']=z3.simplify(T64(st.g['#hooked'])+1); st.g['hookval']=a[2]; st.g['hookvar']=a[1]
    return 0
HOOKS=[(r'^vp_hook_(int|double)$',_hook)]

def domain_post(ctx,o,var,opts,indom,ok,clamped,isnan=False,what=''):
    """postcondition of a checked assignment.
    indom: Bool, the given value is in the domain; ok(i): the stored integer is right for an in-domain value;
    clamped(i): the stored integer is the right end of the domain"""
    st=o.st; inf=var.info
    i=var.i(st); iset=var.isset(st)==1
    hooked=T64(st.g['#hooked'])
    nan=z3.BoolVal(isnan) if isinstance(isnan,bool) else isnan
    # policy for a value outside the domain
    S,C,H=opts.S,opts.C,opts.H
    ctx.prove(st,z3.ULE(var.isset(st),1),what+'set flag is a boolean')
    if o.kind=='throw':
        ctx.prove(st,o.exc.typ==wr_err('error_domain'),what+'only a domain error is raised')
        ctx.prove(st,z3.And(z3.Not(indom),z3.Not(S),z3.Or(z3.Not(C),nan),z3.Not(H)),what+'a domain error only for values outside the domain and only when no other policy is set')
        ctx.prove(st,z3.Not(iset),what+'a domain error leaves the variable unset')
        return
    ctx.prove(st,z3.Implies(indom,z3.And(iset,hooked==0)),what+'a value in the domain is stored')
    ctx.prove(st,z3.Implies(indom,ok(i)),what+'the stored value is the given value')
    ctx.prove(st,z3.Implies(z3.Not(indom),z3.Or(S,z3.And(C,z3.Not(nan)),H)),what+'a value outside the domain is refused with a domain error when no policy is set')
    ctx.prove(st,z3.Implies(z3.And(z3.Not(indom),S),z3.And(z3.Not(iset),hooked==0)),what+'silent policy: the variable is left unset')
    ctx.prove(st,z3.Implies(z3.And(z3.Not(indom),z3.Not(S),C,z3.Not(nan)),z3.And(iset,hooked==0,clamped(i))),what+'clamp policy: the nearest valid value is stored')
    ctx.prove(st,z3.Implies(z3.And(z3.Not(indom),z3.Not(S),z3.Or(z3.Not(C),nan),H),z3.And(hooked==1,i==var.i0,var.isset(st)==var.isset0)),what+'hook policy: the hook is called once and nothing else is changed')
    ctx.prove(st,z3.Implies(z3.And(iset,hooked==0),z3.And(i>=inf.imin,i<=inf.imax)),what+'a stored value is inside the domain')

# ---------------------------------------------------------------- reading bits through the contract of Input::get_bits (C01)
def sum_get_bits(E,st,a,ins):
    """callee contract of Input::get_bits(n), n <= 32: the next n bits as a number below 2^n, or a parse error"""
    n=tobv(a[1],32)
    E.prove(st,z3.ULE(n,32),E.cname()+'call get_bits: at most 32 bits requested')
    st.assume(z3.ULE(n,32))
    k=len(st.g.get(('reads',),()))
    raw=E.ctx.bv('raw%d'%k,32) if 'raw%d'%k not in E.ctx.inputs else E.ctx.inputs['raw%d'%k]
    st.assume(z3.ULT(z3.ZeroExt(32,raw),z3.BitVecVal(1,64)<<z3.ZeroExt(32,n)))
    t=st.fork()
    st.g[('reads',)]=st.g.get(('reads',),())+((n,raw),)
    return Multi([(st,raw),(t,Thrown(wr_err('error_parse'),info='eof'))])
R_get_bits=(r'^wreport::bufr::Input::get_bits\(',sum_get_bits)
def reads(st): return st.g.get(('reads',),())

def addlink(E,st,terms):
    """64-bit bit-vector sum of +-terms with its Int (exact: operands are 32 bit)"""
    acc=z3.BitVecVal(0,64); n=z3.IntVal(0)
    for sg,t,signed in terms:
        x=(z3.SignExt if signed else z3.ZeroExt)(64-t.size(),t)
        k=F.bvint(E,st,t,signed)
        acc=acc+x if sg>0 else acc-x; n=n+k if sg>0 else n-k
    acc=z3.simplify(acc)
    m=F.bvint(E,st,acc,True)
    st.assume(m==n)
    return acc,m
