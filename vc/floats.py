"""IEEE double arithmetic.

Constants are folded in real IEEE arithmetic (Python floats).  Symbolic values
use the standard model of floating point over the reals: every operation
returns the exact result times (1+d), |d| <= 2^-53, and returns it exactly when
it is an integer of magnitude <= 2^53.  Sound for results in the normal range;
overflow/underflow are excluded by the 'range' side conditions noted in DESIGN."""
import z3, math, struct
from .engine import *
from fractions import Fraction

U=z3.RealVal(Fraction(1,2**53))

class FVI(FV):
    """FV known to be integer valued; n is the z3 Int"""
    __slots__=('n',)
    def __init__(s,n,nan=False,inf=False): FV.__init__(s,z3.ToReal(n) if z3.is_int(n) else n,nan,inf); s.n=n

def fv(x):
    if isinstance(x,FV): return x
    if isinstance(x,float):
        if x!=x: return FV(z3.RealVal(0),True,False)
        if math.isinf(x): return FV(z3.RealVal(1 if x>0 else -1),False,True)
        return FV(z3.RealVal(Fraction(x)))
    if isinstance(x,Undef): raise Unsupported('undef double')
    raise Unsupported('float value %r'%(x,))
def fin(x): return x.nan is False and x.inf is False
def b(x): return z3.BoolVal(x) if isinstance(x,bool) else x
def zabs(x): return z3.If(x>=0,x,-x)

def isintval(x):
    return isinstance(x,FVI) or (isinstance(x,float) and x==math.floor(x) and abs(x)<2**53)

def fbin(E,st,op,x,y):
    if isinstance(x,float) and isinstance(y,float):
        try:
            if op=='fadd': return x+y
            if op=='fsub': return x-y
            if op=='fmul': return x*y
            if op=='fdiv':
                if y==0.0:
                    if x==0.0 or x!=x: return math.nan
                    return math.copysign(math.inf,x)*math.copysign(1.0,y)
                return x/y
            if op=='frem': return math.fmod(x,y)
        except OverflowError: return math.inf
    # exact identities
    if op=='fmul' and isinstance(y,float) and y==1.0: return x
    if op=='fmul' and isinstance(x,float) and x==1.0: return y
    if op=='fdiv' and isinstance(y,float) and y==1.0: return x
    if op in('fadd','fsub') and isinstance(y,float) and y==0.0: return x
    if op=='fadd' and isinstance(x,float) and x==0.0: return y
    isint=isintval(x) and isintval(y) and op in('fadd','fsub','fmul')
    X=fv(x); Y=fv(y)
    if not (fin(X) and fin(Y)):
        # operations on possibly special values: result special if an operand is
        nan=z3.Or(b(X.nan),b(Y.nan)); inf=z3.And(z3.Not(nan),z3.Or(b(X.inf),b(Y.inf)))
    else: nan=False; inf=False
    if op=='fadd': e=X.r+Y.r
    elif op=='fsub': e=X.r-Y.r
    elif op=='fmul': e=X.r*Y.r
    elif op=='fdiv':
        if not isinstance(y,float): raise Unsupported('symbolic divisor')
        e=X.r/Y.r
    else: raise Unsupported(op)
    e=z3.simplify(e)
    if op in('fmul','fdiv') and isinstance(x,FVI) and isinstance(y,float) and y>0 and math.frexp(y)[0]==0.5 and 2.0**-60<=y<=2.0**60 and x.nan is False and x.inf is False:
        return FV(e)      # a whole number scaled by a power of two
    r=flr(E,st,e)
    # exact when the result is integer-valued and small
    if isint: st.assume(z3.Implies(z3.And(e<=2**53,e>=-2**53),r==e))
    if inf is not False: st.assume(z3.Implies(b(inf),z3.And(z3.Implies(b(X.inf),(r>0)==(X.r>0)))))
    v=FV(r,nan,inf)
    return v
def flr(E,st,e):
    """the double nearest to the real e: within half an ulp; rounding is a monotone function
    (stated pairwise between the roundings of a path when the contract asks for it)"""
    mono=E.opts.get('fl_mono'); reg=st.g.get(('fl',),()) if mono else ()
    for (e2,r2) in reg:
        if z3.eq(e,e2): return r2
    r=E.freshreal('fl')
    st.assume(z3.And(z3.Implies(e>=0,z3.And(r>=e*(1-U),r<=e*(1+U))),z3.Implies(e<0,z3.And(r<=e*(1-U),r>=e*(1+U)))))
    for (e2,r2) in reg:
        st.assume(z3.And(z3.Implies(e<=e2,r<=r2),z3.Implies(e2<=e,r2<=r)))
    if mono: st.g[('fl',)]=reg+((e,r),)
    return r
def fneg(E,st,x):
    if isinstance(x,float): return -x
    if isinstance(x,FVI): return FVI(-x.n,x.nan,x.inf)
    return FV(-x.r,x.nan,x.inf)
def fite(c,x,y):
    if x is y: return x
    if isinstance(x,float) and isinstance(y,float) and x==y: return x
    X=fv(x); Y=fv(y)
    return FV(z3.If(c,X.r,Y.r),_it(c,X.nan,Y.nan),_it(c,X.inf,Y.inf))
def _it(c,a,bb):
    if isinstance(a,bool) and isinstance(bb,bool) and a==bb: return a
    return z3.If(c,b(a),b(bb))
def fcmp(E,st,pred,x,y):
    if pred=='true': return 1
    if pred=='false': return 0
    if isinstance(x,float) and isinstance(y,float):
        un=x!=x or y!=y
        k=pred[1:]
        if pred=='ord': return int(not un)
        if pred=='uno': return int(un)
        c={'eq':x==y,'ne':x!=y,'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[k]
        return int((c and not un) if pred[0]=='o' else (c or un))
    X=fv(x); Y=fv(y)
    un=False
    if not(X.nan is False and Y.nan is False): un=z3.Or(b(X.nan),b(Y.nan))
    if pred=='ord': return 1 if un is False else z3.Not(un)
    if pred=='uno': return 0 if un is False else un
    k=pred[1:]
    if X.inf is False and Y.inf is False:
        lt=X.r<Y.r; eq=X.r==Y.r
    else:
        xi,yi=b(X.inf),b(Y.inf)
        xneg=z3.And(xi,X.r<0); xpos=z3.And(xi,X.r>=0); yneg=z3.And(yi,Y.r<0); ypos=z3.And(yi,Y.r>=0)
        eq=z3.Or(z3.And(xneg,yneg),z3.And(xpos,ypos),z3.And(z3.Not(xi),z3.Not(yi),X.r==Y.r))
        lt=z3.Or(z3.And(xneg,z3.Not(yneg)),z3.And(z3.Not(xpos),ypos),z3.And(z3.Not(xi),z3.Not(yi),X.r<Y.r))
    c={'eq':eq,'ne':z3.Not(eq),'lt':lt,'le':z3.Or(lt,eq),'gt':z3.Not(z3.Or(lt,eq)),'ge':z3.Not(lt)}[k]
    if un is not False:
        c=z3.And(z3.Not(un),c) if pred[0]=='o' else z3.Or(un,c)
    c=z3.simplify(c)
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return c
def fcast(E,st,op,t,x,tt):
    if op in('sitofp','uitofp'):
        w=t[1]
        if isc(x):
            if op=='sitofp' and x>>(w-1): x-=1<<w
            return float(x)
        x=tobv(x,w)
        n=bvint(E,st,x,op=='sitofp')
        if w<=53: return FVI(n)
        r=E.freshreal('i2f'); R=z3.ToReal(n)
        st.assume(z3.And(z3.Implies(R>=0,z3.And(r>=R*(1-U),r<=R*(1+U))),z3.Implies(R<0,z3.And(r<=R*(1-U),r>=R*(1+U))),z3.Implies(z3.And(n<=2**53,n>=-2**53),r==R)))
        return FV(r)
    if op in('fptosi','fptoui'):
        w=tt[1]
        if isinstance(x,float):
            if x!=x or math.isinf(x): return E.fresh('f2i_undef',w)
            v=int(x)
            lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if op=='fptosi' else (0,mask(w))
            if not lo<=v<=hi: return E.fresh('f2i_undef',w)
            return v&mask(w)
        X=fv(x)
        res=E.fresh('f2i',w)
        n=bvint(E,st,res,op=='fptosi')
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if op=='fptosi' else (0,mask(w))
        if isinstance(x,FVI): tr=x.n
        else:
            tr=z3.FreshConst(z3.IntSort(),'trunc'); T=z3.ToReal(tr)
            st.assume(z3.And(z3.Implies(X.r>=0,z3.And(T<=X.r,X.r<T+1)),z3.Implies(X.r<0,z3.And(T>=X.r,X.r>T-1))))
        ok=z3.And(tr>=lo,tr<=hi,z3.Not(b(X.nan)),z3.Not(b(X.inf)))
        st.assume(z3.Implies(ok,n==tr))       # otherwise: unspecified value (C++ UB)
        if E.opts.get('f2i_defined'):
            E.prove(st,ok,E.cname()+'arithmetic: double to integer conversion in range','memory')
        return res
    if op in('fpext','fptrunc'): return x
    raise Unsupported('cast '+op)

def bvint(E,st,x,signed):
    """Int equal to bit-vector x.  The link is stated as an order isomorphism with every other
    linked term (sound; keeps bit-vector and real reasoning apart)"""
    if isc(x): raise Unsupported('bvint const')
    if z3.is_bv_value(x): return z3.IntVal(x.as_signed_long() if signed else x.as_long())
    key=('bvint',x.get_id(),signed)
    k=st.g.get(key)
    if k is not None: return k
    w=x.size()
    v=z3.FreshConst(z3.IntSort(),'n')
    if E.opts.get('exact_bv2int'): st.assume(v==z3.BV2Int(x,signed))
    else:
        ex=lambda t,sg:(z3.SignExt if sg else z3.ZeroExt)(66-t.size(),t)
        X=ex(x,signed)
        links=st.g.get(('bvlinks',),())
        for (y,sy,ny) in links:
            Y=ex(y,sy)
            st.assume((X<=Y)==(v<=ny)); st.assume((Y<=X)==(ny<=v))
        st.assume((X>=0)==(v>=0)); st.assume((X<=0)==(v<=0))
        if z3.is_app_of(x,z3.Z3_OP_ITE):
            c,a_,b_=x.children()
            st.assume(z3.If(c,v==bvint(E,st,a_,signed),v==bvint(E,st,b_,signed)))
            links=st.g.get(('bvlinks',),())
        st.g[('bvlinks',)]=links+((x,signed,v),)
    st.assume(z3.And(v>=(-(1<<(w-1)) if signed else 0),v<=((1<<(w-1))-1 if signed else (1<<w)-1)))
    st.g[key]=v
    return v

def rint(E,st,x,mode='even'):
    if isinstance(x,float):
        if x!=x or math.isinf(x): return x
        if mode=='even': return float(round(x))
        if mode=='away': return math.copysign(math.floor(abs(x)+0.5),x) if abs(x)<2**52 else x
        if mode=='floor': return float(math.floor(x))
        if mode=='ceil': return float(math.ceil(x))
        if mode=='trunc': return float(math.trunc(x))
    if isinstance(x,FVI): return x
    X=fv(x)
    n=z3.FreshConst(z3.IntSort(),'rint'); N=z3.ToReal(n)
    h=z3.RealVal(Fraction(1,2))
    d=X.r-N
    if mode=='even': st.assume(z3.And(d<=h,d>=-h,z3.Implies(z3.Or(d==h,d==-h),n%2==0)))
    elif mode=='away': st.assume(z3.And(d<=h,d>=-h,z3.Implies(d==h,X.r<0),z3.Implies(d==-h,X.r>0)))
    elif mode=='floor': st.assume(z3.And(d>=0,d<1))
    elif mode=='ceil': st.assume(z3.And(d<=0,d>-1))
    elif mode=='trunc': st.assume(z3.And(z3.Implies(X.r>=0,z3.And(d>=0,d<1)),z3.Implies(X.r<0,z3.And(d<=0,d>-1))))
    return FVI(n,X.nan,X.inf)
