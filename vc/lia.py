"""Bit-vector goals as linear integer arithmetic.

Every bit-vector term becomes an integer in [0, 2^w); wrap-around is made explicit with a quotient variable,
anything that is not linear becomes an unknown integer in its range (an over-approximation), and boolean atoms that
are not understood become unknown booleans.  Unsatisfiability of the translation therefore implies
unsatisfiability of the original; satisfiability means nothing."""
import z3
from z3 import is_app
class Lia:
    def __init__(s): s.side=[]; s.memo={}; s.bm={}; s.n=0; s.keep=[]; s.fn={}; s.uf=False
    def fresh(s,lo,hi):
        s.n+=1; v=z3.Int('li%d'%s.n); s.side.append(z3.And(v>=lo,v<=hi)); return (v,lo,hi)
    def wrap(s,e,lo,hi,w):
        M=1<<w
        if 0<=lo and hi<M: return (e,lo,hi)
        klo=lo//M; khi=hi//M
        r,_,_=s.fresh(0,M-1); s.n+=1; k=z3.Int('lk%d'%s.n)
        s.side.append(z3.And(k>=klo,k<=khi,e==r+M*k))
        return (r,0,M-1)
    def div(s,x,c):
        e,lo,hi=x
        if c==1: return x
        q,_,_=s.fresh(lo//c,hi//c); s.side.append(z3.And(c*q<=e,e<c*q+c)); return (q,lo//c,hi//c)
    def I(s,t):
        k=t.get_id()
        r=s.memo.get(k)
        if r is None:
            r=s._I(t); s.memo[k]=r; s.keep.append(t)
        return r
    def _I(s,t):
        w=t.size(); M=1<<w; K=t.decl().kind(); ch=t.children()
        if z3.is_bv_value(t): v=t.as_long(); return (z3.IntVal(v),v,v)
        if K==z3.Z3_OP_BADD:
            e=None; lo=hi=0; acc=[]
            for c in ch:
                # constants above half range act as negative numbers: keeps the quotient range small
                if z3.is_bv_value(c):
                    v=c.as_long(); v=v-M if v>=M//2 else v
                    acc.append(z3.IntVal(v)); lo+=v; hi+=v; continue
                neg=None
                if c.decl().kind()==z3.Z3_OP_BMUL and c.num_args()==2 and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long()>=M//2:
                    m=c.arg(0).as_long()-M; x=s.I(c.arg(1)); acc.append(m*x[0]); lo+=m*x[2]; hi+=m*x[1]; continue
                x=s.I(c); acc.append(x[0]); lo+=x[1]; hi+=x[2]
            return s.wrap(z3.Sum(acc),lo,hi,w)
        if K==z3.Z3_OP_BSUB:
            a=s.I(ch[0]); e,lo,hi=a
            for c in ch[1:]:
                x=s.I(c); e=e-x[0]; lo-=x[2]; hi-=x[1]
            return s.wrap(e,lo,hi,w)
        if K==z3.Z3_OP_BNEG:
            x=s.I(ch[0]); return s.wrap(-x[0],-x[2],-x[1],w)
        if K==z3.Z3_OP_BNOT:
            x=s.I(ch[0]); return (M-1-x[0],M-1-x[2],M-1-x[1])
        if K==z3.Z3_OP_BMUL and len(ch)==2:
            for a,b in ((0,1),(1,0)):
                if z3.is_bv_value(ch[a]):
                    m=ch[a].as_long(); m=m-M if m>=M//2 else m
                    x=s.I(ch[b]); lo,hi=sorted((m*x[1],m*x[2])); return s.wrap(m*x[0],lo,hi,w)
        if K==z3.Z3_OP_CONCAT:
            e=None; lo=hi=0; sh=0; acc=[]
            for c in ch[::-1]:
                x=s.I(c); acc.append(x[0]*(1<<sh)); lo+=x[1]<<sh; hi+=x[2]<<sh; sh+=c.size()
            return (z3.Sum(acc) if len(acc)>1 else acc[0],lo,hi)
        if K==z3.Z3_OP_ZERO_EXT: return s.I(ch[0])
        if K==z3.Z3_OP_SIGN_EXT:
            x=s.I(ch[0]); m=1<<ch[0].size()
            if x[2]<m//2: return x
            return (z3.If(x[0]>=m//2,x[0]+M-m,x[0]),0,M-1)
        if K==z3.Z3_OP_EXTRACT:
            h,l=t.params(); x=s.I(ch[0])
            y=s.div(x,1<<l)
            return s.wrap(y[0],y[1],y[2],h-l+1)
        if K in (z3.Z3_OP_BLSHR,z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]):
            c=ch[1].as_long(); x=s.I(ch[0])
            if K==z3.Z3_OP_BLSHR: return s.div(x,1<<c) if c<w else (z3.IntVal(0),0,0)
            if c: return s.div(x,c)
        if K==z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            c=ch[1].as_long()
            if c>=w: return (z3.IntVal(0),0,0)
            x=s.I(ch[0]); return s.wrap(x[0]*(1<<c),x[1]<<c,x[2]<<c,w)
        if K in (z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            c=ch[1].as_long(); x=s.I(ch[0]); q=s.div(x,c); return (x[0]-c*q[0],0,c-1)
        if K==z3.Z3_OP_ITE:
            c=s.B(ch[0]); a=s.I(ch[1]); b=s.I(ch[2]); return (z3.If(c,a[0],b[0]),min(a[1],b[1]),max(a[2],b[2]))
        if K==z3.Z3_OP_SELECT and len(ch)==2 and z3.is_bv(ch[1]): return s.sel(ch[0],ch[1],w)
        return s.fresh(0,M-1)
    def sel(s,a,k,w):
        """read over writes; arrays without definition are uninterpreted functions"""
        out=[]; ki=s.I(k)[0]
        while z3.is_app(a) and a.decl().kind()==z3.Z3_OP_STORE:
            out.append((ki==s.I(a.arg(1))[0],s.I(a.arg(2))[0])); a=a.arg(0)
        if z3.is_app(a) and a.decl().kind()==z3.Z3_OP_ITE:
            c=s.B(a.arg(0)); r=z3.If(c,s.sel(a.arg(1),k,w)[0],s.sel(a.arg(2),k,w)[0])
        elif z3.is_quantifier(a) and a.is_lambda():
            r=s.I(z3.simplify(z3.Select(a,k)))[0]
        elif z3.is_app(a) and a.decl().kind()==z3.Z3_OP_CONST_ARRAY: r=s.I(a.arg(0))[0]
        elif z3.is_const(a):
            f=s.fn.get(a.get_id())
            if f is None: s.keep.append(a); f=s.fn[a.get_id()]=z3.Function('la%d'%len(s.fn),z3.IntSort(),z3.IntSort())
            r=f(ki); s.side.append(z3.And(r>=0,r<(1<<w))); s.uf=True
        else: return s.fresh(0,(1<<w)-1)
        for c,v in out[::-1]: r=z3.If(c,v,r)
        return (r,0,(1<<w)-1)
    def S(s,t):
        """signed value"""
        x=s.I(t); h=1<<(t.size()-1)
        if x[2]<h: return x[0]
        return z3.If(x[0]>=h,x[0]-2*h,x[0])
    def B(s,t):
        k=t.get_id(); r=s.bm.get(k)
        if r is None: r=s._B(t); s.bm[k]=r; s.keep.append(t)
        return r
    def _B(s,t):
        if z3.is_quantifier(t): s.n+=1; return z3.Bool('lb%d'%s.n)
        K=t.decl().kind(); ch=t.children()
        if K==z3.Z3_OP_TRUE or K==z3.Z3_OP_FALSE: return t
        if K==z3.Z3_OP_AND: return z3.And(*[s.B(c) for c in ch])
        if K==z3.Z3_OP_OR: return z3.Or(*[s.B(c) for c in ch])
        if K==z3.Z3_OP_NOT: return z3.Not(s.B(ch[0]))
        if K==z3.Z3_OP_IMPLIES: return z3.Implies(s.B(ch[0]),s.B(ch[1]))
        if K==z3.Z3_OP_XOR: return z3.Xor(s.B(ch[0]),s.B(ch[1]))
        if K==z3.Z3_OP_ITE: return z3.If(s.B(ch[0]),s.B(ch[1]),s.B(ch[2]))
        if K in (z3.Z3_OP_EQ,z3.Z3_OP_DISTINCT) and len(ch)==2:
            if z3.is_bool(ch[0]): r=s.B(ch[0])==s.B(ch[1])
            elif z3.is_bv(ch[0]): r=s.I(ch[0])[0]==s.I(ch[1])[0]
            else: s.n+=1; return z3.Bool('lb%d'%s.n)
            return r if K==z3.Z3_OP_EQ else z3.Not(r)
        f={z3.Z3_OP_ULEQ:(s.U,'<='),z3.Z3_OP_ULT:(s.U,'<'),z3.Z3_OP_UGEQ:(s.U,'>='),z3.Z3_OP_UGT:(s.U,'>'),z3.Z3_OP_SLEQ:(s.S,'<='),z3.Z3_OP_SLT:(s.S,'<'),z3.Z3_OP_SGEQ:(s.S,'>='),z3.Z3_OP_SGT:(s.S,'>')}.get(K)
        if f:
            a,b=f[0](ch[0]),f[0](ch[1]); return {'<=':a<=b,'<':a<b,'>=':a>=b,'>':a>b}[f[1]]
        s.n+=1; return z3.Bool('lb%d'%s.n)
    def U(s,t): return s.I(t)[0]
def unsat(cs,timeout=5000):
    L=Lia()
    try: fs=[L.B(z3.simplify(c)) for c in cs]
    except RecursionError: return False
    so=z3.SolverFor('QF_UFLIA' if L.uf else 'QF_LIA'); so.set('timeout',timeout)
    so.add(*L.side); so.add(*fs)
    return so.check()==z3.unsat

def houdini(pc,fs,timeout=8000):
    """largest set of the formulas fs, by repeated dropping, that the translation shows to follow from pc together.
    -> indices kept, or None if no answer.  Dropping a formula is always sound."""
    L=Lia()
    try: ps=[L.B(z3.simplify(c)) for c in pc]; gs=[L.B(z3.simplify(f)) for f in fs]
    except RecursionError: return None
    so=z3.SolverFor('QF_UFLIA' if L.uf else 'QF_LIA'); so.set('timeout',timeout)
    so.add(*L.side); so.add(*ps); keep=list(range(len(fs)))
    while keep:
        so.push(); so.add(z3.Not(z3.And(*[gs[i] for i in keep]))); r=so.check()
        if r==z3.unsat: return keep
        if r!=z3.sat: return None
        m=so.model(); so.pop()
        k2=[i for i in keep if not z3.is_false(m.eval(gs[i],model_completion=True))]
        if len(k2)==len(keep): return None
        keep=k2
    return keep
