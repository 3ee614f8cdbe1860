"""C02: numeric variables never hold a value outside their domain."""
from .varlib import *
SRCS=['var.cc','varinfo.cc','options.cc','error.cc']
INST=['layout.cc']
ASSUMPTIONS=['decimal scales between -24 and 24 (the shipped tables use -20 to 11)','domains are not empty (imin <= imax)',
 'domain-error hooks are modelled as functions that record the call','strtod and convert_units return an arbitrary double']
NEAR=Fraction(1,2)+Fraction(1,2**20)

def setnum_post(ctx,o,var,opts,d,what=''):
    """postcondition for assigning double d (FV)"""
    inf=var.info; r=d.r; nan=F.b(d.nan); i_=F.b(d.inf)
    st=o.st
    n=F.bvint(ctx.E,st,var.i(st),True)
    if inf.type==DECIMAL:
        indom=z3.And(z3.Not(nan),z3.Not(i_),r>=inf.dmin.r,r<=inf.dmax.r)
        e=undec(r,inf.scale)-z3.ToReal(n)
        ok=lambda i:z3.And(e<=z3.RealVal(NEAR),e>=-z3.RealVal(NEAR),n>=inf.nmin,n<=inf.nmax)
        hi=z3.Or(z3.And(i_,r>=0),z3.And(z3.Not(i_),r>inf.dmax.r))
        clamped=lambda i:z3.If(hi,n==inf.nmax,n==inf.nmin)
    else:
        h=z3.RealVal(Fraction(1,2))
        # in the domain when the nearest integer (halves away from zero) is
        lo=z3.If(inf.nmin>0,r>=z3.ToReal(inf.nmin)-h,r>z3.ToReal(inf.nmin)-h)
        hi_=z3.If(inf.nmax>=0,r<z3.ToReal(inf.nmax)+h,r<=z3.ToReal(inf.nmax)+h)
        indom=z3.And(z3.Not(nan),z3.Not(i_),lo,hi_)
        e=r-z3.ToReal(n)
        ok=lambda i:z3.And(e<=h,e>=-h,z3.Implies(e==h,r<0),z3.Implies(e==-h,r>0))
        clamped=lambda i:z3.If(z3.Or(z3.And(i_,r>=0),z3.And(z3.Not(i_),r>z3.ToReal(inf.nmax))),n==inf.nmax,n==inf.nmin)
    domain_post(ctx,o,var,opts,indom,ok,clamped,nan,what)

class SetI(Contract):
    fn=r'^wreport::Var::seti\(int\)'; search='var_num'; uses=HOOKS
    name='Var::seti'
    def cases(s): return [(t,h) for t in TYPES for h in (0,1)]
    def run(s,ctx,case):
        t,h=case
        inf=VINFO(ctx,t,0 if t==INTEGER else 1); v=VAR(ctx,inf); op=OPTIONS(ctx,h)
        val=ctx.bv('val',32)
        def post(o):
            if t in(STRING,BINARY):
                ctx.prove(o.st,o.kind=='throw' and o.exc.typ==wr_err('error_type'),'setting a number on a non-numeric variable is a type error'); return
            domain_post(ctx,o,v,op,z3.And(val>=inf.imin,val<=inf.imax),lambda i:i==val,lambda i:i==z3.If(val<inf.imin,inf.imin,inf.imax))
        ctx.call([v.p,val],post)
    def replay(s,c,v): return ['var_seti',c[0],c[1],v['opt_silent'],v['opt_clamp'],v['imin'],v['imax'],v['v_isset'],v['v_i'],v['val']]

class SetD(Contract):
    name='Var::setd'; fn=r'^wreport::Var::setd\(double\)'; search='var_num'; uses=HOOKS
    def group(s): return 2
    def cases(s): return [(INTEGER,0,h) for h in(0,1)]+[(DECIMAL,k,h) for k in scale_cases() if k for h in(0,1)]+[(STRING,0,0),(BINARY,0,0)]
    def argval(s,ctx): return None
    def run(s,ctx,case):
        t,k,h=case
        inf=VINFO(ctx,t,k); v=VAR(ctx,inf); op=OPTIONS(ctx,h)
        d=FV(ctx.real('d'),ctx.boolv('d_nan'),ctx.boolv('d_inf')); ctx.assume(z3.Not(z3.And(d.nan,d.inf)))
        ctx.assume(z3.Implies(d.inf,d.r!=0))
        ctx.d=d
        def post(o):
            if t in(STRING,BINARY):
                ctx.prove(o.st,o.kind=='throw' and o.exc.typ==wr_err('error_type'),'setting a number on a non-numeric variable is a type error'); return
            setnum_post(ctx,o,v,op,d)
        s.docall(ctx,v,d,post)
    def docall(s,ctx,v,d,post): ctx.call([v.p,d],post)
    def replay(s,c,v): return ['var_setd',c[0],c[1],c[2],v['opt_silent'],v['opt_clamp'],v['imin'],v['imax'],v['v_isset'],v['v_i'],'nan' if v['d_nan'] else (('-inf' if v['d'].startswith('-') else 'inf') if v['d_inf'] else v['d'].rstrip('?'))]


class SetF(SetD):
    """setf parses with strtod: any double may come out; empty or null text unsets"""
    name='Var::setf'; fn=r'^wreport::Var::setf\(char const\*\)'
    uses=HOOKS+[(r'^strtod$',lambda E,st,a,ins:E.ctx.d)]
    def cases(s): return [(INTEGER,0,h) for h in(0,1)]+[(DECIMAL,k,h) for k in (-20,-2,1,3,12) for h in(0,1)]
    def docall(s,ctx,v,d,post):
        L=ctx.bv('strlen',64); V=ctx.arr('V',24); ctx.assume(z3.ULT(L,1<<20))
        p=ctx.cstring('text',V,L)
        def post2(o):
            st=o.st
            e=st.fork(); e.assume(L==0)
            if ctx.E.feasible(e):
                ctx.prove(e,z3.And(z3.BoolVal(o.kind=='ret'),v.isset(e)==0),'empty text leaves the variable unset')
            st.assume(L!=0)
            if ctx.E.feasible(st): post(o)
        ctx.call([v.p,p],post2)
    def replay(s,c,v):
        a=SetD.replay(s,c,v); a[0]='var_setf'; return a

def conv_stub(E,st,a,ins):
    c=E.ctx
    c.prove(st,z3.And(z3.BoolVal(a[0].obj==c.src.info.p.obj and a[0].off==off(E,'Varinfo','unit')),z3.BoolVal(a[1].obj==c.v.info.p.obj and a[1].off==off(E,'Varinfo','unit'))),'converts from the unit of the source to the unit of the destination')
    x=F.fv(a[2]); n=F.bvint(E,st,c.src.i0,True)
    c.prove(st,z3.And(near(x.r,dec(n,c.src.info.scale),1),z3.Not(F.b(x.nan)),z3.Not(F.b(x.inf))),'converts the value of the source')
    return c.d
class SetVal(SetD):
    """setval between numeric variables: the converted value goes through the same checks"""
    name='Var::setval (numeric)'; fn=r'^wreport::Var::setval\(wreport::Var const&\)'
    uses=HOOKS+[(r'^wreport::convert_units\(char const\*, char const\*, double\)',conv_stub)]
    search='var_setval'
    def cases(s): return [(INTEGER,0,h,sk) for h in(0,1) for sk in(0,2,-3)]+[(DECIMAL,k,h,sk) for k in (-3,1,4) for h in(0,1) for sk in(0,2)]
    def run(s,ctx,case):
        t,k,h,sk=case
        sinf=VINFO(ctx,DECIMAL if sk else INTEGER,sk,'s_'); ctx.src=VAR(ctx,sinf,'src')
        SetD.run(s,ctx,(t,k,h))
    def docall(s,ctx,v,d,post):
        ctx.v=v
        def post2(o):
            st=o.st
            e=st.fork(); e.assume(ctx.src.isset0==0)
            if ctx.E.feasible(e): ctx.prove(e,z3.And(z3.BoolVal(o.kind=='ret'),v.isset(e)==0),'an unset source leaves the variable unset')
            st.assume(ctx.src.isset0==1)
            if ctx.E.feasible(st): post(o)
        ctx.call([v.p,ctx.src.p],post2)
    def replay(s,c,v): return None

# ---- numbers given as text: ghost value of the digits read so far
CAP=1<<40
class DIGITS:
    """ghost functions over a text V of length L: NUM(i) = characters [start,i) are digits,
    VAL(i) = their decimal value, saturated at 2^40; facts are added at each character read"""
    def __init__(s,ctx,V,L):
        s.V=V; s.L=L
        s.NUM=z3.Function('NUM',z3.BitVecSort(64),z3.BoolSort()); s.VAL=z3.Function('VAL',z3.BitVecSort(64),z3.BitVecSort(64))
        s.neg=z3.And(L!=0,z3.Select(V,v64(0))==45)
        s.start=z3.If(s.neg,v64(1),v64(0))
        ctx.assume(z3.And(s.NUM(s.start),s.VAL(s.start)==0))
        s.ctx=ctx
    def hook(s,E,st,ix,b):
        d=z3.And(z3.UGE(b,48),z3.ULE(b,57)); v=s.VAL(ix)*10+z3.ZeroExt(56,b-48)
        st.assume(z3.Implies(z3.And(z3.UGE(ix,s.start),z3.ULT(ix,s.L)),z3.And(
            s.NUM(ix+1)==z3.And(s.NUM(ix),d),
            z3.Implies(s.NUM(ix+1),s.VAL(ix+1)==z3.If(z3.UGT(v,CAP),z3.BitVecVal(CAP,64),v)))))
        # monotone: a non digit anywhere makes the whole text not a number
        st.assume(z3.Implies(z3.And(z3.ULT(ix,s.L),z3.Not(s.NUM(ix+1)),z3.UGE(ix,s.start)),z3.Not(s.NUM(s.L))))
        st.assume(z3.Implies(z3.And(z3.ULE(ix,s.L),z3.UGE(ix,s.start),s.NUM(s.L)),s.NUM(ix)))
        st.assume(z3.ULE(s.VAL(ix),CAP)); st.assume(z3.ULE(s.VAL(ix+1),CAP))
        # the value never decreases as digits are read
        st.assume(z3.Implies(z3.And(z3.UGE(ix,s.start),z3.ULT(ix,s.L),s.NUM(s.L)),z3.UGE(s.VAL(s.L),s.VAL(ix+1))))
    def cands(s,keys):
        out=[]; L=s.L
        sat=lambda t,c:z3.If(z3.ULT(t,v64(c)),t,v64(c))
        for k in keys:
            out.append(('%s in text'%(k,),lambda v,k=k:z3.And(z3.UGE(v.term(k),s.start),z3.ULE(v.term(k),L))))
            out.append(('digits before %s'%(k,),lambda v,k=k:s.NUM(v.term(k))))
            out.append(('%s capped'%(k,),lambda v,k=k:z3.ULE(v.term(k),CAP)))
            for k2 in keys:
                if k2==k: continue
                for c in (0xffffffff,0x80000000,CAP,10**10):
                    out.append(('%s is the value of the digits before %s, saturated at %d'%(k2,k,c),lambda v,k=k,k2=k2,c=c:v.term(k2)==sat(s.VAL(v.term(k)),c)))
                    out.append(('-%s is the value of the digits before %s, saturated at %d'%(k2,k,c),lambda v,k=k,k2=k2,c=c:-v.term(k2)==sat(s.VAL(v.term(k)),c)))
                    out.append(('signed %s is the value of the digits before %s, saturated at %d'%(k2,k,c),lambda v,k=k,k2=k2,c=c:v.term(k2)==z3.If(s.neg,-sat(s.VAL(v.term(k)),c),sat(s.VAL(v.term(k)),c))))
                # overflowed values are only known to stay too big
                out.append(('%s exact or too big before %s'%(k2,k),lambda v,k=k,k2=k2:z3.If(z3.ULE(s.VAL(v.term(k)),0x80000000),v.term(k2)==s.VAL(v.term(k)),v.term(k2)>0x80000000)))
                out.append(('%s flags digits before %s'%(k2,k),lambda v,k=k,k2=k2:(v.term(k2)!=0)==s.NUM(v.term(k))))
        return out
    def value(s): return z3.If(s.neg,-s.VAL(s.L),s.VAL(s.L))

class SetC(Contract):
    name='Var::setc (numeric)'; fn=r'^wreport::Var::setc\(char const\*\)'; search='var_setc'; uses=HOOKS
    def cut(s,dem,h): return True
    def group(s): return 1
    def cases(s): return [(INTEGER,0,h) for h in(0,1)]+[(DECIMAL,k,h) for k in (3,) for h in(0,)]
    def cands(s,E,entry,keys,fn,h): return E.ctx.dig.cands(keys)
    def loop_params(s,E,st): return [('strlen',E.ctx.dig.L)]
    def mkarg(s,ctx):
        L=ctx.bv('strlen',64); V=ctx.arr('V',24); ctx.assume(z3.ULT(L,1<<30))
        ctx.dig=D=DIGITS(ctx,V,L)
        return ctx.cstring('text',V,L,hook=D.hook)
    def run(s,ctx,case):
        t,k,h=case
        inf=VINFO(ctx,t,k); v=VAR(ctx,inf); op=OPTIONS(ctx,h)
        arg=s.mkarg(ctx); D=ctx.dig
        ctx.assume(z3.Implies(D.neg,D.L!=0))
        def post(o):
            st=o.st
            st.assume(z3.Not(z3.And(D.L==D.start)))   # "" and "-": unconstrained beyond the domain
            e=st.fork(); e.assume(z3.Not(D.NUM(D.L)))
            if ctx.E.feasible(e): ctx.prove(e,z3.And(z3.BoolVal(o.kind=='ret'),v.isset(e)==0,T64(e.g['#hooked'])==0),'text that is not a number leaves the variable unset')
            st.assume(D.NUM(D.L))
            if not ctx.E.feasible(st): return
            x=D.value(); se=lambda b:z3.SignExt(32,b)
            domain_post(ctx,o,v,op,z3.And(x>=se(inf.imin),x<=se(inf.imax)),lambda i:se(i)==x,lambda i:i==z3.If(x<se(inf.imin),inf.imin,inf.imax))
        ctx.call([v.p,arg],post)
    def replay(s,c,v): return ['var_setc',c[0],c[1],c[2],v['opt_silent'],v['opt_clamp'],v['imin'],v['imax'],v['v_isset'],v['v_i'],''.join('%02x'%b for b in v['V'][:min(v['strlen'],24)]) or '-']
class SetS(SetC):
    name='Var::sets (numeric)'; fn=r'^wreport::Var::sets\('
    def mkarg(s,ctx):
        p=SetC.mkarg(s,ctx)
        sp=ctx.E.alloc(ctx.st,'string',32)
        ctx.E.store(ctx.st,PTR,p,sp); ctx.E.store(ctx.st,I64,ctx.dig.L,sp.plus(8))
        return sp
    def cases(s): return [(INTEGER,0,0),(INTEGER,0,1),(DECIMAL,2,0)]

def sum_decode_decimal(E,st,a,ins):
    v=FV(E.freshreal('dd')); st.g[('dd',id(v))]=(a[1],v); E.ctx.dd.append((a[1],v)); return v
class ComputeRange(Contract):
    """the domain is what both the decimal and the binary width can hold, minus the missing value"""
    name='_Varinfo::compute_range'; fn=r'^wreport::_Varinfo::compute_range\('; search='compute_range'
    uses=[(r'^wreport::_Varinfo::decode_decimal\(int\) const',sum_decode_decimal)]
    def cases(s): return [INTEGER,DECIMAL]
    def run(s,ctx,t):
        ctx.dd=[]
        inf=VINFO(ctx,t,0,rng=False)
        inf.set('scale',I32,ctx.bv('scale',32))
        ctx.assume(z3.ULE(inf.bit_len,1<<20))
        X=z3.Extract(13,8,inf.code)
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            lo=tobv(inf.get(st,'imin',I32),32); hi=tobv(inf.get(st,'imax',I32),32)
            se=lambda b:z3.SignExt(32,b)
            p10=v64(0)
            for k in range(10): p10=z3.If(inf.len==k,v64(10**k),p10)
            ze=lambda b:z3.ZeroExt(32,b)
            bmax=z3.If(z3.ULT(inf.bit_len,48),(v64(1)<<ze(inf.bit_len))+se(inf.bit_ref)-z3.If(X==31,v64(1),v64(2)),v64(1<<50))
            dmin=-(p10-1); dmax=p10-2
            r=se(inf.bit_ref)
            wlo=z3.If(z3.UGE(inf.len,10),v64(-2**31),z3.If(inf.bit_len==0,dmin,z3.If(r>dmin,r,dmin)))
            whi=z3.If(z3.UGE(inf.len,10),v64(2**31-1),z3.If(inf.bit_len==0,dmax,z3.If(bmax<dmax,bmax,dmax)))
            ctx.prove(st,se(lo)==wlo,'lower end of the domain'); ctx.prove(st,se(hi)==whi,'upper end of the domain')
            for f,w in (('dmin',lo),('dmax',hi)):
                d=inf.get(st,f,F64)
                c=[z3.And(z3.BoolVal(d is v),tobv(n,32)==w) for n,v in ctx.dd if d is v]
                ctx.prove(st,z3.Or(*c) if c else z3.BoolVal(False),'%s is the decoded value of the end of the domain'%f)
            for f,w,wd in (('len',inf.len,I32),('bit_ref',inf.bit_ref,I32),('bit_len',inf.bit_len,I32),('code',inf.code,I16)):
                ctx.prove(st,tobv(inf.get(st,f,wd),wd[1])==w,'%s unchanged'%f)
        ctx.call([inf.p],post)
    def replay(s,c,v): return ['compute_range',c,v['code'],v['len'],v['bit_ref'],v['bit_len'],v['scale']]

class DecodeDecimal(Contract):
    """the double read from a stored integer is the correctly rounded decimal"""
    name='_Varinfo::decode_decimal'; opts={'fl_mono':True}; fn=r'^wreport::_Varinfo::decode_decimal\(int\) const'; search='decimal'
    def cases(s): return scale_cases()
    def run(s,ctx,k):
        inf=VINFO(ctx,DECIMAL if k else INTEGER,k,rng=False); val=ctx.bv('val',32)
        n=F.bvint(ctx.E,ctx.st,val,True)
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            r=F.fv(o.val); fine=z3.And(z3.Not(F.b(r.nan)),z3.Not(F.b(r.inf)))
            ctx.prove(o.st,z3.And(fine,near(r.r,dec(n,k),ulps(k))),'value is the integer at its decimal scale, correctly rounded')
            if k: ctx.prove(o.st,r.r==rdec(ctx.E,o.st,n,k),'value is the same function of the integer everywhere: one correctly rounded operation')
        ctx.call([inf.p,val],post)
    def replay(s,c,v): return ['decode_decimal',c,v['val']]

def rawvar(ctx,inf):
    """uninitialised memory for a Var under construction; reads as an unset variable in the postcondition"""
    v=VAR(ctx,inf,isset=z3.BitVecVal(0,8),val=z3.BitVecVal(0,32) if inf.type<2 else None)
    v.set(ctx.st,'m_isset',I8,ctx.bv('junk',8)); v.set(ctx.st,'m_value',I64,ctx.bv('junkval',64)); v.set(ctx.st,'m_attrs',I64,ctx.bv('junkattrs',64)); v.set(ctx.st,'m_info',I64,ctx.bv('junkinfo',64))
    return v
class CtorI(Contract):
    name='Var::Var(info,int)'; fn=r'^wreport::Var::Var\(wreport::_Varinfo const\*, int\)'; search='var_ctor'; uses=HOOKS
    def cases(s): return [(t,h) for t in (INTEGER,DECIMAL) for h in (0,1)]
    def run(s,ctx,case):
        t,h=case
        inf=VINFO(ctx,t,0 if t==INTEGER else 1); v=rawvar(ctx,inf); op=OPTIONS(ctx,h); val=ctx.bv('val',32)
        def post(o):
            if o.kind=='ret':
                m=v.get(o.st,'m_info',PTR); ctx.prove(o.st,isinstance(m,Ptr) and m.obj==inf.p.obj,'has the given Varinfo')
                a=v.get(o.st,'m_attrs',PTR); ctx.prove(o.st,a==NULL if not isinstance(a,Ptr) else a.obj==NULL.obj,'has no attributes')
            domain_post(ctx,o,v,op,z3.And(val>=inf.imin,val<=inf.imax),lambda i:i==val,lambda i:i==z3.If(val<inf.imin,inf.imin,inf.imax))
        ctx.call([v.p,inf.p,val],post)
class CtorD(SetD):
    name='Var::Var(info,double)'; fn=r'^wreport::Var::Var\(wreport::_Varinfo const\*, double\)'; search='var_ctor'
    def cases(s): return [(INTEGER,0,h) for h in(0,1)]+[(DECIMAL,k,h) for k in (-20,-2,1,3,12) for h in(0,1)]
    def run(s,ctx,case):
        t,k,h=case
        inf=VINFO(ctx,t,k); v=rawvar(ctx,inf); op=OPTIONS(ctx,h)
        d=FV(ctx.real('d'),ctx.boolv('d_nan'),ctx.boolv('d_inf')); ctx.assume(z3.Not(z3.And(d.nan,d.inf))); ctx.assume(z3.Implies(d.inf,d.r!=0))
        ctx.call([v.p,inf.p,d],lambda o:setnum_post(ctx,o,v,op,d))
    def replay(s,c,v): return None
CONTRACTS=[SetI(),SetD(),SetF(),SetVal(),SetC(),SetS(),CtorI(),CtorD(),ComputeRange(),DecodeDecimal()]
