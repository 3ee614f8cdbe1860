"""C03: numeric values survive packing to bits and back."""
from .varlib import *
from .c02 import setnum_post
SRCS=['var.cc','varinfo.cc','options.cc','error.cc','buffers/bufr.cc','bufr/input.cc']
INST=['layout.cc','bits.cc']
ASSUMPTIONS=['decimal scales between -24 and 24','binary widths between 1 and 32 bits','Input::get_bits and BufrOutput::add_bits/append_missing used by their C01 contracts']

def fits(raw64,bl): return z3.And(raw64>=0,raw64<(z3.BitVecVal(1,64)<<z3.ZeroExt(32,bl)))
class EncodeBinary(Contract):
    """nearest integer to value*10^scale - reference, or refused when it does not fit"""
    name='_Varinfo::encode_binary'; fn=r'^wreport::_Varinfo::encode_binary\('; search='packing'
    def cases(s): return scale_cases()
    def group(s): return 4
    def run(s,ctx,k):
        inf=VINFO(ctx,DECIMAL if k else INTEGER,k,rng=False); d=ctx.real('d')
        ctx.assume(z3.ULE(inf.bit_len,32))
        big=z3.RealVal(2**40); ctx.assume(z3.And(undec(d,k)<=big,undec(d,k)>=-big))
        nr=F.bvint(ctx.E,ctx.st,inf.bit_ref,True)
        # links between the width and its largest value, as the code may write it
        nts=[]
        for t in ((z3.BitVecVal(1,64)<<z3.ZeroExt(32,inf.bit_len))-1,z3.BitVecVal(1,32)<<inf.bit_len,(z3.BitVecVal(1,32)<<inf.bit_len)-1):
            t=z3.simplify(t); nt=F.bvint(ctx.E,ctx.st,t,False); nts.append(nt)
            for w in range(0,33): ctx.assume(z3.Implies(inf.bit_len==w,nt==(2**w if len(nts)==2 else 2**w-1)%(2**t.size())))
        top=z3.ToReal(nts[0])
        def post(o):
            st=o.st
            exact=undec(d,k)-z3.ToReal(nr)
            tol=z3.RealVal(Fraction(1,2)+Fraction(1,2**10))
            lo=z3.RealVal(Fraction(1,2)-Fraction(1,2**10))
            if o.kind=='throw':
                ctx.prove(st,o.exc.typ==wr_err('error_consistency'),'refused with a consistency error')
                ctx.prove(st,z3.Or(inf.bit_len==0,exact<=-lo,exact>=top+lo),'refused only when the value does not fit the field'); return
            r=tobv(o.val,32)
            n=F.bvint(ctx.E,st,r,False); e=exact-z3.ToReal(n)
            ctx.prove(st,z3.And(e<=tol,e>=-tol),'encodes the nearest integer to value*10^scale - reference')
            ctx.prove(st,fits(z3.ZeroExt(32,r),inf.bit_len),'the encoded integer fits the field')
            ctx.prove(st,inf.bit_len!=0,'refused without binary information')
        ctx.call([inf.p,FV(d)],post)
    def replay(s,k,v): return ['encode_binary',k,v['bit_ref'],v['bit_len'],v['d'].rstrip('?')]

class DecodeBinary(Contract):
    name='_Varinfo::decode_binary'; fn=r'^wreport::_Varinfo::decode_binary\('; search='packing'
    def cases(s): return scale_cases()
    def run(s,ctx,k):
        inf=VINFO(ctx,DECIMAL if k else INTEGER,k,rng=False); raw=ctx.bv('raw',32)
        n=F.bvint(ctx.E,ctx.st,raw,False); nr=F.bvint(ctx.E,ctx.st,inf.bit_ref,True)
        def post(o):
            if o.kind=='throw':
                ctx.prove(o.st,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_consistency')),inf.bit_len==0),'refused only without binary information'); return
            r=F.fv(o.val)
            ctx.prove(o.st,z3.And(near(r.r,dec(n+nr,k),ulps(k)),z3.Not(F.b(r.nan)),z3.Not(F.b(r.inf))),'decodes to (raw + reference) at the decimal scale')
            ctx.prove(o.st,inf.bit_len!=0,'refused without binary information')
        ctx.call([inf.p,raw],post)
    def replay(s,k,v): return ['decode_binary',k,v['bit_ref'],v['bit_len'],v['raw']]

class Enq(Contract):
    search='packing'
    def __init__(s,which): s.which=which; s.name='Var::enq'+which; s.fn=r'^wreport::Var::enq%s\(\) const'%which
    def cases(s): return [(t,k) for t in TYPES for k in (scale_cases() if t==DECIMAL and s.which=='d' else [2 if t==DECIMAL else 0]) if not(t==DECIMAL and k==0)]
    def run(s,ctx,case):
        t,k=case
        inf=VINFO(ctx,t,k,rng=False); v=VAR(ctx,inf,val=None if t<2 else ctx.bytesobj('buf',ctx.arr('B',8),8))
        def post(o):
            st=o.st
            if o.kind=='throw':
                ctx.prove(st,z3.If(v.isset0==0,z3.BoolVal(o.exc.typ==wr_err('error_notfound')),z3.BoolVal(t>=2 and o.exc.typ==wr_err('error_type'))),'unset variables raise not found, text variables raise a type error'); return
            ctx.prove(st,z3.And(v.isset0==1,z3.BoolVal(t<2)),'only a set numeric variable gives a number')
            if t>=2: return
            n=F.bvint(ctx.E,st,v.i0,True)
            if s.which=='i': ctx.prove(st,tobv(o.val,32)==v.i0,'returns the stored integer')
            else:
                r=F.fv(o.val); ctx.prove(st,z3.And(near(r.r,dec(n,k),ulps(k)),z3.Not(F.b(r.nan)),z3.Not(F.b(r.inf))),'returns the stored integer at its decimal scale')
            ctx.prove(st,z3.And(v.i(st)==v.i0,v.isset(st)==v.isset0),'reading does not change the variable')
        ctx.call([v.p],post)

def on_add(E,st,a,ins):
    st.g[('emit',)]=st.g.get(('emit',),())+(('bits',tobv(a[1],32),tobv(a[2],32)),); return 0
def on_missing(E,st,a,ins):
    st.g[('emit',)]=st.g.get(('emit',),())+(('missing',None,tobv(a[1],32)),); return 0
class AppendVar(Contract):
    """a set in-domain variable is written as value - reference, never as the missing value"""
    name='BufrOutput::append_var (numeric)'; fn=r'^wreport::buffers::BufrOutput::append_var\('; search='packing'
    uses=[(r'^wreport::buffers::BufrOutput::add_bits\(',on_add),(r'^wreport::buffers::BufrOutput::append_missing\(unsigned int\)',on_missing)]
    def cases(s): return scale_cases()
    def group(s): return 4
    def run(s,ctx,k):
        inf=VINFO(ctx,DECIMAL if k else INTEGER,k,rng=False); v=VAR(ctx,inf)
        ctx.assume(z3.And(z3.ULE(inf.bit_len,32),z3.UGE(inf.bit_len,1)))
        b=BO(ctx,0)
        raw,nraw=addlink(ctx.E,ctx.st,[(1,v.i0,True),(-1,inf.bit_ref,True)])
        # order link between the width and its largest value
        top=z3.IntVal(0)
        topbv=(z3.BitVecVal(1,64)<<z3.ZeroExt(32,inf.bit_len))-1
        nt=F.bvint(ctx.E,ctx.st,topbv,True)
        for w in range(1,33): ctx.assume(z3.Implies(inf.bit_len==w,nt==2**w-1))
        def post(o):
            st=o.st; em=st.g.get(('emit',),())
            if o.kind=='throw':
                ctx.prove(st,z3.And(v.isset0==1,z3.BoolVal(o.exc.typ==wr_err('error_consistency')),z3.Not(fits(raw,inf.bit_len)),z3.BoolVal(not em)),'refused only when the value does not fit the field, with nothing written'); return
            ctx.prove(st,len(em)==1,'exactly one field is written')
            if len(em)!=1: return
            kind,val,n=em[0]
            ctx.prove(st,n==inf.bit_len,'the field has its full width')
            if kind=='missing': ctx.prove(st,v.isset0==0,'only unset variables are written as missing'); return
            ctx.prove(st,v.isset0==1,'unset variables are written as missing')
            ctx.prove(st,z3.And(fits(raw,inf.bit_len),z3.ZeroExt(32,val)==raw),'the field holds value - reference')
        ctx.call([b.p,inf.p,v.p],post)
    def replay(s,k,v): return ['append_num',k,v['bit_ref'],v['bit_len'],v['v_isset'],v['v_i']]

def allones(bl): return z3.Extract(31,0,(z3.BitVecVal(1,64)<<z3.ZeroExt(32,bl))-1)
def raw_post(ctx,o,v,op,missing,rawterms):
    """after decoding: unset when missing, else raw+reference through the domain check"""
    st=o.st; inf=v.info
    m=st.fork(); m.assume(missing)
    if ctx.E.feasible(m):
        ctx.prove(m,z3.And(z3.BoolVal(o.kind=='ret'),v.isset(m)==0,T64(m.g['#hooked'])==0),'the missing value is decoded as unset')
    st.assume(z3.Not(missing))
    if not ctx.E.feasible(st): return
    x,nx=addlink(ctx.E,st,rawterms+[(1,inf.bit_ref,True)])
    se=lambda b:z3.SignExt(32,b)
    n=F.bvint(ctx.E,st,v.i(st),True)
    domain_post(ctx,o,v,op,z3.And(nx>=inf.nmin,nx<=inf.nmax),lambda i:n==nx,lambda i:n==z3.If(nx<inf.nmin,inf.nmin,inf.nmax))

class DecodeNumber(Contract):
    """raw bits -> raw+reference, all ones -> unset (except replication factors and associated-field style counters)"""
    name='Input::decode_number'; opts={'fl_mono':True}; fn=r'^wreport::bufr::Input::decode_number\('; search='packing'
    uses=HOOKS+[R_get_bits]
    def cases(s): return [(k,h) for k in scale_cases() for h in ((0,1) if k in(0,1) else (0,))]
    def group(s): return 4
    def run(s,ctx,case):
        k,h=case
        inf=VINFO(ctx,DECIMAL if k else INTEGER,k); v=VAR(ctx,inf); op=OPTIONS(ctx,h)
        ctx.assume(z3.And(z3.ULE(inf.bit_len,32),z3.UGE(inf.bit_len,1)))
        ip=ctx.E.alloc(ctx.st,'Input',off(ctx.E,'Input'),lazy=True)
        c=inf.code; y=z3.Extract(7,0,c)
        never=z3.And(z3.Extract(15,8,c)==31,z3.Or(*[y==q for q in (0,1,2,11,12)]))
        def post(o):
            rs=reads(o.st)
            if o.kind=='throw' and o.exc.info=='eof':
                ctx.prove(o.st,v.isset(o.st)==v.isset0,'end of data: nothing changed'); return
            ctx.prove(o.st,z3.And(z3.BoolVal(len(rs)==1),rs[0][0]==inf.bit_len),'reads exactly the width of the field')
            raw=rs[0][1]
            raw_post(ctx,o,v,op,z3.And(raw==allones(inf.bit_len),z3.Not(never)),[(1,raw,False)])
        ctx.call([ip,v.p],post)
    def replay(s,c,v): return ['decode_number',c[0],v['code'],v['bit_ref'],v['bit_len'],v['imin'],v['imax'],v.get('raw0',0),c[1],v['opt_silent'],v['opt_clamp']]

class DecodeCompressed(Contract):
    name='Input::decode_compressed_number(Var&)'; opts={'fl_mono':True}; fn=r'^wreport::bufr::Input::decode_compressed_number\(wreport::Var&, unsigned int, unsigned int\)'; search='packing'
    uses=HOOKS+[R_get_bits]
    def cases(s): return [(k,0) for k in scale_cases()]
    def group(s): return 4
    def run(s,ctx,case):
        k,h=case
        inf=VINFO(ctx,DECIMAL if k else INTEGER,k); v=VAR(ctx,inf); op=OPTIONS(ctx,h)
        base=ctx.bv('base',32); db=ctx.bv('diffbits',32)
        ctx.assume(z3.And(z3.ULE(inf.bit_len,32),z3.UGE(inf.bit_len,1),z3.ULE(db,32),z3.UGE(db,1)))
        ip=ctx.E.alloc(ctx.st,'Input',off(ctx.E,'Input'),lazy=True)
        def post(o):
            rs=reads(o.st)
            if o.kind=='throw' and o.exc.info=='eof':
                ctx.prove(o.st,v.isset(o.st)==v.isset0,'end of data: nothing changed'); return
            ctx.prove(o.st,z3.And(z3.BoolVal(len(rs)==1),rs[0][0]==db),'reads exactly the width of the difference')
            diff=rs[0][1]; ones=allones(inf.bit_len)
            o.st.assume(z3.BVAddNoOverflow(base,diff,False))
            if not ctx.E.feasible(o.st): return
            sm=z3.simplify(base+diff)
            raw_post(ctx,o,v,op,z3.Or(base==ones,diff==allones(db),sm==ones),[(1,sm,False)])
        ctx.call([ip,v.p,base,db],post)
    def replay(s,c,v): return ['decode_compressed',c[0],v['code'],v['bit_ref'],v['bit_len'],v['imin'],v['imax'],v['base'],v['diffbits'],v.get('raw0',0),v['opt_silent'],v['opt_clamp']]

class DecodeBase(Contract):
    name='Input::decode_compressed_base'; fn=r'^wreport::bufr::Input::decode_compressed_base\('; search='packing'
    uses=[R_get_bits]
    def run(s,ctx,case):
        inf=VINFO(ctx,INTEGER,0); ctx.assume(z3.And(z3.ULE(inf.bit_len,32),z3.UGE(inf.bit_len,1)))
        E=ctx.E; ip=E.alloc(ctx.st,'Input',off(E,'Input'),lazy=True)
        bp=E.alloc(ctx.st,'base',4,lazy=True); dp=E.alloc(ctx.st,'diffbits',4,lazy=True)
        def post(o):
            st=o.st; rs=reads(st)
            if o.kind=='throw':
                if o.exc.info=='eof': return
                ctx.prove(st,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_consistency')),z3.Or(z3.And(rs[0][1]==allones(inf.bit_len),rs[1][1]!=0),z3.UGT(rs[1][1],32))),'refused only when a missing base has differences, or differences do not fit 32 bits'); return
            ctx.prove(st,z3.And(z3.BoolVal(len(rs)==2),rs[0][0]==inf.bit_len,rs[1][0]==6),'reads the base and a 6 bit difference width')
            b,d=rs[0][1],rs[1][1]
            ctx.prove(st,z3.And(tobv(E.load(st,I32,bp),32)==b,tobv(E.load(st,I32,dp),32)==d),'returns base and difference width')
            ctx.prove(st,(tobv(zext(o.val,1,8) if not isc(o.val) else o.val,8)!=0)==(b==allones(inf.bit_len)),'missing when the base is all ones')
            ctx.prove(st,z3.Implies(b==allones(inf.bit_len),d==0),'a missing base has no differences')
        ctx.call([ip,inf.p,bp,dp],post)

class DecodeSemantic(Contract):
    """a count shared by all subsets: base value, with a zero difference width"""
    name='Input::decode_compressed_semantic_number'; opts={'fl_mono':True}; fn=r'^wreport::bufr::Input::decode_compressed_semantic_number\('; search='packing'
    uses=HOOKS+[R_get_bits]
    def cases(s): return [(k,0) for k in (-20,-2,0,1,5,12)]
    def group(s): return 1
    def run(s,ctx,case):
        k,h=case
        inf=VINFO(ctx,DECIMAL if k else INTEGER,k); v=VAR(ctx,inf); op=OPTIONS(ctx,h)
        ctx.assume(z3.And(z3.ULE(inf.bit_len,32),z3.UGE(inf.bit_len,1)))
        ip=ctx.E.alloc(ctx.st,'Input',off(ctx.E,'Input'),lazy=True)
        def post(o):
            rs=reads(o.st)
            if o.kind=='throw' and o.exc.info=='eof':
                ctx.prove(o.st,v.isset(o.st)==v.isset0,'end of data: nothing changed'); return
            ctx.prove(o.st,z3.And(z3.BoolVal(len(rs)==2),rs[0][0]==inf.bit_len,rs[1][0]==6),'reads the value and a 6 bit difference width')
            if o.kind=='throw' and o.exc.typ==wr_err('error_consistency'):
                ctx.prove(o.st,rs[1][1]!=0,'refused only when subsets differ'); return
            ctx.prove(o.st,rs[1][1]==0,'differing counts are refused')
            raw_post(ctx,o,v,op,rs[0][1]==allones(inf.bit_len),[(1,rs[0][1],False)])
        ctx.call([ip,v.p,ctx.bv('subsets',32)],post)
    def replay(s,c,v): return ['decode_semantic',c[0],v['code'],v['bit_ref'],v['bit_len'],v['imin'],v['imax'],v.get('raw0',0),v.get('raw1',0),v['opt_silent'],v['opt_clamp']]

class RoundTripLemma(Contract):
    """over the contracts of compute_range (C02), append_var and decode_number: every in-domain value comes back, and is never mistaken for missing"""
    name='lemma: numbers survive append_var then decode_number'; fn=None
    def run(s,ctx,case):
        n=ctx.bv('n',64); ref=ctx.bv('ref',64); bl=ctx.bv('bl',64); imin=ctx.bv('imin',64); imax=ctx.bv('imax',64); x31=ctx.boolv('class31'); never=ctx.boolv('never_missing')
        p=v64(1)<<bl
        ctx.assume(z3.And(z3.UGE(bl,1),z3.ULE(bl,32),ref>=-2**31,ref<2**31,imin>=-2**31,imax<2**31))
        # compute_range, fields of up to 9 digits
        ctx.assume(z3.And(imin>=ref,imax<=p+ref-z3.If(x31,v64(1),v64(2)),n>=imin,n<=imax))
        raw=n-ref
        ctx.prove(ctx.st,z3.And(raw>=0,raw<p),'every value of the domain fits its field')
        ctx.prove(ctx.st,z3.Implies(z3.Not(x31),raw!=p-1),'no value of the domain has the bits of the missing value')
        ctx.prove(ctx.st,raw+ref==n,'decoding gives the value back')
        ctx.prove(ctx.st,z3.And(raw+ref>=imin,raw+ref<=imax),'the decoded value is in the domain')

class SetDEnqD(Contract):
    """Var::setd of what Var::enqd returned stores the same integer"""
    name='Var::setd after enqd'; fn=r'^wreport::Var::setd\(double\)'; search='packing'; opts={'fl_mono':True}; uses=HOOKS
    def cases(s): return scale_cases()
    def group(s): return 4
    def run(s,ctx,k):
        inf=VINFO(ctx,DECIMAL if k else INTEGER,k); v=VAR(ctx,inf); op=OPTIONS(ctx,0); n=ctx.bv('n',32)
        ctx.assume(z3.And(n>=inf.imin,n<=inf.imax))
        nn=F.bvint(ctx.E,ctx.st,n,True)
        d=FV(rdec(ctx.E,ctx.st,nn,k)) if k else F.FVI(nn)
        def post(o):
            if o.kind=='throw': ctx.prove(o.st,False,'the value just read is accepted'); return
            m=F.bvint(ctx.E,o.st,v.i(o.st),True)
            ctx.prove(o.st,z3.And(v.isset(o.st)==1,m==nn),'the same integer is stored')
        ctx.call([v.p,d],post)

CONTRACTS=[EncodeBinary(),DecodeBinary(),Enq('i'),Enq('d'),AppendVar(),DecodeNumber(),DecodeCompressed(),DecodeBase(),DecodeSemantic(),SetDEnqD(),RoundTripLemma()]
