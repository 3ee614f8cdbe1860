"""C08: a BUFR message is encoded with the header its bulletin says, and decoding it gives that header back."""
from .common import *
from .c07 import BULLETIN, HEADER, F8, F16, I16, K
SRCS=['bufr_encoder.cc','buffers/bufr.cc','bulletin.cc','error.cc','bufr/decoder.cc','bufr/input.cc']
INST=['layout.cc']
ASSUMPTIONS=['fewer than 2^31 descriptors and subsets, optional section shorter than 2^40 bytes','add_bits/flush are used through their C01 contracts; what Interpreter::run appends is any sequence of bits, after what was there']
def bo_ctor(E,st,a,ins):
    if ('bo',) in st.g: raise Unsupported('more than one output buffer')
    st.g[('bo',)]=(a[0],a[1]); E.store(st,PTR,a[1],a[0]); E.store(st,I8,0,a[0].plus(off(E,'BufrOutput','pbyte'))); E.store(st,I32,0,a[0].plus(off(E,'BufrOutput','pbyte_len')))
    return 0
def bo_of(E,st,p):
    b=st.g.get(('bo',))
    if not b or p.obj!=b[0].obj: raise Unsupported('another output buffer')
    return b[1]
def append_bytes(E,st,sp,vals):
    t=E.alloc(st,'bytes',len(vals))
    for i,v in enumerate(vals): E.store(st,I8,v,t.plus(i))
    str_append(E,st,sp,t,len(vals))
def add_bits(E,st,a,ins):
    """contract of BufrOutput::add_bits on a byte boundary, whole bytes"""
    sp=bo_of(E,st,a[0]); n=a[2]
    if not isc(n): raise Unsupported('add_bits of an unknown number of bits')
    E.prove(st,T64(st.g['#pend'])==0,E.cname()+'header fields are written on a byte boundary'); st.assume(T64(st.g['#pend'])==0)
    if n%8 or n>32: raise Unsupported('add_bits of %d bits in a header'%n)
    v=tobv(a[1],32); append_bytes(E,st,sp,[z3.simplify(z3.Extract(8*i+7,8*i,v)) for i in range(n//8-1,-1,-1)])
    return 0
def flush(E,st,a,ins):
    """contract of flush: the pending bits become a byte padded with zeros"""
    sp=bo_of(E,st,a[0]); p=T64(st.g['#pend']); c=E.ctx.con
    d,n=str_get(E,st,sp)
    if E.must(st,p==0): st.g['#pend']=z3.BitVecVal(0,64); st.g.setdefault(('data_end',),T64(n)); return 0
    n=T64(n); m=z3.simplify(n+z3.If(p==0,v64(0),v64(1))); o=st.wobj(d.obj); o.arr=z3.Store(z3.Store(o.arr,n,z3.If(p==0,z3.BitVecVal(0,8),z3.Select(c.R,n))),m,z3.BitVecVal(0,8)); o.size=z3.simplify(m+1)
    E.store(st,I64,m,sp.plus(8)); st.g.setdefault(('data_end',),m); st.g['#pend']=z3.BitVecVal(0,64)
    if st.writes is not None: st.writes.append((d.obj,None,None))
    return 0
def enc_ctor(E,st,a,ins):
    c=E.ctx.con
    c.ctx.prove(st,isinstance(a[1],Ptr) and a[1].obj==c.b.p.obj and norm(a[1].off)==0,'encodes the data of this bulletin')
    c.ctx.prove(st,z3.ZeroExt(32,tobv(a[2],32))==T64(st.g['#runs']),'subsets are encoded in order, each once')
    return 0
def enc_run(E,st,a,ins):
    """encodes one subset: appends any number of bits"""
    c=E.ctx.con; sp=st.g[('bo',)][1]; d,n=str_get(E,st,sp); n=T64(n)
    if c.base is None: c.ctx.prove(st,False,'data comes after the header of section 4')
    st.g['#runs']=z3.simplify(T64(st.g['#runs'])+1); t=st.fork()
    m=E.fresh('grow',64); p=E.fresh('pend',64); st.assume(z3.And(z3.ULT(m,1<<50),z3.ULT(n+m,1<<50),z3.ULE(p,7)))
    o=st.wobj(d.obj); old=o.arr; i=z3.BitVec('li',64); o.arr=z3.Lambda([i],z3.If(z3.ULT(i,n),z3.Select(old,i),z3.Select(c.R,i)))
    o.size=z3.simplify(n+m+1); E.store(st,I64,z3.simplify(n+m),sp.plus(8)); st.g['#pend']=p
    if st.writes is not None: st.writes.append((d.obj,None,None))
    return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='data'))])
def nop(E,st,a,ins): return 0
R_enc=[(r'^wreport::buffers::BufrOutput::BufrOutput\(',bo_ctor),(r'^wreport::buffers::BufrOutput::add_bits\(',add_bits),(r'^wreport::buffers::BufrOutput::flush\(',flush),
 (r'^wreport::bulletin::UncompressedEncoder::UncompressedEncoder\(',enc_ctor),(r'^wreport::bulletin::UncompressedEncoder::~UncompressedEncoder\(',nop),(r'^wreport::bulletin::Interpreter::run\(',enc_run)]
LIMIT=(1<<24)-1
class ENC:
    """specification: the bytes of the encoded message, given what the bulletin says"""
    def __init__(s,f,opt,no,dd,nd,ns,R,ed,size,kind):
        """f: fields; opt/no: optional section bytes and length; dd/nd: descriptors; R: data bytes by position; size: length of the message"""
        b8=lambda v:z3.BitVecVal(v,8); lo=lambda t:z3.Extract(7,0,t); hi=lambda t:z3.Extract(15,8,t)
        def be3(t): return [z3.Extract(8*i+7,8*i,t) for i in (2,1,0)]
        v4=ed==4; flag=b8(0 if kind=='none' else 0x80)
        if v4: s1=[b8(0),b8(0),b8(22),f['master_table_number'],hi(f['originating_centre']),lo(f['originating_centre']),hi(f['originating_subcentre']),lo(f['originating_subcentre']),f['update_sequence_number'],flag,
            f['data_category'],f['data_subcategory'],f['data_subcategory_local'],f['master_table_version_number'],f['master_table_version_number_local'],hi(f['rep_year']),lo(f['rep_year'])]+[f['rep_'+k] for k in 'month day hour minute second'.split()]
        else:
            y=f['rep_year']; yoc=z3.If(y==2000,b8(100),lo(z3.URem(y,z3.BitVecVal(100,16))))
            s1=[b8(0),b8(0),b8(18),f['master_table_number'],lo(f['originating_subcentre']),lo(f['originating_centre']),f['update_sequence_number'],flag,f['data_category'],f['data_subcategory_local'],f['master_table_version_number'],f['master_table_version_number_local'],yoc]+[f['rep_'+k] for k in 'month day hour minute'.split()]+[lo(z3.UDiv(y,z3.BitVecVal(100,16)))]
        assert len(s1)==(22 if v4 else 18)
        s.o2=8+len(s1); s.n2={'none':v64(0),'even':4+no,'odd':5+no}[kind]; s.o3=s.o2+s.n2; s.n3=8+2*nd; s.o4=z3.simplify(s.o3+s.n3); s.d0=z3.simplify(s.o4+4); s.o5=size-4
        s.head=[b8(x) for x in b'BUFR']+be3(size)+[f['edition_number']]+s1
        s.sec2=be3(s.n2)+[b8(0)]; s.sec3=be3(s.n3)+[b8(0),hi(ns),lo(ns),b8(128)]; s.sec4=be3(s.o5-s.o4)+[b8(0)]
        s.has=z3.BoolVal(kind!='none'); s.args=(opt,no,dd,nd,R)
    def parts(s,data_end):
        """[(what, guard on K, value of byte K)]; data_end: one past the last data byte"""
        opt,no,dd,nd,R=s.args; P=[]
        for i,v in enumerate(s.head): P.append(('section 0 and 1, byte %d'%i,K==i,v))
        for i,v in enumerate(s.sec2): P.append(('section 2, byte %d'%i,z3.And(s.has,K==s.o2+i),v))
        P.append(('optional section',z3.And(s.has,z3.UGE(K,s.o2+4),z3.ULT(K,s.o2+4+no)),z3.Select(opt,K-s.o2-4)))
        P.append(('padding of the optional section',z3.And(s.has,z3.UGE(K,s.o2+4+no),z3.ULT(K,s.o3)),z3.BitVecVal(0,8)))
        for i,v in enumerate(s.sec3): P.append(('section 3, byte %d'%i,K==s.o3+i,v))
        P.append(('descriptors',z3.And(z3.UGE(K,s.o3+7),z3.ULT(K,s.o3+7+2*nd)),z3.Select(dd,(K-s.o3-7)^1)))   # stored as little endian 16 bit integers
        P.append(('padding of section 3',K==s.o3+7+2*nd,z3.BitVecVal(0,8)))
        for i,v in enumerate(s.sec4): P.append(('section 4, byte %d'%i,K==s.o4+i,v))
        P.append(('data',z3.And(z3.UGE(K,s.d0),z3.ULT(K,data_end)),z3.Select(R,K)))
        P.append(('padding of section 4',z3.And(z3.UGE(K,data_end),z3.ULT(K,s.o5)),z3.BitVecVal(0,8)))
        P.append(('end section',z3.And(z3.UGE(K,s.o5),z3.ULT(K,s.o5+4)),z3.BitVecVal(0x37,8)))
        return P
class Encode(Contract):
    name='BufrBulletin::encode'; fn=r'^wreport::BufrBulletin::encode\[?.*\]?\(\) const'; search='encode_header'
    uses=R_enc; opts={'auto_unroll':True}; weight=5
    def cases(s): return [(e,k) for k in ('odd','even','none') for e in (3,4)]+[('other',None)]     # 3 stands for editions 2 and 3, which have the same layout
    def group(s): return 1
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('descriptors',s.nd),('subsets',s.ns)]
    def cands(s,E,entry,keys,fn,h):
        out=[]; d0=entry.st.g[('bo',)][1]; obj=str_get(E,entry.st,d0)[0].obj; ea=entry.st.mem[obj].arr; en=T64(str_get(E,entry.st,d0)[1]); N=lambda w:T64(str_get(E,w.st,d0)[1])
        A=lambda w,i:z3.Select(w.st.mem[obj].arr,i); W=('g','#runs')
        for k in keys:
            out.append(('%s == subsets encoded'%(k,),lambda w,k=k:w.term(k)==w.term(W)))
            out.append(('%s descriptors written'%(k,),lambda w,k=k:N(w)==en+2*w.term(k)))
            out.append(('%s bytes of descriptors written'%(k,),lambda w,k=k:N(w)==en+w.term(k)))
            out.append(('%s inside the descriptors'%(k,),lambda w,k=k:z3.And(w.term(k)&1==0,z3.ULE(w.term(k),2*s.nd)) if isinstance(w.raw(k),Ptr) else z3.BoolVal(True)))
        out.append(('what was there',lambda w:z3.Implies(z3.ULT(K,en),A(w,K)==z3.Select(ea,K))))
        out.append(('descriptors',lambda w:z3.Implies(z3.And(z3.UGE(K,en),z3.ULT(K,N(w))),A(w,K)==z3.Select(s.dd,(K-en)^1))))
        out.append(('data',lambda w:z3.Implies(z3.And(z3.UGE(K,en),z3.ULT(K,N(w))),A(w,K)==z3.Select(s.R,K))))
        out.append(('size',lambda w:z3.And(z3.UGE(N(w),en),z3.Or(N(w)==en,z3.ULT(N(w),1<<50)))))
        out.append(('pend',lambda w:z3.ULE(w.term(('g','#pend')),7)))
        out.append(('runs',lambda w:z3.ULE(w.term(W),s.ns)))
        return out
    def run(s,ctx,case):
        case,kind=case; E=ctx.E; st=ctx.st; s.ctx=ctx; s.base=1; s.b=b=BULLETIN(ctx)
        s.no=no=ctx.bv('optlen',64); ctx.assume(z3.ULT(no,1<<40)); s.opt=ctx.arr('OPT',16); str_new(E,st,b.opt,s.opt,no)
        s.nd=nd=ctx.bv('ndesc',64); ctx.assume(z3.ULT(nd,1<<31)); s.dd=ctx.arr('DD',16); dp=ctx.bytesobj('datadesc',s.dd,z3.simplify(2*nd),ro=True)
        s.ns=ns=ctx.bv('nsub',64); ctx.assume(z3.ULT(ns,1<<31)); sp=ctx.bytesobj('subsets',ctx.arr('SUB',1),z3.simplify(ns*off(E,'Subset')),ro=True); s.R=ctx.arr('R',16)
        for f,p,n,z in (('datadesc',dp,nd,2),('subsets',sp,ns,off(E,'Subset'))):
            E.store(st,PTR,p,b.at(f))
            for o in (8,16): E.store(st,PTR,Ptr(p.obj,Lin.of(n).mul(z)),b.at(f).plus(o))
        st.g['#pend']=z3.BitVecVal(0,64); st.g['#runs']=z3.BitVecVal(0,64)
        ed=b.f0['edition_number']
        if case=='other': ctx.assume(z3.And(ed!=2,ed!=3,ed!=4))
        else: ctx.assume(ed==4 if case==4 else z3.Or(ed==2,ed==3)); ctx.assume({'none':no==0,'even':z3.And(no!=0,(no&1)==0),'odd':(no&1)==1}[kind])
        ret=E.alloc(st,'message',32)
        def post(o):
            st=o.st
            if o.kind=='throw':
                if o.exc.info=='data': return
                if case=='other': ctx.prove(st,o.exc.typ==wr_err('error_unimplemented'),'other editions are refused as not implemented'); return
                ctx.prove(st,o.exc.typ==wr_err('error_consistency'),'errors are consistency errors')
                size=T64(str_get(E,st,ret)[1]) if ('bo',) in st.g else v64(0)
                ctx.prove(st,z3.Or(ns==0,z3.UGT(ns,65535),nd==0,z3.UGT(size,LIMIT)),'refused only when it has no descriptors, no subsets, or it is too big'); return
            if not ctx.prove(st,case!='other','editions other than 2, 3 and 4 are refused'): return
            ctx.prove(st,ns!=0,'a bulletin with no subsets is refused'); ctx.prove(st,nd!=0,'a bulletin with no descriptors is refused')
            ctx.prove(st,z3.ULE(ns,65535),'a bulletin with more subsets than can be counted is refused')
            d,size=str_get(E,st,ret); size=T64(size); arr=st.mem[d.obj].arr
            ctx.prove(st,z3.ULE(size,LIMIT),'a message longer than its length field can say is refused')
            ctx.prove(st,T64(st.g['#runs'])==ns,'all the subsets are encoded')
            S=ENC(b.f0,s.opt,no,s.dd,nd,z3.Extract(15,0,ns),s.R,case,size,kind)
            end=st.g.get(('data_end',))
            if not ctx.prove(st,end is not None,'pending bits are flushed'): return
            for w,g,v in S.parts(end): ctx.prove(st,z3.Implies(g,z3.Select(arr,K)==v),w)
            ctx.prove(st,z3.ULE(S.o5-end,1),'at most one byte of padding')
            ctx.prove(st,z3.And(z3.UGE(S.o5,S.d0),(S.o5&1)==0),'section 4 is padded to an even length')
        ctx.call([ret,b.p],post)
    def replay(s,c,v):
        if v['optlen']>1<<25 or v['nsub']>70000 or v['nsub']*v['ndesc']>200000 or v['ndesc']>5000: return None
        return ['encode_header',v['b_edition_number'],v['optlen'],v['nsub'],v['ndesc']]
class RoundTrip(Contract):
    """what encode() is specified to write is decoded (by the specification of C07) as the header of the bulletin"""
    name='encode / decode_header round trip'; search='encode_header'
    def cases(s): return [(e,k) for k in ('odd','even','none') for e in (3,4)]+[(2,'none')]
    def group(s): return 1
    def run(s,ctx,case):
        ed,kind=case; E=ctx.E; st=ctx.st; f={k:ctx.bv('b_'+k,8) for k in F8}; f.update({k:ctx.bv('b_'+k,16) for k in F16})
        no=ctx.bv('optlen',64); nd=ctx.bv('ndesc',64); ns=ctx.bv('nsub',64); L=ctx.bv('size',64); end=ctx.bv('data_end',64); D=ctx.arr('D',8); opt=ctx.arr('OPT',8); dd=ctx.arr('DD',8); R=ctx.arr('R',8); J=z3.BitVec('J',64)
        ctx.assume({'none':no==0,'even':z3.And(no!=0,(no&1)==0),'odd':(no&1)==1}[kind])
        ctx.assume(f['edition_number']==ed)
        for c in (z3.ULT(no,1<<24),z3.ULT(nd,1<<24),nd!=0,ns!=0,z3.ULE(ns,65535),z3.ULE(L,LIMIT)): ctx.assume(c)
        S=ENC(f,opt,no,dd,nd,z3.Extract(15,0,ns),R,ed,L,kind); ctx.assume(z3.And(z3.UGE(L,4),z3.UGE(S.o5,S.d0),z3.ULE(S.d0,end),z3.ULE(end,S.o5)))
        P=S.parts(end); o2=v64(S.o2)
        at=[(v64(i),'section 0') for i in range(len(S.head))]+([(o2+i,'section 2') for i in range(3)]+[(o2+4+J,'optional'),(o2+4+J,'padding of the opt')] if kind!='none' else [])+[(S.o3+i,'section 3') for i in range(7)]+[(S.o3+7+2*J,'desc'),(S.o3+8+2*J,'desc')]+[(S.o4+i,'section 4') for i in range(3)]+[(S.o5+i,'end') for i in range(4)]
        for t,pre in at:     # instances of the specification of encode
            for w,g,v in P:
                if not w.startswith(pre): continue
                g=z3.simplify(z3.substitute(g,(K,t)))
                if not z3.is_false(g): ctx.assume(z3.simplify(z3.Implies(g,z3.Select(D,t)==z3.substitute(v,(K,t)))))
        H=HEADER(ctx,D,L,ed)
        want=[v64(len(S.head)-8),S.n2,S.n3,S.o5-S.o4]
        for i,((w,g),x) in enumerate(zip(H.where,H.len24)):
            if i==1 and kind=='none': continue
            # the length field as read is the length of the section
            loc=[v64(8),v64(S.o2),S.o3,S.o4][i]
            ctx.prove(st,H.be(loc,3)==want[i],'length field of section %d'%(i+1)); st.assume(x==z3.Extract(23,0,want[i]))
        ctx.prove(st,z3.And(z3.ULT(want[1],1<<24),z3.ULT(want[2],1<<24),z3.ULT(want[3],1<<24)),'sections fit their length fields')
        ctx.prove(st,H.s3==S.o3,'section 3 starts there'); ctx.prove(st,H.s4==S.o4,'section 4 starts there'); ctx.prove(st,H.s5==S.o5,'section 5 starts there')
        for c in (H.s2==S.o2,H.s3==S.o3,H.s4==S.o4,H.s5==S.o5,H.n2==S.n2,H.n3==S.n3): st.assume(c)
        for i,c in enumerate([H.lead]+H.inside+H.sane): ctx.prove(st,c,'the encoded message is accepted (%d)'%i)
        for k,v in H.f.items():
            g=z3.BoolVal(True); want=f.get(k)
            if k=='compression': want=z3.BitVecVal(0,8); v=z3.If((z3.Select(D,S.o3+6)&0x40)!=0,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
            elif k=='edition_number': want=z3.BitVecVal(ed,8)
            elif ed!=4 and k in ('originating_centre','originating_subcentre'): g=z3.ULT(f[k],256)
            elif ed!=4 and k=='rep_year': g=z3.And(z3.UGE(f[k],1951),z3.ULE(f[k],2050))
            elif ed!=4 and k=='data_subcategory': continue
            ctx.prove(st,z3.Implies(g,v==want),'%s is decoded as it was'%k)
        ctx.prove(st,H.be(S.o3+4,2)==ns,'number of subsets is decoded as it was'); ctx.prove(st,z3.LShR(S.n3-7,1)==nd,'number of descriptors is decoded as it was')
        ctx.prove(st,z3.Implies(z3.ULT(J,nd),z3.And(z3.Select(D,S.o3+7+2*J)==z3.Select(dd,2*J+1),z3.Select(D,S.o3+8+2*J)==z3.Select(dd,2*J))),'descriptors are decoded as they were')
        if kind!='none':
            ctx.prove(st,S.n2-4==no+(no&1),'the optional section keeps its length, padded to even')
            ctx.prove(st,z3.Implies(z3.ULT(J,no),z3.Select(D,S.o2+4+J)==z3.Select(opt,J)),'the optional section is decoded as it was')
            ctx.prove(st,z3.Implies(z3.And(z3.UGE(J,no),z3.ULT(J,S.n2-4)),z3.Select(D,S.o2+4+J)==0),'padded with zeros')
        for i in range(4): ctx.prove(st,z3.Select(D,S.o5+i)==0x37,'end section')
CONTRACTS=[Encode(),RoundTrip()]
