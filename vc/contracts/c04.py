"""C04: text and opaque values."""
from .varlib import *
from .varobj import *
SRCS=['var.cc','varinfo.cc','options.cc','error.cc','buffers/bufr.cc','bufr/input.cc']
INST=['layout.cc','bits.cc']
ASSUMPTIONS=['fields shorter than 2^20 characters','C locale (isspace)','Input::get_bits used by its C01 contract']

class TEXT:
    """a C string argument in an object of N+1 bytes whose first NUL is at P <= N"""
    def __init__(s,ctx,pre='',slack=True):
        s.P=ctx.bv(pre+'strlen',64); s.N=ctx.bv(pre+'size',64) if slack else s.P
        s.V=ctx.arr(pre+'V',24); ctx.assume(z3.And(z3.ULE(s.P,s.N),z3.ULT(s.N,1<<30)))
        s.p=ctx.bytesobj(pre+'text',s.V,s.N+1,ro=True,tag=('cstr',s.P))

class SetText(Contract):
    """the first `len` characters are kept, up to the end of the text, always terminated"""
    search='text'
    def __init__(s,how):
        s.how=how; s.name='Var::%s (text)'%how
        s.fn={'setc':r'^wreport::Var::setc\(char const\*\)','sets':r'^wreport::Var::sets\(','setc_truncate':r'^wreport::Var::setc_truncate\(char const\*\)','setf':r'^wreport::Var::setf\(char const\*\)','setval':r'^wreport::Var::setval\(wreport::Var const&\)'}[how]
    def cases(s): return [0,1]
    def run(s,ctx,alloc):
        E=ctx.E; v=BUFVAR(ctx,STRING,alloc)
        if s.how=='setval':
            src=BUFVAR(ctx,STRING,1,'src'); L=ctx.bv('strlen',64); ctx.assume(z3.ULE(L,src.len64)); ctx.st.mem[src.buf0.obj].tag=('cstr',L); arg=src.p; V=src.B
        else:
            t=TEXT(ctx); L=t.P; V=t.V; arg=t.p
            if s.how=='sets':
                arg=E.alloc(ctx.st,'string',32); E.store(ctx.st,PTR,t.p,arg); E.store(ctx.st,I64,t.N,arg.plus(8))
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            unset=z3.BoolVal(False)
            if s.how=='setf': unset=L==0
            if s.how=='setval': unset=src.isset0==0
            u=st.fork(); u.assume(unset)
            if ctx.E.feasible(u): ctx.prove(u,v.isset(u)==0,'nothing to set leaves the variable unset')
            st.assume(z3.Not(unset))
            if not ctx.E.feasible(st): return
            ctx.prove(st,v.isset(st)==1,'the variable is set')
            a=v.check_buf(o)
            if a is None: return
            n=umin(L,v.len64)
            ctx.prove(st,z3.Implies(z3.ULT(K,n),z3.Select(a,K)==z3.Select(V,K)),'keeps every character up to the declared length')
            ctx.prove(st,z3.Select(a,n)==0,'is terminated after the last character kept')
            if v.buf0.obj: ctx.prove(st,v.buf(st).obj==v.buf0.obj,'reuses the buffer of the variable')
        if s.how=='setval': ctx.call([v.p,arg],post)
        else: ctx.call([v.p,arg],post)
    def replay(s,c,v):
        if s.how=='setval' or v['len']>4096 or v.get('size',0)>4096: return None
        return ['set_text',s.how,c,v['len'],''.join('%02x'%b for b in (v['V']+[65]*5000)[:min(v['strlen'],5000)]) or '-']

class SetBinary(Contract):
    """opaque values keep their bits, masked to the declared number of bits"""
    search='text'
    def __init__(s,how): s.how=how; s.name='Var::%s (opaque)'%how; s.fn=SetText(how).fn
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h):
        v=s.v; out=[]
        def arr(w):
            p=v.get(w.st,'m_value',PTR); return w.st.mem[p.obj].arr
        for k in keys:
            out.append(('zero filled up to %s'%(k,),lambda w,k=k:z3.Implies(z3.And(z3.UGE(K,s.N),z3.ULT(K,w.term(k)),z3.ULT(K,v.len64)),z3.Select(arr(w),K)==0)))
            out.append(('%s in field'%(k,),lambda w,k=k:z3.And(z3.UGE(w.term(k),s.N),z3.ULE(w.term(k),v.len64))))
        out.append(('copied part kept',lambda w:z3.Implies(z3.ULT(K,s.N),z3.Select(arr(w),K)==z3.Select(s.V,K))))
        return out
    def cases(s): return [0,1]
    def run(s,ctx,alloc):
        E=ctx.E; v=BUFVAR(ctx,BINARY,alloc); inf=v.info
        N=ctx.bv('size',64); V=ctx.arr('V',24); ctx.assume(z3.ULT(N,1<<30))
        if s.how=='sets':
            tp=ctx.bytesobj('text',z3.Store(V,N,z3.BitVecVal(0,8)),N+1,ro=True); V=z3.Store(V,N,z3.BitVecVal(0,8))
            arg=E.alloc(ctx.st,'string',32); E.store(ctx.st,PTR,tp,arg); E.store(ctx.st,I64,N,arg.plus(8))
        else:
            ctx.assume(z3.UGE(N,v.len64)); arg=ctx.bytesobj('text',V,N,ro=True)
        s.v=v; s.N=N; s.V=V
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,v.isset(st)==1,'the variable is set')
            a=v.check_buf(o)
            if a is None: return
            L=v.len64; r=z3.Extract(7,0,inf.bit_len)&7
            msk=z3.If(r==0,z3.BitVecVal(255,8),(z3.BitVecVal(1,8)<<r)-1)
            want=z3.If(z3.ULT(K,N),z3.Select(V,K)&z3.If(K==L-1,msk,z3.BitVecVal(255,8)),z3.BitVecVal(0,8))
            ctx.prove(st,z3.Implies(z3.ULT(K,L),z3.Select(a,K)==want),'keeps every bit of the field, zero filled')
        ctx.call([v.p,arg],post)
    def replay(s,c,v):
        if v['bit_len']>8000 or v['size']>1000: return None
        return ['set_binary',s.how,c,v['bit_len'],''.join('%02x'%b for b in (v['V']+[165]*1000)[:v['size']]) or '-']

def digits_lemma(ctx,st,dg,x):
    """the same statement over the integers, from the remainders the code computed: each group of digits
    proved equal to a remainder (bit-vectors) becomes a linear integer fact"""
    I={}
    def n(t):
        if t.get_id() not in I: I[t.get_id()]=(t,z3.Int('n%d'%len(I)))
        return I[t.get_id()][1]
    D=[z3.Int('d%d'%j) for j in range(len(dg))]
    ist=State(); nx=n(x)
    rem=[]
    for k,q in list(st.g.items()):
        if isinstance(k,tuple) and k[0]=='divmod':
            bx,qq,m=q
            ist.assume(n(bx)==k[2]*n(qq)+n(m)); rem+=[qq,m,bx]
            if not bx.eq(x) and ctx.E.must(st,bx==x): ist.assume(n(bx)==nx)
    rem.append(x)
    z=lambda b:z3.ZeroExt(24,b-48)
    for w in (1,2):
        for j in range(0,len(dg)-w+1):
            val=z3.BitVecVal(0,32); vi=z3.IntVal(0)
            for q in range(j,j+w): val=val*10+z(dg[q]); vi=vi*10+D[q]
            for r in rem:
                if ctx.E.must(st,val==r): ist.assume(vi==n(r))
    tot=z3.IntVal(0)
    for d in D: tot=tot*10+d
    if ctx.E.solve(list(ist.pc)+[tot!=nx])[0]!='unsat': return False
    return ctx.prove(ist,tot==nx,'the digits are those of the number')
class EnqC(Contract):
    """numbers read as text are their exact decimal digits"""
    search='numtext'; opts={'divfresh':True,'tls_init':True}
    def __init__(s,which): s.which=which; s.name='Var::enq%s (numeric)'%which; s.fn=r'^wreport::Var::enq%s(\[abi:cxx11\])?\(\) const'%which
    def cases(s): return [(t,d,neg) for t in (INTEGER,) for d in range(1,11) for neg in (0,1)]+[(DECIMAL,3,0)]
    def group(s): return 1
    def run(s,ctx,case):
        t,nd,neg=case; E=ctx.E
        inf=VINFO(ctx,t,2 if t==DECIMAL else 0,rng=False); v=VAR(ctx,inf)
        lo,hi=(10**(nd-1) if nd>1 else 0),min(10**nd-1,2**31-1)
        x=v.i0
        if neg: lo=max(lo,1); ctx.assume(z3.And(x<=-lo,x>=-(hi+(1 if nd==10 else 0))))
        else: ctx.assume(z3.And(x>=lo,x<=hi))
        out=E.alloc(ctx.st,'result',32) if s.which=='s' else None
        def post(o):
            st=o.st
            if o.kind=='throw':
                ctx.prove(st,z3.And(v.isset0==0,z3.BoolVal(o.exc.typ==wr_err('error_notfound'))),'only an unset variable is refused, as not found'); return
            ctx.prove(st,v.isset0==1,'unset variables are refused')
            if s.which=='s':
                d,n=str_get(E,st,out); ctx.prove(st,T64(n)==nd+neg,'has exactly the digits and sign of the number')
            else: d=o.val
            if not ctx.prove(st,isinstance(d,Ptr) and d.obj!=0,'returns text'): return
            bs=[tobv(E.load(st,I8,d.plus(j)),8) for j in range(nd+neg+(0 if s.which=='s' else 1))]
            if neg: ctx.prove(st,bs[0]==45,'negative numbers start with a minus sign')
            if s.which=='c': ctx.prove(st,bs[-1]==0,'is terminated')
            dg=bs[neg:neg+nd]
            for b in dg: ctx.prove(st,z3.And(z3.UGE(b,48),z3.ULE(b,57)),'every character is a digit')
            if digits_lemma(ctx,st,dg,z3.simplify(-x) if neg else x): return
            tot=z3.BitVecVal(0,40)
            for b in dg: tot=tot*10+z3.ZeroExt(32,b-48)
            ctx.prove(st,tot==z3.ZeroExt(8,-x if neg else x),'the digits are those of the number')
        ctx.call(([out] if out else [])+[v.p],post)
    def replay(s,c,v): return ['enq_text',v['v_i']] if v['v_isset'] else None


# ---------------------------------------------------------------- reading the buffer back
class EnqText(Contract):
    search='text'
    def __init__(s,which,t): s.which=which; s.t=t; s.name='Var::enq%s (%s)'%(which,TYPES[t]); s.fn=EnqC(which).fn
    def run(s,ctx,case):
        E=ctx.E; v=BUFVAR(ctx,s.t,1); L=ctx.bv('strlen',64); ctx.assume(z3.ULE(L,v.len64)); ctx.assume(z3.Select(v.B,L)==0)
        if s.t==STRING: ctx.st.mem[v.buf0.obj].tag=('cstr',L)
        out=E.alloc(ctx.st,'result',32) if s.which=='s' else None
        def post(o):
            st=o.st
            if o.kind=='throw':
                ctx.prove(st,z3.And(v.isset0==0,z3.BoolVal(o.exc.typ==wr_err('error_notfound'))),'only an unset variable is refused, as not found'); return
            ctx.prove(st,v.isset0==1,'unset variables are refused')
            if s.which=='c':
                ctx.prove(st,isinstance(o.val,Ptr) and o.val.obj==v.buf0.obj and isc(norm(o.val.off)) and norm(o.val.off)==0,'returns the text stored in the variable'); return
            d,n=str_get(E,st,out); n=T64(n)
            ctx.prove(st,n==(L if s.t==STRING else v.len64),'has the length of the stored value')
            from ..lib import bytes_obj
            a=bytes_obj(E,st,d).arr
            ctx.prove(st,z3.Implies(z3.ULT(K,n),z3.Select(a,K)==z3.Select(v.B,K)),'every byte is that of the stored value')
        ctx.call(([out] if out else [])+[v.p],post)

# ---------------------------------------------------------------- decoding
class STREAM:
    """bits left to read, T of them: S is the message realigned so that the read position is bit 0"""
    def __init__(s,ctx,allmissing=False):
        s.S=ctx.arr('S',40); s.T=ctx.bv('bits_left',64); ctx.assume(z3.ULT(s.T,1<<40))
        ctx.st.g['#rd']=z3.BitVecVal(0,64); s.ctx=ctx; s.hyp=None
        ctx.E.opts['stream']=s
    def byte(s,i): return z3.Select(s.S,i)
def rd_bits(E,st,a,ins):
    """contract of Input::get_bits (C01) on the realigned stream"""
    s=E.opts['stream']; n=tobv(a[1],32)
    E.prove(st,z3.ULE(n,32),E.cname()+'call get_bits: at most 32 bits requested'); st.assume(z3.ULE(n,32))
    p=T64(st.g['#rd']); n64=z3.ZeroExt(32,n)
    ok=z3.ULE(p+n64,s.T)
    c=z3.LShR(p,3); bs=[s.byte(c+j) for j in range(5)]
    if s.hyp: 
        for j in range(4): st.assume(z3.Implies(z3.ULT(8*j,n64),s.hyp(c+j)))
    x=z3.Concat(*bs)<<z3.ZeroExt(32,z3.Extract(7,0,p&7)); r=z3.Extract(31,0,z3.LShR(x,z3.Extract(39,0,40-n64)))
    t=st.fork(); t.assume(z3.Not(ok)); st.assume(ok); st.g['#rd']=z3.simplify(p+n64)
    out=[]
    if E.feasible(st): out.append((st,z3.simplify(r)))
    if E.feasible(t): out.append((t,Thrown(wr_err('error_parse'),info='eof')))
    return Multi(out)
R_rd=(r'^wreport::bufr::Input::get_bits\(',rd_bits)
def is_pad(b): return z3.Or(b==0,b==32,z3.And(z3.UGE(b,9),z3.ULE(b,13)))
def gone(b): return z3.Or(b==0,b==255)
class DecodeString(Contract):
    """the characters of the field without trailing padding; missing when all are NUL or all ones"""
    name='Input::decode_string(bits, char*)'; fn=r'^wreport::bufr::Input::decode_string\(unsigned int, char\*, unsigned long&\)'; search='text'
    uses=[R_rd]; opts={'strides':(1,8)}
    def cases(s): return ['present','missing']
    def group(s): return 1
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('bits',s.BL),('bytes',s.NB)]
    def cands(s,E,entry,keys,fn,h):
        S=s.s; W=('g','#rd'); out=[]; A=lambda w:w.st.mem[s.buf.obj].arr; NB=s.NB
        ks=list(keys)
        for k in ks:
            out.append(('8*%s == rd'%(k,),lambda w,k=k:8*w.term(k)==w.term(W)))
            out.append(('bits - %s == rd'%(k,),lambda w,k=k:s.BL-w.term(k,True)==w.term(W)))
            out.append(('read bytes stored, %s'%(k,),lambda w,k=k:z3.Implies(z3.ULT(K,w.term(k)),z3.Select(A(w),K)==S.byte(K))))
            out.append(('blank after %s'%(k,),lambda w,k=k:z3.Implies(z3.And(z3.UGE(K,w.term(k)),z3.ULE(K,NB)),z3.Select(A(w),K)==0)))
            out.append(('terminated at %s'%(k,),lambda w,k=k:z3.Select(A(w),w.term(k))==0))
            out.append(('padding after %s'%(k,),lambda w,k=k:z3.Implies(z3.And(z3.UGE(K,w.term(k)),z3.ULT(K,NB)),is_pad(S.byte(K)))))
            out.append(('%s in field'%(k,),lambda w,k=k:z3.And(z3.UGE(w.term(k),1),z3.ULE(w.term(k),NB))))
            out.append(('while %s, all gone'%(k,),lambda w,k=k:z3.Implies(z3.And(w.term(k)!=0,z3.ULT(K,z3.LShR(w.term(W),3))),gone(S.byte(K)))))
            out.append(('while not %s, all gone'%(k,),lambda w,k=k:z3.Implies(z3.And(w.term(k)==0,z3.ULT(K,z3.LShR(w.term(W),3))),gone(S.byte(K)))))
            out.append(('%s set'%(k,),lambda w,k=k:w.term(k)!=0)); out.append(('%s clear'%(k,),lambda w,k=k:w.term(k)==0))
        out.append(('rd <= bits',lambda w:z3.ULE(w.term(W),s.BL)))
        out.append(('rd whole bytes',lambda w:(w.term(W)&7)==0))
        return out
    def run(s,ctx,case):
        E=ctx.E; bl=ctx.bv('bit_len',32); ctx.assume(z3.And(z3.ULT(bl,1<<23),(bl&7)==0,z3.UGE(bl,8)))
        s.s=S=STREAM(ctx); s.BL=z3.ZeroExt(32,bl); s.NB=NB=z3.LShR(s.BL,3)
        if case=='missing': S.hyp=lambda i:gone(S.byte(i))
        s.buf=ctx.bytesobj('str',ctx.arr('B0',8),NB+2)
        ip=E.alloc(ctx.st,'Input',off(E,'Input'),lazy=True); lp=E.alloc(ctx.st,'len',8,lazy=True); E.store(ctx.st,I64,ctx.bv('len0',64),lp)
        def post(o):
            st=o.st
            if o.kind=='throw':
                ctx.prove(st,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_parse')),z3.ULT(S.T,s.BL)),'refused only when the message ends inside the field'); return
            ctx.prove(st,T64(st.g['#rd'])==s.BL,'reads exactly the field')
            r=tobv(zext(o.val,1,8) if not isc(o.val) else o.val,8)!=0
            if case=='missing': ctx.prove(st,z3.Not(r),'a field of all NULs or all ones is missing'); return
            ctx.prove(st,z3.Implies(z3.And(z3.Not(r),z3.ULT(K,NB)),gone(S.byte(K))),'only such a field is missing')
            st.assume(r)
            if not E.feasible(st): return
            n=T64(E.load(st,I64,lp)); a=st.mem[s.buf.obj].arr
            ctx.prove(st,z3.And(z3.UGE(n,1),z3.ULE(n,NB)),'the length is within the field')
            ctx.prove(st,z3.Implies(z3.ULT(K,n),z3.Select(a,K)==S.byte(K)),'keeps the characters of the field')
            ctx.prove(st,z3.Implies(z3.And(z3.UGE(K,n),z3.ULT(K,NB)),is_pad(S.byte(K))),'drops only trailing blanks')
            ctx.prove(st,z3.Select(a,n)==0,'is terminated')
            ctx.prove(st,z3.Implies(z3.And(z3.UGT(n,1),K==n-1),z3.Not(is_pad(S.byte(K)))),'drops all trailing blanks')
        ctx.call([ip,bl,s.buf,lp],post)
    def replay(s,c,v):
        if v['bit_len']>320: return None
        return ['decode_text',v['bit_len'],v['bits_left'] if v['bits_left']<v['bit_len'] else v['bit_len'],''.join('%02x'%b for b in v['S'])]

def sum_decode_string(E,st,a,ins):
    """contract of decode_string(bits,char*,len&) as proved above"""
    bl=tobv(a[1],32); BL=z3.ZeroExt(32,bl); NB=z3.LShR(BL,3); S=E.opts['stream']
    E.prove(st,z3.And((bl&7)==0,z3.UGE(bl,8)),E.cname()+'call decode_string: whole characters')
    from ..lib import span_check,bytes_obj
    span_check(E,st,a[2],z3.simplify(NB+1),'decode_string buffer')
    p=z3.LShR(T64(st.g['#rd']),3); al=(T64(st.g['#rd'])&7)==0
    E.prove(st,al,E.cname()+'reads at the start of the field')
    q=len(st.g.get(('strs',),()))
    miss=z3.Bool('missing%d'%q); n=E.fresh('trimmed',64); L=E.fresh('strlen',64)
    ok=z3.ULE(T64(st.g['#rd'])+BL,S.T)
    t=st.fork(); t.assume(z3.Not(ok)); st.assume(ok); st.g['#rd']=z3.simplify(T64(st.g['#rd'])+BL)
    bytes_obj(E,st,a[2]); w=st.wobj(a[2].obj); E.fcount+=1
    w.arr=z3.Array('str!%d'%E.fcount,z3.BitVecSort(64),z3.BitVecSort(8)); w.tag=('cstr',L)
    st.assume(z3.And(z3.UGE(n,1),z3.ULE(n,NB),z3.ULE(L,n),z3.Select(w.arr,L)==0))
    st.assume(z3.Implies(z3.ULT(K,n),z3.Select(w.arr,K)==S.byte(p+K)))
    E.store(st,I64,n,a[3])
    st.g[('strs',)]=st.g.get(('strs',),())+((p,BL,miss,n,L),)
    return Multi([(st,z3.If(miss,z3.BitVecVal(0,1),z3.BitVecVal(1,1)) if False else z3.Not(miss)),(t,Thrown(wr_err('error_parse'),info='eof'))])
R_ds=(r'^wreport::bufr::Input::decode_string\(unsigned int, char\*, unsigned long&\)',sum_decode_string)

class DecodeStringVar(Contract):
    name='Input::decode_string(Var&)'; fn=r'^wreport::bufr::Input::decode_string\(wreport::Var&\)'; search='text'
    uses=[R_ds]
    def run(s,ctx,case):
        E=ctx.E; v=BUFVAR(ctx,STRING,0); inf=v.info; S=STREAM(ctx)
        ctx.assume(z3.And((inf.bit_len&7)==0,z3.UGE(inf.bit_len,8),z3.ULT(inf.bit_len,8*MAXLEN)))
        ip=E.alloc(ctx.st,'Input',off(E,'Input'),lazy=True); BL=z3.ZeroExt(32,inf.bit_len)
        def post(o):
            st=o.st
            if o.kind=='throw':
                ctx.prove(st,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_parse')),z3.ULT(S.T,BL)),'refused only when the message ends inside the field'); return
            rs=st.g.get(('strs',),())
            if not ctx.prove(st,len(rs)==1,'one field is read'): return
            p,bl,miss,n,L=rs[0]
            ctx.prove(st,bl==BL,'reads the width of the field')
            ctx.prove(st,(v.isset(st)==1)==z3.Not(miss),'set exactly when the field is not missing')
            st.assume(z3.Not(miss))
            if not E.feasible(st): return
            a=v.check_buf(o)
            if a is None: return
            m=umin(L,v.len64)
            ctx.prove(st,z3.Implies(z3.ULT(K,m),z3.Select(a,K)==S.byte(K)),'the variable holds the characters of the field')
            ctx.prove(st,z3.Select(a,m)==0,'the text is terminated')
        ctx.call([ip,v.p],post)

class DecodeBinaryVar(Contract):
    """opaque fields keep their bits; all ones is missing"""
    name='Input::decode_binary(Var&)'; fn=r'^wreport::bufr::Input::decode_binary\('; search='text'
    uses=[R_rd]; opts={'strides':(1,8)}
    def cases(s): return ['present','missing']
    def group(s): return 1
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('bits',s.BL),('bytes',s.v.len64)]
    def spec(s,i):
        """byte i of the value: 8 bits of the message, or the remaining low bits"""
        rem=s.BL-8*i; b=s.s.byte(i)
        return z3.If(z3.UGE(rem,8),b,z3.LShR(b,z3.Extract(7,0,8-rem)))
    def full(s,i):
        rem=s.BL-8*i
        return z3.If(z3.UGE(rem,8),z3.BitVecVal(255,8),(z3.BitVecVal(1,8)<<z3.Extract(7,0,rem))-1)
    def cands(s,E,entry,keys,fn,h):
        W=('g','#rd'); out=[]
        def bufs(w): return [o for o in w.st.mem if w.st.mem[o].mode=='bytes' and w.st.mem[o].alive and not w.st.mem[o].ro]
        for k in list(keys):
            out.append(('8*%s == rd or done'%(k,),lambda w,k=k:z3.Or(8*w.term(k)==w.term(W),z3.And(w.term(W)==s.BL,w.term(k)==s.v.len64))))
            out.append(('bits - %s == rd'%(k,),lambda w,k=k:s.BL-w.term(k)==w.term(W)))
            for o in bufs(entry):
                out.append(('read bytes stored, %s %s'%(k,o),lambda w,k=k,o=o:z3.Implies(z3.And(z3.ULT(K,w.term(k)),z3.ULT(K,s.v.len64)),z3.Select(w.st.mem[o].arr,K)==s.spec(K))))
            out.append(('%s in field'%(k,),lambda w,k=k:z3.ULE(w.term(k),s.v.len64)))
            for pol in (0,1):
                g=lambda w,k=k,pol=pol:(w.term(k)!=0) if pol else (w.term(k)==0)
                out.append(('while %s is %d, all ones'%(k,pol),lambda w,g=g:z3.Implies(z3.And(g(w),z3.ULT(K,z3.LShR(w.term(W)+7,3))),s.spec(K)==s.full(K))))
                out.append(('%s is %d'%(k,pol),lambda w,g=g:g(w)))
        out.append(('rd <= bits',lambda w:z3.ULE(w.term(W),s.BL)))
        out.append(('rd whole bytes or done',lambda w:z3.Or((w.term(W)&7)==0,w.term(W)==s.BL)))
        return out
    def run(s,ctx,case):
        E=ctx.E; s.v=v=BUFVAR(ctx,BINARY,0); inf=v.info; s.s=S=STREAM(ctx); s.BL=z3.ZeroExt(32,inf.bit_len)
        if case=='missing': S.hyp=lambda i:s.spec(i)==s.full(i)
        ip=E.alloc(ctx.st,'Input',off(E,'Input'),lazy=True)
        def post(o):
            st=o.st
            if o.kind=='throw':
                ctx.prove(st,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_parse')),z3.ULT(S.T,s.BL)),'refused only when the message ends inside the field'); return
            ctx.prove(st,T64(st.g['#rd'])==s.BL,'reads exactly the field')
            if case=='missing': ctx.prove(st,v.isset(st)==0,'a field of all ones is missing'); return
            u=st.fork(); u.assume(v.isset(u)==0)
            if E.feasible(u): ctx.prove(u,z3.Implies(z3.ULT(K,v.len64),s.spec(K)==s.full(K)),'only a field of all ones is missing')
            st.assume(v.isset(st)==1)
            if not E.feasible(st): return
            a=v.check_buf(o)
            if a is None: return
            ctx.prove(st,z3.Implies(z3.ULT(K,v.len64),z3.Select(a,K)==s.spec(K)),'keeps every bit of the field')
        ctx.call([ip,v.p],post)
    def replay(s,c,v):
        if v['bit_len']>320: return None
        return ['decode_opaque',v['bit_len'],v['bits_left'] if v['bits_left']<v['bit_len'] else v['bit_len'],''.join('%02x'%b for b in v['S'])]

# ---------------------------------------------------------------- encoding
def emit(kind):
    def f(E,st,a,ins):
        st.g[('emit',)]=st.g.get(('emit',),())+((kind,a[1],tobv(a[-1],32)),); return 0
    return f
class AppendText(Contract):
    search='text'
    uses=[(r'^wreport::buffers::BufrOutput::append_string\(char const\*, unsigned int\)',emit('string')),(r'^wreport::buffers::BufrOutput::append_binary\(',emit('binary')),(r'^wreport::buffers::BufrOutput::append_missing\(unsigned int\)',emit('missing'))]
    def __init__(s,t): s.t=t; s.name='BufrOutput::append_var (%s)'%TYPES[t]; s.fn=r'^wreport::buffers::BufrOutput::append_var\('
    def run(s,ctx,case):
        E=ctx.E; v=BUFVAR(ctx,s.t,1); tgt=VINFO(ctx,s.t,0,rng=False,pre='target_'); b=BO(ctx,0)
        def post(o):
            st=o.st; em=st.g.get(('emit',),())
            if o.kind=='throw': ctx.prove(st,False,'does not throw'); return
            if not ctx.prove(st,len(em)==1,'exactly one field is written'): return
            kind,p,n=em[0]
            ctx.prove(st,n==tgt.bit_len,'the field has its full width')
            if kind=='missing': ctx.prove(st,v.isset0==0,'only unset variables are written as missing'); return
            ctx.prove(st,v.isset0==1,'unset variables are written as missing')
            ctx.prove(st,kind==('string' if s.t==STRING else 'binary') and isinstance(p,Ptr) and p.obj==v.buf0.obj and norm(p.off)==0,'writes the stored value')
        ctx.call([b.p,tgt.p,v.p],post)

def sum_enqs(E,st,a,ins):
    """contract of Var::enqs (C04): the stored text (bytes, for opaque values)"""
    c=E.ctx.con
    d=str_new(E,st,a[0],c.R,c.N); st.wobj(d.obj).tag=('cstr',c.P)
    return 0
class SetValMixed(Contract):
    """a text or opaque variable set from another variable takes its text (or bytes), inside bounds"""
    name='Var::setval (text or opaque from any type)'; fn=r'^wreport::Var::setval\(wreport::Var const&\)'; search='text'
    uses=[(r'^wreport::Var::enqs(\[abi:cxx11\])?\(\) const',sum_enqs)]
    def cases(s): return [(a,b,al) for a in (STRING,BINARY) for b in TY for al in (0,1)]
    def cut(s,dem,h): return 'setval' in dem or 'assign' in dem or 'sets' in dem
    def cands(s,E,entry,keys,fn,h):
        v=s.v; out=[]
        def arr(w): return w.st.mem[v.bufp(w.st).obj].arr
        for k in keys:
            out.append(('zero filled up to %s'%(k,),lambda w,k=k:z3.Implies(z3.And(z3.UGE(K,s.N),z3.ULT(K,w.term(k)),z3.ULT(K,v.len64)),z3.Select(arr(w),K)==0)))
            out.append(('%s in field'%(k,),lambda w,k=k:z3.And(z3.UGE(w.term(k),s.N),z3.ULE(w.term(k),v.len64))))
        out.append(('copied part kept',lambda w:z3.Implies(z3.ULT(K,s.N),z3.Select(arr(w),K)==z3.Select(s.R,K))))
        return out
    def run(s,ctx,case):
        t,t2,al=case; E=ctx.E; s.v=v=OVAR(ctx,'dst',t,0,alloc=al); src=OVAR(ctx,'src',t2,0); inf=v.info
        s.N=ctx.bv('N',64); s.P=ctx.bv('P',64); s.R=ctx.arr('R',24); ctx.assume(z3.And(z3.ULT(s.N,1<<20),z3.ULE(s.P,s.N)))
        def post(o):
            st=o.st
            if o.kind!='ret': ctx.prove(st,False,'does not throw'); return
            ctx.prove(st,v.isset(st)==src.isset0,'set exactly when the source is')
            st.assume(src.isset0==1)
            if not E.feasible(st): return
            p=v.bufp(st)
            if not ctx.prove(st,p is not None and p.obj!=0 and st.mem[p.obj].alive,'has a buffer'): return
            a=bytes_obj(E,st,p).arr; L=v.len64
            if t==STRING:
                n=z3.If(z3.ULT(s.P,L),s.P,L)
                ctx.prove(st,z3.Implies(z3.ULT(K,n),z3.Select(a,K)==z3.Select(s.R,K)),'keeps every character up to the declared length'); ctx.prove(st,z3.Select(a,n)==0,'is terminated')
            else:
                r=z3.Extract(7,0,inf.bit_len)&7
                msk=z3.If(r==0,z3.BitVecVal(255,8),(z3.BitVecVal(1,8)<<r)-1)
                want=z3.If(z3.ULT(K,s.N),z3.Select(s.R,K)&z3.If(K==L-1,msk,z3.BitVecVal(255,8)),z3.BitVecVal(0,8))
                ctx.prove(st,z3.Implies(z3.ULT(K,L),z3.Select(a,K)==want),'keeps every bit of the field, zero filled')
            check_src_intact(ctx,st,src)
        ctx.call([v.p,src.p],post)
CONTRACTS=[SetValMixed()]+[SetText(h) for h in ('setc','sets','setc_truncate','setf')]+[SetBinary(h) for h in ('setc','sets')]+[EnqC('c'),EnqC('s'),EnqText('c',STRING),EnqText('c',BINARY),EnqText('s',STRING),EnqText('s',BINARY),DecodeString(),DecodeStringVar(),DecodeBinaryVar(),AppendText(STRING),AppendText(BINARY)]
