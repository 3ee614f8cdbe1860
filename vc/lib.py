"""Assumed contracts for the C/C++ runtime (trusted; listed in the evidence)."""
import z3, re
from .engine import *
from . import floats as F

STUBS=[]
def stub(rx):
    def d(f):
        STUBS.append((re.compile(rx),f)); return f
    return d
BV64=z3.BitVecSort(64); BV8=z3.BitVecSort(8)
def v64(x): return z3.BitVecVal(x,64)
def T64(x): return tobv(x,64)

# ------------------------------------------------------------ helpers
def bytes_obj(E,st,p):
    o=st.mem[p.obj]
    if o.mode=='cells': o=E.tobytes(st,o)
    return o
def span_check(E,st,p,n,what):
    """[p, p+n) lies inside its object"""
    if isc(n) and n==0: return
    if p.obj==0:
        if isc(n): E.fail_path(st,'memory-safety: %s through null pointer'%what)
        if E.prove(st,T64(n)==0,E.cname()+'memory-safety: %s through null pointer'%what,'memory'): return
        raise PathEnd('null')
    o=st.mem[p.obj]
    if not o.alive: E.fail_path(st,'memory-safety: %s of freed object %s'%(what,o.name))
    if isc(n) and isinstance(p.off,int) and isinstance(o.size,int):
        off=p.off-(1<<64) if p.off>>63 else p.off
        if off<0 or off+n>o.size: E.fail_path(st,'memory-safety: %s of %d bytes at offset %d of %s (size %d)'%(what,n,off,o.name,o.size))
        return
    off=Lin.of(p.off).bv(); sz=T64(o.size); N=T64(n)
    cond=z3.Or(N==0,z3.And(z3.ULE(N,sz),z3.ULE(off,sz-N)))
    if not E.prove(st,cond,E.cname()+'memory-safety: %s of %s in bounds'%(what,o.name),'memory'):
        st.assume(cond)
        if not E.feasible(st): raise PathEnd('oob')
def copy_bytes(E,st,dst,src,n,what='copy'):
    if isc(n) and n==0: return
    span_check(E,st,src,n,what+' source'); span_check(E,st,dst,n,what+' destination')
    if not isc(n) and E.must(st,T64(n)==0): return
    if not isc(n) and (src.obj==0 or dst.obj==0): return   # length proved zero
    so=st.mem[src.obj]; do=st.mem[dst.obj]
    if isc(n) and n<=4096 and isinstance(src.off,int) and isinstance(dst.off,int) and so.mode=='cells' and do.mode=='cells':
        # structural copy
        if st.writes is not None: st.writes.append((dst.obj,dst.off,n)) if n in(1,2,4,8) else st.writes.extend((dst.obj,dst.off+i,1) for i in range(n))
        src_cells=[]
        i=0
        while i<n:
            c=so.cells.get(src.off+i)
            if c is not None and i+c[0]<=n: src_cells.append((i,c)); i+=c[0]
            else:
                cov=any((co in so.cells and co+so.cells[co][0]>src.off+i) for co in range(max(0,src.off+i-15),src.off+i+1))
                if cov or so.lazy:
                    v=E.rd(st,st.mem[src.obj],src.off+i,1,I8); src_cells.append((i,(1,v,'i')))
                i+=1
        w=st.wobj(dst.obj); E.clear_range(st,w,dst.off,n)
        for j in list(w.cells):
            if dst.off<=j<dst.off+n: del w.cells[j]
        for i,c in src_cells: w.cells[dst.off+i]=c
        return
    if isc(n) and so.mode=='rec' and do.mode=='cells' and isinstance(dst.off,int):   # one record, field by field
        i,f=E.recidx(so,src.off)
        if f+n<=so.stride:
            E.clear_range(st,st.wobj(dst.obj),dst.off,n)
            for g,(z,k,_) in sorted(so.fields.items()):
                if g+z<=f or g>=f+n: continue
                if g<f or g+z>f+n: raise Unsupported('copy of part of a field')
                ty=PTR if k=='p' else (F64 if k=='f' else ('i',8*z)); E.store(st,ty,E.rd(st,so,Lin.of(src.plus(g-f).off),z,ty),dst.plus(g-f))
            return
    sb=bytes_obj(E,st,src); sarr=sb.arr
    db=bytes_obj(E,st,dst); db=st.wobj(dst.obj)
    if st.writes is not None: st.writes.append((dst.obj,None,None))
    so_=Lin.of(src.off); do_=Lin.of(dst.off)
    if isc(n) and n<=64:
        vals=[z3.simplify(z3.Select(sarr,so_.add(Lin(i,{})).bv())) for i in range(n)]
        a=db.arr
        for i,v in enumerate(vals): a=z3.Store(a,do_.add(Lin(i,{})).bv(),v)
        db.arr=a; return
    db.arr=lam_copy(db.arr,do_.bv(),sarr,so_.bv(),T64(n))
def lam_copy(darr,doff,sarr,soff,n):
    i=z3.BitVec('li!',64)
    return z3.Lambda([i],z3.If(z3.ULT(i-doff,n),z3.Select(sarr,i-doff+soff),z3.Select(darr,i)))
def fill(E,st,dst,val,n,what='fill'):
    if isc(n) and n==0: return
    span_check(E,st,dst,n,what)
    if not isc(n) and dst.obj==0: return
    do=st.mem[dst.obj]
    if isc(n) and n<=4096 and isinstance(dst.off,int) and do.mode=='cells':
        w=st.wobj(dst.obj); E.clear_range(st,w,dst.off,n)
        i=0
        while i<n:
            z=8 if isc(val) and val==0 and (dst.off+i)%8==0 and i+8<=n else (4 if isc(val) and val==0 and (dst.off+i)%4==0 and i+4<=n else 1)
            w.cells[dst.off+i]=(z,0 if z>1 else val,'i')
            if st.writes is not None: st.writes.append((dst.obj,dst.off+i,z))
            i+=z
        return
    bytes_obj(E,st,dst); w=st.wobj(dst.obj)
    if st.writes is not None: st.writes.append((dst.obj,None,None))
    if isc(n) and n<=64:
        a=w.arr
        for i in range(n): a=z3.Store(a,Lin.of(dst.off).add(Lin(i,{})).bv(),tobv(val,8))
        w.arr=a; return
    i=z3.BitVec('li!',64)
    d=Lin.of(dst.off).bv()
    w.arr=z3.Lambda([i],z3.If(z3.ULT(i-d,T64(n)),tobv(val,8),z3.Select(w.arr,i)))

# ------------------------------------------------------------ LLVM intrinsics
@stub(r'^llvm\.(lifetime|dbg|invariant|experimental\.noalias|assume|donothing|prefetch|stacksave|stackrestore|va_end)')
def _nop(E,st,a,ins): return 0
@stub(r'^llvm\.va_start')
def _vas(E,st,a,ins): return 0
@stub(r'^llvm\.(memcpy|memmove)')
def _memcpy(E,st,a,ins): copy_bytes(E,st,a[0],a[1],norm(a[2])); return 0
@stub(r'^llvm\.memset')
def _memset(E,st,a,ins): fill(E,st,a[0],a[1],norm(a[2])); return 0
def norm(n): return n.norm() if isinstance(n,Lin) else n
@stub(r'^(memcpy|memmove)$')
def _memcpy2(E,st,a,ins): copy_bytes(E,st,a[0],a[1],norm(a[2])); return a[0]
@stub(r'^memset$')
def _memset2(E,st,a,ins): fill(E,st,a[0],cutv(a[1],32,8),norm(a[2])); return a[0]
def cutv(v,w,b):
    if isc(v): return v & mask(b)
    return cur_int(z3.simplify(z3.Extract(b-1,0,tobv(v,w))),b)
@stub(r'^llvm\.expect')
def _expect(E,st,a,ins): return a[0]
@stub(r'^llvm\.(u|s)(min|max)\.i(\d+)')
def _minmax(E,st,a,ins):
    m=re.search(r'llvm\.(u|s)(min|max)\.i(\d+)',ins.txt); w=int(m.group(3))
    p=('u' if m.group(1)=='u' else 's')+('lt' if m.group(2)=='min' else 'gt')
    c=E.icmp(st,p,('i',w),a[0],a[1])
    return E.select(st,tobool(c),('i',w),a[0],a[1])
@stub(r'^llvm\.abs\.i(\d+)')
def _iabs(E,st,a,ins):
    w=int(re.search(r'llvm\.abs\.i(\d+)',ins.txt).group(1))
    x=tobv(a[0],w); return cur_int(z3.simplify(z3.If(x<0,-x,x)),w)
@stub(r'^llvm\.ctlz\.i(\d+)')
def _ctlz(E,st,a,ins):
    w=int(re.search(r'llvm\.ctlz\.i(\d+)',ins.txt).group(1))
    if isc(a[0]): return w-a[0].bit_length()
    x=tobv(a[0],w); r=z3.BitVecVal(w,w)
    for i in range(w): r=z3.If(z3.Extract(i,i,x)==1,z3.BitVecVal(w-1-i,w),r)
    return r
@stub(r'^llvm\.fabs')
def _fabs(E,st,a,ins):
    x=a[0]
    if isinstance(x,float): return abs(x)
    return FV(z3.If(x.r>=0,x.r,-x.r),x.nan,x.inf)
@stub(r'^llvm\.(trap|ubsantrap)')
def _trap(E,st,a,ins): E.fail_path(st,'reachable trap')
@stub(r'^llvm\.threadlocal\.address')
def _tls(E,st,a,ins): return a[0]
@stub(r'^(thread-local wrapper routine for |TLS wrapper function for )')
def _tlw(E,st,a,ins): return E.glob(st,E._cur[2].replace('_ZTW','_Z',1))
@stub(r'^llvm\.eh\.typeid\.for')
def _tid(E,st,a,ins):
    m=re.search(r'ptr @([\w.]+)\)',ins.txt); return E.tid(m.group(1))
@stub(r'^llvm\.is\.fpclass')
def _fpclass(E,st,a,ins):
    k=a[1]; x=F.fv(a[0])
    c=[]
    if k&3: c.append(F.b(x.nan))
    if k&~3: raise Unsupported('fpclass')
    r=z3.simplify(z3.Or(*c))
    return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
@stub(r'^(llvm\.rint\.f64|rint|nearbyint)$')
def _rint(E,st,a,ins): return F.rint(E,st,a[0],'even')
@stub(r'^(llvm\.round\.f64|round)$')
def _round(E,st,a,ins): return F.rint(E,st,a[0],'away')
@stub(r'^(llvm\.floor\.f64|floor)$')
def _floor(E,st,a,ins): return F.rint(E,st,a[0],'floor')
@stub(r'^(llvm\.ceil\.f64|ceil)$')
def _ceil(E,st,a,ins): return F.rint(E,st,a[0],'ceil')
@stub(r'^(llvm\.trunc\.f64|trunc)$')
def _trunc(E,st,a,ins): return F.rint(E,st,a[0],'trunc')
@stub(r'^(llvm\.l?lround\.i64\.f64|llvm\.lround.*|lround|llround)$')
def _lround(E,st,a,ins):
    r=F.rint(E,st,a[0],'away'); return F.fcast(E,st,'fptosi',F64,r,I64)
@stub(r'^(lrint|llrint)$')
def _lrint(E,st,a,ins):
    r=F.rint(E,st,a[0],'even'); return F.fcast(E,st,'fptosi',F64,r,I64)
@stub(r'^pow$|^double std::pow<|^std::pow\(')
def _pow(E,st,a,ins):
    import math
    if isinstance(a[0],float) and isc(a[1]): return math.pow(a[0],a[1]-(1<<32) if a[1]>>31 else a[1])
    if isinstance(a[0],float) and isinstance(a[1],float): return math.pow(a[0],a[1])
    raise Unsupported('symbolic pow')
@stub(r'^fabs$')
def _fabs2(E,st,a,ins): return _fabs(E,st,a,ins)
@stub(r'^std::isnan\(double\)$')
def _isnan(E,st,a,ins):
    x=F.fv(a[0]); return int(x.nan) if isinstance(x.nan,bool) else x.nan

# ------------------------------------------------------------ C library
def cstr_len(E,st,p,what='strlen'):
    """length of the NUL-terminated string at p.  Object contents decide it when
    concrete, otherwise the object must carry a ghost length (tag ('cstr',len))."""
    o=st.mem.get(p.obj)
    if o is None or p.obj==0: E.fail_path(st,'memory-safety: %s(NULL)'%what)
    if o.mode=='cells' and isinstance(p.off,int):
        i=p.off
        while True:
            if isc(o.size) and i>=o.size: E.fail_path(st,'memory-safety: %s runs past the end of %s'%(what,o.name))
            c=o.cells.get(i)
            if c is None or c[0]!=1 or not isc(c[1]): break
            if c[1]==0: return i-p.off
            i+=1
    if o.tag and o.tag[0]=='cstr':
        L=o.tag[1]
        return Lin.of(T64(L)).sub(Lin.of(p.off)).norm() 
    # bounded symbolic scan
    if isc(o.size) and isinstance(p.off,int) and o.size-p.off<=64:
        conds=[]; prev=[]
        for i in range(p.off,o.size):
            b=tobv(E.rd(st,st.mem[p.obj],i,1,I8),8)
            z=z3.simplify(b==0)
            c=z3.And(*(prev+[z]))
            conds.append((i-p.off,c)); prev.append(z3.Not(z))
        r=None
        E.prove(st,z3.Not(z3.And(*prev)),E.cname()+'memory-safety: %s argument is terminated inside %s'%(what,o.name),'memory')
        for n,c in conds[::-1]:
            r=v64(n) if r is None else z3.If(c,v64(n),r)
        r=z3.simplify(r)
        return cur_int(r,64)
    # general: introduce the length
    ob=bytes_obj(E,st,p)
    n=E.fresh('strlen',64); off=Lin.of(p.off).bv()
    i=z3.BitVec('sl!',64)
    room=T64(ob.size)-off
    # existence of a terminator inside the object is an obligation
    ex=z3.Exists([i],z3.And(z3.ULT(i,room),z3.Select(ob.arr,off+i)==0))
    E.prove(st,ex,E.cname()+'memory-safety: %s argument is terminated inside %s'%(what,ob.name),'memory')
    st.assume(z3.And(z3.ULT(n,room),z3.Select(ob.arr,off+n)==0,z3.ForAll([i],z3.Implies(z3.ULT(i,n),z3.Select(ob.arr,off+i)!=0))))
    return n
@stub(r'^strlen$')
def _strlen(E,st,a,ins): return cstr_len(E,st,a[0])
def conc_cstr(E,st,p):
    """concrete C string bytes or None"""
    o=st.mem.get(p.obj)
    if o is None or o.mode!='cells' or not isinstance(p.off,int): return None
    r=[]; i=p.off
    while True:
        c=o.cells.get(i)
        if c is None or c[0]!=1 or not isc(c[1]): return None
        if c[1]==0: return bytes(r)
        r.append(c[1]); i+=1
@stub(r'^strcmp$')
def _strcmp(E,st,a,ins):
    x,y=conc_cstr(E,st,a[0]),conc_cstr(E,st,a[1])
    if x is not None and y is not None: return 0 if x==y else (1 if x>y else mask(32))
    h=E.opts.get('strcmp')
    if h: return h(E,st,a)
    if y is None and x is not None: x,y=y,x; p=a[1]; swap=True
    else: p=a[0]; swap=False
    if y is None: raise Unsupported('strcmp on two symbolic strings')
    # compare byte by byte against the constant
    r=z3.BitVecVal(0,32)
    reads=[]
    off=p
    eqsofar=True
    bs=list(y)+[0]
    items=[]
    cond=z3.BoolVal(True)
    for i,c in enumerate(bs):
        # only read further while equal so far
        q=p.plus(i)
        o=st.mem[q.obj]
        ok=E.must(st,z3.Not(cond)) if i else False
        if ok: break
        x2=st.fork(); x2.assume(cond)
        E.check_access(x2,q,1,'strcmp read')
        b=tobv(E.rd(st,st.mem[q.obj],q.off,1,I8),8)
        items.append((b,c)); cond=z3.simplify(z3.And(cond,b==c))
    r=z3.BitVecVal(0,32)
    for b,c in items[::-1]:
        d=z3.ZeroExt(24,b)-z3.BitVecVal(c,32)
        r=z3.If(b==c,r,d if not swap else -d)
    r=z3.simplify(r)
    return cur_int(r,32)
@stub(r'^(memcmp|bcmp)$')
def _memcmp(E,st,a,ins):
    n=norm(a[2])
    span_check(E,st,a[0],n,'memcmp'); span_check(E,st,a[1],n,'memcmp')
    if isc(n) and n<=64:
        r=z3.BitVecVal(0,32)
        for i in range(n-1,-1,-1):
            p,q=a[0].plus(i),a[1].plus(i)
            x=tobv(E.rd(st,st.mem[p.obj],p.off,1,I8),8); y=tobv(E.rd(st,st.mem[q.obj],q.off,1,I8),8)
            r=z3.If(x==y,r,z3.ZeroExt(24,x)-z3.ZeroExt(24,y))
        return cur_int(z3.simplify(r),32)
    r=E.fresh('memcmp',32)
    i=z3.BitVec('mc!',64)
    x=bytes_obj(E,st,a[0]); y=bytes_obj(E,st,a[1])
    eq=z3.ForAll([i],z3.Implies(z3.ULT(i,T64(n)),z3.Select(x.arr,Lin.of(a[0].off).bv()+i)==z3.Select(y.arr,Lin.of(a[1].off).bv()+i)))
    st.assume((r==0)==eq)
    return r
def ctype(f):
    def h(E,st,a,ins):
        x=a[0]
        if isc(x): return int(f(x)) if isinstance(f(x),(bool,int)) else f(x)
        c=z3.simplify(f(tobv(x,32)))
        return z3.If(c,z3.BitVecVal(1,32),z3.BitVecVal(0,32))
    return h
def _isdigit(x): return 48<=x<=57 if isc(x) else z3.And(x>=48,x<=57)
def _isspace(x): return (x==32 or 9<=x<=13) if isc(x) else z3.Or(x==32,z3.And(x>=9,x<=13))
STUBS.append((re.compile(r'^isdigit$'),ctype(_isdigit)))
STUBS.append((re.compile(r'^isspace$'),ctype(_isspace)))
STUBS.append((re.compile(r'^isblank$'),ctype(lambda x:(x in(32,9)) if isc(x) else z3.Or(x==32,x==9))))

@stub(r'^strncpy$')
def _strncpy(E,st,a,ins):
    n=norm(a[2]); dst,src=a[0],a[1]
    h=E.opts.get('strncpy')
    if h: return h(E,st,a)
    cs=conc_cstr(E,st,src)
    if cs is not None and isc(n):
        bs=(cs+b'\0'*n)[:n]
        span_check(E,st,dst,n,'strncpy destination')
        for i,b in enumerate(bs): E.store(st,I8,b,dst.plus(i))
        return dst
    L=cstr_len_upto(E,st,src,n)
    span_check(E,st,dst,n,'strncpy destination')
    so=bytes_obj(E,st,src); do=bytes_obj(E,st,dst); do=st.wobj(dst.obj)
    if st.writes is not None: st.writes.append((dst.obj,None,None))
    i=z3.BitVec('li!',64); d=Lin.of(dst.off).bv(); s_=Lin.of(src.off).bv(); N=T64(n); LL=T64(L)
    do.arr=z3.Lambda([i],z3.If(z3.ULT(i-d,N),z3.If(z3.ULT(i-d,LL),z3.Select(so.arr,i-d+s_),z3.BitVecVal(0,8)),z3.Select(do.arr,i)))
    return dst
def cstr_len_upto(E,st,src,n):
    """strnlen with bounds obligation: only min(len+1,n) bytes are read"""
    o=st.mem[src.obj]
    if src.obj==0: E.fail_path(st,'memory-safety: string read from NULL')
    if o.tag and o.tag[0]=='cstr':
        return Lin.of(T64(o.tag[1])).sub(Lin.of(src.off)).norm()
    ob=bytes_obj(E,st,src)
    off=Lin.of(src.off).bv(); room=T64(ob.size)-off; N=T64(n)
    if E.must(st,z3.And(z3.ULE(off,T64(ob.size)),z3.ULE(N,room))):
        L=E.fresh('strnlen',64); i=z3.BitVec('sl!',64)
        st.assume(z3.And(z3.ULE(L,N),z3.Implies(L!=N,z3.Select(ob.arr,off+L)==0),z3.ForAll([i],z3.Implies(z3.ULT(i,L),z3.Select(ob.arr,off+i)!=0))))
        return L
    return cstr_len(E,st,src,'strncpy')

# ------------------------------------------------------------ allocation
@stub(r'^(operator new(\[\])?\(unsigned long\)|malloc)$')
def _new(E,st,a,ins):
    n=norm(a[0])
    p=E.alloc(st,'heap',n if isc(n) else T64(n))
    st.mem[p.obj].origin='heap'
    return p
@stub(r'^(operator delete(\[\])?\(void\*.*|free)$')
def _del(E,st,a,ins):
    p=a[0]
    if isinstance(p,Undef): E.fail_path(st,'memory-safety: delete of uninitialised pointer')
    if p.obj==0: return 0
    o=st.mem[p.obj]
    if not o.alive: E.fail_path(st,'memory-safety: double free of %s'%o.name)
    if not (isinstance(p.off,int) and p.off==0):
        E.prove(st,Lin.of(p.off).bv()==0,E.cname()+'memory-safety: delete of interior pointer','memory')
    w=st.wobj(p.obj); w.alive=False
    return 0
# ------------------------------------------------------------ exceptions
@stub(r'^__cxa_allocate_exception$')
def _cae(E,st,a,ins): return E.alloc(st,'exception',a[0])
@stub(r'^__cxa_throw$')
def _cthrow(E,st,a,ins):
    m=re.search(r'__cxa_throw\(ptr[^@%]*[%@][^,]*, ptr[^@]*@([\w.]+)',ins.txt)
    return Thrown(m.group(1),a[0])
@stub(r'^__cxa_(free_exception|end_catch)$')
def _cend(E,st,a,ins): return 0
@stub(r'^__cxa_begin_catch$')
def _cbeg(E,st,a,ins): return a[0]
@stub(r'^__cxa_rethrow$')
def _creth(E,st,a,ins): return st.exc
@stub(r'^__cxa_(guard_release|atexit|thread_atexit|guard_abort)')
def _cguard(E,st,a,ins): return 0
@stub(r'^__cxa_guard_acquire')
def _cguarda(E,st,a,ins): return 1
@stub(r'^(__clang_call_terminate|std::terminate\(\)|abort|__cxa_pure_virtual|std::__throw_bad_function_call.*)$')
def _term(E,st,a,ins): E.fail_path(st,'std::terminate/abort reached')
def wr_err(n): return '_ZTIN7wreport%d%sE'%(len(n),n)
for _n in 'alloc notfound type handles toolong system consistency parse regexp unimplemented domain'.split():
    TYPE_BASES[wr_err('error_'+_n)]=[wr_err('error')]
TYPE_BASES[wr_err('error')]=['_ZTISt9exception']
@stub(r'^wreport::(error_\w+)::throwf\(')
def _throwf(E,st,a,ins):
    n=DEM[E._cur[2]]; return Thrown(wr_err(re.match(r'^wreport::(error_\w+)::',n).group(1)))
@stub(r'^wreport::(error_\w+)::(error_\w+)\(')
def _errctor(E,st,a,ins): return 0
@stub(r'^wreport::(error_\w+|error)::~')
def _errdtor(E,st,a,ins): return 0
@stub(r'^std::__throw_out_of_range|^std::__throw_out_of_range_fmt')
def _oor(E,st,a,ins): return Thrown('_ZTISt12out_of_range')
@stub(r'^std::__throw_length_error')
def _le(E,st,a,ins): return Thrown('_ZTISt12length_error')
@stub(r'^std::__throw_logic_error')
def _lge(E,st,a,ins): return Thrown('_ZTISt11logic_error')

# ------------------------------------------------------------ diagnostics (no effect on results)
@stub(r'^(fprintf|fputs|putc|fputc|fflush|printf|puts)$')
def _io(E,st,a,ins): return E.fresh('io',32)
@stub(r'^wreport::notes::logf\(')
def _notes(E,st,a,ins): return 0

# ------------------------------------------------------------ std::string
# Model: [0] data pointer to a byte object of size len+1, [8] length.
SR=r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
def str_new(E,st,p,arr,n,name='str'):
    """construct string at p with contents arr[0..n)"""
    d=E.alloc(st,name+'.data',add64(n,1),'bytes')
    o=st.mem[d.obj]
    if arr is not None: o.arr=arr
    o.arr=z3.Store(o.arr,T64(n),z3.BitVecVal(0,8))
    E.store(st,PTR,d,p); E.store(st,I64,n,p.plus(8))
    return d
def add64(a,b):
    return Lin.of(a).add(Lin.of(b)).norm()
def str_get(E,st,p):
    d=E.load(st,PTR,p); n=E.load(st,I64,p.plus(8))
    return d,norm(n)
def str_setlen(E,st,p,n):
    d,_=str_get(E,st,p)
    o=st.wobj(d.obj); o.size=add64(n,1)
    if isinstance(o.size,Lin): o.size=o.size.bv()
    o.arr=z3.Store(o.arr,T64(n),z3.BitVecVal(0,8))
    E.store(st,I64,n,p.plus(8))
    if st.writes is not None: st.writes.append((d.obj,None,None))
def str_append(E,st,p,src,n):
    d,N=str_get(E,st,p)
    if not (isc(n) and n==0): span_check(E,st,src,n,'string append source')
    o=st.mem[d.obj]
    M=add64(N,n)
    if isc(n) and n<=64:
        vals=[tobv(E.load(st,I8,src.plus(i)),8) for i in range(n)]
        o=st.wobj(d.obj); a=o.arr
        for i,v in enumerate(vals): a=z3.Store(a,T64(add64(N,i)),v)
        o.arr=a
    else:
        so=bytes_obj(E,st,src); sa=so.arr
        o=st.wobj(d.obj)
        o.arr=lam_copy(o.arr,T64(N),sa,Lin.of(src.off).bv(),T64(n))
    str_setlen(E,st,p,M)
    return p
@stub(SR+r'::'+r'basic_string(\[abi:\w+\])?\(\)$')
def _s_ctor(E,st,a,ins): str_new(E,st,a[0],None,0); return 0
@stub(SR+r'::~basic_string\(\)$')
def _s_dtor(E,st,a,ins):
    d=E.load(st,PTR,a[0])
    if isinstance(d,Ptr) and d.obj in st.mem: st.wobj(d.obj).alive=False
    return 0
@stub(SR+r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$')
def _s_ctor_c(E,st,a,ins):
    if a[1].obj==0: return Thrown('_ZTISt11logic_error')
    n=cstr_len(E,st,a[1],'std::string(const char*)')
    str_new(E,st,a[0],None,0); str_append(E,st,a[0],a[1],norm(n)); return 0
@stub(SR+r'::basic_string(<.*>)?\(char const\*, unsigned long, std::allocator<char> const&\)$')
def _s_ctor_cn(E,st,a,ins): str_new(E,st,a[0],None,0); str_append(E,st,a[0],a[1],norm(a[2])); return 0
@stub(SR+r'::basic_string<(char const\*|char\*), void>\((char const\*|char\*), (char const\*|char\*), std::allocator<char> const&\)$')
def _s_ctor_range(E,st,a,ins):
    if a[1].obj!=a[2].obj: raise Unsupported('string from a range of different objects')
    str_new(E,st,a[0],None,0); str_append(E,st,a[0],a[1],norm(Lin.of(a[2].off).sub(Lin.of(a[1].off)).bv())); return 0
@stub(SR+r'::basic_string\('+SR+r' const&\)$')
def _s_copy(E,st,a,ins):
    d,n=str_get(E,st,a[1]); str_new(E,st,a[0],st.mem[d.obj].arr,n); return 0
@stub(SR+r'::basic_string\('+SR+r'&&\)$')
def _s_move(E,st,a,ins):
    d,n=str_get(E,st,a[1])
    E.store(st,PTR,d,a[0]); E.store(st,I64,n,a[0].plus(8))
    str_new(E,st,a[1],None,0); return 0
@stub(SR+r'::(append|assign)\(char const\*, unsigned long\)$')
def _s_app(E,st,a,ins):
    if '::assign(' in DEM[E._cur[2]]: str_setlen(E,st,a[0],0)
    return str_append(E,st,a[0],a[1],norm(a[2]))
@stub(SR+r'::(append|operator\+=|operator=|assign)\(char const\*\)$')
def _s_app2(E,st,a,ins):
    n=cstr_len(E,st,a[1],'string append')
    d=DEM[E._cur[2]]
    if '::operator=(' in d or '::assign(' in d: str_setlen(E,st,a[0],0)
    return str_append(E,st,a[0],a[1],norm(n))
@stub(SR+r'::(append|operator\+=|operator=|assign)\('+SR+r' const&\)$')
def _s_app3(E,st,a,ins):
    d,n=str_get(E,st,a[1]); dm=DEM[E._cur[2]]
    if a[0].obj==a[1].obj and not (isc(norm(a[0].off)) and isc(norm(a[1].off)) and norm(a[0].off)!=norm(a[1].off)): raise Unsupported('self append')
    if '::operator=(' in dm or '::assign(' in dm: str_setlen(E,st,a[0],0)
    return str_append(E,st,a[0],d,n)
@stub(SR+r'::operator=\('+SR+r'&&\)$')
def _s_mva(E,st,a,ins):
    d,n=str_get(E,st,a[1]); E.store(st,PTR,d,a[0]); E.store(st,I64,n,a[0].plus(8)); str_new(E,st,a[1],None,0); return a[0]
@stub(SR+r'::(push_back|operator\+=)\(char\)$')
def _s_push(E,st,a,ins):
    d,N=str_get(E,st,a[0]); o=st.wobj(d.obj); o.arr=z3.Store(o.arr,T64(N),tobv(a[1],8)); str_setlen(E,st,a[0],add64(N,1)); return a[0]
@stub(SR+r'::append\(unsigned long, char\)$')
def _s_appn(E,st,a,ins):
    d,N=str_get(E,st,a[0]); n=norm(a[1]); o=st.wobj(d.obj)
    if isc(n) and n<=64:
        for i in range(n): o.arr=z3.Store(o.arr,T64(add64(N,i)),tobv(a[2],8))
    else:
        i=z3.BitVec('li!',64); o.arr=z3.Lambda([i],z3.If(z3.ULT(i-T64(N),T64(n)),tobv(a[2],8),z3.Select(o.arr,i)))
    str_setlen(E,st,a[0],add64(N,n)); return a[0]
@stub(SR+r'::basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)$')
def _s_fill(E,st,a,ins): str_new(E,st,a[0],None,0); _s_appn(E,st,a,ins); return 0
@stub(SR+r'::resize\(unsigned long(, char)?\)$')
def _s_resize(E,st,a,ins):
    d,N=str_get(E,st,a[0]); n=norm(a[1]); c=tobv(a[2],8) if len(a)>2 else z3.BitVecVal(0,8)
    o=st.wobj(d.obj); i=z3.BitVec('li!',64)
    if isc(N) and isc(n) and n-N<=64:
        for k in range(N,n): o.arr=z3.Store(o.arr,v64(k),c)
    else: o.arr=z3.Lambda([i],z3.If(z3.ULT(i,T64(N)),z3.Select(o.arr,i),c))
    str_setlen(E,st,a[0],n); return 0
@stub(SR+r'::(reserve|shrink_to_fit)\(.*\)$')
def _s_reserve(E,st,a,ins): return 0
@stub(SR+r'::clear\(\)$')
def _s_clear(E,st,a,ins): str_setlen(E,st,a[0],0); return 0
@stub(SR+r'::(data|c_str|_M_data)\(\)( const)?$')
def _s_data(E,st,a,ins): return str_get(E,st,a[0])[0]
@stub(SR+r'::(size|length)\(\) const$')
def _s_size(E,st,a,ins): return str_get(E,st,a[0])[1]
@stub(SR+r'::empty\(\) const$')
def _s_empty(E,st,a,ins):
    n=str_get(E,st,a[0])[1]; return E.icmp(st,'eq',I64,n,0)
@stub(SR+r'::(operator\[\]|at)\(unsigned long\)( const)?$')
def _s_idx(E,st,a,ins):
    d,n=str_get(E,st,a[0])
    return d.plus(norm(a[1]))
@stub(SR+r'::(begin|cbegin)\(\)( const)?$')
def _s_begin(E,st,a,ins): return str_get(E,st,a[0])[0]
@stub(SR+r'::(end|cend)\(\)( const)?$')
def _s_end(E,st,a,ins):
    d,n=str_get(E,st,a[0]); return d.plus(n)
def str_text(E,st,p):
    """-> (array, length) of the contents of the string, from index 0"""
    d,n=str_get(E,st,p); o=bytes_obj(E,st,d); b=Lin.of(d.off)
    if b.const()==0: return o.arr,n
    i=z3.BitVec('li!',64); return z3.Lambda([i],z3.Select(o.arr,i+b.bv())),n
@stub(SR+r'::substr\(unsigned long, unsigned long\) const$')
def _s_substr(E,st,a,ins):
    A,N=str_text(E,st,a[1]); k,n=norm(a[2]),norm(a[3]); bad=z3.UGT(T64(k),T64(N)); out=[]
    t=st.fork(); t.assume(bad)
    if not E.must(st,z3.Not(bad)) and E.feasible(t): out.append((t,Thrown('_ZTISt12out_of_range')))
    st.assume(z3.Not(bad)); left=T64(N)-T64(k); m=z3.simplify(z3.If(z3.ULT(T64(n),left),T64(n),left)); m=cur_int(m,64)
    if not(isc(k) and k==0): i=z3.BitVec('li!',64); A=z3.Lambda([i],z3.Select(A,i+T64(k)))
    str_new(E,st,a[0],A,norm(m)); return Multi([(st,0)]+out)
@stub(r'std::(__cxx11::)?basic_string<.*> std::operator\+<char, .*>\(')
def _s_plus(E,st,a,ins):
    dm=DEM[E._cur[2]]; ar=re.findall(r'\((?=[^()]*\)$)(.*)\)$',dm)[0]; ty=[]
    x=''; dep=0
    for c in ar:
        if c=='<': dep+=1
        if c=='>': dep-=1
        if c==',' and not dep: ty.append(x.strip()); x=''
        else: x+=c
    ty.append(x.strip()); str_new(E,st,a[0],None,0)
    for t,v in zip(ty,a[1:]):
        if 'basic_string' in t:
            d,n=str_get(E,st,v); str_append(E,st,a[0],d,n)
        elif t=='char const*': str_append(E,st,a[0],v,norm(cstr_len(E,st,v,'string concatenation')))
        elif t=='char': d,N=str_get(E,st,a[0]); o=st.wobj(d.obj); o.arr=z3.Store(o.arr,T64(N),tobv(v,8)); str_setlen(E,st,a[0],add64(N,1))
        else: raise Unsupported('string concatenation with '+t)
    return 0
@stub(r'^std::literals::string_literals::operator"" ?s(\[abi:\w+\])?\(char const\*, unsigned long\)$')
def _s_lit(E,st,a,ins): str_new(E,st,a[0],None,0); str_append(E,st,a[0],a[1],norm(a[2])); return 0
@stub(SR+r'::pop_back\(\)$')
def _s_pop(E,st,a,ins):
    d,N=str_get(E,st,a[0]); E.prove(st,T64(N)!=0,E.cname()+'memory-safety: pop_back of a string that is not empty','memory'); str_setlen(E,st,a[0],add64(N,mask(64))); return 0
@stub(SR+r'::back\(\)( const)?$')
def _s_back(E,st,a,ins):
    d,N=str_get(E,st,a[0]); E.prove(st,T64(N)!=0,E.cname()+'memory-safety: back of a string that is not empty','memory'); return d.plus(add64(N,mask(64)))
@stub(SR+r'::front\(\)( const)?$')
def _s_front(E,st,a,ins): return str_get(E,st,a[0])[0]
@stub(r'^std::(__new_)?allocator<char>::(~)?(__new_)?allocator\(.*\)|^std::allocator<char>::(~)?allocator\(.*\)$')
def _s_alloc(E,st,a,ins): return 0
