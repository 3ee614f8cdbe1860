"""C09: descriptors are expanded, replicated and modified by operators as the data description says."""
from .common import *
SRCS=['bulletin/interpreter.cc','bulletin/bitmaps.cc','vartable.cc','dtable.cc','tables.cc','varinfo.cc','error.cc']
INST=['layout.cc']
ASSUMPTIONS=['descriptor lists shorter than 2^31','the methods a subclass of Interpreter overrides may do anything but change the operator state they are not documented to change','std::stack and std::map behave as the C++ standard says','D table expansion terminates (tables without circular references)']
I16=("i",16)
FIELDS=[('c_scale_change',32),('c_width_change',32),('c_scale_ref_width_increase',32),('c_string_len_override',32),('c03_refval_override_bits',32)]
def vtable_with(E,*rx):
    """a vtable global whose methods match all of the expressions"""
    for g in E.mod.globals:
        if not g.startswith('_ZTV'): continue
        fs=re.findall(r'ptr @(_Z[\w.$]+)',E.mod.globals[g]); demangle_all(fs)
        if all(any(re.search(r,DEM.get(f,f)) for f in fs) for r in rx): return g
    raise Unsupported('no class implements '+' '.join(rx))
class OPS:
    """a sequence of n descriptors"""
    def __init__(s,ctx,name='OPS',mx=48):
        s.ctx=ctx; s.n=ctx.bv(name+'_n',64); ctx.assume(z3.ULT(s.n,1<<30)); s.A=ctx.arr(name,mx); s.p=ctx.bytesobj(name,s.A,z3.simplify(2*s.n),ro=True)
    def at(s,i): return cat([z3.Select(s.A,2*i+1),z3.Select(s.A,2*i)])
    def obj(s,ctx,begin=0,end=None):
        """an Opcodes struct for [begin,end)"""
        E=ctx.E; o=E.alloc(ctx.st,'Opcodes',off(E,'Opcodes'))
        E.store(ctx.st,PTR,s.ptr(begin),o.plus(off(E,'Opcodes','begin'))); E.store(ctx.st,PTR,s.ptr(s.n if end is None else end),o.plus(off(E,'Opcodes','end'))); return o
    def ptr(s,i): return Ptr(s.p.obj,Lin.of(i).mul(2))
    def is_at(s,p,i):
        """p points to element i"""
        return isinstance(p,Ptr) and p.obj==s.p.obj and Lin.of(p.off).bv()==2*T64(i)
def ops_get(E,st,p): return E.load(st,PTR,p.plus(off(E,'Opcodes','begin'))),E.load(st,PTR,p.plus(off(E,'Opcodes','end')))
def WF(c): return z3.LShR(c,14)
def WX(c): return z3.LShR(c,8)&0x3f
def WY(c): return c&0xff
def code16(a): return tobv(a,16) if not isc(a) else z3.BitVecVal(a,16)
class INTERP:
    def __init__(s,ctx,vt='_ZTVN7wreport8bulletin11InterpreterE'):
        E=ctx.E; st=ctx.st; s.ctx=ctx; s.E=E; E.opts['interp']=s
        s.p=E.alloc(st,'Interpreter',off(E,'Interpreter'),lazy=True)
        if vt not in E.mod.globals: raise Unsupported('vtable of Interpreter')
        E.store(st,PTR,E.glob(st,vt).plus(16),s.p)
        t=E.alloc(st,'Tables',off(E,'Tables'),lazy=True); s.tables=t
        s.btable=E.alloc(st,'btable',8); E.store(st,PTR,E.glob(st,vtable_with(E,r'::query_altered\(',r'::query\(unsigned short\)')).plus(16),s.btable)
        s.dtable=E.alloc(st,'dtable',8); E.store(st,PTR,E.glob(st,vtable_with(E,r'^wreport::.*DTable.*::query\(unsigned short\)')).plus(16),s.dtable)
        E.store(st,PTR,s.btable,t.plus(off(E,'Tables','btable'))); E.store(st,PTR,s.dtable,t.plus(off(E,'Tables','dtable'))); E.store(st,PTR,t,s.at('tables'))
        s.f0={}
        for f,w in FIELDS: s.f0[f]=ctx.bv(f,w); E.store(st,("i",w),s.f0[f],s.at(f))
        s.pend0=ctx.bv('pending',16); E.store(st,I16,s.pend0,s.bm('pending_definitions'))
        s.bits0=ctx.bv('af_bits',32); E.store(st,I32,s.bits0,s.af('bit_count')); s.sig0=ctx.bv('af_sig',32); E.store(st,I32,s.sig0,s.af('significance'))
        st.g[('stk',)]=(); st.g['#depth']=z3.BitVecVal(0,64); st.g[('ev',)]=()
    def at(s,f): return s.p.plus(off(s.E,'Interpreter',f))
    def bitmap(s,active):
        E=s.E; st=s.ctx.st; E.store(st,PTR,E.alloc(st,'bitmap',off(E,'Bitmap'),lazy=True) if active else NULL,s.bm('current'))
    def bm(s,f): return s.at('bitmaps').plus(off(s.E,'Bitmaps',f))
    def af(s,f): return s.at('associated_field').plus(off(s.E,'AssociatedField',f))
    def state(s,st):
        E=s.E; r={f:tobv(E.load(st,("i",w),s.at(f)),w) for f,w in FIELDS}
        r['pending']=tobv(E.load(st,I16,s.bm('pending_definitions')),16); r['bits']=tobv(E.load(st,I32,s.af('bit_count')),32); r['sig']=tobv(E.load(st,I32,s.af('significance')),32); return r
    def state0(s): return dict(s.f0,pending=s.pend0,bits=s.bits0,sig=s.sig0)
    def prove_state(s,st,what,**changed):
        w=dict(s.state0(),**changed); n=s.state(st)
        s.ctx.prove_many(st,[('%s%s is %s'%(what,k,'set as specified' if k in changed else 'left alone'),n[k]==w[k]) for k in n])
def is_interp(E,p):
    if not isinstance(p,Ptr) or p.obj!=E.opts['interp'].p.obj: raise Unsupported('another interpreter')
# ---- the stack of sequences
def stk_check(E,p):
    I=E.opts['interp']
    if p.obj!=I.p.obj or norm(p.off)!=off(E,'Interpreter','opcode_stack'): raise Unsupported('another stack')
def stk_push(E,st,a,ins):
    stk_check(E,a[0]); b,e=ops_get(E,st,a[1]); return stk_add(E,st,b,e)
def stk_add(E,st,b,e):
    o=E.alloc(st,'stack entry',off(E,'Opcodes')); E.store(st,PTR,b,o.plus(off(E,'Opcodes','begin'))); E.store(st,PTR,e,o.plus(off(E,'Opcodes','end')))
    st.g[('stk',)]=st.g[('stk',)]+(o,); st.g['#depth']=z3.simplify(T64(st.g['#depth'])+1); return o
def stk_emplace(E,st,a,ins):
    stk_check(E,a[0])
    if len(a)==2: return stk_push(E,st,a,ins)
    return stk_add(E,st,E.load(st,PTR,a[1]),E.load(st,PTR,a[2]))
def stk_top(E,st,a,ins):
    stk_check(E,a[0])
    if not st.g[('stk',)]: E.fail_path(st,'top() of an empty stack')
    return st.g[('stk',)][-1]
def stk_pop(E,st,a,ins):
    stk_check(E,a[0])
    if not st.g[('stk',)]: E.fail_path(st,'pop() of an empty stack')
    st.g[('stk',)]=st.g[('stk',)][:-1]; st.g['#depth']=z3.simplify(T64(st.g['#depth'])-1); return 0
ST=r'std::(stack|deque)<wreport::Opcodes, .*>::'
R_stk=[(ST+r'(push|push_back)\(',stk_push),(ST+r'emplace(_back)?<',stk_emplace),(ST+r'(top|back)\(',stk_top),(ST+r'(pop|pop_back)\(',stk_pop)]
# ---- tables
def new_info(E,st,nm='info'):
    """a table entry with unknown contents"""
    p=E.alloc(st,nm,off(E,'Varinfo'),lazy=True)
    for f,w in (('code',16),('type',32),('scale',32),('len',32),('bit_ref',32),('bit_len',32)): E.store(st,("i",w),E.fresh(nm+'_'+f,w),p.plus(off(E,'Varinfo',f)))
    return p
def ev(st,*x): st.g[('ev',)]=st.g[('ev',)]+(x,)
def tquery(E,st,a,ins):
    """Vartable::query(code): the table's entry for code, or error_notfound"""
    if a[0].obj!=E.opts['interp'].btable.obj: raise Unsupported('another table')
    t=st.fork(); p=new_info(E,st,'entry'); E.store(st,I16,code16(a[1]),p.plus(off(E,'Varinfo','code')))
    st.assume(z3.ULE(tobv(E.load(st,I32,p.plus(off(E,'Varinfo','type'))),32),3)); ev(st,'query',code16(a[1]),p)
    return Multi([(st,p),(t,Thrown(wr_err('error_notfound'),info='callee'))])
def tcontains(E,st,a,ins):
    v=E.freshbool('contains'); ev(st,'contains',code16(a[1]),v); return v
def taltered(E,st,a,ins):
    t=st.fork(); p=new_info(E,st,'altered'); ev(st,'query_altered',code16(a[1]),tobv(a[2],32),tobv(a[3],32),tobv(a[4],32),p)
    return Multi([(st,p),(t,Thrown(wr_err('error_consistency'),info='callee'))])
def tunknown(E,st,a,ins):
    t=st.fork(); p=new_info(E,st,'unknown'); ev(st,'get_unknown',code16(a[1]),tobv(a[2],32),p)
    return Multi([(st,p),(t,Thrown(wr_err('error_consistency'),info='callee'))])
R_tab=[(r'^wreport::.*Vartable.*::query\(unsigned short\) const',tquery),(r'^wreport::.*Vartable.*::contains\(unsigned short\) const',tcontains),(r'^wreport::.*Vartable.*::query_altered\(',taltered),(r'^wreport::Tables::get_unknown\(',tunknown)]
def getinfo(E,st,a,ins):
    t=st.fork(); p=new_info(E,st,'info'); ev(st,'get_varinfo',code16(a[1]),p)
    return Multi([(st,p),(t,Thrown(wr_err('error_notfound'),info='callee'))])
R_gi=(r'^wreport::bulletin::Interpreter::get_varinfo\(',getinfo)
# ---- what subclasses do
IT=r'^wreport::bulletin::Interpreter::'
def event(nm,ret=None):
    def h(E,st,a,ins):
        is_interp(E,a[0]); t=st.fork(); v=E.fresh(nm,ret) if ret else 0
        ev(st,nm,*([x if isinstance(x,Ptr) else tobv(x,64) if isinstance(x,Lin) else x for x in a[1:]]+([v] if ret else [])))
        return Multi([(st,v),(t,Thrown(wr_err('error_parse'),info='callee'))])
    return h
def R_ev(*names): return [(IT+n+r'\(',event(n,32 if n.endswith('factor') or n.endswith('significance') else None)) for n in names]
DEFINE=R_ev('define_bitmap','define_delayed_replication_factor','define_bitmap_delayed_replication_factor','define_associated_field_significance','define_c03_refval_override','define_variable_with_associated_field','define_variable','define_substituted_value','define_attribute','define_raw_character_data')
def bm_next(E,st,a,ins):
    t=st.fork(); v=E.fresh('pos',32); ev(st,'next',v); return Multi([(st,v),(t,Thrown(wr_err('error_consistency'),info='callee'))])
def bm_reuse(E,st,a,ins): ev(st,'reuse_last'); return 0
def bm_discard(E,st,a,ins): ev(st,'discard_last'); return 0
BM=r'^wreport::bulletin::Bitmaps::'
R_bm=[(BM+r'next\(',bm_next),(BM+r'reuse_last\(',bm_reuse),(BM+r'discard_last\(',bm_discard)]

# ---------------------------------------------------------------- sequences
class OpIndex(Contract):
    name='Opcodes::operator[]'; fn=r'^wreport::Opcodes::operator\[\]\(unsigned int\) const'; search='opcodes'
    def run(s,ctx,case):
        O=OPS(ctx); i=ctx.bv('i',32); j=z3.ZeroExt(32,i); o=O.obj(ctx)
        def post(r):
            if not ctx.prove(r.st,r.kind=='ret','does not throw'): return
            ctx.prove(r.st,code16(r.val)==z3.If(z3.ULT(j,O.n),O.at(j),z3.BitVecVal(0,16)),'is the i-th descriptor, 0 past the end')
        ctx.call([o,i],post)
    def replay(s,case,v): return ['opcodes','index',v['OPS_n'],v['i']] if v['OPS_n']<64 else None
class OpPop(Contract):
    name='Opcodes::pop_left'; fn=r'^wreport::Opcodes::pop_left\(\)'; search='opcodes'
    def run(s,ctx,case):
        O=OPS(ctx); o=O.obj(ctx)
        def post(r):
            if r.kind=='throw': ctx.prove(r.st,r.exc.typ==wr_err('error_consistency'),'a consistency error'); ctx.prove(r.st,O.n==0,'throws only when empty'); return
            ctx.prove(r.st,O.n!=0,'throws when empty'); ctx.prove(r.st,code16(r.val)==O.at(v64(0)),'is the first descriptor')
            b,e=ops_get(ctx.E,r.st,o); ctx.prove(r.st,O.is_at(b,1),'begins one later'); ctx.prove(r.st,O.is_at(e,O.n),'same end')
        ctx.call([o],post)
class OpPopN(Contract):
    name='Opcodes::pop_left(n)'; fn=r'^wreport::Opcodes::pop_left\(unsigned int\)'; search='opcodes'
    def run(s,ctx,case):
        E=ctx.E; O=OPS(ctx); o=O.obj(ctx); c=ctx.bv('count',32); n=z3.ZeroExt(32,c)
        def post(r):
            if r.kind=='throw': ctx.prove(r.st,r.exc.typ==wr_err('error_consistency'),'a consistency error'); ctx.prove(r.st,z3.ULT(O.n,n),'throws only when there are not enough'); return
            ctx.prove(r.st,z3.ULE(n,O.n),'throws when there are not enough')
            rb,re_=r.val; ctx.prove(r.st,O.is_at(rb,0),'result starts at the first'); ctx.prove(r.st,O.is_at(re_,n),'result has n elements')
            b,e=ops_get(E,r.st,o); ctx.prove(r.st,O.is_at(b,n),'begins n later'); ctx.prove(r.st,O.is_at(e,O.n),'same end')
        ctx.call([o,c],post)
# ---------------------------------------------------------------- run
def on_b(E,st,a,ins):
    c=E.ctx.con; ctx=c.ctx; is_interp(E,a[0]); p=T64(st.g['#pos']); k=code16(a[1])
    ctx.prove(st,z3.And(z3.ULT(p,c.O.n),k==c.O.at(p),WF(k)==0),'element descriptors are handled in order'); t=st.fork(); st.g['#pos']=z3.simplify(p+1)
    return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
def on_c(E,st,a,ins):
    c=E.ctx.con; ctx=c.ctx; is_interp(E,a[0]); p=T64(st.g['#pos']); k=code16(a[1]); b,e=ops_get(E,st,a[2])
    ctx.prove(st,z3.And(z3.ULT(p,c.O.n),k==c.O.at(p),WF(k)==2),'operators are handled in order')
    ctx.prove(st,c.O.is_at(b,p+1),'operators see the descriptors that follow them'); ctx.prove(st,c.O.is_at(e,c.O.n),'operators see the descriptors until the end of the sequence')
    t=st.fork(); u=st.fork(); st.g['#pos']=z3.simplify(p+1)
    u.assume(z3.ULT(p+1,c.O.n)); u.g['#pos']=z3.simplify(p+2); E.store(u,PTR,c.O.ptr(z3.simplify(p+2)),a[2].plus(off(E,'Opcodes','begin')))
    for x in (st,u): E.store(x,I16,E.fresh('pending',16),c.I.bm('pending_definitions'))
    return Multi([(st,0),(u,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
def on_r(bitmap):
    def h(E,st,a,ins):
        c=E.ctx.con; ctx=c.ctx; is_interp(E,a[0]); p=T64(st.g['#pos']); k=code16(a[1]); d=code16(a[2]); b,e=ops_get(E,st,a[3]); O=c.O
        pend=tobv(E.load(st,I16,c.I.bm('pending_definitions')),16)
        ctx.prove(st,z3.And(z3.ULT(p,O.n),k==O.at(p),WF(k)==1),'replications are handled in order')
        ctx.prove(st,(pend!=0) if bitmap else (pend==0),'a replication is a bitmap exactly when one is pending')
        nx=O.at(p+1); has=z3.And(WY(k)==0,z3.ULT(p+1,O.n),WF(nx)==0,WX(nx)==31)
        ctx.prove(st,d==z3.If(WY(k)!=0,z3.BitVecVal(0,16),z3.If(has,nx,z3.BitVecVal(31<<8|12,16))),'the delayed replication factor is the class 31 descriptor that follows, 0 31 012 if there is none')
        s0=p+1+z3.If(has,v64(1),v64(0)); x=z3.ZeroExt(48,WX(k))
        ctx.prove(st,O.is_at(b,s0),'the replicated descriptors start after the replication'); ctx.prove(st,O.is_at(e,s0+x),'as many descriptors as the replication says are replicated')
        ctx.prove(st,z3.ULE(s0+x,O.n),'the replicated descriptors are in the sequence')
        t=st.fork(); st.g['#pos']=z3.simplify(s0+x); E.store(st,I16,E.fresh('pending',16),c.I.bm('pending_definitions'))
        return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
    return h
def on_dquery(E,st,a,ins):
    c=E.ctx.con; p=T64(st.g['#pos']); k=code16(a[1])
    if not isinstance(a[0],Ptr) or a[0].obj!=c.I.dtable.obj: raise Unsupported('another D table')
    c.ctx.prove(st,z3.And(z3.ULT(p,c.O.n),k==c.O.at(p),WF(k)==3),'sequence descriptors are looked up in the D table'); t=st.fork()
    return Multi([(st,[c.X.ptr(0),c.X.ptr(c.X.n)]),(t,Thrown(wr_err('error_notfound'),info='callee'))])
def on_d(E,st,a,ins):
    c=E.ctx.con; ctx=c.ctx; is_interp(E,a[0]); p=T64(st.g['#pos']); k=code16(a[1]); sk=st.g[('stk',)]
    ctx.prove(st,z3.And(z3.ULT(p,c.O.n),k==c.O.at(p),WF(k)==3),'sequence descriptors are expanded in order')
    ctx.prove(st,len(sk)==2,'the expansion is on the stack')
    if sk:
        b,e=ops_get(E,st,sk[-1]); ctx.prove(st,c.X.is_at(b,0),'the expansion is the one in the table'); ctx.prove(st,c.X.is_at(e,c.X.n),'the whole expansion is run')
    t=st.fork(); st.g['#pos']=z3.simplify(p+1); E.store(st,I16,E.fresh('pending',16),c.I.bm('pending_definitions'))
    return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
class Run(Contract):
    name='Interpreter::run'; fn=r'^wreport::bulletin::Interpreter::run\(\)'; search='interp'
    uses=R_stk+[(IT+r'b_variable\(',on_b),(IT+r'c_modifier\(',on_c),(IT+r'r_replication\(',on_r(False)),(IT+r'r_bitmap\(',on_r(True)),(IT+r'run_d_expansion\(',on_d),(r'^wreport::.*DTable.*::query\(unsigned short\) const',on_dquery)]
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('descriptors',s.O.n)]
    def cands(s,E,entry,keys,fn,h):
        W=('g','#pos'); out=[('position in sequence',lambda w:z3.ULE(w.term(W),s.O.n))]
        for k in keys:
            out.append(('%s == 2*position'%(k,),lambda w,k=k:w.term(k)==2*w.term(W))); out.append(('%s == position'%(k,),lambda w,k=k:w.term(k)==w.term(W)))
            out.append(('%s + position == length'%(k,),lambda w,k=k:w.term(k)+w.term(W)==s.O.n))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.I=I=INTERP(ctx); s.O=O=OPS(ctx); s.X=OPS(ctx,'EXP')
        stk_add(E,st,O.ptr(0),O.ptr(O.n)); st.g['#pos']=z3.BitVecVal(0,64)
        def post(o):
            t=o.st; p=T64(t.g['#pos'])
            if o.kind=='throw':
                if o.exc.info=='callee': return
                ctx.prove(t,o.exc.typ==wr_err('error_consistency'),'errors are consistency errors')
                k=O.at(p); nx=O.at(p+1); has=z3.And(WY(k)==0,z3.ULT(p+1,O.n),WF(nx)==0,WX(nx)==31)
                ctx.prove(t,z3.And(z3.ULT(p,O.n),WF(k)==1,z3.UGT(p+1+z3.If(has,v64(1),v64(0))+z3.ZeroExt(48,WX(k)),O.n)),'refused only when a replication goes past the end of its sequence'); return
            ctx.prove(t,p==O.n,'the whole sequence is run'); ctx.prove(t,T64(t.g['#depth'])==1,'the stack is left as it was')
            if t.g[('stk',)]:
                b,e=ops_get(E,t,t.g[('stk',)][-1]); ctx.prove(t,O.is_at(b,0),'the sequence on the stack is left as it was'); ctx.prove(t,O.is_at(e,O.n),'the sequence on the stack is left as it was')
            n=I.state(t); w=I.state0()
            ctx.prove_many(t,[('running a sequence does not change the operators in effect: '+k,n[k]==w[k]) for k in n if k!='pending'])
        ctx.call([I.p],post)
# ---------------------------------------------------------------- replication
def on_rep(E,st,a,ins):
    c=E.ctx.con; ctx=c.ctx; is_interp(E,a[0]); i=T64(st.g['#reps']); sk=st.g[('stk',)]
    ctx.prove(st,z3.ZeroExt(32,tobv(a[1],32))==i,'repetitions are numbered from 0'); ctx.prove(st,z3.ZeroExt(32,tobv(a[2],32))==c.count(st),'repetitions know how many they are')
    ctx.prove(st,z3.ULT(i,c.count(st)),'no more repetitions than the replication says')
    ctx.prove(st,len(sk)==1,'the replicated descriptors are on the stack')
    if sk:
        b,e=ops_get(E,st,sk[-1]); ctx.prove(st,c.O.is_at(b,0),'all the replicated descriptors are run'); ctx.prove(st,c.O.is_at(e,c.O.n),'all the replicated descriptors are run')
    t=st.fork(); st.g['#reps']=z3.simplify(i+1); return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
class Replication(Contract):
    name='Interpreter::r_replication'; fn=r'^wreport::bulletin::Interpreter::r_replication\('; search='interp'
    uses=R_stk+[(IT+r'run_r_repetition\(',on_rep)]+R_tab+DEFINE
    def cases(s): return ['fixed','delayed']
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h):
        W=('g','#reps'); c=s.count(entry.st); out=[('reps in count',lambda w:z3.ULE(w.term(W),c))]
        for k in keys: out+=[('%s == reps'%(k,),lambda w,k=k:w.term(k)==w.term(W)),('%s + reps == count'%(k,),lambda w,k=k:w.term(k)+w.term(W)==c)]
        return out
    def count(s,st):
        if s.case=='fixed': return z3.ZeroExt(48,WY(s.code))
        e=[x for x in st.g[('ev',)] if x[0]=='define_delayed_replication_factor']
        return z3.ZeroExt(32,e[-1][2]) if e else v64(0)
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.case=case; I=INTERP(ctx); s.O=O=OPS(ctx); st.g['#reps']=z3.BitVecVal(0,64)
        s.code=code=ctx.bv('code',16); dl=ctx.bv('delayed',16); ctx.assume(WF(code)==1); ctx.assume((WY(code)!=0) if case=='fixed' else (WY(code)==0))
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.info=='callee','no errors of its own'); return
            e=t.g[('ev',)]
            if case=='fixed': ctx.prove(t,len(e)==0,'a fixed replication reads no factor')
            else:
                ok=ctx.prove(t,[x[0] for x in e]==['query','define_delayed_replication_factor'],'a delayed replication reads its factor once')
                if not ok: return
                ctx.prove(t,e[0][1]==dl,'the factor is described by the delayed replication descriptor'); ctx.prove(t,e[1][1].obj==e[0][2].obj,'the factor is described by the delayed replication descriptor')
            ctx.prove(t,T64(t.g['#reps'])==s.count(t),'as many repetitions as the replication says'); ctx.prove(t,T64(t.g['#depth'])==0,'the stack is left as it was'); I.prove_state(t,'')
        ctx.call([I.p,code,dl,O.obj(ctx)],post)
class RBitmap(Contract):
    name='Interpreter::r_bitmap'; fn=r'^wreport::bulletin::Interpreter::r_bitmap\('; search='interp'
    uses=R_tab+DEFINE
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; I=INTERP(ctx); O=OPS(ctx); code=ctx.bv('code',16); dl=ctx.bv('delayed',16); ctx.assume(WF(code)==1)
        good=z3.And(WX(code)==1,O.n!=0,O.at(v64(0))==(31<<8|31))
        def post(o):
            t=o.st
            if o.kind=='throw':
                if o.exc.info=='callee': ctx.prove(t,good,'nothing is read for what is not a bitmap'); return
                ctx.prove(t,o.exc.typ==wr_err('error_consistency'),'errors are consistency errors'); ctx.prove(t,z3.Not(good),'refused only when it does not replicate one B31031'); return
            ctx.prove(t,good,'a bitmap replicates one B31031'); e=t.g[('ev',)]; nm=[x[0] for x in e]
            if ctx.prove(t,nm in (['define_bitmap'],['query','define_bitmap_delayed_replication_factor','define_bitmap']),'the bitmap is defined once, after its size is known'):
                if len(nm)==1: ctx.prove(t,z3.And(WY(code)!=0,tobv(e[0][1],32)==z3.ZeroExt(16,WY(code))),'the size is in the replication')
                else:
                    ctx.prove(t,WY(code)==0,'the size is delayed only when not in the replication'); ctx.prove(t,e[0][1]==dl,'the size is described by the delayed replication descriptor')
                    ctx.prove(t,e[1][1].obj==e[0][2].obj,'the size is described by the delayed replication descriptor'); ctx.prove(t,tobv(e[2][1],32)==e[1][2],'the size is as read')
            I.prove_state(t,'',pending=z3.BitVecVal(0,16))
        ctx.call([I.p,code,dl,O.obj(ctx)],post)
# ---------------------------------------------------------------- elements
class BVariable(Contract):
    name='Interpreter::b_variable'; fn=r'^wreport::bulletin::Interpreter::b_variable\('; search='interp'
    uses=[R_gi]+R_bm+DEFINE
    def cases(s): return ['no bitmap','bitmap']
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; I=INTERP(ctx); code=ctx.bv('code',16); act=case=='bitmap'; ctx.assume(WF(code)==0)
        I.bitmap(act); ov=I.f0['c03_refval_override_bits']!=0; at=z3.And(WX(code)==33,act); af=I.bits0!=0
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.info=='callee','no errors of its own'); return
            I.prove_state(t,''); e=t.g[('ev',)]; nm=[x[0] for x in e]
            if 'define_c03_refval_override' in nm:
                ctx.prove(t,len(e)==1,'a new reference value is all that is read'); ctx.prove(t,ov,'a new reference value is read only while they are being defined'); ctx.prove(t,code16(e[0][1])==code,'the new reference value is for this element'); return
            ctx.prove(t,z3.Not(ov),'no data is read while reference values are being defined')
            if not ctx.prove(t,len(e)>0 and nm[0]=='get_varinfo','the element is described by the tables and the operators in effect'): return
            ctx.prove(t,e[0][1]==code,'the element is described by its own entry'); info=e[0][2]
            if not ctx.prove(t,len(e)>1 and isinstance(e[-1][1],Ptr) and e[-1][1].obj==info.obj,'the element is handled with that description'): return
            if nm[-1]=='define_attribute':
                ctx.prove(t,nm==['get_varinfo','next','define_attribute'],'an attribute takes the next place in the bitmap'); ctx.prove(t,at,'only class 33 elements with a bitmap active are attributes')
                if len(e)==3: ctx.prove(t,tobv(e[2][2],32)==e[1][1],'the attribute goes to the variable that the bitmap points to')
            elif nm[-1]=='define_variable_with_associated_field': ctx.prove(t,z3.And(z3.Not(at),af),'associated fields only when C04 is in effect'); ctx.prove(t,len(e)==2,'handled once')
            elif nm[-1]=='define_variable': ctx.prove(t,z3.And(z3.Not(at),z3.Not(af)),'plain variables only when nothing else applies'); ctx.prove(t,len(e)==2,'handled once')
            else: ctx.prove(t,False,'element descriptors define variables or attributes')
        ctx.call([I.p,code],post)
# ---------------------------------------------------------------- operators
class CModifier(Contract):
    name='Interpreter::c_modifier'; fn=r'^wreport::bulletin::Interpreter::c_modifier\('; search='interp'
    uses=[R_gi]+R_tab+R_bm+DEFINE+[(r'std::map<unsigned short, unsigned int, .*>::clear\(\)',lambda E,st,a,ins:(ev(st,'clear'),0)[1])]
    X=[1,2,3,4,5,6,7,8,22,23,36,37]
    def cases(s): return s.X+['23b','other']
    def group(s): return 4
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; I=INTERP(ctx); O=OPS(ctx); code=ctx.bv('code',16); ctx.assume(WF(code)==2); I.bitmap(case=='23b'); nx=O.obj(ctx)
        X=23 if case=='23b' else case
        if X=='other':
            for x in s.X: ctx.assume(WX(code)!=x)
        else: ctx.assume(WX(code)==X)
        Y=z3.ZeroExt(16,WY(code)); first=O.at(v64(0)); chg=z3.If(Y==0,Y,Y-128)
        def err(t,o,typ,when,what):
            ctx.prove(t,o.exc.typ in [wr_err(x) for x in typ],'errors are %s'%' or '.join(typ)); ctx.prove(t,when,what)
        def post(o):
            t=o.st; e=t.g[('ev',)]; nm=[x[0] for x in e]
            if o.kind=='throw':
                if o.exc.info=='callee': return
                if X==4: err(t,o,['error_unimplemented','error_consistency'],z3.Or(z3.UGT(Y,32),z3.And(Y!=0,z3.Or(I.bits0!=0,O.n==0,first!=(31<<8|21)))),'C04 is refused only if nested, wider than 32 bits or not followed by B31021')
                elif X==3: err(t,o,['error_unimplemented'],z3.And(z3.UGT(Y,32),Y!=255),'C03 is refused only when wider than 32 bits')
                elif X==6: err(t,o,['error_consistency'],O.n==0,'C06 is refused only when it ends the sequence')
                elif X==22: err(t,o,['error_consistency'],Y!=0,'C22 is refused only when not C22000')
                elif X==23: err(t,o,['error_consistency'],z3.Or(z3.And(Y!=0,Y!=255),z3.And(Y==255,case!='23b')),'C23 is refused only when not C23000, or C23255 with an active bitmap')
                elif X==37: err(t,o,['error_consistency'],z3.And(Y!=0,Y!=255),'C37 is refused only when not C37000 or C37255')
                else: ctx.prove(t,False,'this operator is never refused')
                return
            pops=v64(0); ch={}; want=[]
            if X==1: ch['c_width_change']=chg
            elif X==2: ch['c_scale_change']=chg
            elif X==3:
                ch['c03_refval_override_bits']=z3.If(Y==255,z3.BitVecVal(0,32),Y); ctx.prove(t,(Y==0) if 'clear' in nm else Y!=0,'C03000, and nothing else, cancels the changed reference values'); e=[x for x in e if x[0]!='clear']; nm=[x[0] for x in e]
                ctx.prove(t,z3.Or(z3.ULE(Y,32),Y==255),'C03 is accepted only for reference values of at most 32 bits')
            elif X==4:
                ch['bits']=Y; pops=z3.If(Y==0,v64(0),v64(1))
                ctx.prove(t,z3.Or(Y==0,z3.And(z3.ULE(Y,32),I.bits0==0,O.n!=0,first==(31<<8|21))),'C04 is accepted only if not nested, at most 32 bits wide, and followed by B31021')
                if e:
                    if not ctx.prove(t,nm==['query','define_associated_field_significance'],'C04 reads its significance once'): return
                    ctx.prove(t,Y!=0,'cancelling C04 reads nothing'); ctx.prove(t,z3.And(e[0][1]==(31<<8|21)),'significance is a B31021'); ctx.prove(t,e[1][1].obj==e[0][2].obj,'significance is read with its own description'); ch['sig']=e[1][2]
                else: ctx.prove(t,Y==0,'C04 reads its significance')
            elif X==5:
                if ctx.prove(t,nm==['define_raw_character_data'],'C05 reads raw characters once'): ctx.prove(t,code16(e[0][1])==code,'C05 says how many characters')
            elif X==6:
                pops=v64(1); ctx.prove(t,O.n!=0,'C06 applies to the descriptor that follows')
                if 'define_variable' not in nm: ctx.prove(t,Y==0,'C06 reads a variable'); return ck(t,pops,ch)
                ctx.prove(t,nm.count('define_variable')==1 and nm[-1]=='define_variable' and all(n in ('contains','get_varinfo','get_unknown','define_variable','query') for n in nm),'C06 reads one variable'); ctx.prove(t,Y!=0,'C06000 reads nothing')
                d=e[-1][1]; src=[x for x in e if isinstance(x[-1],Ptr) and x[-1].obj==d.obj and x[0]!='define_variable']
                if not ctx.prove(t,len(src)==1 and src[0][0] in ('get_varinfo','get_unknown'),'the variable is described by its tables or as unknown'): return
                ctx.prove(t,src[0][1]==first,'the variable is the one that follows')
                con=[x for x in e if x[0]=='contains']
                for x in con: ctx.prove(t,x[1]==first,'it is looked up in the tables')
                blen=lambda p:tobv(E.load(t,I32,p.plus(off(E,'Varinfo','bit_len'))),32)
                gi=[x for x in e if x[0]=='get_varinfo']
                if src[0][0]=='get_varinfo':
                    ctx.prove(t,blen(d)==Y,'a known descriptor is decoded only when its size is as C06 says'); ctx.prove(t,z3.Or(*[x[2] for x in con]) if con else False,'only descriptors in the table are looked up')
                else:
                    ctx.prove(t,src[0][2]==Y,'an unknown descriptor has the size C06 says')
                    ctx.prove(t,z3.Or(z3.And(*[z3.Not(x[2]) for x in con]) if con else False,z3.Or(*[blen(x[2])!=Y for x in gi]) if gi else False),'a known descriptor with the size C06 says is not decoded as unknown')
            elif X==7: ch['c_scale_ref_width_increase']=Y
            elif X==8: ch['c_string_len_override']=Y
            elif X==22: ch['pending']=code; ctx.prove(t,Y==0,'only C22000 is accepted')
            elif X==23:
                ctx.prove(t,z3.Or(Y==0,z3.And(Y==255,case=='23b')),'only C23000, or C23255 with an active bitmap, are accepted')
                if e:
                    if ctx.prove(t,nm==['next','define_substituted_value'],'C23255 reads one substituted value'):
                        ctx.prove(t,Y==255,'C23000 reads nothing'); ctx.prove(t,tobv(e[1][1],32)==e[0][1],'the substituted value is for the variable that the bitmap points to')
                else: ctx.prove(t,Y==0,'C23255 reads a substituted value'); ch['pending']=code
            elif X==37:
                ctx.prove(t,z3.Or(Y==0,Y==255),'only C37000 and C37255 are accepted')
                if ctx.prove(t,len(nm)==1 and nm[0] in ('reuse_last','discard_last'),'C37 acts on the last bitmap'):
                    ctx.prove(t,Y==(0 if nm[0]=='reuse_last' else 255),'C37000 reuses the last bitmap, C37255 discards it')
                    if nm[0]=='reuse_last': ch['pending']=z3.BitVecVal(0,16)
            if X in (1,2,3,7,8,22,36,'other'): ctx.prove(t,not e,'nothing is read')
            ck(t,pops,ch)
        def ck(t,pops,ch):
            b,e=ops_get(E,t,nx); ctx.prove(t,O.is_at(b,pops),'only the descriptors that belong to the operator are consumed'); ctx.prove(t,O.is_at(e,O.n),'the rest of the sequence stays')
            I.prove_state(t,'',**ch)
        ctx.call([I.p,code,nx],post)
# ---------------------------------------------------------------- descriptions under operators
MAPU=r'std::map<unsigned short, unsigned int, .*>::'
def m_empty(E,st,a,ins): return E.ctx.con.map_empty
def m_node(E,c,st): return c.node
def m_find(E,st,a,ins):
    c=E.ctx.con; k=tobv(E.load(st,I16,a[1]),16)
    if not E.must(st,k==c.code): raise Unsupported('lookup of another code')
    t=st.fork(); st.assume(c.map_has); t.assume(z3.Not(c.map_has))
    return Multi([(st,c.node),(t,c.mend)])
def m_end(E,st,a,ins): return E.ctx.con.mend
def m_count(E,st,a,ins):
    c=E.ctx.con; k=tobv(E.load(st,I16,a[1]),16)
    if not E.must(st,k==c.code): raise Unsupported('lookup of another code')
    return z3.If(c.map_has,z3.BitVecVal(1,64),z3.BitVecVal(0,64))
def m_at(E,st,a,ins):
    c=E.ctx.con; k=tobv(E.load(st,I16,a[1]),16)
    if not E.must(st,k==c.code): raise Unsupported('lookup of another code')
    if not E.must(st,c.map_has): E.fail_path(st,'reads an overridden reference value that is not there')
    return c.node.plus(36)
R_map=[(MAPU+r'empty\(\) const',m_empty),(MAPU+r'find\(',m_find),(MAPU+r'c?end\(\)',m_end),(MAPU+r'count\(',m_count),(MAPU+r'(at|operator\[\])\(',m_at)]
class GetVarinfo(Contract):
    """the description of an element is its table entry as changed by the operators in effect"""
    name='Interpreter::get_varinfo'; fn=r'^wreport::bulletin::Interpreter::get_varinfo\('; search='interp'
    uses=R_map+R_tab
    def cases(s): return [(t,i) for t in (0,1,2,3) for i in list(range(10))+['more']]+[(0,i,u) for u in ('CODE TABLE','FLAG TABLE') for i in (0,3,'more')]
    def group(s): return 12
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; I=INTERP(ctx); s.code=code=ctx.bv('code',16); s.map_empty=ctx.boolv('map_empty'); s.map_has=ctx.boolv('map_has'); ctx.assume(z3.Implies(s.map_has,z3.Not(s.map_empty)))
        s.node=E.alloc(st,'map node',40,lazy=True); s.mend=E.alloc(st,'map end',40,lazy=True); mv=ctx.bv('map_value',32); E.store(st,I16,code,s.node.plus(32)); E.store(st,I32,mv,s.node.plus(36))
        s.typ=case[0]; inc=case[1]; c=I.f0['c_scale_ref_width_increase']; s.unit=case[2] if len(case)>2 else None
        ctx.assume(c==inc if inc!='more' else z3.And(z3.ULE(c,255),z3.UGT(c,9)))
        for f in ('c_scale_change','c_width_change'): ctx.assume(z3.And(I.f0[f]>=-127,I.f0[f]<=127))
        ctx.assume(z3.ULE(I.f0['c_string_len_override'],255))
        table=case[0] in (2,) or s.unit   # text, code tables and flag tables are not altered
        def post(o):
            t=o.st; e=t.g[('ev',)]
            if o.kind=='throw' and o.exc.info=='callee' and not e: return
            q=[x for x in e if x[0]=='query']
            if not ctx.prove(t,len(q)>=1,'the element is looked up in the table'): return
            for x in q: ctx.prove(t,x[1]==code,'the element is looked up in the table')
            p=q[-1][2]; f=lambda p,n:tobv(E.load(t,I32,p.plus(off(E,'Varinfo',n))),32)
            sc,bl,rf=f(p,'scale'),f(p,'bit_len'),f(p,'bit_ref'); over=z3.BoolVal(False)
            if table:
                if case[0]==2: bl=z3.If(I.f0['c_string_len_override']!=0,8*I.f0['c_string_len_override'],bl)
            else:
                sc=sc+I.f0['c_scale_change']+c; bl=bl+I.f0['c_width_change']
                if inc=='more':
                    over=rf!=0; bl=bl+z3.UDiv(10*c+2,z3.BitVecVal(3,32))
                else:
                    bl=bl+(10*inc+2)//3; r64=z3.SignExt(32,rf)*10**inc; over=z3.Or(r64>0x7fffffff,r64<-0x80000000); rf=z3.Extract(31,0,r64)
            rf=z3.If(s.map_has,mv,rf); over=z3.And(over,z3.Not(s.map_has))
            if o.kind=='throw' and o.exc.info!='callee':
                ctx.prove(t,o.exc.typ in (wr_err('error_consistency'),wr_err('error_unimplemented')),'errors are consistency or unimplemented errors'); ctx.prove(t,z3.Or(s.map_has,over),'refused only when the increased reference value cannot be represented')
                return
            al=[x for x in e if x[0]=='query_altered']
            for x in al:
                ctx.prove(t,x[1]==code,'the same element is altered'); ctx.prove(t,x[2]==sc,'scale as changed by the operators in effect'); ctx.prove(t,x[3]==bl,'width as changed by the operators in effect'); ctx.prove(t,x[4]==rf,'reference value as changed by the operators in effect'); ctx.prove(t,z3.Not(over),'a reference value that cannot be represented is refused')
            if o.kind=='throw': return
            if al: ctx.prove(t,isinstance(o.val,Ptr) and o.val.obj==al[-1][5].obj,'the altered description is used')
            else:
                ctx.prove(t,isinstance(o.val,Ptr) and o.val.obj==p.obj,'the description is the one in the table')
                ctx.prove(t,z3.And(sc==f(p,'scale'),bl==f(p,'bit_len'),rf==f(p,'bit_ref')),'the table is used as it is only when no operator changes it')
        ctx.call([I.p,code],post)
def tquery9(E,st,a,ins):
    r=tquery(E,st,a,ins); c=E.ctx.con
    if isinstance(c,GetVarinfo):
        s1,p=r.items[0]; E.store(s1,I32,c.typ,p.plus(off(E,'Varinfo','type')))
        u=p.plus(off(E,'Varinfo','unit')); w=(c.unit or 'K').encode()+b'\0'
        for i,b in enumerate(w): E.store(s1,I8,b,u.plus(i))
        for f,b in (('scale',1<<20),('bit_len',1<<20)):
            v=tobv(E.load(s1,I32,p.plus(off(E,'Varinfo',f))),32); s1.assume(z3.And(v>=-b,v<=b))
    return r
GetVarinfo.uses=R_map+[(R_tab[0][0],tquery9)]+R_tab[1:]
CONTRACTS=[OpIndex(),OpPop(),OpPopN(),Run(),Replication(),RBitmap(),BVariable(),CModifier(),GetVarinfo()]
