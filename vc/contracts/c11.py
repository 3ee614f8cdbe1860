"""C11: every element of the data section becomes one variable per subset, decoded from its own bits, and the other way round."""
from .common import *
from .c09 import vtable_with
from ..lib import span_check, bytes_obj
SRCS=['bufr/input.cc','bufr/decoder.cc','bulletin/associated_fields.cc','bulletin/internals.cc','bulletin/interpreter.cc','bulletin/bitmaps.cc','bufr_encoder.cc','buffers/bufr.cc','subset.cc','vartable.cc','tables.cc','varinfo.cc','error.cc']
INST=['layout.cc']
ASSUMPTIONS=['a message is read as a sequence of fields: the bit reader returns consecutive fields of the requested widths (C01)','decoding one number or text from its bits is as proved in C03 and C04: an unknown function of the bits of the field','Var construction, copy, move and attributes as proved in C05 and C06','fields of less than 2^23 bits, fewer than 2^31 subsets']
I16=("i",16)
K=z3.BitVec('K',64)
B64=z3.BitVecSort(64); B32=z3.BitVecSort(32); B8=z3.BitVecSort(8)
FLD=z3.Function('field',B64,B32)             # the q-th field of the data, as a number
MISS=z3.Function('text_missing',B64,z3.BoolSort()); TXT=z3.Function('text',B64,B64)   # the q-th field, as text
DB=z3.Function('decode_binary',B32,z3.RealSort()); INDOM=z3.Function('in_domain',z3.RealSort(),z3.BoolSort()); STO=z3.Function('stored',z3.RealSort(),B64)
def allones(n):
    """all ones in n bits, 0 < n <= 32"""
    n=tobv(n,32); return z3.LShR(z3.BitVecVal(0xffffffff,32),32-n)
# ------------------------------------------------------------------ variables: description, set flag, value, attributes
def vo(E,f): return off(E,'Var',f)
class AV:
    """contents of a variable"""
    def __init__(s,info,isset,val,att): s.info=info; s.isset=isset; s.val=val; s.att=att
def vget(E,st,p):
    i=E.load(st,PTR,p.plus(vo(E,'m_info'))); return AV(i,tobv(E.load(st,I8,p.plus(vo(E,'m_isset'))),8),T64(E.load(st,I64,p.plus(vo(E,'m_value')))),T64(E.load(st,I64,p.plus(vo(E,'m_attrs')))))
def vput(E,st,p,info=None,isset=None,val=None,att=None):
    if info is not None: E.store(st,PTR,info,p.plus(vo(E,'m_info')))
    if isset is not None: E.store(st,I8,z3.simplify(z3.If(isset,z3.BitVecVal(1,8),z3.BitVecVal(0,8))) if isinstance(isset,(bool,z3.BoolRef)) else isset,p.plus(vo(E,'m_isset')))
    if val is not None: E.store(st,I64,val,p.plus(vo(E,'m_value')))
    if att is not None: E.store(st,I64,att,p.plus(vo(E,'m_attrs')))
Z=v64(0)
def isptr(p,q): return isinstance(p,Ptr) and isinstance(q,Ptr) and p.obj==q.obj and norm(p.off)==norm(q.off)
def v_ctor(E,st,a,ins): vput(E,st,a[0],a[1],False,Z,Z); return 0
def v_copy(E,st,a,ins):
    x=vget(E,st,a[1]); vput(E,st,a[0],x.info,x.isset,x.val,x.att); return 0
def v_move(E,st,a,ins):
    v_copy(E,st,a,ins); vput(E,st,a[1],None,False,Z,Z); return 0
def v_assign(E,st,a,ins):
    if a[0].obj!=a[1].obj or norm(a[0].off)!=norm(a[1].off): (v_move if '&&' in DEM[E._cur[2]] else v_copy)(E,st,a,ins)
    return a[0]
def real(x): return x.r if isinstance(x,FV) else z3.RealVal(x)
def v_setd(E,st,a,ins):
    """stored when in the domain; otherwise the policy of C02 decides: unset, clamped or a domain error"""
    r=real(a[1]); t=st.fork(); vput(E,st,a[0],None,INDOM(r),STO(r)); vput(E,t,a[0],None,False)
    return Multi([(st,0),(t,Thrown(wr_err('error_domain'),info='domain'))])
def v_ctor_d(E,st,a,ins): v_ctor(E,st,a,ins); return v_setd(E,st,[a[0],a[2]],ins)
def textof(E,st,p):
    """the token of the text at p: the last one decoded there"""
    if not isinstance(p,Ptr) or p.obj!=st.g.get(('strobj',)) or norm(p.off)!=0: raise Unsupported('text from elsewhere')
    return T64(st.g['#str'])
def v_setc(E,st,a,ins): vput(E,st,a[0],None,True,textof(E,st,a[1])); return 0
def v_ctor_c(E,st,a,ins): v_ctor(E,st,a,ins); return v_setc(E,st,[a[0],a[2]],ins)
def v_unset(E,st,a,ins): vput(E,st,a[0],None,False); return 0
def v_eq(E,st,a,ins):
    x,y=vget(E,st,a[0]),vget(E,st,a[1]); return z3.simplify(z3.And(x.isset==y.isset,z3.Or(x.isset==0,x.val==y.val),x.att==y.att))
def v_clear(E,st,a,ins): vput(E,st,a[0],None,None,None,Z); return 0
def nop(E,st,a,ins): return 0
VV=r'^wreport::Var::'
R_var=[(VV+r'Var\(wreport::_Varinfo const\*\)',v_ctor),(VV+r'Var\(wreport::Var const&\)',v_copy),(VV+r'Var\(wreport::Var&&\)',v_move),(VV+r'operator=\(wreport::Var( const)?&&?\)',v_assign),
 (VV+r'Var\(wreport::_Varinfo const\*, double\)',v_ctor_d),(VV+r'Var\(wreport::_Varinfo const\*, char const\*\)',v_ctor_c),(VV+r'setd\(',v_setd),(VV+r'setc\(',v_setc),(VV+r'unset\(\)',v_unset),(VV+r'clear_attrs\(\)',v_clear),(VV+r'~Var\(\)',nop),
 (VV+r'operator==\(wreport::Var const&\) const',v_eq),(VV+r'operator!=\(wreport::Var const&\) const',lambda E,st,a,ins:z3.simplify(z3.Not(v_eq(E,st,a,ins))))]
# ------------------------------------------------------------------ the data as a sequence of fields
def gb(E,st,a,ins):
    """Input::get_bits(n): the next field, which must have the width the template says"""
    c=E.ctx.con; q=T64(st.g['#q']); n=tobv(a[1],32)
    E.prove(st,n==c.width(q),E.cname()+'each field is read with its width'); E.prove(st,z3.ULE(n,32),E.cname()+'at most 32 bits are read at a time')
    t=st.fork(); v=FLD(q); st.assume(z3.ULE(v,z3.If(n==0,z3.BitVecVal(0,32),allones(n)))); st.g['#q']=z3.simplify(q+1)
    return Multi([(st,v),(t,Thrown(wr_err('error_parse'),info='eof'))])
def ds(E,st,a,ins):
    """Input::decode_string(bits,char*,len&): the next field, as text"""
    c=E.ctx.con; q=T64(st.g['#q']); n=tobv(a[1],32)
    E.prove(st,n==c.width(q),E.cname()+'each text is read with its width'); E.prove(st,z3.And((n&7)==0,n!=0),E.cname()+'text is made of whole characters')
    span_check(E,st,a[2],z3.simplify(z3.LShR(z3.ZeroExt(32,n),3)+1),'decode_string buffer')
    if st.g.get(('strobj',)) not in (None,a[2].obj): raise Unsupported('more than one text buffer')
    t=st.fork(); st.g[('strobj',)]=a[2].obj; st.g['#str']=z3.simplify(TXT(q)); st.g['#q']=z3.simplify(q+1); E.store(st,I64,E.fresh('len',64),a[3])
    return Multi([(st,z3.Not(MISS(q))),(t,Thrown(wr_err('error_parse'),info='eof'))])
def db(E,st,a,ins):
    if not isptr(a[0],E.ctx.con.info): raise Unsupported('decode_binary of another Varinfo')
    return FV(DB(tobv(a[1],32)))
def perr(E,st,a,ins): return Thrown(wr_err('error_parse'),info='parse')
R_in=[(r'^wreport::bufr::Input::get_bits\(',gb),(r'^wreport::bufr::Input::decode_string\(unsigned int, char\*, unsigned long&\)',ds),(r'^wreport::_Varinfo::decode_binary\(',db),(r'^wreport::bufr::Input::parse_error\(',perr)]
def num(raw): r=DB(raw); return INDOM(r),STO(r)
# ------------------------------------------------------------------ subsets
class SUBSETS:
    """the subsets of a bulletin"""
    def __init__(s,ctx,n):
        E=ctx.E; st=ctx.st; s.E=E; s.n=n; ss=off(E,'Subset')
        s.SZ=z3.Function('subset_size',B64,B64); s.INF=z3.Function('infos',B64,B64,B64); v=off(E,'Subset','vec'); vs,vi=off(E,'Var'),off(E,'Varinfo'); s.vs=vs
        # variables of subset i: at offset 2^40*i of one object
        s.infos=E.alloc(st,'infos',v64(1<<63),'rec',ro=True); st.mem[s.infos.obj].stride=vi; st.mem[s.infos.obj].fields={}
        s.vars=E.alloc(st,'variables',v64(1<<63),'rec'); x=st.mem[s.vars.obj]; x.stride=vs; x.fields={vo(E,'m_info'):(8,'p',lambda E,st,i:Ptr(s.infos.obj,Lin.of(i).mul(vi)))}
        begin=lambda E,st,i:Ptr(s.vars.obj,Lin.of(i).mul(1<<40)); end=lambda E,st,i:Ptr(s.vars.obj,Lin.of(i).mul(1<<40).add(Lin.of(z3.simplify(s.SZ(i)+z3.If(z3.ULT(i,T64(st.g['#n'])),v64(1),v64(0)))).mul(vs)))
        s.o=E.alloc(st,'subsets',z3.simplify(n*ss),'rec'); o=st.mem[s.o.obj]; o.stride=ss; o.fields={v:(8,'p',begin),v+8:(8,'p',end),v+16:(8,'p',end)}
        s.p=E.alloc(st,'Bulletin',off(E,'BufrBulletin'),lazy=True); b=s.p.plus(off(E,'BufrBulletin','subsets')); at=lambda i:Ptr(s.o.obj,Lin.of(i).mul(ss))
        E.store(st,PTR,at(0),b); E.store(st,PTR,at(n),b.plus(8)); E.store(st,PTR,at(n),b.plus(16))
    def index(s,p):
        if not isinstance(p,Ptr) or p.obj!=s.o.obj: raise Unsupported('another subset')
        q=Lin.of(p.off).divexact(off(s.E,'Subset'))
        if q is None: raise Unsupported('inside a subset')
        return q.bv()
    def at(s,i): return Ptr(s.o.obj,Lin.of(i).mul(off(s.E,'Subset')))
    def is_var(s,p,i,pos): return z3.BoolVal(False) if not isinstance(p,Ptr) or p.obj!=s.vars.obj else Lin.of(p.off).bv()==(i<<40)+s.vs*pos
    def is_back0(s,p,st): return s.is_var(p,v64(0),s.SZ(v64(0)))
    def is_info(s,p,i,pos): return z3.BoolVal(False) if not isinstance(p,Ptr) or p.obj!=s.infos.obj else Lin.of(p.off).bv()==off(s.E,'Varinfo')*((i<<35)+pos)
def delivered(E,st,i,x):
    """subset i gets variable x"""
    c=E.ctx.con; ctx=c.ctx; n=T64(st.g['#n']); ctx.prove(st,i==n,'subsets get their variable in order, each one once'); ctx.prove(st,z3.ULT(n,c.N),'no variable is given to subsets that do not exist')
    s,v=c.spec(n)
    ctx.prove(st,isptr(x.info,c.info),'the variable has the description of the element'); ctx.prove(st,(x.isset==1)==s,'set exactly when the value of this subset is present'); ctx.prove(st,z3.Implies(s,x.val==v),'has the value of this subset')
    ctx.prove(st,x.att==0,'has no attributes of other variables'); st.g['#n']=z3.simplify(n+1)
def call_dest(E,st,a,ins):
    """dest(i, var): gets the variable, and may take it, change it or set attributes on it"""
    i=z3.ZeroExt(32,tobv(a[1],32)); delivered(E,st,i,vget(E,st,a[2])); t=st.fork()
    vput(E,st,a[2],None,E.freshbool('isset'),E.fresh('val',64),E.fresh('attrs',64)); return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='dest'))])
def store_var(E,st,a,ins):
    c=E.ctx.con; i=c.S.index(a[0]); delivered(E,st,i,vget(E,st,a[1]))
    if '&&' in DEM[E._cur[2]]: vput(E,st,a[1],None,False,Z,Z)
    return 0
def store_undef(E,st,a,ins):
    c=E.ctx.con; delivered(E,st,c.S.index(a[0]),AV(a[1],z3.BitVecVal(0,8),Z,Z)); return 0
R_dest=[(r'^std::function<void \(unsigned int, wreport::Var&&\)>::operator\(\)\(',call_dest),(r'^wreport::Subset::store_variable\(wreport::Var( const)?&&?\)',store_var),(r'^wreport::Subset::store_variable_undef\(wreport::_Varinfo const\*\)',store_undef)]
TYPES=['Integer','Decimal','String','Binary']
def mkinfo(ctx,typ=None,nm='info'):
    E=ctx.E; p=E.alloc(ctx.st,nm,off(E,'Varinfo'),lazy=True); r={}
    for f,w in (('code',16),('scale',32),('len',32),('bit_ref',32),('bit_len',32)): r[f]=ctx.bv(nm+'_'+f,w); E.store(ctx.st,("i",w),r[f],p.plus(off(E,'Varinfo',f)))
    r['type']=z3.BitVecVal(typ,32) if typ is not None else ctx.bv(nm+'_type',32); E.store(ctx.st,I32,typ if typ is not None else r['type'],p.plus(off(E,'Varinfo','type')))
    return p,r
def ins0(st): st.g['#q']=v64(0); st.g['#n']=v64(0); st.g['#str']=v64(0)
def bitlen(r): return z3.And(z3.ULE(r['bit_len'],32),z3.UGE(r['bit_len'],1))
def textlen(r): return z3.And((r['bit_len']&7)==0,z3.UGE(r['bit_len'],8),z3.ULT(r['bit_len'],1<<23))
FUN=r'std::function<void \(unsigned int, wreport::Var&&\)>'
class ToSubsets(Contract):
    """reads one element of all subsets of compressed data and gives each subset its own"""
    search='compressed'; uses=R_var+R_in+R_dest; opts={'strides':(1,)}
    def __init__(s,dest): s.dest=dest
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.N)]
    def cands(s,E,entry,keys,fn,h):
        out=[]; Q=('g','#q'); n=('g','#n')
        if n in keys or Q in keys: out.append(('fields read match subsets',lambda w:w.term(Q)==w.term(n)+2)); out.append(('two fields read',lambda w:w.term(Q)==2))
        for k in keys:
            if k[0]=='phi': out.append(('%s is the next subset'%(k,),lambda w,k=k:w.term(k)==T64(w.st.g['#n']))); out.append(('%s in fields'%(k,),lambda w,k=k:w.term(k)+2==T64(w.st.g['#q'])))
        out.append(('next subset within',lambda w:z3.ULE(T64(w.st.g['#n']),s.N)))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; ins0(st); n32=ctx.bv('subsets',32); s.N=z3.ZeroExt(32,n32); ctx.assume(z3.ULT(s.N,1<<31))
        s.info,s.r=mkinfo(ctx,s.typ); s.pre(ctx); s.S=SUBSETS(ctx,s.N)
        ip=E.alloc(st,'Input',off(E,'Input'),lazy=True)
        if s.dest=='fun': d=E.alloc(st,'function',32,lazy=True)
        else: d=E.alloc(st,'DispatchToSubsets',16); E.store(st,PTR,s.S.p,d); E.store(st,I32,n32,d.plus(8))
        def post(o):
            t=o.st
            if o.kind=='throw':
                if o.exc.info in ('eof','domain','dest'): return
                s.refused(t,o.exc.typ); return
            s.accepted(t); ctx.prove(t,T64(t.g['#n'])==s.N,'every subset gets its variable'); ctx.prove(t,T64(t.g['#q'])==z3.If(FLD(v64(1))==0,v64(2),2+s.N),'exactly the fields of the element are read')
        ctx.call([ip,s.info,n32,d],post)
class CompNum(ToSubsets):
    typ=0
    def __init__(s,dest):
        ToSubsets.__init__(s,dest); s.name='Input::decode_compressed_number to %s'%('a function' if dest=='fun' else 'the subsets')
        s.fn=r'^wreport::bufr::Input::decode_compressed_number\(wreport::_Varinfo const\*, unsigned int, '+(FUN if dest=='fun' else 'wreport::bufr::DispatchToSubsets&')
    def pre(s,ctx): ctx.assume(bitlen(s.r))
    def width(s,q): return z3.If(q==0,s.r['bit_len'],z3.If(q==1,z3.BitVecVal(6,32),FLD(v64(1))))
    def spec(s,i):
        base,d=FLD(v64(0)),FLD(v64(1)); bl=s.r['bit_len']; x=FLD(i+2); a,b=num(base); c,e=num(base+x)
        return z3.And(base!=allones(bl),z3.If(d==0,a,z3.And(x!=allones(d),base+x!=allones(bl),c))),z3.If(d==0,b,e)
    def bad(s): return z3.Or(z3.And(FLD(v64(0))==allones(s.r['bit_len']),FLD(v64(1))!=0),z3.UGT(FLD(v64(1)),32))
    def refused(s,t,typ): s.ctx.prove(t,typ==wr_err('error_consistency'),'errors are consistency errors'); s.ctx.prove(t,s.bad(),'refused only when a missing base has differences, or differences do not fit')
    def accepted(s,t): s.ctx.prove(t,z3.Not(s.bad()),'a missing base with differences, and differences that do not fit, are refused')
class CompStr(ToSubsets):
    typ=2
    def __init__(s,dest):
        ToSubsets.__init__(s,dest); s.name='Input::decode_string to %s'%('a function' if dest=='fun' else 'the subsets')
        s.fn=r'^wreport::bufr::Input::decode_string\(wreport::_Varinfo const\*, unsigned int, '+(FUN if dest=='fun' else 'wreport::bufr::DispatchToSubsets&')
    def pre(s,ctx): ctx.assume(textlen(s.r))
    def width(s,q): return z3.If(q==0,s.r['bit_len'],z3.If(q==1,z3.BitVecVal(6,32),8*FLD(v64(1))))
    def spec(s,i):
        q=z3.If(FLD(v64(1))==0,v64(0),i+2); return z3.Not(MISS(q)),TXT(q)
    def bad(s): return z3.UGT(8*FLD(v64(1)),s.r['bit_len'])
    def refused(s,t,typ): s.ctx.prove(t,typ==wr_err('error_unimplemented'),'not implemented'); s.ctx.prove(t,s.bad(),'refused only when differences are longer than the field')
    def accepted(s,t): s.ctx.prove(t,z3.Not(s.bad()),'differences longer than the field are refused')

def unsame(a,b): return z3.Not(same(a,b))
def same(a,b): return z3.And(a[0]==b[0],z3.Implies(a[0],a[1]==b[1]))
class CompStrVar(Contract):
    """one text shared by all the subsets"""
    name='Input::decode_string (the same for all subsets)'; fn=r'^wreport::bufr::Input::decode_string\(wreport::Var&, unsigned int\)'; search='compressed'; opts={'strides':(1,)}
    uses=R_var+R_in+[(VV+r'format(\[abi:cxx11\])?\(',lambda E,st,a,ins:(str_new(E,st,a[0],None,0),0)[1])]
    width=CompStr.width; spec=CompStr.spec; bad=CompStr.bad
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.N)]
    def cands(s,E,entry,keys,fn,h):
        q=lambda w:T64(w.st.g['#q']); out=[('the same so far',lambda w:z3.Implies(z3.ULT(K,q(w)-2),same(s.spec(K),s.spec(v64(0)))))]
        for k in keys:
            if k[0]=='phi':
                for d in (1,2,3): out.append(('%s+%d fields'%(k,d),lambda w,k=k,d=d:w.term(k)+d==q(w)))
        out.append(('fields within',lambda w:z3.ULE(q(w),s.N+2)))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; ins0(st); n32=ctx.bv('subsets',32); s.N=z3.ZeroExt(32,n32); ctx.assume(z3.And(z3.ULT(s.N,1<<31),s.N!=0)); s.info,s.r=mkinfo(ctx,2); ctx.assume(textlen(s.r))
        ip=E.alloc(st,'Input',off(E,'Input'),lazy=True); v=E.alloc(st,'dest',off(E,'Var')); vput(E,st,v,s.info,False,Z,Z)
        def post(o):
            t=o.st; q=T64(t.g['#q'])
            if o.kind=='throw':
                if o.exc.info=='eof': return
                if o.exc.typ==wr_err('error_unimplemented'): ctx.prove(t,s.bad(),'not implemented only when differences are longer than the field'); return
                ctx.prove(t,o.exc.typ==wr_err('error_consistency'),'errors are consistency errors'); ctx.prove(t,z3.And(FLD(v64(1))!=0,z3.UGE(q,4),z3.ULE(q,s.N+2),unsame(s.spec(q-3),s.spec(v64(0)))),'refused only when subsets differ'); return
            x=vget(E,t,v); a,b=s.spec(v64(0))
            ctx.prove(t,z3.Not(s.bad()),'differences longer than the field are refused'); ctx.prove(t,q==z3.If(FLD(v64(1))==0,v64(2),2+s.N),'exactly the fields of the element are read')
            ctx.prove(t,z3.Implies(z3.ULT(K,s.N),same(s.spec(K),(a,b))),'all subsets have the same text'); ctx.prove(t,z3.And((x.isset==1)==a,z3.Implies(a,x.val==b),x.att==0,z3.BoolVal(isptr(x.info,s.info))),'the variable has that text')
        ctx.call([ip,v,n32],post)
class BitmapBits(Contract):
    """a bitmap is one bit per entry: 0 is data present"""
    search='compressed'; uses=R_in; opts={'strides':(1,2),'lia_first':True}
    def __init__(s,comp):
        s.comp=comp; s.name='Input::decode_%scompressed_bitmap'%('' if comp else 'un'); s.fn=r'^wreport::bufr::Input::decode_%scompressed_bitmap(\[abi:cxx11\])?\('%('' if comp else 'un')
    def width(s,q): return z3.If((q&1)==0,z3.BitVecVal(1,32),z3.BitVecVal(6,32)) if s.comp else z3.BitVecVal(1,32)
    def ix(s,k): return 2*k if s.comp else k
    def want(s,k): return z3.If(FLD(s.ix(k))==0,z3.BitVecVal(ord('+'),8),z3.BitVecVal(ord('-'),8))
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.N)]
    def cands(s,E,entry,keys,fn,h):
        q=lambda w:T64(w.st.g['#q']); done=lambda w:z3.LShR(q(w),1) if s.comp else q(w); out=[]
        for o in [o for o in entry.st.mem if entry.st.mem[o].mode=='bytes' and entry.st.mem[o].alive and not entry.st.mem[o].ro]:
            out.append(('entries decoded %d'%o,lambda w,o=o:z3.Implies(z3.ULT(K,done(w)),z3.Select(w.st.mem[o].arr,K)==s.want(K))))
        for k in keys:
            if k[0] in ('phi','cell'): out.append(('%s fields'%(k,),lambda w,k=k:s.ix(w.term(k))==q(w)))
        out.append(('done within',lambda w:z3.ULE(q(w),s.ix(s.N))))
        if s.comp: out.append(('no differences',lambda w:z3.Implies(z3.ULT(K,done(w)),FLD(2*K+1)==0))); out.append(('whole entries',lambda w:(q(w)&1)==0))
        return out
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; ins0(st); n32=ctx.bv('size',32); s.N=z3.ZeroExt(32,n32); ctx.assume(z3.ULT(s.N,1<<31)); ip=E.alloc(st,'Input',off(E,'Input'),lazy=True); sr=E.alloc(st,'result',32)
        def post(o):
            t=o.st; q=T64(t.g['#q'])
            if o.kind=='throw':
                if o.exc.info=='eof': return
                ctx.prove(t,o.exc.typ==wr_err('error_parse'),'errors are parse errors'); ctx.prove(t,z3.And(z3.BoolVal(s.comp),q!=0,(q&1)==0,FLD(q-1)!=0) if s.comp else False,'refused only when entries differ between subsets'); return
            d,n=str_get(E,t,sr); ctx.prove(t,T64(n)==s.N,'one character per entry'); ctx.prove(t,q==s.ix(s.N),'exactly the bits of the bitmap are read')
            ctx.prove(t,z3.Implies(z3.ULT(K,s.N),z3.Select(t.mem[d.obj].arr,K)==s.want(K)),'each entry is the one of the message')
            if s.comp: ctx.prove(t,z3.Implies(z3.ULT(K,s.N),FLD(2*K+1)==0),'entries that differ between subsets are refused')
        ctx.call([sr,ip,n32],post)
# ------------------------------------------------------------------ what is done with each element
def ev(st,*x): st.g[('ev',)]=st.g.get(('ev',),())+(x,)
def evs(st,*kinds): return [x for x in st.g.get(('ev',),()) if not kinds or x[0] in kinds]
class SUB1:
    """a subset of n variables"""
    def __init__(s,ctx,nm='sub'):
        E=ctx.E; st=ctx.st; s.E=E; vs,vi=off(E,'Var'),off(E,'Varinfo'); s.vs,s.vi=vs,vi; s.n=ctx.bv(nm+'_n',64); ctx.assume(z3.ULT(s.n,1<<31)); s.C=z3.Array(nm+'_CODES',B64,z3.BitVecSort(16))
        s.LEN=z3.Function(nm+'_len',B64,B32); s.TYP=z3.Function(nm+'_type',B64,B32); s.REF=z3.Function(nm+'_ref',B64,B32)
        s.infos=recobj(ctx,'infos',vi,s.n+1,{off(E,'Varinfo','code'):(2,'i',lambda E,st,i:z3.Select(s.C,i)),off(E,'Varinfo','len'):(4,'i',lambda E,st,i:s.LEN(i)),off(E,'Varinfo','type'):(4,'i',lambda E,st,i:s.TYP(i)),off(E,'Varinfo','bit_ref'):(4,'i',lambda E,st,i:s.REF(i))})
        s.vars=recobj(ctx,'variables',vs,s.n+1,{off(E,'Var','m_info'):(8,'p',lambda E,st,i:Ptr(s.infos.obj,Lin.of(i).mul(vi)))})
        s.p=E.alloc(st,'Subset',off(E,'Subset'),lazy=True); s.o=off(E,'Subset','vec')
        E.store(st,PTR,s.at(0),s.p.plus(s.o)); E.store(st,PTR,s.at(s.n),s.p.plus(s.o+8)); E.store(st,PTR,s.at(s.n+1),s.p.plus(s.o+16))
    def at(s,i): return Ptr(s.vars.obj,Lin.of(i).mul(s.vs))
    def iat(s,i): return Ptr(s.infos.obj,Lin.of(i).mul(s.vi))
    def is_at(s,p,i): return z3.BoolVal(False) if not isinstance(p,Ptr) or p.obj!=s.vars.obj else Lin.of(p.off).bv()==s.vs*T64(i)
    def is_info(s,p,i): return z3.BoolVal(False) if not isinstance(p,Ptr) or p.obj!=s.infos.obj else Lin.of(p.off).bv()==s.vi*T64(i)
def store1(E,st,a,ins):
    c=E.ctx.con; S=c.S1
    if a[0].obj!=S.p.obj: raise Unsupported('another subset')
    if '_undef' in DEM[E._cur[2]]: ev(st,'store',AV(a[1],z3.BitVecVal(0,8),Z,Z))
    else:
        ev(st,'store',vget(E,st,a[1]))
        if '&&' in DEM[E._cur[2]]: vput(E,st,a[1],None,False,Z,Z)
    E.store(st,PTR,S.at(S.n+len(evs(st,'store'))),S.p.plus(S.o+8)); return 0
R_store1=[(r'^wreport::Subset::store_variable\(wreport::Var( const)?&&?\)',store1),(r'^wreport::Subset::store_variable_undef\(wreport::_Varinfo const\*\)',store1)]
def uniform(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); ev(st,'uniform',a[2]); vput(E,st,a[0],a[2],c.u_isset,c.u_val,Z); return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
R_uni=[(r'DecoderTarget::decode_uniform_b_value\(',uniform)]
def seta_var(E,st,a,ins):
    x=vget(E,st,a[1]); ev(st,'seta',a[0],x)
    if '&&' in DEM[E._cur[2]]: vput(E,st,a[1],None,False,Z,Z)
    return 0
def seta_ptr(E,st,a,ins):
    p=E.load(st,PTR,a[1])
    if not isinstance(p,Ptr): raise Unsupported('attribute pointer')
    ev(st,'seta',a[0],p); E.store(st,PTR,NULL,a[1]); return 0
R_seta=[(VV+r'seta\(wreport::Var( const)?&&?\)',seta_var),(VV+r'seta\(std::unique_ptr',seta_ptr)]
def bits1(E,st,a,ins):
    t=st.fork(); v=E.fresh('bits',32); ev(st,'bits',tobv(a[1],32),v); return Multi([(st,v),(t,Thrown(wr_err('error_parse'),info='callee'))])
R_bits1=(r'^wreport::bufr::Input::get_bits\(',bits1)
def mkattr(E,st,a,ins):
    """make_attribute(value): an attribute or none"""
    t=st.fork(); u=st.fork(); p=E.alloc(st,'attribute',off(E,'Var')); vput(E,st,p,E.ctx.con.info,E.freshbool('ai'),E.fresh('av',64),Z); ev(st,'attr',a[1],tobv(a[2],32),p); ev(t,'attr',a[1],tobv(a[2],32),NULL); E.store(st,PTR,p,a[0]); E.store(t,PTR,NULL,a[0])
    return Multi([(st,0),(t,0),(u,Thrown(wr_err('error_domain'),info='callee'))])
R_mkattr=(r'^wreport::bulletin::AssociatedField::make_attribute\(',mkattr)
UT=r'^wreport::bufr::UncompressedDecoderTarget::'; CT=r'^wreport::bufr::CompressedDecoderTarget::'
class Target(Contract):
    search='sections'; comp=False; opts={'strides':(1,)}
    def target(s,ctx):
        E=ctx.E; st=ctx.st; s.info,s.r=mkinfo(ctx,None); ctx.assume(z3.ULE(s.r['type'],3)); s.ip=E.alloc(st,'Input',off(E,'Input'),lazy=True); nm='CompressedDecoderTarget' if s.comp else 'UncompressedDecoderTarget'
        g='_ZTVN7wreport4bufr%d%sE'%(len(nm),nm)
        if g not in E.mod.globals: raise Unsupported('no class '+nm)
        s.p=E.alloc(st,nm,off(E,nm),lazy=True); E.store(st,PTR,E.glob(st,g).plus(16),s.p); E.store(st,PTR,s.ip,s.p.plus(off(E,nm,'in')))
        s.u_isset=ctx.boolv('u_isset'); s.u_val=ctx.bv('u_val',64); ins0(st)
        if s.comp:
            n32=ctx.bv('subsets',32); s.N=z3.ZeroExt(32,n32); ctx.assume(z3.And(z3.ULT(s.N,1<<31),s.N!=0)); s.S=SUBSETS(ctx,s.N); E.store(st,PTR,s.S.p,s.p.plus(off(E,nm,'out'))); E.store(st,I32,n32,s.p.plus(off(E,nm,'subset_count')))
        else: s.S1=SUB1(ctx); E.store(st,PTR,s.S1.p,s.p.plus(off(E,nm,'out')))
        return s.p
    def is_u(s,x,t=None):
        if isinstance(x,Ptr): x=vget(s.ctx.E,t,x)
        return z3.And(z3.BoolVal(isptr(x.info,s.info)),(x.isset==1)==s.u_isset,z3.Implies(s.u_isset,x.val==s.u_val),x.att==0)
    def callee(s,o):
        """an error of one of the callees is passed on"""
        if o.kind=='throw': s.ctx.prove(o.st,o.exc.info=='callee','no errors of its own'); return True
        return False
def rd(kind):
    def h(E,st,a,ins):
        c=E.ctx.con; t=st.fork(); x=vget(E,st,a[1]); ev(st,kind,x,a[2] if len(a)>2 else None); vput(E,st,a[1],None,c.u_isset,c.u_val); return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
    return h
IN_=r'^wreport::bufr::Input::'
class UniformU(Target):
    name='UncompressedDecoderTarget::decode_uniform_b_value'; fn=UT+r'decode_uniform_b_value\('
    uses=R_var+[(IN_+r'decode_string\(wreport::Var&\)',rd('text')),(IN_+r'decode_binary\(',rd('opaque')),(IN_+r'decode_number\(',rd('number'))]
    def run(s,ctx,case):
        E=ctx.E; s.target(ctx); sr=E.alloc(ctx.st,'result',off(E,'Var'))
        def post(o):
            t=o.st
            if s.callee(o): return
            es=evs(t)
            if not ctx.prove(t,len(es)==1,'one field is decoded'): return
            k,x=es[0][0],es[0][1]; ty=s.r['type']
            ctx.prove(t,{'text':ty==2,'opaque':ty==3,'number':z3.ULE(ty,1)}[k],'according to its type'); ctx.prove(t,z3.And(z3.BoolVal(isptr(x.info,s.info)),x.att==0,x.isset==0),'into a new variable of the element'); ctx.prove(t,s.is_u(vget(E,t,sr)),'the variable decoded is returned')
        ctx.call([sr,s.p,s.info],post)
class UniformC(Target):
    comp=True; name='CompressedDecoderTarget::decode_uniform_b_value'; fn=CT+r'decode_uniform_b_value\('
    uses=R_var+[(IN_+r'decode_string\(wreport::Var&, unsigned int\)',rd('text')),(IN_+r'decode_compressed_semantic_number\(',rd('number'))]
    def run(s,ctx,case):
        E=ctx.E; s.target(ctx); sr=E.alloc(ctx.st,'result',off(E,'Var')); ty=s.r['type']
        def post(o):
            t=o.st
            if o.kind=='throw' and o.exc.info!='callee': ctx.prove(t,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_unimplemented')),ty==3),'only opaque values are not implemented'); return
            if o.kind=='throw': return
            es=evs(t)
            if not ctx.prove(t,len(es)==1,'one field is decoded'): return
            k,x,n=es[0]
            ctx.prove(t,{'text':ty==2,'number':z3.ULE(ty,1)}[k],'according to its type'); ctx.prove(t,z3.And(z3.BoolVal(isptr(x.info,s.info)),x.att==0,x.isset==0),'into a new variable of the element'); ctx.prove(t,z3.ZeroExt(32,tobv(n,32))==s.N,'for all subsets'); ctx.prove(t,s.is_u(vget(E,t,sr)),'the variable decoded is returned')
        ctx.call([sr,s.p,s.info],post)
class AddU(Target):
    """decode one element and add it to the subset"""
    uses=R_var+R_uni+R_store1+R_seta+[R_mkattr,R_bits1]
    def __init__(s,m): s.m=m; s.name='UncompressedDecoderTarget::'+m; s.fn=UT+m+r'\('
    def run(s,ctx,case):
        E=ctx.E; s.target(ctx); S=s.S1; args=[s.p,s.info]; af=s.m.endswith('associated_field'); pos=ctx.bv('pos',32)
        if af:
            fp=E.alloc(ctx.st,'AssociatedField',off(E,'AssociatedField'),lazy=True); bc=ctx.bv('bit_count',32); E.store(ctx.st,I32,bc,fp.plus(off(E,'AssociatedField','bit_count'))); ctx.assume(z3.And(bc!=0,z3.ULE(bc,32))); args.append(fp)
        if s.m=='decode_and_set_attribute': args.append(pos); ctx.assume(z3.ULT(z3.ZeroExt(32,pos),S.n))
        def post(o):
            t=o.st
            if s.callee(o): return
            u,sto,se=evs(t,'uniform'),evs(t,'store'),evs(t,'seta'); kinds=[x[0] for x in evs(t)]
            if not ctx.prove(t,len(u)==1 and isptr(u[0][1],s.info),'the element is decoded once'): return
            if s.m=='decode_and_set_attribute':
                ctx.prove(t,not sto,'nothing is added to the subset')
                if not se: ctx.prove(t,z3.Not(s.u_isset),'an attribute that is present is set'); return
                ctx.prove(t,z3.And(z3.BoolVal(len(se)==1),s.u_isset,S.is_at(se[0][1],z3.ZeroExt(32,pos)),s.is_u(se[0][2],t)),'the attribute is set on the variable at the given position, when present'); return
            if not ctx.prove(t,len(sto)==1,'one variable is added'): return
            ctx.prove(t,s.is_u(sto[0][1]),'the variable decoded is added')
            if s.m=='decode_and_add_to_all': ctx.prove(t,S.is_at(o.val,S.n),'the variable added is returned')
            if not af: ctx.prove(t,not se,'no attributes are set'); return
            b,m=evs(t,'bits'),evs(t,'attr')
            if not ctx.prove(t,len(b)==1 and len(m)==1 and kinds.index('bits')<kinds.index('uniform'),'the associated field is read before the element'): return
            ctx.prove(t,z3.And(b[0][1]==bc,m[0][2]==b[0][2],z3.BoolVal(isptr(m[0][1],fp))),'with its width')
            if m[0][3].obj==0: ctx.prove(t,not se,'no attribute when the associated field has no meaning'); return
            ctx.prove(t,z3.And(z3.BoolVal(len(se)==1),S.is_at(se[0][1],S.n),z3.BoolVal(isinstance(se[0][2],Ptr) and isptr(se[0][2],m[0][3]))) if len(se)==1 else False,'the associated field is an attribute of the variable added')
        ctx.call(args,post)
class LookupU(Target):
    name='UncompressedDecoderTarget::lookup_info'; fn=UT+r'lookup_info\('
    def run(s,ctx,case):
        s.target(ctx); pos=ctx.bv('pos',32); ctx.assume(z3.ULT(z3.ZeroExt(32,pos),s.S1.n))
        def post(o):
            if ctx.prove(o.st,o.kind=='ret','does not throw'): ctx.prove(o.st,s.S1.is_info(o.val,z3.ZeroExt(32,pos)),'the description of the variable at that position')
        ctx.call([s.p,pos],post)
class RefU(Target):
    name='UncompressedDecoderTarget::reference_subset'; fn=UT+r'reference_subset\('
    def run(s,ctx,case):
        s.target(ctx)
        def post(o):
            if ctx.prove(o.st,o.kind=='ret','does not throw'): ctx.prove(o.st,isptr(o.val,s.S1.p),'is the subset being decoded')
        ctx.call([s.p],post)
def v_ctor_s(E,st,a,ins):
    """Var(info, std::string): a text variable with that text"""
    c=E.ctx.con; d,n=str_get(E,st,a[2]); ev(st,'text',a[1],d,n,st.mem[d.obj].arr); vput(E,st,a[0],a[1],True,c.u_val,Z); return 0
R_ctor_s=(VV+r'Var\(wreport::_Varinfo const\*, std::__cxx11::basic_string',v_ctor_s)
class RawChar(Target):
    """raw characters, as many as declared"""
    name='UncompressedDecoderTarget::decode_and_add_raw_character_data'; fn=UT+r'decode_and_add_raw_character_data\('; uses=[R_ctor_s]+R_var+R_store1+R_in
    def width(s,q): return z3.BitVecVal(8,32)
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.L)]
    def cands(s,E,entry,keys,fn,h):
        q=lambda w:T64(w.st.g['#q']); out=[]
        for o in [o for o in entry.st.mem if entry.st.mem[o].mode=='bytes' and entry.st.mem[o].alive and not entry.st.mem[o].ro]:
            out.append(('characters read %d'%o,lambda w,o=o:z3.Implies(z3.ULT(K,q(w)),z3.Select(w.st.mem[o].arr,K)==z3.Extract(7,0,FLD(K)))))
        for k in keys:
            if k[0] in ('phi','cell'): out.append(('%s fields'%(k,),lambda w,k=k:(Lin.of(w.raw(k).off).bv() if isinstance(w.raw(k),Ptr) else w.term(k))==q(w)))
        out.append(('within',lambda w:z3.ULE(q(w),s.L)))
        return out
    def run(s,ctx,case):
        E=ctx.E; s.target(ctx); s.L=z3.ZeroExt(32,s.r['len']); ctx.assume(z3.ULT(s.L,1<<31)); s.u_isset=z3.BoolVal(True)
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.info=='eof','refused only when the data ends'); return
            tx,sto=evs(t,'text'),evs(t,'store')
            if not ctx.prove(t,len(tx)==1 and len(sto)==1 and isptr(tx[0][1],s.info),'one text is added'): return
            ctx.prove(t,T64(tx[0][3])==s.L,'as long as declared'); ctx.prove(t,T64(t.g['#q'])==s.L,'reads exactly its characters'); ctx.prove(t,z3.Implies(z3.ULT(K,s.L),z3.Select(tx[0][4],K)==z3.Extract(7,0,FLD(K))),'with the characters of the message'); ctx.prove(t,s.is_u(sto[0][1]),'and it is added to the subset')
        ctx.call([s.p,s.info],post)
class RefVal(Target):
    """a changed reference value: a sign bit and a magnitude"""
    name='UncompressedDecoderTarget::decode_c03_refval_override'; fn=UT+r'decode_c03_refval_override\('; uses=R_in
    def cases(s): return list(range(1,33))
    def width(s,q): return z3.BitVecVal(s.bits,32)
    def run(s,ctx,case):
        s.target(ctx); s.bits=case
        def post(o):
            if o.kind=='throw': ctx.prove(o.st,o.exc.info=='eof','refused only when the data ends'); return
            f=z3.ZeroExt(32,FLD(v64(0))); m=f&((1<<(case-1))-1); neg=(f>>(case-1))&1
            ctx.prove(o.st,z3.And(T64(o.st.g['#q'])==1,z3.SignExt(32,tobv(o.val,32))==z3.If(neg==1,-m,m)),'the first bit is the sign')
        ctx.call([s.p,case],post)
def bmpdec(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); ev(st,'bits',tobv(a[2],32)); d=str_new(E,st,a[0],c.BMP,z3.ZeroExt(32,tobv(a[2],32))); c.bmpd=d; return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
def getbmp(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); d,n=str_get(E,st,a[2]); ev(st,'get_bitmap',a[0],tobv(a[1],16),st.mem[d.obj].arr,n); return Multi([(st,c.info),(t,Thrown(wr_err('error_consistency'),info='callee'))])
def next_subset(s,w,k):
    x=w.raw(k)
    if not isinstance(x,Ptr): return w.term(k)==T64(w.st.g['#n'])
    return w.index(k)==T64(w.st.g['#n']) if s.comp and x.obj==s.S.o.obj and w.index(k) is not None else z3.BoolVal(x.obj!=s.S.o.obj)
class AddBitmap(Target):
    uses=[R_ctor_s]+R_var+R_store1+R_dest[1:]+[(IN_+r'decode_(un)?compressed_bitmap',bmpdec),(r'^wreport::Tables::get_bitmap\(',getbmp)]
    def __init__(s,comp): s.comp=comp; s.name=('C' if comp else 'Unc')+'ompressedDecoderTarget::decode_and_add_bitmap'; s.fn=(CT if comp else UT)+r'decode_and_add_bitmap\('; s.uses=[x for x in s.uses if not (comp and x[1] is store1) and not(not comp and x[1] in (store_var,store_undef))]
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.N)] if s.comp else []
    def cands(s,E,entry,keys,fn,h): return [('%s is the next subset'%(k,),lambda w,k=k:next_subset(s,w,k)) for k in keys if k[0] in ('phi','cell')]+[('within',lambda w:z3.ULE(T64(w.st.g['#n']),s.N))]
    def spec(s,i): return z3.BoolVal(True),s.u_val
    def run(s,ctx,case):
        E=ctx.E; s.target(ctx); s.BMP=ctx.arr('BMP',16); n=ctx.bv('size',32); code=ctx.bv('code',16); tb=E.alloc(ctx.st,'Tables',off(E,'Tables'),lazy=True); s.u_isset=z3.BoolVal(True); ctx.assume(z3.ULT(n,1<<30))
        def post(o):
            t=o.st
            if s.callee(o): return
            b,g,tx,sto=evs(t,'bits'),evs(t,'get_bitmap'),evs(t,'text'),evs(t,'store')
            if not ctx.prove(t,len(b)==1 and len(g)==1 and len(tx)==1,'one bitmap is decoded'): return
            N=z3.ZeroExt(32,n); ctx.prove(t,z3.And(b[0][1]==n,z3.BoolVal(isptr(g[0][1],tb)),g[0][2]==code,T64(g[0][4])==N,T64(tx[0][3])==N),'of the given size and code')
            ctx.prove(t,z3.Implies(z3.ULT(K,N),z3.And(z3.Select(g[0][3],K)==z3.Select(s.BMP,K),z3.Select(tx[0][4],K)==z3.Select(s.BMP,K))),'with the entries of the message'); ctx.prove(t,isptr(tx[0][1],s.info),'described as a bitmap')
            if s.comp: ctx.prove(t,T64(t.g['#n'])==s.N,'every subset gets it'); ctx.prove(t,s.S.is_back0(o.val,t),'the bitmap added is returned')
            else: ctx.prove(t,z3.And(z3.BoolVal(len(sto)==1),s.is_u(sto[0][1]),s.S1.is_at(o.val,s.S1.n)) if len(sto)==1 else False,'it is added and returned')
        ctx.call([s.p,tb,code,n],post)
class AddAllC(Target):
    comp=True; name='CompressedDecoderTarget::decode_and_add_to_all'; fn=CT+r'decode_and_add_to_all\('; uses=R_var+R_uni+R_dest[1:]
    cut=AddBitmap.cut; loop_params=AddBitmap.loop_params; cands=AddBitmap.cands
    def spec(s,i): return s.u_isset,s.u_val
    def run(s,ctx,case):
        s.target(ctx)
        def post(o):
            t=o.st
            if s.callee(o): return
            u=evs(t,'uniform')
            if not ctx.prove(t,len(u)==1 and isptr(u[0][1],s.info),'the element is decoded once'): return
            ctx.prove(t,T64(t.g['#n'])==s.N,'every subset gets it'); ctx.prove(t,s.S.is_back0(o.val,t),'the variable added is returned')
        ctx.call([s.p,s.info],post)
def disp(kind):
    def h(E,st,a,ins):
        c=E.ctx.con; t=st.fork(); d=a[3]; ev(st,kind,a[1],tobv(a[2],32),E.load(st,PTR,d.plus(off(E,'DispatchToSubsets','out'))),tobv(E.load(st,I32,d.plus(off(E,'DispatchToSubsets','subset_count'))),32)); return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='callee'))])
    return h
def notimpl(s,o,cond=None):
    """-> True when the outcome is an error, which is checked"""
    if o.kind!='throw': return False
    if o.exc.info!='callee': s.ctx.prove(o.st,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_unimplemented')),s.r['type']==3),'only opaque values are not implemented')
    return True
class AddC(Target):
    comp=True; name='CompressedDecoderTarget::decode_and_add_b_value'; fn=CT+r'decode_and_add_b_value\('
    uses=[(IN_+r'decode_string\(wreport::_Varinfo const\*, unsigned int, wreport::bufr::DispatchToSubsets&',disp('text')),(IN_+r'decode_compressed_number\(wreport::_Varinfo const\*, unsigned int, wreport::bufr::DispatchToSubsets&',disp('number'))]
    def run(s,ctx,case):
        s.target(ctx); ty=s.r['type']
        def post(o):
            t=o.st
            if notimpl(s,o): return
            es=evs(t)
            if not ctx.prove(t,len(es)==1,'one element is decoded'): return
            k,i,n,out,cnt=es[0]; ctx.prove(t,{'text':ty==2,'number':z3.ULE(ty,1)}[k],'according to its type'); ctx.prove(t,z3.And(z3.BoolVal(isptr(i,s.info) and isptr(out,s.S.p)),z3.ZeroExt(32,n)==s.N,z3.ZeroExt(32,cnt)==s.N),'for all the subsets')
        ctx.call([s.p,s.info],post)
def OPCALL(E):
    f=[n for n in E.mod.funcs if re.search(r'^'+FUN+r'::operator\(\)\(unsigned int, wreport::Var&&\) const',DEM.get(n,''))]
    if not f: raise Unsupported('std::function::operator()')
    return f[0]
def higher(kind):
    """a callee that gives a variable to its callback, for each subset in order: run the callback for an arbitrary subset"""
    def h(E,st,a,ins):
        c=E.ctx.con; d=a[-1]; t=st.fork(); ev(st,kind,[x for x in a[1:-1]])
        i=c.cb_index; v=E.alloc(st,'decoded',off(E,'Var')); vput(E,st,v,c.info,c.u_isset,c.u_val,Z); st.assume(z3.ULT(z3.ZeroExt(32,i),c.N)); c.cb_var=v
        return Multi([(st,Enter(OPCALL(E),[d,i,v])),(t,Thrown(wr_err('error_parse'),info='callee'))])
    return h
R_high=[(IN_+r'decode_string\(wreport::_Varinfo const\*, unsigned int, '+FUN,higher('text')),(IN_+r'decode_compressed_number\(wreport::_Varinfo const\*, unsigned int, '+FUN,higher('number')),(IN_+r'decode_compressed_number_af\(',higher('af'))]
def store_any(E,st,a,ins):
    c=E.ctx.con; ev(st,'store',c.S.index(a[0]),vget(E,st,a[1]) if 'undef' not in DEM[E._cur[2]] else AV(a[1],z3.BitVecVal(0,8),Z,Z)); return 0
R_storeany=[(r'^wreport::Subset::store_variable(_undef)?\(wreport::(Var( const)?&&?|_Varinfo const\*)\)',store_any)]
class SetAttrC(Target):
    comp=True; name='CompressedDecoderTarget::decode_and_set_attribute'; fn=CT+r'decode_and_set_attribute\('; uses=R_var+R_high+R_seta+R_storeany
    def run(s,ctx,case):
        s.target(ctx); s.cb_index=ctx.bv('subset',32); pos=ctx.bv('pos',32); ty=s.r['type']; i=z3.ZeroExt(32,s.cb_index); P=z3.ZeroExt(32,pos); ctx.assume(z3.ULT(P,s.S.SZ(i)))
        def post(o):
            t=o.st
            if notimpl(s,o): return
            es=evs(t,'text','number','af'); se=evs(t,'seta')
            if not ctx.prove(t,len(es)==1 and len(es[0][1])==2,'one element is decoded'): return
            ctx.prove(t,{'text':ty==2,'number':z3.ULE(ty,1)}[es[0][0]],'according to its type'); ctx.prove(t,z3.And(z3.BoolVal(isptr(es[0][1][0],s.info)),z3.ZeroExt(32,tobv(es[0][1][1],32))==s.N),'for all the subsets')
            ctx.prove(t,not evs(t,'store'),'nothing is added to the subsets')
            if not se: ctx.prove(t,z3.Not(s.u_isset),'an attribute that is present is set'); return
            ctx.prove(t,z3.And(z3.BoolVal(len(se)==1),s.u_isset,s.S.is_var(se[0][1],i,P),s.is_u(se[0][2],t)) if len(se)==1 else False,'the attribute of each subset is set on its variable at the given position, when present')
        ctx.call([s.p,s.info,pos],post)
class AddAfC(Target):
    comp=True; name='CompressedDecoderTarget::decode_and_add_b_value_with_associated_field'; fn=CT+r'decode_and_add_b_value_with_associated_field\('; uses=R_var+R_high+R_seta+R_storeany
    def run(s,ctx,case):
        E=ctx.E; s.target(ctx); s.cb_index=ctx.bv('subset',32); i=z3.ZeroExt(32,s.cb_index); fp=E.alloc(ctx.st,'AssociatedField',off(E,'AssociatedField'),lazy=True)
        def post(o):
            t=o.st
            if notimpl(s,o): return
            es=evs(t,'text','number','af'); sto=evs(t,'store')
            if not ctx.prove(t,len(es)==1 and es[0][0]=='af' and len(es[0][1])==3,'one element is decoded, with its associated field'): return
            ctx.prove(t,s.r['type']!=3,'opaque values are not implemented'); ctx.prove(t,z3.And(z3.BoolVal(isptr(es[0][1][0],s.info) and isptr(es[0][1][1],fp)),z3.ZeroExt(32,tobv(es[0][1][2],32))==s.N),'for all the subsets')
            ctx.prove(t,z3.And(sto[0][1]==i,s.is_u(sto[0][2])) if len(sto)==1 and not evs(t,'seta') else False,'each subset gets its variable')
        ctx.call([s.p,s.info,fp],post)
class NotImplC(Target):
    comp=True
    def __init__(s,m,ret=None): s.m=m; s.name='CompressedDecoderTarget::'+m; s.fn=CT+m+r'\('
    def run(s,ctx,case):
        s.target(ctx); a=[s.p,ctx.bv('bits',32) if 'c03' in s.m else s.info]
        ctx.call(a,lambda o:ctx.prove(o.st,o.kind=='throw' and o.exc.typ==wr_err('error_unimplemented'),'is refused as not implemented'))
class LookupC(Target):
    comp=True; name='CompressedDecoderTarget::lookup_info'; fn=CT+r'lookup_info\('
    uses=[(r'^wreport::Bulletin::subset\(unsigned int\)( const)?',lambda E,st,a,ins:E.ctx.con.S.at(z3.ZeroExt(32,tobv(a[1],32))))]
    def run(s,ctx,case):
        s.target(ctx); pos=ctx.bv('pos',32); P=z3.ZeroExt(32,pos); ctx.assume(z3.ULT(P,s.S.SZ(v64(0))))
        def post(o):
            if ctx.prove(o.st,o.kind=='ret','does not throw'): ctx.prove(o.st,s.S.is_info(o.val,v64(0),P),'the description of the variable at that position of the first subset')
        ctx.call([s.p,pos],post)
class RefC(Target):
    comp=True; name='CompressedDecoderTarget::reference_subset'; fn=CT+r'reference_subset\('
    def run(s,ctx,case):
        s.target(ctx)
        def post(o):
            if ctx.prove(o.st,o.kind=='ret','does not throw'): ctx.prove(o.st,isptr(o.val,s.S.at(v64(0))),'is the first subset')
        ctx.call([s.p],post)
# ------------------------------------------------------------------ associated fields
MEANING={1:(33,2),2:(33,3),6:(33,50),7:(33,40),8:(33,2),21:(33,41)}
def fxy(x,y): return (x<<8)|y
def cin(sg,ks): return z3.Or([sg==k for k in ks])
def bquery(E,st,a,ins):
    t=st.fork(); p=E.alloc(st,'entry',off(E,'Varinfo'),lazy=True); ev(st,'query',a[0],tobv(a[1],16),p); return Multi([(st,p),(t,Thrown(wr_err('error_notfound'),info='callee'))])
R_bq=(r'^wreport::.*Vartable.*::query\(unsigned short\) const',bquery)
def v_ctor_i(E,st,a,ins):
    t=st.fork(); ev(st,'int',tobv(a[2],32)); vput(E,st,a[0],a[1],True,z3.ZeroExt(32,tobv(a[2],32)),Z); return Multi([(st,0),(t,Thrown(wr_err('error_domain'),info='callee'))])
R_ctor_i=(VV+r'Var\(wreport::_Varinfo const\*, int\)',v_ctor_i)
R_log=(r'^wreport::notes::logf?\(',nop)
def btab(E,st):
    b=E.alloc(st,'btable',8); E.store(st,PTR,E.glob(st,vtable_with(E,r'::query_altered\(',r'::query\(unsigned short\)')).plus(16),b); return b
class AF(Contract):
    search='sections'
    def field(s,ctx):
        E=ctx.E; st=ctx.st; s.p=E.alloc(st,'AssociatedField',off(E,'AssociatedField'),lazy=True); at=lambda f:s.p.plus(off(E,'AssociatedField',f)); s.bt=btab(E,st); E.store(st,PTR,s.bt,at('btable')); s.bc=ctx.bv('bit_count',32); s.sg=ctx.bv('significance',32); s.skip=ctx.bv('skip_missing',8)
        E.store(st,I32,s.bc,at('bit_count')); E.store(st,I32,s.sg,at('significance')); E.store(st,I8,s.skip,at('skip_missing')); ctx.assume(z3.And(z3.ULE(s.skip,1),z3.ULE(s.bc,31),s.bc!=0))
    def code(s): 
        r=z3.BitVecVal(0,16)
        for k,v in MEANING.items(): r=z3.If(s.sg==k,z3.BitVecVal(fxy(*v),16),r)
        return r
    def notimpl(s,t,typ): s.ctx.prove(t,z3.And(z3.BoolVal(typ==wr_err('error_unimplemented')),z3.Or(s.sg==0,z3.UGT(s.sg,63))),'only meanings that do not exist are not implemented')
class MakeAttr(AF):
    name='AssociatedField::make_attribute'; fn=r'^wreport::bulletin::AssociatedField::make_attribute\('; uses=[R_ctor_i,R_bq,R_log]+R_var
    def run(s,ctx,case):
        E=ctx.E; s.field(ctx); v=ctx.bv('value',32); sr=E.alloc(ctx.st,'result',8); ctx.assume(z3.ULE(v,allones(s.bc))); s.cur=None
        def post(o):
            t=o.st
            if o.kind=='throw':
                if o.exc.info!='callee': s.notimpl(t,o.exc.typ)
                return
            ctx.prove(t,z3.And(s.sg!=0,z3.ULE(s.sg,63)),'meanings that do not exist are refused')
            miss=v==allones(s.bc); none=z3.Or(z3.Not(cin(s.sg,MEANING)),z3.And(miss,s.skip==1,cin(s.sg,(6,8,21)))); r=E.load(t,PTR,sr)
            if not isinstance(r,Ptr) or r.obj==0: ctx.prove(t,none,'no attribute only when there is nothing to say'); return
            ctx.prove(t,z3.Not(none),'no attribute when there is nothing to say'); q=evs(t,'query'); x=vget(E,t,r)
            ok=[e for e in q if isptr(e[3],x.info)]
            if not ctx.prove(t,len(ok)==1 and isptr(ok[0][1],s.bt),'described by the B table'): return
            ctx.prove(t,ok[0][2]==s.code(),'with the code of its meaning'); ctx.prove(t,(x.isset==1)==z3.Not(miss),'set unless missing'); ctx.prove(t,z3.Implies(z3.Not(miss),z3.And(z3.Extract(31,0,x.val)==v,x.att==0)),'with the value read')
        ctx.call([sr,s.p,v],post)
def enqa_ev(E,st,a,ins):
    t=st.fork(); p=E.alloc(st,'attr',off(E,'Var'),lazy=True); ev(st,'enqa',a[0],tobv(a[1],16),p); ev(t,'enqa',a[0],tobv(a[1],16),NULL); return Multi([(st,p),(t,NULL)])
R_enqa=(VV+r'enqa\(unsigned short\) const',enqa_ev)
class GetAttr(AF):
    name='AssociatedField::get_attribute'; fn=r'^wreport::bulletin::AssociatedField::get_attribute\('; uses=[R_enqa,R_log]
    def run(s,ctx,case):
        E=ctx.E; s.field(ctx); v=E.alloc(ctx.st,'Var',off(E,'Var'),lazy=True)
        def post(o):
            t=o.st
            if o.kind=='throw': s.notimpl(t,o.exc.typ); return
            ctx.prove(t,z3.And(s.sg!=0,z3.ULE(s.sg,63)),'meanings that do not exist are refused'); e=evs(t,'enqa')
            if not e: ctx.prove(t,z3.And(z3.Not(cin(s.sg,MEANING)),z3.BoolVal(isinstance(o.val,Ptr) and o.val.obj==0)),'nothing only when the field has no meaning'); return
            ctx.prove(t,z3.And(e[0][2]==s.code(),z3.BoolVal(len(e)==1 and isptr(e[0][1],v) and isptr(o.val,e[0][3]))),'the attribute with the code of its meaning')
        ctx.call([s.p,v],post)
def f_copy(E,st,a,ins):
    """copy of a std::function: only followed for the destination"""
    al=st.g.get(('alias',),())
    if isinstance(a[1],Ptr) and a[1].obj in al: st.g[('alias',)]=al+(a[0].obj,); E.store(st,PTR,NULL,a[0].plus(16)); E.store(st,PTR,NULL,a[0].plus(24)); return 0
    return NotImplemented
def f_call(E,st,a,ins):
    if a[0].obj not in st.g.get(('alias',),()): return NotImplemented
    return af_deliver(E,st,tobv(a[1],32),a[2])
def af_deliver(E,st,i,v): t=st.fork(); ev(st,'dest',i,v,vget(E,st,v)); return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='callee'))])
def af_higher(kind):
    h0=higher(kind)
    def h(E,st,a,ins):
        c=E.ctx.con
        if a[-1].obj not in st.g.get(('alias',),()): return h0(E,st,a,ins)
        i=c.cb_index; ev(st,kind,[x for x in a[1:-1]]); v=E.alloc(st,'decoded',off(E,'Var')); vput(E,st,v,c.info,c.u_isset,c.u_val,Z); st.assume(z3.ULT(z3.ZeroExt(32,i),c.N)); c.cb_var=v; return af_deliver(E,st,i,v)
    return h
UPV=r'std::vector<std::unique_ptr<wreport::Var, .*>::'
def uv_ctor(E,st,a,ins):
    """vector of n empty attributes"""
    c=E.ctx.con; c.slots=E.alloc(st,'slots',z3.simplify(T64(a[1])*8),'rec'); o=st.mem[c.slots.obj]; o.stride=8; o.fields={}; c.nslots=T64(a[1]); e=lambda i:Ptr(c.slots.obj,Lin.of(i).mul(8))
    E.store(st,PTR,e(0),a[0]); E.store(st,PTR,e(a[1]),a[0].plus(8)); E.store(st,PTR,e(a[1]),a[0].plus(16)); return 0
def slot(E,p):
    c=E.ctx.con
    if not hasattr(c,'slots') or not isinstance(p,Ptr) or p.obj!=c.slots.obj: return None
    q=Lin.of(p.off).divexact(8)
    if q is None: raise Unsupported('inside a slot')
    return q.bv()
def up_assign(E,st,a,ins):
    i=slot(E,a[0])
    if i is None: return NotImplemented
    c=E.ctx.con; src=E.load(st,PTR,a[1]); mk=evs(st,'attr'); n=T64(st.g['#n'])
    if not mk or not isinstance(src,Ptr): raise Unsupported('attribute of unknown origin')
    m=mk[-1]; E.prove(st,z3.BoolVal(isptr(m[3],src) or (m[3].obj==0 and src.obj==0)),E.cname()+'stores the attribute just made'); E.prove(st,z3.And(i==n,z3.ULT(n,c.N)),E.cname()+'one attribute per subset, in order')
    E.prove(st,z3.And(m[2]==FLD(v64(0))+FLD(n+2),z3.BoolVal(isptr(m[1],c.fp))),E.cname()+'the attribute of a subset is made of its own difference'); E.store(st,PTR,NULL,a[1]); st.g['#n']=z3.simplify(n+1); st.g[('ev',)]=tuple(x for x in st.g[('ev',)] if x[0]!='attr'); return a[0]
def up_get(E,st,a,ins):
    i=slot(E,a[0])
    if i is None: return NotImplemented
    E.prove(st,z3.ULT(i,T64(st.g['#n'])),E.cname()+'attributes are used after they are made'); t=st.fork(); p=E.alloc(st,'attribute',off(E,'Var')); ev(st,'has',i,True); ev(t,'has',i,False); return Multi([(st,p),(t,NULL)])
def up_bool(E,st,a,ins):
    i=slot(E,a[0])
    if i is None: return NotImplemented
    t=st.fork(); ev(st,'has',i,True); ev(t,'has',i,False); return Multi([(st,z3.BoolVal(True)),(t,z3.BoolVal(False))])
def seta_slot(E,st,a,ins):
    i=slot(E,a[1])
    if i is None: return seta_ptr(E,st,a,ins)
    ev(st,'seta',a[0],i); vput(E,st,a[0],None,None,None,v64(1)); return 0
UP=r'^std::unique_ptr<wreport::Var, .*>::'
class NumAf(Contract):
    """an associated field of compressed data: its base and differences, then the element"""
    name='Input::decode_compressed_number_af'; fn=r'^wreport::bufr::Input::decode_compressed_number_af\('; search='compressed'; opts={'strides':(1,)}
    uses=[(r'^std::function<void \(unsigned int, wreport::Var&&\)>::function\(std::function<void \(unsigned int, wreport::Var&&\)> (const&|&&)\)',f_copy),(r'^std::function<void \(unsigned int, wreport::Var&&\)>::operator\(\)\(',f_call),
     (r'^'+UPV+r'vector\(unsigned long',uv_ctor),(r'^'+UPV+r'~vector\(',nop),(UP+r'operator=\(std::unique_ptr<wreport::Var, .*&&\)',up_assign),(UP+r'get\(\) const',up_get),(UP+r'operator bool\(\) const',up_bool),
     (VV+r'seta\(std::unique_ptr',seta_slot),R_mkattr]+[(r,af_higher(k)) for (r,_),k in zip(R_high[:2],('text','number'))]+R_var+R_in
    def width(s,q): return z3.If(q==0,s.bc,z3.If(q==1,z3.BitVecVal(6,32),FLD(v64(1))))
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.N)]
    def cands(s,E,entry,keys,fn,h):
        q=lambda w:T64(w.st.g['#q']); n=lambda w:T64(w.st.g['#n'])
        return [('one difference per attribute',lambda w:q(w)==n(w)+2),('within',lambda w:z3.ULE(n(w),s.N))]+[('%s next'%(k,),lambda w,k=k:w.term(k)==n(w)) for k in keys if k[0] in('phi','cell')]
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; ins0(st); n32=ctx.bv('subsets',32); s.N=z3.ZeroExt(32,n32); ctx.assume(z3.And(z3.ULT(s.N,1<<31),s.N!=0)); s.info,s.r=mkinfo(ctx); ctx.assume(z3.ULE(s.r['type'],2)); s.u_isset=ctx.boolv('u_isset'); s.u_val=ctx.bv('u_val',64); st.g[('ev',)]=()
        s.fp=E.alloc(st,'AssociatedField',off(E,'AssociatedField'),lazy=True); s.bc=ctx.bv('bit_count',32); E.store(st,I32,s.bc,s.fp.plus(off(E,'AssociatedField','bit_count'))); ctx.assume(z3.And(s.bc!=0,z3.ULE(s.bc,31))); ip=E.alloc(st,'Input',off(E,'Input'),lazy=True)
        d=E.alloc(st,'function',32,lazy=True); st.g[('alias',)]=(d.obj,); s.cb_index=ctx.bv('subset',32); i=z3.ZeroExt(32,s.cb_index); ty=s.r['type']
        def post(o):
            t=o.st; big=z3.UGT(FLD(v64(1)),32); q=T64(t.g['#q']); miss=FLD(v64(0))==allones(s.bc)
            if o.kind=='throw':
                if o.exc.info in ('callee','eof'): return
                ctx.prove(t,z3.And(z3.BoolVal(o.exc.typ==wr_err('error_consistency')),big),'refused only when differences do not fit'); return
            ctx.prove(t,z3.Not(big),'differences that do not fit are refused'); ctx.prove(t,q==z3.If(miss,v64(2),2+s.N),'exactly the fields of the associated field are read before the element')
            k,ds,se,h=evs(t,'text','number'),evs(t,'dest'),evs(t,'seta'),evs(t,'has')
            if not ctx.prove(t,len(k)==1 and len(ds)==1,'one element is decoded'): return
            ctx.prove(t,z3.And({'text':ty==2,'number':ty!=2}[k[0][0]],z3.BoolVal(isptr(k[0][1][0],s.info)),tobv(k[0][1][1],32)==n32),'according to its type, for all subsets')
            x=ds[0][3]; ctx.prove(t,z3.And(ds[0][1]==s.cb_index,z3.BoolVal(isptr(x.info,s.info)),(x.isset==1)==s.u_isset,z3.Implies(s.u_isset,x.val==s.u_val)),'each subset gets its own element')
            if se: ctx.prove(t,z3.And(z3.BoolVal(len(se)==1 and isptr(se[0][1],s.cb_var)),se[0][2]==i,x.att==1,z3.Not(miss)) if len(se)==1 and not isinstance(se[0][2],Ptr) else False,'with the attribute of the same subset')
            else: ctx.prove(t,z3.Or(miss,z3.And([z3.And(e[1]==i,z3.BoolVal(not e[2])) for e in h]) if h else z3.BoolVal(False)),'attributes that exist are set')
        ctx.call([ip,s.info,s.fp,n32,d],post)
# ------------------------------------------------------------------ the decoder as an interpreter
def over_at(E,st,a,ins):
    c=E.ctx.con
    if not (isinstance(a[0],Ptr) and a[0].obj==c.p.obj and norm(a[0].off)==off(E,'Interpreter','c03_refval_overrides')): raise Unsupported('another map')
    p=E.alloc(st,'override',4,lazy=True); ev(st,'over',tobv(E.load(st,I16,a[1]),16),p); return p
R_over=(r'^std::map<unsigned short, unsigned int, .*>::operator\[\]\(',over_at)
def bm_define(E,st,a,ins):
    t=st.fork(); ev(st,'bmdefine',a[0],a[1],a[2],tobv(a[3],32) if len(a)>3 else None); return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='callee'))])
R_bmdef=(r'^wreport::bulletin::Bitmaps::define\(wreport::Var const&, wreport::Subset const&',bm_define)
def tg(kind,ret):
    def h(E,st,a,ins):
        c=E.ctx.con; t=st.fork()
        if not isptr(a[1 if ret=='sret' else 0],c.tp): raise Unsupported('another target')
        ev(st,kind,*[x for x in a[(2 if ret=='sret' else 1):]])
        if ret=='sret': vput(E,st,a[0],c.info,c.u_isset,c.u_val,Z); v=0
        elif ret=='var': v=E.alloc(st,'added',off(E,'Var')); vput(E,st,v,c.info,c.u_isset,c.u_val,Z); c.added=v
        elif ret=='info': v=c.info2
        elif ret=='subset': v=c.sub
        elif ret=='int': v=c.u_ref
        else: v=0
        return Multi([(st,v),(t,Thrown(wr_err('error_parse'),info='callee'))])
    return h
TGT=r'^wreport::bufr::UncompressedDecoderTarget::'
R_tg=[(TGT+m+r'\(',tg(m,r)) for m,r in (('decode_uniform_b_value','sret'),('decode_and_add_to_all','var'),('decode_and_add_bitmap','var'),('decode_and_set_attribute',None),('decode_and_add_b_value_with_associated_field',None),('decode_and_add_b_value',None),('decode_and_add_raw_character_data',None),('decode_c03_refval_override','int'),('lookup_info','info'),('reference_subset','subset'))]
def v_enqi(E,st,a,ins):
    x=vget(E,st,a[0]); t=st.fork(); st.assume(x.isset==1); t.assume(x.isset!=1); ev(st,'enqi',a[0]); return Multi([(st,z3.simplify(z3.Extract(31,0,x.val))),(t,Thrown(wr_err('error_notfound'),info='missing'))])
R_enqi=(VV+r'enqi\(\) const',v_enqi)
def chardata(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); ev(st,'chardata',a[0],tobv(a[1],16),tobv(a[2],32)); return Multi([(st,c.info2),(t,Thrown(wr_err('error_consistency'),info='callee'))])
R_chd=(r'^wreport::Tables::get_chardata\(',chardata)
DSD=r'^wreport::bufr::DataSectionDecoder::'
class Dec(Contract):
    """what the decoder does with each element of the template"""
    search='sections'; uses=[R_over,R_bmdef,R_enqi,R_chd]+R_tg+R_var
    def __init__(s,m): s.m=m; s.name='DataSectionDecoder::'+m; s.fn=DSD+m+r'\('
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; m=s.m; s.p=E.alloc(st,'DataSectionDecoder',off(E,'DataSectionDecoder'),lazy=True); g='_ZTVN7wreport4bufr25UncompressedDecoderTargetE'
        s.tp=E.alloc(st,'target',off(E,'UncompressedDecoderTarget'),lazy=True); E.store(st,PTR,E.glob(st,g).plus(16),s.tp); E.store(st,PTR,s.tp,s.p.plus(off(E,'DataSectionDecoder','target')))
        s.info,s.r=mkinfo(ctx); s.info2,_=mkinfo(ctx,None,'info2'); s.sub=E.alloc(st,'Subset',off(E,'Subset'),lazy=True); s.u_isset=ctx.boolv('u_isset'); s.u_val=ctx.bv('u_val',64); s.u_ref=ctx.bv('u_ref',32); IO=lambda f:s.p.plus(off(E,'Interpreter',f))
        tb=E.alloc(st,'Tables',off(E,'Tables'),lazy=True); E.store(st,PTR,tb,IO('tables')); bits=ctx.bv('override_bits',32); E.store(st,I32,bits,IO('c03_refval_override_bits')); pend=ctx.bv('pending',16); E.store(st,I16,pend,IO('bitmaps').plus(off(E,'Bitmaps','pending_definitions')))
        code=ctx.bv('code',16); pos=ctx.bv('pos',32); size=ctx.bv('size',32)
        args={'define_c03_refval_override':[code],'define_raw_character_data':[code],'define_bitmap':[size],'define_substituted_value':[pos],'define_attribute':[s.info,pos]}.get(m,[s.info])
        def post(o):
            t=o.st; es=evs(t); ks=[e[0] for e in es]; v=z3.Extract(31,0,s.u_val)
            if o.kind=='throw':
                if o.exc.info=='missing': ctx.prove(t,z3.And(z3.BoolVal(m.endswith('replication_factor')),z3.Not(s.u_isset)),'refused only when a replication factor is missing')
                else: ctx.prove(t,o.exc.info=='callee','no errors of its own')
                return
            def only(*k): return ctx.prove(t,ks==list(k),'does just what the element says: %s, not %s'%(' '.join(k),' '.join(ks)))
            if m in ('define_delayed_replication_factor','define_bitmap_delayed_replication_factor'):
                if only('decode_uniform_b_value' if 'bitmap' in m else 'decode_and_add_to_all','enqi'): ctx.prove(t,z3.And(z3.BoolVal(isptr(es[0][1],s.info)),s.u_isset,tobv(o.val,32)==v),'the count is the value decoded')
            elif m=='define_associated_field_significance':
                ks=[k for k in ks if k!='enqi']
                if only('decode_and_add_to_all'): ctx.prove(t,z3.And(z3.BoolVal(isptr(es[0][1],s.info)),tobv(o.val,32)==z3.If(s.u_isset,v,z3.BitVecVal(63,32))),'the meaning is the value decoded, 63 when missing')
            elif m=='define_c03_refval_override':
                if sorted(ks)==sorted(['decode_c03_refval_override','over']):
                    e=dict((x[0],x) for x in es); ctx.prove(t,z3.And(tobv(e['decode_c03_refval_override'][1],32)==bits,e['over'][1]==code,tobv(E.load(t,I32,e['over'][2]),32)==s.u_ref),'the reference value of the code is the one decoded')
                else: only('decode_c03_refval_override','over')
            elif m=='define_bitmap':
                if sorted(ks)==sorted(['decode_and_add_bitmap','reference_subset','bmdefine']):
                    e=dict((x[0],x) for x in es); d=e['decode_and_add_bitmap']; b=e['bmdefine']
                    ctx.prove(t,z3.And(z3.BoolVal(isptr(d[1],tb)),tobv(d[2],16)==pend,tobv(d[3],32)==size),'the bitmap is decoded with the pending code and size')
                    ctx.prove(t,z3.And(z3.BoolVal(isptr(b[1],IO('bitmaps')) and isptr(b[2],s.added) and isptr(b[3],s.sub)),z3.BoolVal(b[4] is None)),'and it is the bitmap for the variables before it')
                else: only('decode_and_add_bitmap','reference_subset','bmdefine')
            elif m=='define_attribute':
                if only('decode_and_set_attribute'): ctx.prove(t,z3.And(z3.BoolVal(isptr(es[0][1],s.info)),tobv(es[0][2],32)==pos),'on the variable at the position')
            elif m=='define_substituted_value':
                if only('lookup_info','decode_and_set_attribute'): ctx.prove(t,z3.And(tobv(es[0][1],32)==pos,z3.BoolVal(isptr(es[1][1],s.info2)),tobv(es[1][2],32)==pos),'the substituted value is described as the variable at the position')
            elif m=='define_variable':
                if only('decode_and_add_b_value'): ctx.prove(t,isptr(es[0][1],s.info),'with its description')
            elif m=='define_variable_with_associated_field':
                if only('decode_and_add_b_value_with_associated_field'): ctx.prove(t,isptr(es[0][1],s.info) and isptr(es[0][2],s.p.plus(off(E,'DataSectionDecoder','associated_field'))),'with its description and the current associated field')
            elif m=='define_raw_character_data':
                if only('chardata','decode_and_add_raw_character_data'): ctx.prove(t,z3.And(z3.BoolVal(isptr(es[0][1],tb) and isptr(es[1][1],s.info2)),es[0][2]==code,es[0][3]==z3.ZeroExt(16,code&0xff)),'as many characters as the descriptor says')
        ctx.call([s.p]+args,post)
# ------------------------------------------------------------------ the encoder as an interpreter
def ap_var(E,st,a,ins): return emit(E,st,'append_var',a[0],a[1],a[2])
def ap_miss(E,st,a,ins): return emit(E,st,'missing' if isinstance(a[1],Ptr) else 'missing_bits',a[0],a[1])
def ap_bits(E,st,a,ins):
    c=E.ctx.con
    if hasattr(c,'addbit'): return c.addbit(E,st,tobv(a[1],32),tobv(a[2],32))
    return emit(E,st,'bits',a[0],tobv(a[1],32),tobv(a[2],32))
def ap_str(E,st,a,ins): return emit(E,st,'string',a[0],a[1],tobv(a[2],32))
def emit(E,st,k,ob,*x):
    if not isptr(ob,E.ctx.con.ob): raise Unsupported('another output')
    t=st.fork(); ev(st,k,*x); return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='callee'))])
BUF=r'^wreport::buffers::BufrOutput::'
R_out=[(BUF+r'append_var\(',ap_var),(BUF+r'append_missing\(',ap_miss),(BUF+r'add_bits\(',ap_bits),(BUF+r'append_string\(char const\*',ap_str)]
def e_enqi(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); s=tobv(E.load(st,I8,a[0].plus(vo(E,'m_isset'))),8); st.assume(s==1); t.assume(s!=1)
    v=c.VALI(c.ix(E,st,a[0])) if a[0].obj==c.S1.vars.obj else c.A_VAL
    ev(st,'enqi',a[0]); return Multi([(st,v),(t,Thrown(wr_err('error_notfound'),info='missing'))])
def e_enqc(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); s=tobv(E.load(st,I8,a[0].plus(vo(E,'m_isset'))),8); st.assume(s==1); t.assume(s!=1); i=c.ix(E,st,a[0]); p=c.text(E,st,i); return Multi([(st,p),(t,Thrown(wr_err('error_notfound'),info='missing'))])
def e_attr(E,st,a,ins):
    c=E.ctx.con; t=st.fork(); u=st.fork(); p=E.alloc(st,'attr',off(E,'Var'),lazy=True); b=z3.If(c.A_SET,z3.BitVecVal(1,8),z3.BitVecVal(0,8)); E.store(st,I8,b,p.plus(vo(E,'m_isset'))); k='enqa' if 'enqa' in DEM[E._cur[2]] else 'get_attribute'
    ev(st,k,*(list(a)+[p])); ev(t,k,*(list(a)+[NULL])); return Multi([(st,p),(t,NULL)]+([(u,Thrown(wr_err('error_unimplemented'),info='callee'))] if k!='enqa' else []))
def e_ctor_i(E,st,a,ins):
    t=st.fork(); ev(st,'int',a[0],a[1],tobv(a[2],32)); return Multi([(st,0),(t,Thrown(wr_err('error_domain'),info='callee'))])
R_enc=[(VV+r'enqi\(\) const',e_enqi),(VV+r'enqc\(\) const',e_enqc),(VV+r'enqa\(unsigned short\) const',e_attr),(r'^wreport::bulletin::AssociatedField::get_attribute\(',e_attr),(VV+r'Var\(wreport::_Varinfo const\*, int\)',e_ctor_i),(VV+r'~Var\(\)',nop),R_over,R_bmdef,R_bq]+R_out
class Enc(Contract):
    """what the encoder does with each element of the template"""
    search='sections'; uses=R_enc; rx=r'^wreport::\(anonymous namespace\)::DDSEncoder::'; base=r'^wreport::bulletin::UncompressedEncoder::'; opts={'strides':(1,)}
    def __init__(s,m,base=False): s.m=m; s.name=('UncompressedEncoder::' if base else 'DDSEncoder::')+m; s.fn=(s.base if base else s.rx)+m+r'\('
    def ix(s,E,st,p):
        if not isinstance(p,Ptr) or p.obj!=s.S1.vars.obj: raise Unsupported('another variable')
        return Lin.of(p.off).divexact(s.S1.vs).bv()
    def encoder(s,ctx):
        E=ctx.E; st=ctx.st; S=s.S1=SUB1(ctx); s.VALI=z3.Function('value',B64,B32); s.VSET=z3.Function('isset',B64,B8); u=off(E,'UncompressedEncoder')
        st.mem[S.vars.obj].fields[vo(E,'m_isset')]=(1,'i',lambda E,st,i:(st.assume(z3.ULE(s.VSET(i),1)),s.VSET(i))[1])
        s.p=E.alloc(st,'DDSEncoder',u+8,lazy=True); E.store(st,PTR,E.glob(st,vtable_with(E,r'DDSEncoder::encode_var')).plus(16),s.p); s.ob=E.alloc(st,'BufrOutput',off(E,'BufrOutput'),lazy=True); E.store(st,PTR,s.ob,s.p.plus(u))
        E.store(st,PTR,S.p,s.p.plus(off(E,'UncompressedEncoder','current_subset'))); s.cur=ctx.bv('current_var',32); E.store(st,I32,s.cur,s.p.plus(off(E,'UncompressedEncoder','current_var'))); ctx.assume(z3.ULT(s.cur,1<<31)); s.C0=z3.ZeroExt(32,s.cur)
        s.info,s.r=mkinfo(ctx); s.A_SET=ctx.boolv('attr_isset'); s.A_VAL=ctx.bv('attr_value',32); s.bc=ctx.bv('bit_count',32); E.store(st,I32,s.bc,s.p.plus(off(E,'Interpreter','associated_field')+off(E,'AssociatedField','bit_count'))); ctx.assume(z3.And(z3.UGE(s.bc,1),z3.ULE(s.bc,32)))
        s.obits=ctx.bv('override_bits',32); E.store(st,I32,s.obits,s.p.plus(off(E,'Interpreter','c03_refval_override_bits'))); s.bt=btab(E,st); tb=E.alloc(st,'Tables',off(E,'Tables'),lazy=True); E.store(st,PTR,s.bt,tb.plus(off(E,'Tables','btable'))); s.tb=tb
        E.store(st,PTR,tb,s.p.plus(off(E,'Interpreter','tables'))); E.store(st,PTR,tb,S.p.plus(off(E,'Subset','tables'))); ins0(st)
    def at(s,t): return tobv(s.ctx.E.load(t,I32,s.p.plus(off(s.ctx.E,'UncompressedEncoder','current_var'))),32)
    def used(s,t,n): s.ctx.prove(t,s.at(t)==s.cur+n,'uses %s of the variables to encode'%('the next one' if n else 'none'))
    def range_err(s,o,bad,what):
        """-> True when the outcome is an error, which is checked"""
        if o.kind!='throw': s.ctx.prove(o.st,z3.Not(bad),'refused: '+what); return False
        if o.exc.info=='callee': return True
        if o.exc.info=='missing': s.ctx.prove(o.st,s.VSET(s.C0)!=1,'missing only when the value is missing'); return True
        s.ctx.prove(o.st,o.exc.typ==wr_err('error_consistency'),'errors are consistency errors'); s.ctx.prove(o.st,bad,'refused only: '+what); return True
    def same_var(s,p,i): return s.S1.is_at(p,i)
class GetVar(Enc):
    def __init__(s): s.name='UncompressedEncoder::get_var(pos)'; s.fn=s.base+r'get_var\(unsigned int\) const'
    def run(s,ctx,case):
        s.encoder(ctx); pos=ctx.bv('pos',32); P=z3.ZeroExt(32,pos)
        def post(o):
            if not s.range_err(o,z3.UGE(P,s.S1.n),'when there is no such variable'): ctx.prove(o.st,s.S1.is_at(o.val,P),'the variable at that position')
        ctx.call([s.p,pos],post)
class EncDef(Enc):
    def run(s,ctx,case):
        E=ctx.E; s.encoder(ctx); m=s.m; S=s.S1
        def post(o):
            t=o.st
            over=z3.And(z3.UGE(s.C0,S.n)); fit=z3.And(z3.ULT(s.bc,32),z3.LShR(s.A_VAL,s.bc)!=0)
            e=evs(t); ks=[x[0] for x in e]; af=evs(t,'get_attribute'); bad=over
            if 'associated_field' in m and m!='define_associated_field_significance':
                has=len(af)==1 and af[0][-1].obj!=0; bad=z3.Or(over,z3.And(z3.BoolVal(has),s.A_SET,fit))
            if s.range_err(o,bad,'when variables are over or an associated field does not fit'): return
            if m=='define_bitmap_delayed_replication_factor':
                if not ctx.prove(t,ks==['int','append_var'],'the size of the bitmap is encoded'): return
                s.used(t,0); L=S.LEN(s.C0); ctx.prove(t,z3.And(z3.BoolVal(isptr(e[0][2],s.info) and isptr(e[1][1],s.info) and isptr(e[1][2],e[0][1])),e[0][3]==L,tobv(o.val,32)==L),'as long as the bitmap variable'); return
            s.used(t,1); av=evs(t,'append_var')
            if not ctx.prove(t,len(av)==1,'the variable is encoded once'): return
            ctx.prove(t,z3.And(z3.BoolVal(isptr(av[0][1],s.info)),s.same_var(av[0][2],s.C0)),'the next variable is encoded as the template says')
            if m=='define_variable_with_associated_field':
                if not ctx.prove(t,len(af)==1 and ks.index('append_var')==len(ks)-1,'the associated field comes before the value'): return
                ctx.prove(t,s.same_var(af[0][2],s.C0),'the attribute is of the variable'); b=evs(t,'bits'); mb=evs(t,'missing_bits'); here=z3.And(z3.BoolVal(has),s.A_SET)
                if b: ctx.prove(t,z3.And(z3.BoolVal(len(b)==1 and not mb),here,b[0][1]==s.A_VAL,b[0][2]==s.bc),'the associated field has the value of the attribute')
                else: ctx.prove(t,z3.And(z3.BoolVal(len(mb)==1),z3.Not(here),tobv(mb[0][1],32)==s.bc) if len(mb)==1 else False,'a missing associated field is all ones')
            elif m=='define_delayed_replication_factor': ctx.prove(t,tobv(o.val,32)==s.VALI(s.C0),'the count is the value encoded')
            elif m=='define_associated_field_significance': ctx.prove(t,tobv(o.val,32)==z3.If(s.VSET(s.C0)==1,s.VALI(s.C0),z3.BitVecVal(63,32)),'the meaning is the value encoded, 63 when missing')
            else: ctx.prove(t,ks==['append_var'],'and nothing else')
        ctx.call([s.p,s.info],post)
class EncAttr(Enc):
    def run(s,ctx,case):
        E=ctx.E; s.encoder(ctx); S=s.S1; pos=ctx.bv('pos',32); P=z3.ZeroExt(32,pos); sub='substituted' in s.m
        if sub: ctx.assume(z3.ULT(P,S.n))
        isinfo=lambda p:S.is_info(p,P) if sub else z3.BoolVal(isptr(p,s.info)); code=z3.Select(S.C,P) if sub else s.r['code']
        def post(o):
            t=o.st
            if s.range_err(o,z3.UGE(P,S.n),'when there is no such variable'): return
            q=evs(t,'enqa'); a=evs(t,'append_var'); m=evs(t,'missing'); s.used(t,0)
            if not ctx.prove(t,len(q)==1 and len(a)+len(m)==1 and not evs(t,'bits','missing_bits','string'),'one attribute is encoded'): return
            ctx.prove(t,z3.And(S.is_at(q[0][1],P),tobv(q[0][2],16)==code),'the attribute of the variable at the position')
            if a: ctx.prove(t,z3.And(isinfo(a[0][1]),z3.BoolVal(isptr(a[0][2],q[0][3]) and q[0][3].obj!=0)),'as described')
            else: ctx.prove(t,z3.And(isinfo(m[0][1]),z3.BoolVal(q[0][3].obj==0)),'missing when it has none')
        ctx.call([s.p,pos] if sub else [s.p,s.info,pos],post)
class EncBitmap(Enc):
    """a bitmap is encoded one bit per entry"""
    def text(s,E,st,i):
        if not E.must(st,i==s.C0): raise Unsupported('text of another variable')
        return s.tx
    def addbit(s,E,st,v,n):
        q=T64(st.g['#q']); E.prove(st,z3.And(n==1,v==z3.If(z3.Select(s.TX,q)==ord('+'),z3.BitVecVal(0,32),z3.BitVecVal(1,32)),z3.ULT(q,s.N)),E.cname()+'one bit per entry, 0 for data present'); t=st.fork(); st.g['#q']=z3.simplify(q+1); return Multi([(st,0),(t,Thrown(wr_err('error_toolong'),info='callee'))])
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.N)]
    def cands(s,E,entry,keys,fn,h): return [('%s bits'%(k,),lambda w,k=k:w.term(k)==T64(w.st.g['#q'])) for k in keys if k[0] in('phi','cell')]+[('within',lambda w:z3.ULE(T64(w.st.g['#q']),s.N))]
    def run(s,ctx,case):
        E=ctx.E; s.encoder(ctx); S=s.S1; size=ctx.bv('size',32); s.N=z3.ZeroExt(32,size); s.TX=ctx.arr('TX',16); L=S.LEN(s.C0); ctx.assume(z3.ULT(L,1<<30)); s.tx=E.alloc(ctx.st,'text',z3.simplify(z3.ZeroExt(32,L)+1),'bytes'); ctx.st.mem[s.tx.obj].arr=s.TX
        bad=z3.Or(z3.UGE(s.C0,S.n),z3.LShR(z3.Select(S.C,s.C0),14)!=2,L!=size)
        def post(o):
            t=o.st
            if s.range_err(o,bad,'when the next variable is not a bitmap of that size'): return
            s.used(t,1); b=evs(t,'bmdefine'); ctx.prove(t,T64(t.g['#q'])==s.N,'every entry is encoded')
            ctx.prove(t,z3.And(z3.BoolVal(isptr(b[0][1],s.p.plus(off(E,'Interpreter','bitmaps'))) and isptr(b[0][3],S.p)),S.is_at(b[0][2],s.C0),b[0][4]==s.cur+1) if len(b)==1 and b[0][4] is not None else False,'it is the bitmap for the variables before it')
        ctx.call([s.p,size],post)
class EncRaw(Enc):
    def text(s,E,st,i):
        if not E.must(st,i==s.C0): raise Unsupported('text of another variable')
        return s.tx
    def run(s,ctx,case):
        E=ctx.E; s.encoder(ctx); S=s.S1; s.tx=E.alloc(ctx.st,'text',16,lazy=True); code=ctx.bv('code',16)
        def post(o):
            t=o.st
            if s.range_err(o,z3.UGE(s.C0,S.n),'when variables are over'): return
            e=evs(t); s.used(t,1)
            if not ctx.prove(t,[x[0] for x in e]==['string'],'one text is encoded'): return
            ctx.prove(t,e[0][2]==z3.ZeroExt(16,code&0xff)*8,'as long as the descriptor says')
            ctx.prove(t,s.VSET(s.C0)==1 if isptr(e[0][1],s.tx) else z3.And(s.VSET(s.C0)!=1,tobv(E.load(t,I8,e[0][1]),8)==0),'the text of the variable, empty when missing')
        ctx.call([s.p,code],post)
class EncRef(Enc):
    """a changed reference value is the one of the first variable with that code, or else the one of the table"""
    def cases(s): return list(range(1,33))
    def group(s): return 8
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.S1.n)]
    def cands(s,E,entry,keys,fn,h):
        out=[]
        for k in keys:
            if k[0] in ('phi','cell'):
                out.append(('%s not after the first'%(k,),lambda w,k=k:None if w.index(k) is None else z3.ULE(w.index(k),s.J)))
                out.append(('%s counts not after the first'%(k,),lambda w,k=k:None if isinstance(w.raw(k),Ptr) or w.term(k) is None else z3.ULE(w.term(k),s.J)))
        return out
    def run(s,ctx,case):
        E=ctx.E; s.encoder(ctx); S=s.S1; st=ctx.st; code=ctx.bv('code',16); J=s.J=ctx.bv('first',64); o_=off(E,'Varinfo','code')
        ctx.assume(s.obits==case); ctx.assume(z3.And(z3.ULE(J,S.n),z3.Implies(z3.ULT(J,S.n),z3.Select(S.C,J)==code)))
        st.mem[S.infos.obj].fields[o_]=(2,'i',lambda E,st,i:(st.assume(z3.Implies(z3.ULT(i,J),z3.Select(S.C,i)!=code)),z3.Select(S.C,i))[1])
        tref=ctx.bv('table_ref',32)
        def post(o):
            t=o.st; q=evs(t,'query'); ref=z3.If(z3.ULT(J,S.n),S.REF(J),tref)
            if q: E.prove(t,z3.And(J==S.n,q[0][2]==code,z3.BoolVal(len(q)==1 and isptr(q[0][1],s.bt))),E.cname()+'the table is used only when no variable has the code')
            if q: 
                r=tobv(E.load(t,I32,q[0][3].plus(off(E,'Varinfo','bit_ref'))),32); ref=r
            w=z3.SignExt(32,ref); mag=z3.If(w<0,-w,w); bad=z3.UGT(mag,(1<<(case-1))-1)
            if s.range_err(o,bad,'when the reference value does not fit'): return
            b,ov=evs(t,'bits'),evs(t,'over'); s.used(t,0)
            if not ctx.prove(t,len(b)==1 and len(ov)==1,'one value is encoded'): return
            ctx.prove(t,z3.And(b[0][2]==case,z3.ZeroExt(32,b[0][1])==(mag|z3.If(w<0,z3.BitVecVal(1<<(case-1),64),z3.BitVecVal(0,64)))),'as a sign and a magnitude'); ctx.prove(t,z3.And(ov[0][1]==code,tobv(E.load(t,I32,ov[0][2]),32)==ref),'and applies to what follows')
        ctx.call([s.p,code],post)
# ------------------------------------------------------------------ building subsets
def push(E,st,a,ins):
    c=E.ctx.con
    if not isptr(a[0],c.S1.p.plus(c.S1.o)): raise Unsupported('another vector')
    ev(st,'push',vget(E,st,a[1]))
    if '&&' in DEM[E._cur[2]]: vput(E,st,a[1],None,False,Z,Z)
    return a[0]
R_push=[(r'^(void |wreport::Var& )?std::vector<wreport::Var, .*>::(push_back|emplace_back)',push)]
def made(kind):
    def h(E,st,a,ins):
        t=st.fork(); x=E.fresh('made',64); ev(st,'made',kind,a[1],a[2],x); vput(E,st,a[0],a[1],True,x,Z); return Multi([(st,0),(t,Thrown(wr_err('error_domain'),info='callee'))])
    return h
R_made=[(VV+r'Var\(wreport::_Varinfo const\*, '+r+r'\)',made(k)) for r,k in ((r'int','i'),(r'double','d'),(r'char const\*','c'),(r'wreport::Var const&','v'))]
class Store(Contract):
    """a variable stored goes at the end of the subset, described by the table of the subset"""
    search='sections'; uses=R_push+R_made+[R_bq]+R_var
    def __init__(s,m,sig): s.m=m; s.sig=sig; s.name='Subset::%s(%s)'%(m,sig); s.fn=r'^wreport::Subset::'+m+r'\('+sig+r'\)'
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; S=s.S1=SUB1(ctx); bt=btab(E,st); tb=E.alloc(st,'Tables',off(E,'Tables'),lazy=True); E.store(st,PTR,bt,tb.plus(off(E,'Tables','btable'))); E.store(st,PTR,tb,S.p.plus(off(E,'Subset','tables'))); s.info,_=mkinfo(ctx); sig=s.sig
        code=ctx.bv('code',16); v=E.alloc(st,'var',off(E,'Var')); x=AV(s.info,ctx.bv('isset',8),ctx.bv('val',64),ctx.bv('attrs',64)); vput(E,st,v,x.info,x.isset,x.val,x.att); st.g[('ev',)]=()
        val={'i':ctx.bv('ival',32),'d':ctx.fl('dval') if hasattr(ctx,'fl') else FV(ctx.real('dval')) if hasattr(ctx,'real') else FV(z3.Real('dval')),'c':E.alloc(st,'text',16,lazy=True),'v':v,'undef':None}
        kind='v' if s.m=='store_variable' else s.m.split('_')[-1]; args=[S.p]+([code] if sig.startswith('unsigned short') else [])
        if '_Varinfo' in sig: args.append(s.info)
        elif kind!='undef': args.append(val[kind])
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.info=='callee','no errors of its own'); return
            ps=evs(t,'push'); q=evs(t,'query'); m=evs(t,'made')
            if not ctx.prove(t,len(ps)==1,'one variable is added'): return
            y=ps[0][1]
            if not q:
                ctx.prove(t,not sig.startswith('unsigned short'),'a code is looked up in the table')
                if 'Varinfo' in sig: ctx.prove(t,z3.And(z3.BoolVal(isptr(y.info,s.info)),y.isset==0),'an undefined variable with that description'); return
                ctx.prove(t,z3.And(z3.BoolVal(isptr(y.info,s.info)),y.isset==x.isset,y.val==x.val,y.att==x.att),'equal to the one given'); return
            ctx.prove(t,z3.And(z3.BoolVal(len(q)==1 and isptr(q[0][1],bt) and isptr(y.info,q[0][3])),q[0][2]==code),'described by the entry of the code')
            if kind=='undef': ctx.prove(t,z3.And(y.isset==0,z3.BoolVal(not m)),'undefined'); return
            if not ctx.prove(t,len(m)==1 and m[0][1]==kind and isptr(m[0][2],q[0][3]),'made with its value'): return
            a=m[0][3]; b=val[kind]; same=isptr(a,b) if isinstance(b,Ptr) else real(a)==real(b) if kind=='d' else tobv(a,32)==b
            ctx.prove(t,z3.And(same if isinstance(same,z3.BoolRef) else z3.BoolVal(bool(same)),y.isset==1,y.val==m[0][4]),'with the value given')
        ctx.call(args,post)
CNT=z3.Function('data variables before',B64,B64); HAS=z3.Function('has attribute',B64,z3.BoolSort()); NTH=z3.Function('nth data variable',B64,B64)
def dpb_enqa(E,st,a,ins):
    c=E.ctx.con; S=c.S1
    if not isinstance(a[0],Ptr) or a[0].obj!=S.vars.obj: raise Unsupported('another variable')
    if not E.must(st,tobv(a[1],16)==c.attr): E.fail_path(st,'looks at another attribute')
    i=Lin.of(a[0].off).divexact(S.vs).bv(); t=st.fork(); st.assume(HAS(i)); t.assume(z3.Not(HAS(i))); st.g['#n']=z3.simplify(T64(st.g['#n'])+1); return Multi([(st,E.alloc(st,'attr',off(E,'Var'),lazy=True)),(t,NULL)])
def dpb_append(E,st,a,ins):
    t=st.fork(); o=st.mem[a[3].obj]; o=E.tobytes(st,o) if o.mode=='cells' else o; ev(st,'append',a[0],tobv(a[1],16),o.arr,a[3],o.size); return Multi([(st,0),(t,Thrown(wr_err('error_consistency'),info='callee'))])
class Dpb(Contract):
    """a bitmap that says which of the data variables have an attribute"""
    name='Subset::append_dpb'; fn=r'^wreport::Subset::append_dpb\('; search='sections'; uses=[(VV+r'enqa\(unsigned short\) const',dpb_enqa),(r'^wreport::Subset::append_c_with_dpb\(',dpb_append)]; opts={'strides':(1,),'lia_first':True}
    def want(s,k): return z3.If(z3.And(z3.ULT(k,CNT(s.S1.n)),HAS(NTH(k))),z3.BitVecVal(ord('+'),8),z3.BitVecVal(ord('-'),8))
    def ax(s,st,i):
        """the definition of the count, at the variables that are looked at"""
        S=s.S1; d=z3.LShR(z3.Select(S.C,i),14)==0; n=S.n
        st.assume(z3.Implies(z3.ULT(i,n),z3.And(CNT(i+1)==CNT(i)+z3.If(d,v64(1),v64(0)),z3.ULE(CNT(i+1),CNT(n)),z3.ULE(CNT(i+1),i+1)))); st.assume(z3.Implies(z3.And(z3.ULT(i,n),d),NTH(CNT(i))==i))
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('N',s.S1.n),('size',s.N)]
    def cands(s,E,entry,keys,fn,h):
        n=lambda w:T64(w.st.g['#n']); out=[]; ph=[k for k in keys if k[0] in ('phi','cell') and not isinstance(entry.raw(k),Ptr)]
        for o in [o for o in entry.st.mem if entry.st.mem[o].mode=='bytes' and entry.st.mem[o].alive and not entry.st.mem[o].ro]:
            for k in keys:
                if k[0] in ('phi','cell'): out.append(('%s filled %d'%(k,o),lambda w,o=o,k=k:None if w.term(k) is None else z3.Implies(z3.ULT(K,w.term(k)),z3.Select(w.st.mem[o].arr,K)==s.want(K))))
            out.append(('filled as counted %d'%o,lambda w,o=o:z3.Implies(z3.ULT(K,CNT(s.pos(w,ph))),z3.Select(w.st.mem[o].arr,K)==s.want(K)) if s.pos(w,ph) is not None else None))
        for k in ph:
            out.append(('%s within'%(k,),lambda w,k=k:z3.ULE(w.term(k),s.S1.n))); out.append(('%s in size'%(k,),lambda w,k=k:z3.ULE(w.term(k),s.N))); out.append(('%s counts'%(k,),lambda w,k=k:w.term(k)==n(w)))
            for j in ph:
                if j!=k: out.append(('%s counts data before %s'%(j,k),lambda w,k=k,j=j:w.term(j)==CNT(w.term(k)))); out.append(('%s le %s'%(j,k),lambda w,k=k,j=j:z3.ULE(w.term(j),w.term(k))))
            out.append(('%s as entered'%(k,),lambda w,k=k:CNT(w.term(k))==CNT(entry.term(k)) if entry.term(k) is not None else None))
            out.append(('count bounded at %s'%(k,),lambda w,k=k:z3.And(z3.ULE(CNT(w.term(k)),w.term(k)),z3.ULE(CNT(w.term(k)),CNT(s.S1.n)))))
        return out
    def pos(s,w,ph): return None
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; S=s.S1=SUB1(ctx); ins0(st); size=ctx.bv('size',32); s.N=z3.ZeroExt(32,size); ctx.assume(z3.ULT(s.N,1<<30)); code=ctx.bv('code',16); s.attr=ctx.bv('attr',16); st.g[('ev',)]=(); ctx.assume(CNT(v64(0))==0); ctx.assume(z3.ULE(CNT(S.n),S.n))
        st.mem[S.infos.obj].fields[off(E,'Varinfo','code')]=(2,'i',lambda E,st,i:(s.ax(st,i),z3.Select(S.C,i))[1])
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.info=='callee','no errors of its own'); return
            e=evs(t,'append')
            if not ctx.prove(t,len(e)==1 and isptr(e[0][1],S.p),'one bitmap is added'): return
            b=Lin.of(e[0][4].off).bv(); ctx.prove(t,e[0][2]==code,'with its code'); ctx.prove(t,z3.Implies(z3.ULT(K,s.N),z3.Select(e[0][3],b+K)==s.want(K)),'an entry is present exactly when the data variable has the attribute'); ctx.prove(t,z3.Select(e[0][3],b+s.N)==0,'of the size given'); ctx.prove(t,tobv(o.val,32)==z3.Extract(31,0,T64(t.g['#n'])),'returns how many are present')
        ctx.call([S.p,code,size,s.attr],post)
class FixedDpb(Contract):
    """a bitmap of all present"""
    name='Subset::append_fixed_dpb'; fn=r'^wreport::Subset::append_fixed_dpb\('; search='sections'; uses=[(r'^wreport::Subset::append_c_with_dpb\(',dpb_append)]
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; S=s.S1=SUB1(ctx); size=ctx.bv('size',32); N=z3.ZeroExt(32,size); ctx.assume(z3.ULT(N,1<<30)); code=ctx.bv('code',16); st.g[('ev',)]=()
        def post(o):
            t=o.st
            if o.kind=='throw': ctx.prove(t,o.exc.info=='callee','no errors of its own'); return
            e=evs(t,'append')
            if not ctx.prove(t,len(e)==1 and isptr(e[0][1],S.p),'one bitmap is added'): return
            b=Lin.of(e[0][4].off).bv(); ctx.prove(t,e[0][2]==code,'with its code'); ctx.prove(t,z3.Implies(z3.ULT(K,N),z3.Select(e[0][3],b+K)==ord('+')),'all entries are present'); ctx.prove(t,z3.Select(e[0][3],b+N)==0,'of the size given')
        ctx.call([S.p,code,size],post)
CONTRACTS=[CompNum('fun'),CompNum('sub'),CompStr('fun'),CompStr('sub'),CompStrVar(),BitmapBits(0),BitmapBits(1),UniformU(),UniformC()]+[AddU(m) for m in ('decode_and_add_b_value','decode_and_add_to_all','decode_and_set_attribute','decode_and_add_b_value_with_associated_field')]+[LookupU(),RefU(),RawChar(),RefVal(),AddBitmap(0),AddBitmap(1),AddAllC(),AddC(),SetAttrC(),AddAfC(),NotImplC('decode_and_add_raw_character_data'),NotImplC('decode_c03_refval_override'),LookupC(),RefC()]
CONTRACTS+=[MakeAttr(),GetAttr()]+[Dec(m) for m in ('define_bitmap_delayed_replication_factor','define_delayed_replication_factor','define_associated_field_significance','define_c03_refval_override','define_bitmap','define_attribute','define_substituted_value','define_variable','define_variable_with_associated_field','define_raw_character_data')]
CONTRACTS+=[GetVar()]+[EncDef(m,True) for m in ('define_variable','define_variable_with_associated_field','define_delayed_replication_factor','define_associated_field_significance','define_bitmap_delayed_replication_factor')]+[EncAttr('define_substituted_value'),EncAttr('define_attribute'),EncBitmap('define_bitmap'),EncRaw('define_raw_character_data'),EncRef('define_c03_refval_override')]
CONTRACTS+=[NumAf()]
CONTRACTS+=[Store('store_variable',r'wreport::Var const&'),Store('store_variable',r'wreport::Var&&'),Store('store_variable','unsigned short, wreport::Var const&'),Store('store_variable_i','unsigned short, int'),Store('store_variable_d','unsigned short, double'),Store('store_variable_c',r'unsigned short, char const\*'),Store('store_variable_undef','unsigned short'),Store('store_variable_undef',r'wreport::_Varinfo const\*'),Dpb(),FixedDpb()]
