"""C07: the header of a BUFR message is decoded as the message says, inside its bounds."""
from .common import *
SRCS=['bufr/input.cc','bufr/decoder.cc','bulletin.cc','error.cc']
INST=['layout.cc']
ASSUMPTIONS=['messages shorter than 2^31 bytes','std::vector<Varcode>::push_back appends its argument','BufrBulletin::load_tables only reads the header fields (its own properties cover table selection)']
I16=("i",16)
K=z3.BitVec('K',64)
F8='master_table_number data_category data_subcategory data_subcategory_local update_sequence_number rep_month rep_day rep_hour rep_minute rep_second edition_number master_table_version_number master_table_version_number_local compression'.split()
F16='originating_centre originating_subcentre rep_year'.split()
class BULLETIN:
    """a BufrBulletin as created, with unknown header fields; the descriptor list is a byte array and a count"""
    def __init__(s,ctx):
        E=ctx.E; st=ctx.st; s.E=E; s.ctx=ctx
        s.p=E.alloc(st,'BufrBulletin',off(E,'BufrBulletin'),lazy=True)
        vt=[g for g in E.mod.globals if g=='_ZTVN7wreport12BufrBulletinE']
        if not vt: raise Unsupported('vtable of BufrBulletin')
        E.store(st,PTR,E.glob(st,vt[0]).plus(16),s.p)
        s.f0={}
        for f in F8: s.f0[f]=ctx.bv('b_'+f,8); E.store(st,I8,s.f0[f],s.at(f))
        for f in F16: s.f0[f]=ctx.bv('b_'+f,16); E.store(st,I16,s.f0[f],s.at(f))
        s.opt=s.at('optional_section'); str_new(E,st,s.opt,None,0)
        s.desc=E.alloc(st,'descriptors',1<<32,'bytes'); st.g['#ndesc']=z3.BitVecVal(0,64); s.touched=None
    def at(s,f): return s.p.plus(off(s.E,'BufrBulletin',f))
    def get(s,st,f): return tobv(s.E.load(st,I8 if f in F8 else I16,s.at(f)),8 if f in F8 else 16)
def push_desc(E,st,a,ins):
    """std::vector<Varcode>::push_back / emplace_back on the descriptor list"""
    b=E.opts['bulletin']
    if a[0].obj!=b.p.obj or norm(a[0].off)!=off(E,'BufrBulletin','datadesc'): raise Unsupported('push_back on another vector')
    v=tobv(E.load(st,I16,a[1]),16); n=T64(st.g['#ndesc']); o=st.wobj(b.desc.obj)
    o.arr=z3.Store(z3.Store(o.arr,2*n,z3.Extract(15,8,v)),2*n+1,z3.Extract(7,0,v))
    if st.writes is not None: st.writes.append((b.desc.obj,None,None))
    st.g['#ndesc']=z3.simplify(n+1); return b.desc
def vec_nop(E,st,a,ins): return 0
R_vec=[(r'^std::vector<unsigned short, .*>::(push_back|emplace_back)(<.*>)?\(|^unsigned short& std::vector<unsigned short, .*>::emplace_back',push_desc),(r'^std::vector<unsigned short, .*>::reserve\(',vec_nop)]
def load_tables(E,st,a,ins):
    c=E.ctx.con; c.at_load(st)
    t=st.fork()
    return Multi([(st,0),(t,Thrown(wr_err('error_notfound'),info='tables'))])
R_load=(r'^wreport::BufrBulletin::load_tables\(',load_tables)
def perr(E,st,a,ins): return Thrown(wr_err('error_parse'))
R_perr=(r'^wreport::bufr::Input::parse_error\(',perr)

class HEADER:
    """the specification: what a message D[0..L) says"""
    def __init__(s,ctx,D,L,ed):
        s.len24=[ctx.bv('length%d'%i,24) for i in range(1,5)]   # names for the length fields of sections 1 to 4
        N=[z3.ZeroExt(40,x) for x in s.len24]
        s.D=D; s.L=L; s.ed=ed; B=lambda i:z3.Select(D,v64(i) if isinstance(i,int) else i); s.B=B
        be=lambda i,n:z3.ZeroExt(64-8*n,cat([B((v64(i) if isinstance(i,int) else i)+j) for j in range(n)])); s.be=be
        v4=(ed==4); fix=22 if v4 else 18
        s.n1=N[0]; s.s2=8+s.n1; s.opt=(B(8+(9 if v4 else 7))&0x80)!=0
        s.n2=z3.If(s.opt,N[1],v64(0)); s.s3=s.s2+s.n2; s.n3=N[2]; s.s4=s.s3+s.n3; s.n4=N[3]; s.s5=s.s4+s.n4
        s.lead=z3.And(z3.UGE(L,8),be(0,4)==0x42554652,B(7)==ed)
        s.inside=[z3.ULE(v64(11),L),z3.ULE(s.s2,L),z3.ULE(v64(8+fix),L),z3.Implies(s.opt,z3.And(z3.ULE(s.s2+3,L),z3.ULE(s.s3,L))),z3.ULE(s.s3+3,L),z3.ULE(s.s4,L),z3.ULE(s.s4+3,L),z3.ULE(s.s5,L)]
        s.sane=[z3.Or(s.n2==0,z3.UGE(s.n2,4)),z3.UGE(s.n3,8)]
        s.ok=z3.And(s.lead,*(s.inside+s.sane))
        s.where=[(v64(8),z3.BoolVal(True)),(s.s2,s.opt),(s.s3,z3.BoolVal(True)),(s.s4,z3.BoolVal(True))]
        o=8
        f={}
        f['edition_number']=z3.BitVecVal(ed,8)
        f['master_table_number']=B(o+3)
        if v4:
            f['originating_centre']=cat([B(o+4),B(o+5)]); f['originating_subcentre']=cat([B(o+6),B(o+7)]); f['update_sequence_number']=B(o+8)
            f['data_category']=B(o+10); f['data_subcategory']=B(o+11); f['data_subcategory_local']=B(o+12)
            f['master_table_version_number']=B(o+13); f['master_table_version_number_local']=B(o+14)
            f['rep_year']=cat([B(o+15),B(o+16)])
            for i,k in enumerate('month day hour minute second'.split()): f['rep_'+k]=B(o+17+i)
        else:
            f['originating_centre']=z3.ZeroExt(8,B(o+5)); f['originating_subcentre']=z3.ZeroExt(8,B(o+4)); f['update_sequence_number']=B(o+6)
            f['data_category']=B(o+8); f['data_subcategory']=z3.BitVecVal(255,8); f['data_subcategory_local']=B(o+9)
            f['master_table_version_number']=B(o+10); f['master_table_version_number_local']=B(o+11)
            y=z3.ZeroExt(8,B(o+12)); f['rep_year']=z3.If(z3.UGT(y,50),y+1900,y+2000)
            for i,k in enumerate('month day hour minute'.split()): f['rep_'+k]=B(o+13+i)
        f['compression']=z3.If((B(s.s3+6)&0x40)!=0,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
        s.f=f; s.subsets=be(s.s3+4,2); s.ndesc=z3.LShR(s.n3-7,1)

class ReadNumber(Contract):
    """big endian number of 1 to 4 bytes"""
    name='Input::read_number'; fn=r'^wreport::bufr::Input::read_number\(unsigned int, unsigned int\) const'; search='header'
    def cases(s): return [1,2,3,4]
    def run(s,ctx,case):
        I=IN(ctx,pl=0); pos=ctx.bv('pos',32); p=z3.ZeroExt(32,pos); ctx.assume(z3.ULE(p+case,I.L))
        def post(o):
            if not ctx.prove(o.st,o.kind=='ret','does not throw'): return
            ctx.prove(o.st,tobv(o.val,32)==z3.ZeroExt(32-8*case,cat([z3.Select(I.D,p+j) for j in range(case)])) if case<4 else tobv(o.val,32)==cat([z3.Select(I.D,p+j) for j in range(4)]),'is the big endian number at that position')
        ctx.call([I.p,pos,case],post)
def sum_read_number(E,st,a,ins):
    """contract of read_number; the length fields of the sections have names"""
    c=E.ctx.con; H=c.H; I=c.I; n=a[2]
    if not isc(n) or not 1<=n<=4: raise Unsupported('read_number of %s bytes'%(n,))
    pos=z3.simplify(z3.ZeroExt(32,tobv(a[1],32)))
    E.prove(st,z3.ULE(pos+n,I.L),E.cname()+'memory-safety: read_number inside the message','memory'); st.assume(z3.ULE(pos+n,I.L))
    if n==3 and H:
        for (w,g),x in zip(H.where,H.len24):
            if E.must(st,z3.And(pos==w,g)): return z3.ZeroExt(8,x)
    v=cat([z3.Select(I.D,z3.simplify(pos+j)) for j in range(n)])
    return z3.simplify(z3.ZeroExt(32-8*n,v) if n<4 else v)
R_rn=(r'^wreport::bufr::Input::read_number\(unsigned int, unsigned int\) const',sum_read_number)
class DecodeHeader(Contract):
    name='Decoder::decode_header'; fn=r'^wreport::bufr::Decoder::decode_header\('; search='header'
    uses=R_vec+[R_load,R_perr,R_rn]; opts={'lia_first':True,'auto_unroll':True}
    def cases(s): return [2,3,4,'other']
    def group(s): return 1
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('descriptors',s.H.ndesc)] if s.H else []
    def cands(s,E,entry,keys,fn,h):
        out=[]; W=('g','#ndesc'); H=s.H; A=lambda w:w.st.mem[s.b.desc.obj].arr
        if H is None: return out
        for k in keys:
            out.append(('%s == descriptors read'%(k,),lambda w,k=k:w.term(k)==w.term(W)))
        out.append(('descriptors stored',lambda w:z3.Implies(z3.ULT(K,w.term(W)),z3.And(z3.Select(A(w),2*K)==H.B(H.s3+7+2*K),z3.Select(A(w),2*K+1)==H.B(H.s3+8+2*K)))))
        out.append(('within the list',lambda w:z3.ULE(w.term(W),H.ndesc)))
        return out
    def at_load(s,st):
        for f in ('originating_centre','originating_subcentre','master_table_number','master_table_version_number','master_table_version_number_local'):
            s.ctx.prove(st,s.b.get(st,f)==s.H.f[f],'tables are loaded after %s is known'%f)
    def run(s,ctx,case):
        E=ctx.E; st=ctx.st; s.I=I=IN(ctx,pl=0); D=I.D; L=I.L; s.ctx=ctx
        s.b=b=BULLETIN(ctx); E.opts['bulletin']=b
        d=E.alloc(st,'Decoder',off(E,'Decoder'),lazy=True); din=d.plus(off(E,'Decoder','in')); s.d=d
        # the Input is a member of the Decoder
        P=lambda f:din.plus(off(E,'Input',f))
        E.store(st,PTR,I.data,P('data')); E.store(st,I64,L,P('data_len')); E.store(st,PTR,NULL,P('fname')); E.store(st,I64,ctx.bv('start2',64),P('start_offset'))
        E.store(st,I32,0,P('s4_cursor')); E.store(st,I8,0,P('pbyte')); E.store(st,I32,0,P('pbyte_len'))
        for i in range(6): E.store(st,I32,0,P('sec').plus(4*i))
        E.store(st,PTR,b.p,d.plus(off(E,'Decoder','out'))); E.store(st,I64,ctx.bv('es0',64),d.plus(off(E,'Decoder','expected_subsets'))); E.store(st,I32,0,d.plus(off(E,'Decoder','optional_section_length')))
        B7=z3.Select(D,v64(7))
        if case=='other':
            ctx.assume(z3.Or(z3.ULT(L,8),cat([z3.Select(D,v64(j)) for j in range(4)])!=0x42554652,z3.And(B7!=2,B7!=3,B7!=4))); s.H=None
            def post(o):
                ctx.prove(o.st,o.kind=='throw' and o.exc.typ==wr_err('error_parse'),'what is not a BUFR message of edition 2, 3 or 4 is refused as a parse error')
            ctx.call([d],post); return
        ctx.assume(z3.And(z3.UGE(L,8),cat([z3.Select(D,v64(j)) for j in range(4)])==0x42554652,B7==case))
        s.H=H=HEADER(ctx,D,L,case)
        def post(o):
            st=o.st
            if o.kind=='throw':
                if o.exc.info=='tables': return
                ctx.prove(st,o.exc.typ in (wr_err('error_parse'),wr_err('error_consistency')),'errors are parse or consistency errors')
                ctx.prove(st,z3.Not(H.ok),'a message whose sections fit inside it is not refused'); return
            for i,c in enumerate(H.inside): ctx.prove(st,c,'no section outside the message is accepted (%d)'%i)
            for c in H.sane: ctx.prove(st,c,'sections too short for their fixed part are refused')
            for f in H.f: ctx.prove(st,b.get(st,f)==H.f[f],'%s is what the message says'%f)
            if case!=4: ctx.prove(st,b.get(st,'rep_second')==b.f0['rep_second'],'seconds are left alone')
            ctx.prove(st,T64(E.load(st,I64,d.plus(off(E,'Decoder','expected_subsets'))))==H.subsets,'number of subsets is what the message says')
            ctx.prove(st,T64(st.g['#ndesc'])==H.ndesc,'all the descriptors are read')
            a=st.mem[b.desc.obj].arr
            ctx.prove(st,z3.Implies(z3.ULT(K,H.ndesc),z3.And(z3.Select(a,2*K)==H.B(H.s3+7+2*K),z3.Select(a,2*K+1)==H.B(H.s3+8+2*K))),'every descriptor is what the message says')
            sd,n=str_get(E,st,b.opt)
            ctx.prove(st,T64(n)==z3.If(H.n2==0,v64(0),H.n2-4),'the optional section has its length')
            ctx.prove(st,z3.Implies(z3.ULT(K,T64(n)),z3.Select(bytes_obj(E,st,sd).arr,K)==H.B(H.s2+4+K)),'the optional section is kept')
            for i,x in ((1,v64(8)),(2,H.s2),(3,H.s3),(4,H.s4),(5,H.s5)): ctx.prove(st,z3.ZeroExt(32,tobv(E.load(st,I32,P('sec').plus(4*i)),32))==x,'section %d starts where the previous one ends'%i)
            ctx.prove(st,z3.ZeroExt(32,tobv(E.load(st,I32,P('s4_cursor')),32))==H.s4+4,'data is read from the start of section 4')
            ctx.prove(st,tobv(E.load(st,I32,P('pbyte_len')),32)==0,'data is read from a byte boundary')
        ctx.call([d],post)
    def replay(s,c,v):
        if v['L']>400: return None
        D=(v['D']+[0]*400)[:v['L']+64]
        if c!='other':
            pos=8; opt=D[8+(9 if c==4 else 7)]&0x80
            for i in range(1,5):
                if i==2 and not opt: continue
                n=v['length%d'%i]
                for j in range(3):
                    if pos+j<len(D): D[pos+j]=n>>(16-8*j)&255
                pos+=n
        return ['header',''.join('%02x'%b for b in D[:v['L']])]

# ---------------------------------------------------------------- section 4 and 5
def obtain_subset(E,st,a,ins):
    """Bulletin::obtain_subset: afterwards there are at least pos+1 subsets; returns number pos"""
    c=E.ctx.con; pos=z3.simplify(z3.ZeroExt(32,tobv(a[1],32))); n=T64(st.g['#nsub'])
    E.prove(st,z3.ULT(pos,1<<16),E.cname()+'at most as many subsets as the message declares are created')
    st.g['#nsub']=z3.simplify(z3.If(z3.ULT(pos,n),n,pos+1))
    return Ptr(c.subsets.obj,Lin.of(pos).mul(off(E,'Subset')))
def nsub(E,st,a,ins): return st.g['#nsub']
def sub_it(end):
    def h(E,st,a,ins): return Ptr(E.ctx.con.subsets.obj,Lin.of(T64(st.g['#nsub']) if end else 0).mul(off(E,'Subset')))
    return h
def sub_at(E,st,a,ins):
    E.prove(st,z3.ULT(T64(a[1]),T64(st.g['#nsub'])),E.cname()+'memory-safety: subsets in bounds','memory'); return Ptr(E.ctx.con.subsets.obj,Lin.of(T64(a[1])).mul(off(E,'Subset')))
def dec_ctor(E,st,a,ins):
    """DataSectionDecoder(bulletin, target): must be given the bulletin and the target of the subset to decode next"""
    c=E.ctx.con; ctx=c.ctx
    ctx.prove(st,isinstance(a[1],Ptr) and a[1].obj==c.b.p.obj and norm(a[1].off)==0,'decodes the descriptors of this bulletin')
    t=a[2]; vp=E.load(st,PTR,t); nm=st.mem[vp.obj].name
    cls='CompressedDecoderTarget' if 'CompressedDecoderTargetE' in nm and 'Uncompressed' not in nm else 'UncompressedDecoderTarget'
    ctx.prove(st,(cls=='CompressedDecoderTarget')==(c.compressed==1),'compressed data is decoded as compressed, uncompressed as uncompressed')
    inp=E.load(st,PTR,t.plus(off(E,cls,'in'))); ctx.prove(st,inp.obj==c.d.obj and norm(inp.off)==off(E,'Decoder','in'),'reads from the message being decoded')
    o=E.load(st,PTR,t.plus(off(E,cls,'out')))
    if cls=='CompressedDecoderTarget': ctx.prove(st,o.obj==c.b.p.obj,'fills the subsets of this bulletin')
    else:
        ok=ctx.prove(st,o.obj==c.subsets.obj,'fills a subset of this bulletin')
        if ok: i,f=E.recidx(st.mem[o.obj],o.off); ctx.prove(st,z3.And(i==T64(st.g['#runs']),z3.BoolVal(f==0)),'fills the subsets in order')
    return 0
def dec_run(E,st,a,ins):
    c=E.ctx.con; o=off(E,'DataSectionDecoder','associated_field')+off(E,'AssociatedField','skip_missing')
    c.ctx.prove(st,tobv(E.load(st,I8,a[0].plus(o)),8)==(1-c.undef),'missing attributes are skipped unless configured otherwise')
    st.g['#runs']=z3.simplify(T64(st.g['#runs'])+1); t=st.fork()
    return Multi([(st,0),(t,Thrown(wr_err('error_parse'),info='data'))])
class DecodeData(Contract):
    """one run per subset (one in all if compressed), then the end section must be there"""
    name='Decoder::decode_data'; fn=r'^wreport::bufr::Decoder::decode_data\('; search='header'
    uses=[(r'^wreport::Bulletin::obtain_subset\(',obtain_subset),(r'^std::vector<wreport::Subset, .*>::size\(\) const',nsub),(r'^std::vector<wreport::Subset, .*>::c?begin\(\)',sub_it(0)),(r'^std::vector<wreport::Subset, .*>::c?end\(\)',sub_it(1)),(r'^std::vector<wreport::Subset, .*>::(operator\[\]|at)\(',sub_at),(r'^std::vector<wreport::Subset, .*>::empty\(\) const',lambda E,st,a,ins:T64(st.g['#nsub'])==0),(r'^wreport::bufr::(Verbose)?DataSectionDecoder::(Verbose)?DataSectionDecoder\(',dec_ctor),
     (r'^wreport::bulletin::Interpreter::run\(',dec_run),(r'^std::unique_ptr<wreport::bufr::DataSectionDecoder,.*>::~unique_ptr\(',vec_nop),R_perr]; opts={'lia_first':True,'auto_unroll':True}
    def cases(s): return [(c,v) for c in (0,1) for v in (0,1)]
    def group(s): return 1
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h):
        out=[]
        for k in keys:
            def runs(w,k=k):
                if not isinstance(w.raw(k),Ptr): return w.term(k)==w.term(('g','#runs'))
                if w.raw(k).obj!=s.subsets.obj: return z3.BoolVal(True)
                return z3.BoolVal(False) if w.index(k) is None else w.index(k)==w.term(('g','#runs'))
            out.append(('%s == runs'%(k,),runs))
        out.append(('subsets',lambda w:w.term(('g','#nsub'))==s.es)); out.append(('runs in subsets',lambda w:z3.ULE(w.term(('g','#runs')),s.es)))
        return out
    def run(s,ctx,case):
        s.compressed,verb=case; E=ctx.E; st=ctx.st; s.I=I=IN(ctx,pl=0); D=I.D; L=I.L; s.ctx=ctx; s.H=None
        s.b=b=BULLETIN(ctx); E.opts['bulletin']=b; s.subsets=recobj(ctx,'subsets',off(E,'Subset'),v64(1<<16),{})
        d=E.alloc(st,'Decoder',off(E,'Decoder'),lazy=True); s.d=d; din=d.plus(off(E,'Decoder','in')); P=lambda f:din.plus(off(E,'Input',f))
        E.store(st,PTR,I.data,P('data')); E.store(st,I64,L,P('data_len')); E.store(st,PTR,NULL,P('fname')); E.store(st,I64,0,P('start_offset'))
        sec=[0]+[ctx.bv('sec%d'%i,32) for i in range(1,6)]
        for i in range(1,6): ctx.assume(z3.And(z3.ULE(tobv(sec[i-1],32),sec[i]),z3.ULE(z3.ZeroExt(32,sec[i]),L)))
        for i in range(6): E.store(st,I32,sec[i],P('sec').plus(4*i))
        E.store(st,I32,z3.simplify(sec[4]+4),P('s4_cursor')); E.store(st,I8,0,P('pbyte')); E.store(st,I32,0,P('pbyte_len'))
        s.es=ctx.bv('expected_subsets',64); ctx.assume(z3.ULT(s.es,1<<16)); s.undef=ctx.bv('add_undef',8); ctx.assume(z3.ULE(s.undef,1))
        E.store(st,PTR,b.p,d.plus(off(E,'Decoder','out'))); E.store(st,I64,s.es,d.plus(off(E,'Decoder','expected_subsets'))); E.store(st,I8,s.undef,d.plus(off(E,'Decoder','conf_add_undef_attrs')))
        fp=E.alloc(st,'FILE',8,lazy=True) if verb else NULL
        E.store(st,PTR,fp,d.plus(off(E,'Decoder','verbose_output')))
        E.store(st,I8,s.compressed,b.at('compression')); st.g['#nsub']=z3.BitVecVal(0,64); st.g['#runs']=z3.BitVecVal(0,64)
        s5=z3.ZeroExt(32,sec[5]); ok=z3.And(z3.ULE(s5+4,L),cat([z3.Select(D,s5+j) for j in range(4)])==0x37373737)
        def post(o):
            st=o.st
            if o.kind=='throw':
                ctx.prove(st,o.exc.typ==wr_err('error_parse'),'errors are parse errors')
                if o.exc.info!='data': ctx.prove(st,z3.Or(z3.Not(ok),s.es==0),'refused only when the end section is missing or there are no subsets')
                return
            ctx.prove(st,ok,'a message without its end section is refused')
            ctx.prove(st,s.es!=0,'a message with no subsets is refused')
            ctx.prove(st,T64(st.g['#nsub'])==s.es,'there are as many subsets as the message declares')
            ctx.prove(st,T64(st.g['#runs'])==(v64(1) if s.compressed else s.es),'data is decoded once per subset, or once for all when compressed')
            for i in range(6):
                want=sec[i+1] if i<5 else sec[5]+4
                ctx.prove(st,tobv(E.load(st,I32,b.at('section_end').plus(4*i)),32)==want,'section end offsets are recorded')
        ctx.call([d],post)
CONTRACTS=[ReadNumber(),DecodeHeader(),DecodeData()]
