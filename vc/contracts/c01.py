"""C01: bit-level writer and reader are exact and mutually inverse."""
from .common import *
SRCS=['buffers/bufr.cc','bufr/input.cc','varinfo.cc','var.cc','bufr_encoder.cc','error.cc']
INST=['layout.cc','bits.cc']
ASSUMPTIONS=['output strings shorter than 2^40 bytes, messages shorter than 2^31 bytes',
 'Varinfo::encode_binary is used by its contract (see C04) when whole variables are appended']

class AddBits(Contract):
    name='BufrOutput::add_bits'; fn=r'^wreport::buffers::BufrOutput::add_bits\('; search='add_bits'
    def cases(s): return [(n,pl) for n in range(33) for pl in range(8)]
    def run(s,ctx,case):
        n,pl=case
        b=BO(ctx,pl); val=ctx.bv('val',32)
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            b.post_bits(o.st,[bit(val,i) for i in range(n-1,-1,-1)],'append n bits')
        ctx.call([b.p,val,n],post)
    def replay(s,case,v): return ['add_bits',case[1],v['pb'],v['val'],case[0]]

class Flush(Contract):
    name='BufrOutput::flush'; fn=r'^wreport::buffers::BufrOutput::flush\('; search='add_bits'
    def cases(s): return list(range(8))
    def run(s,ctx,pl):
        b=BO(ctx,pl)
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            b.post_bits(o.st,[z3.BitVecVal(0,1)]*((8-pl)%8),'pad with zero bits to a byte boundary')
        ctx.call([b.p],post)
    def replay(s,pl,v): return ['flush',pl,v['pb']]

class Fixed(Contract):
    def __init__(s,nm,fn,w,inb): s.name=nm; s.fn=fn; s.w=w; s.inb=inb; s.search='append_fixed'
    def cases(s): return list(range(8))
    def run(s,ctx,pl):
        b=BO(ctx,pl); v=ctx.bv('val',s.inb)
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            b.post_bits(o.st,[bit(v,i) for i in range(s.w-1,-1,-1)],'append fixed-width integer')
        ctx.call([b.p,v],post)
    def replay(s,pl,v): return ['append_fixed',s.w,pl,v['pb'],v['val']]

class AppendMissing(Contract):
    """a missing value is all ones on its whole width, whatever the width"""
    name='BufrOutput::append_missing(unsigned)'; fn=r'^wreport::buffers::BufrOutput::append_missing\(unsigned int\)'; search='append_missing'
    uses=[R_add_bits]
    opts={'strides':(1,8,32)}
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('len',E.ctx.LEN)]
    def cands(s,E,entry,keys,fn,h):
        L=E.ctx.LEN; out=[]
        for k in keys:
            out.append(('wpos + %s == len'%(k,),lambda v,k=k:v.term(('g','#wpos'))+v.term(k)==L))
        return out
    def run(s,ctx,case):
        n=ctx.bv('len_bits',32); ctx.LEN=z3.ZeroExt(32,n)
        ctx.assume(z3.ULT(n,1<<24))
        b=BO(ctx,0)
        StreamSpec(ctx,lambda p:z3.BitVecVal(1,1))
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            ctx.prove(o.st,T64(o.st.g['#wpos'])==ctx.LEN,'exactly the requested number of bits is written')
        ctx.call([b.p,n],post)
    def replay(s,case,v): return ['append_missing',v['len_bits']]

class AppendString(Contract):
    name='BufrOutput::append_string(const char*)'; fn=r'^wreport::buffers::BufrOutput::append_string\(char const\*'; search='append_string'
    uses=[R_add_bits]
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('len_bits',E.ctx.LEN),('strlen',E.ctx.SL)]
    def cands(s,E,entry,keys,fn,h):
        return str_cands(E,keys)
    def run(s,ctx,case):
        n=ctx.bv('len_bits',32); ctx.LEN=z3.ZeroExt(32,n); ctx.assume(z3.ULT(n,1<<24))
        ctx.SL=ctx.bv('strlen',64); ctx.assume(z3.ULT(ctx.SL,1<<24))
        V=ctx.arr('V',24); val=ctx.cstring('val',V,ctx.SL)
        b=BO(ctx,0)
        StreamSpec(ctx,lambda p:string_bit(V,ctx.SL,ctx.LEN,p))
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            ctx.prove(o.st,T64(o.st.g['#wpos'])==ctx.LEN,'exactly the requested number of bits is written')
        ctx.call([b.p,val,n],post)
    def replay(s,case,v): return ['append_string',v['len_bits'],hexs(v['V'],min(v['strlen'],24))]

def hexs(bs,n): return ''.join('%02x'%x for x in bs[:n]) or '-'
def string_bit(V,SL,LEN,p):
    """bit p of a string field: the characters, then spaces; a trailing partial byte is zero"""
    c=z3.LShR(p,3); j=z3.Extract(7,0,7-(p&7))
    ch=z3.If(z3.ULT(c,SL),z3.Select(V,c),z3.BitVecVal(32,8))
    byte=z3.If(z3.ULE(8*c+8,LEN),ch,z3.BitVecVal(0,8))
    return z3.Extract(0,0,z3.LShR(byte,j))
def bin_bit(V,LEN,p):
    """bit p of an opaque field: whole bytes MSB first; a trailing partial byte contributes its low bits"""
    c=z3.LShR(p,3); rem=LEN-8*c
    j=z3.If(z3.UGE(rem,8),7-(p&7),rem-1-(p&7))
    return z3.Extract(0,0,z3.LShR(z3.Select(V,c),z3.Extract(7,0,j)))
def str_cands(E,keys):
    """relations between loop counters, the ghost write position and the string length"""
    out=[]; SL=getattr(E.ctx,'SL',None); LEN=E.ctx.LEN; W=('g','#wpos')
    ks=[k for k in keys if k!=W]
    for k in ks:
        for c in(1,8):
            out.append(('%d*%s == wpos'%(c,k),lambda v,k=k,c=c:c*v.term(k)==v.term(W)))
            out.append(('len - wpos == %d*%s'%(c,k),lambda v,k=k,c=c:LEN-v.term(W)==c*v.term(k)))
        out.append(('%s <= len'%(k,),lambda v,k=k:z3.ULE(v.term(k),LEN)))
    out.append(('wpos <= len',lambda v:z3.ULE(v.term(W),LEN)))
    out.append(('wpos whole bytes or done',lambda v:z3.Or((v.term(W)&7)==0,v.term(W)==LEN)))
    for c in (1,8):
        for k in ks:
            out.append(('done or %d*%s == wpos'%(c,k),lambda v,k=k,c=c:z3.Or(v.term(W)==LEN,c*v.term(k)==v.term(W))))
            out.append(('done or %d*%s + 8 == wpos'%(c,k),lambda v,k=k,c=c:z3.Or(v.term(W)==LEN,c*v.term(k)+8==v.term(W))))
    if SL is not None:
        for k in ks:
            for k2 in ks+[None]:
                t=(lambda v,k2=k2:v.term(k2)) if k2 else (lambda v:z3.LShR(v.term(W),3))
                for nm,f in (('>',lambda x:z3.UGT(x,SL)),('>=',lambda x:z3.UGE(x,SL))):
                    out.append(('%s iff %s %s strlen'%(k,k2,nm),lambda v,k=k,t=t,f=f:(v.term(k)!=0)==f(t(v))))
                    out.append(('done or %s iff %s %s strlen'%(k,k2,nm),lambda v,k=k,t=t,f=f:z3.Or(v.term(W)==LEN,(v.term(k)!=0)==f(t(v)))))
                    out.append(('%s iff not %s %s strlen'%(k,k2,nm),lambda v,k=k,t=t,f=f:(v.term(k)==0)==f(t(v))))
            # pointer/counter walking the string, stopping at its end
            out.append(('%s == min(wpos/8, strlen)'%(k,),lambda v,k=k:v.term(k)==z3.If(z3.ULT(z3.LShR(v.term(W),3),SL),z3.LShR(v.term(W),3),SL)))
            out.append(('%s <= strlen'%(k,),lambda v,k=k:z3.ULE(v.term(k),SL)))
    return out

class AppendBinary(Contract):
    name='BufrOutput::append_binary'; fn=r'^wreport::buffers::BufrOutput::append_binary\('; search='append_binary'
    uses=[R_add_bits]
    def cut(s,dem,h): return True
    def loop_params(s,E,st): return [('len_bits',E.ctx.LEN)]
    def cands(s,E,entry,keys,fn,h): return str_cands(E,keys)
    def run(s,ctx,case):
        n=ctx.bv('len_bits',32); ctx.LEN=z3.ZeroExt(32,n); ctx.assume(z3.ULT(n,1<<24))
        V=ctx.arr('V',24); val=ctx.bytesobj('val',V,z3.LShR(ctx.LEN+7,3),ro=True)
        b=BO(ctx,0)
        StreamSpec(ctx,lambda p:bin_bit(V,ctx.LEN,p))
        def post(o):
            if o.kind!='ret': ctx.prove(o.st,False,'does not throw'); return
            ctx.prove(o.st,T64(o.st.g['#wpos'])==ctx.LEN,'exactly the requested number of bits is written')
        ctx.call([b.p,val,n],post)
    def replay(s,case,v): return ['append_binary',v['len_bits'],hexs(v['V'],24)]

# ---------------------------------------------------------------- reader
def msgbit(D,p): return z3.Extract(0,0,z3.LShR(z3.Select(D,z3.LShR(p,3)),z3.Extract(7,0,7-(p&7))))

class GetBits(Contract):
    name='Input::get_bits'; fn=r'^wreport::bufr::Input::get_bits\('; search='get_bits'
    uses=[(r'^wreport::bufr::Input::parse_error\(',lambda E,st,a,ins:Thrown(wr_err('error_parse')))]
    def cases(s): return [(n,pl) for n in range(33) for pl in range(8)]
    def run(s,ctx,case):
        n,pl=case
        i=IN(ctx,pl)
        p0=i.pos0()
        enough=z3.And(z3.ULE(i.cur64,i.L),z3.ULE(p0+n,8*i.L))
        # bytes holding the requested bits, by case (pl pending bits of D[cur-1], then D[cur]...)
        bits=[bit(z3.Select(i.D,i.cur64-1),k) for k in range(pl-1,-1,-1)]
        k=0
        while len(bits)<n+8: bits+=[bit(z3.Select(i.D,i.cur64+k),j) for j in range(7,-1,-1)]; k+=1
        def post(o):
            if o.kind=='throw':
                ctx.prove(o.st,o.exc.typ==wr_err('error_parse'),'end of data is reported as a parse error')
                ctx.prove(o.st,z3.Not(enough),'only fails when fewer than n bits are left')
                return
            ctx.prove(o.st,enough,'succeeds only when n bits are left')
            r=tobv(o.val,32)
            want=z3.BitVecVal(0,32) if n==0 else (cat(bits[:n]) if n==32 else z3.ZeroExt(32-n,cat(bits[:n])))
            ctx.prove(o.st,r==want,'returns the next n bits, most significant first')
            c,l,b=i.fields(o.st)
            ctx.prove(o.st,8*c-l==p0+n,'advances by exactly n bits')
            ctx.prove(o.st,i.inv(c,l,b),'pending bits stay in step with the message')
        ctx.call([i.p,n],post)
        ctx.prove(ctx.st,z3.BoolVal(ctx.ret_paths>0),'normal return reachable')
    def replay(s,case,v): return ['get_bits',case[0],case[1],v['cur'],v['L'],hexs(v['D'],48)]

class SkipBits(Contract):
    name='Input::skip_bits'; fn=r'^wreport::bufr::Input::skip_bits\('; search='skip_bits'; internal=True
    uses=[(r'^wreport::bufr::Input::parse_error\(',lambda E,st,a,ins:Thrown(wr_err('error_parse')))]
    def cut(s,dem,h): return True
    def cands(s,E,entry,keys,fn,h):
        i=E.ctx.i; out=[]
        def F_(v): return i.fields(v.st)
        N=E.ctx.N64
        for k in keys:
            out.append(('pos == entry + %s'%(k,),lambda v,k=k:8*F_(v)[0]-F_(v)[1]==i.pos0()+v.term(k)))
            out.append(('pos == entry + n - %s'%(k,),lambda v,k=k:8*F_(v)[0]-F_(v)[1]==i.pos0()+N-v.term(k)))
            out.append(('%s <= n'%(k,),lambda v,k=k:z3.ULE(v.term(k),N)))
        out.append(('pos <= entry + n',lambda v:z3.ULE(8*F_(v)[0]-F_(v)[1],i.pos0()+N)))
        out.append(('representation',lambda v:i.inv(*F_(v))))
        out.append(('cursor <= len',lambda v:z3.ULE(F_(v)[0],i.L)))
        return out
    def run(s,ctx,case):
        i=ctx.i=IN(ctx,None); n=ctx.bv('n',32); ctx.N64=N=z3.ZeroExt(32,n)
        p0=i.pos0(); enough=z3.And(z3.ULE(i.cur64,i.L),z3.ULE(p0+N,8*i.L))
        def post(o):
            if o.kind=='throw':
                ctx.prove(o.st,o.exc.typ==wr_err('error_parse'),'end of data is reported as a parse error')
                ctx.prove(o.st,z3.Not(enough),'only fails when fewer than n bits are left'); return
            ctx.prove(o.st,enough,'succeeds only when n bits are left')
            c,l,b=i.fields(o.st)
            ctx.prove(o.st,8*c-l==p0+N,'advances by exactly n bits')
            ctx.prove(o.st,i.inv(c,l,b),'pending bits stay in step with the message')
        ctx.call([i.p,n],post)
    def replay(s,case,v): return ['skip_bits',v['n'],v['pl'],v['cur'],v['L'],hexs(v['D'],48)]

CONTRACTS=[AddBits(),Flush(),
 Fixed('BufrOutput::append_short',r'^wreport::buffers::BufrOutput::append_short\(',16,16),
 Fixed('BufrOutput::append_byte',r'^wreport::buffers::BufrOutput::append_byte\(',8,8),
 AppendMissing(),AppendString(),AppendBinary(),GetBits(),SkipBits()]
