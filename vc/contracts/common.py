"""Shared specification vocabulary and callee summaries."""
import z3, re
from ..frame import *
from .. import floats as F

def bit(term,i): return z3.Extract(i,i,term)
def cat(bits): return bits[0] if len(bits)==1 else z3.Concat(*bits)

# ---- layouts (checked against the IR's own struct types at run time)
def off(E,cls,f=None):
    """field offset / class size, as computed by the compiler (vc/inst/layout.cc)"""
    n='vp_%s'%cls+('_'+f if f else '')
    try: return int(re.search(r'i64 (\d+)',E.mod.globals[n]).group(1))
    except KeyError: raise Unsupported('layout constant '+n)

# ------------------------------------------------------------------ BufrOutput
class BO:
    """a BufrOutput with symbolic output string"""
    def __init__(s,ctx,pl,pb=None):
        E=ctx.E; st=ctx.st; s.ctx=ctx
        s.o_out,s.o_pb,s.o_pl=0,off(E,'BufrOutput','pbyte'),off(E,'BufrOutput','pbyte_len')
        s.size=off(E,'BufrOutput')
        s.N=ctx.bv('N',64); ctx.assume(z3.ULT(s.N,1<<40))
        A=ctx.arr('A',8)
        s.sp=E.alloc(st,'out',32); s.d=str_new(E,st,s.sp,A,s.N); s.A=A
        s.p=E.alloc(st,'BufrOutput',s.size)
        s.pl=pl; s.pb=ctx.bv('pb',8) if pb is None else pb
        E.store(st,PTR,s.sp,s.p.plus(s.o_out)); E.store(st,I8,s.pb,s.p.plus(s.o_pb)); E.store(st,I32,pl,s.p.plus(s.o_pl))
    def pend(s): return [bit(s.pb,i) for i in range(s.pl-1,-1,-1)]
    def post_bits(s,st,bits,what):
        """the stream is: old content, then the old pending bits, then `bits` (list of BV1)"""
        ctx=s.ctx; E=ctx.E
        full=s.pend()+bits; k=len(full)//8; r=full[8*k:]
        d,n=str_get(E,st,s.sp)
        ok=ctx.prove(st,T64(n)==s.N+k,what+': number of completed bytes')
        arr=st.mem[d.obj].arr
        for b in range(k):
            ok&=ctx.prove(st,z3.Select(arr,s.N+b)==cat(full[8*b:8*b+8]),what+': completed byte has the right bits')
        K=z3.BitVec('K',64)
        ok&=ctx.prove(st,z3.Implies(z3.ULT(K,s.N),z3.Select(arr,K)==z3.Select(s.A,K)),what+': earlier bytes unchanged')
        ok&=ctx.prove(st,tobv(E.load(st,I32,s.p.plus(s.o_pl)),32)==len(r),what+': number of pending bits')
        if r: ok&=ctx.prove(st,z3.Extract(len(r)-1,0,tobv(E.load(st,I8,s.p.plus(s.o_pb)),8))==cat(r),what+': pending bits')
        return ok

def sum_add_bits(E,st,a,ins):
    """callee contract of BufrOutput::add_bits: appends the n low bits of val, MSB first, 0<=n<=32.
    The property being proved supplies on_bits(E,st,val,n) which states what the bits must be."""
    val,n=a[1],a[2]
    if not isc(n):
        t=tobv(n,32)
        E.prove(st,z3.ULE(t,32),E.cname()+'call add_bits: at most 32 bits requested')
        st.assume(z3.ULE(t,32))
        vals=E.concretize(st,t,32,40)
        if not vals: raise PathEnd('infeasible')
        if len(vals)>1: raise NeedFork([t==z3.BitVecVal(v,32) for v in vals])
        n=vals[0]
    elif n>32:
        E.fail_path(st,'call add_bits: at most 32 bits requested')
    E.opts['on_bits'](E,st,tobv(val,32),n)
    pos=st.g['#wpos']; st.g['#wpos']=z3.simplify(T64(pos)+n)
    return 0
R_add_bits=(r'^wreport::buffers::BufrOutput::add_bits\(',sum_add_bits)

class StreamSpec:
    """expected output as a function bit position -> BV1 (z3)"""
    def __init__(s,ctx,specbit,name='stream'):
        s.ctx=ctx; s.specbit=specbit; s.name=name
        ctx.st.g['#wpos']=z3.BitVecVal(0,64)
        ctx.E.opts['on_bits']=s.on_bits
    def on_bits(s,E,st,val,n):
        p=T64(st.g['#wpos'])
        for j in range(n):
            if not s.ctx.prove(st,bit(val,n-1-j)==s.specbit(p+j),'every emitted bit is the specified bit'): break

# ------------------------------------------------------------------ Input
class IN:
    def __init__(s,ctx,pl=None,cursor_ok=True):
        E=ctx.E; st=ctx.st; s.ctx=ctx
        s.size=off(E,'Input')
        s.o={k:off(E,'Input',f) for k,f in (('data','data'),('len','data_len'),('fname','fname'),('start','start_offset'),('cur','s4_cursor'),('pb','pbyte'),('pl','pbyte_len'),('sec','sec'))}
        s.L=ctx.bv('L',64); ctx.assume(z3.ULT(s.L,1<<31))
        s.D=ctx.arr('D',48)
        s.data=ctx.bytesobj('message',s.D,s.L,ro=True)
        s.p=E.alloc(st,'Input',s.size,lazy=True)
        s.cur=ctx.bv('cur',32); s.pb=ctx.bv('pb',8)
        s.pl=pl
        P=s.p.plus
        E.store(st,PTR,s.data,P(s.o['data'])); E.store(st,I64,s.L,P(s.o['len'])); E.store(st,PTR,NULL,P(s.o['fname'])); E.store(st,I64,ctx.bv('start',64),P(s.o['start']))
        E.store(st,I32,s.cur,P(s.o['cur'])); E.store(st,I8,s.pb,P(s.o['pb']))
        if pl is None: s.pl=ctx.bv('pl',32); ctx.assume(z3.ULE(s.pl,7))
        E.store(st,I32,s.pl,P(s.o['pl']))
        s.cur64=z3.ZeroExt(32,s.cur)
        s.pl64=T64(pl) if isc(pl) else z3.ZeroExt(32,s.pl)
        ctx.assume(s.inv(s.cur64,s.pl64,s.pb))
    def inv(s,cur,pl,pb):
        """representation invariant: pending bits are the low pl bits of the byte before the cursor, left aligned"""
        prev=z3.Select(s.D,cur-1)
        return z3.And(z3.ULE(pl,7),z3.Implies(pl!=0,z3.And(cur!=0,z3.ULE(cur,s.L),z3.LShR(pb^(prev<<z3.Extract(7,0,8-pl)),z3.Extract(7,0,8-pl))==0)))
    def fields(s,st):
        E=s.ctx.E
        c=tobv(E.load(st,I32,s.p.plus(s.o['cur'])),32); b=tobv(E.load(st,I8,s.p.plus(s.o['pb'])),8); l=tobv(E.load(st,I32,s.p.plus(s.o['pl'])),32)
        return z3.ZeroExt(32,c),z3.ZeroExt(32,l),b
    def pos0(s): return 8*s.cur64-s.pl64

def recobj(ctx,name,stride,n,fields,ro=True):
    """array of n records; fields: offset -> (size, kind, array or fn(E,st,index))"""
    p=ctx.E.alloc(ctx.st,name,z3.simplify(T64(n)*stride),'rec',ro=ro); o=ctx.st.mem[p.obj]
    o.stride=stride; o.fields=dict(fields); return p
