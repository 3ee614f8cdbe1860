"""Parser for textual LLVM IR (LLVM 18, opaque pointers).

Function bodies are parsed lazily.  Only what clang emits for the code under
verification is supported; anything else raises Unsupported, which the driver
reports as an undecided obligation (never silently as success)."""
import re, struct

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            # c-string
 | [%@$!]"(?:[^"\\]|\\.)*"      # quoted ident
 | "(?:[^"\\]|\\.)*"
 | [%@$!\#][-a-zA-Z$._0-9]+
 | 0x[KLMH]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[-+]?\d+)?
 | -?\d+
 | \.\.\.
 | [a-zA-Z_.][-a-zA-Z0-9_.$]*:?
 | [()\[\]{}<>,=*:|!]
''', re.X)

ATTR_WORDS = set('''noundef nonnull noalias nocapture readonly readnone writeonly writable signext zeroext
inreg returned immarg nofree nest noreturn dead_on_unwind swiftself allocptr captures dso_local local_unnamed_addr
unnamed_addr tail musttail notail fastcc ccc coldcc nofpclass inrange range fast nnan ninf nsz arcp contract afn reassoc
dead_on_return noext'''.split())
PAREN_ATTRS = set('''dereferenceable dereferenceable_or_null sret byval byref align preallocated inalloca elementtype nofpclass initializes captures range'''.split())

I1=('i',1); I8=('i',8); I32=('i',32); I64=('i',64); PTR=('ptr',); F64=('f64',); F32=('f32',); VOID=('void',)

class P:
    def __init__(s, toks, mod):
        s.t=toks; s.i=0; s.mod=mod
    def peek(s, k=0):
        return s.t[s.i+k] if s.i+k < len(s.t) else None
    def next(s):
        x=s.t[s.i]; s.i+=1; return x
    def accept(s, x):
        if s.peek()==x:
            s.i+=1; return True
        return False
    def expect(s, x):
        if s.peek()!=x: raise Unsupported('parse: expected %r got %r in %s'%(x,s.peek(),' '.join(s.t)))
        s.i+=1
    def skip_attrs(s):
        while True:
            x=s.peek()
            if x in PAREN_ATTRS:
                s.i+=1
                if s.peek()=='(':
                    s.skip_paren()
                elif x=='align':
                    s.i+=1
            elif x in ATTR_WORDS:
                s.i+=1
                if s.peek()=='(' and x in('range','captures','nofpclass'): s.skip_paren()
            elif x is not None and (x.startswith('#') or (x.startswith('"') )):
                s.i+=1
                if s.accept('='): s.i+=1
            else: break
    def skip_paren(s):
        d=0
        while True:
            x=s.next()
            if x=='(' : d+=1
            elif x==')':
                d-=1
                if d==0: return
    def type(s):
        x=s.next()
        if x=='void': t=VOID
        elif x=='ptr': t=PTR
        elif x=='double': t=F64
        elif x=='float': t=F32
        elif x=='x86_fp80': t=('f80',)
        elif x in('label','metadata','token'): t=(x,)
        elif re.fullmatch(r'i\d+',x): t=('i',int(x[1:]))
        elif x=='[':
            n=int(s.next()); s.expect('x'); e=s.type(); s.expect(']'); t=('arr',n,e)
        elif x=='{':
            es=[]
            if not s.accept('}'):
                while True:
                    es.append(s.type())
                    if s.accept('}'): break
                    s.expect(',')
            t=('struct',tuple(es),False)
        elif x=='<':
            if s.peek()=='{':
                s.next(); es=[]
                if not s.accept('}'):
                    while True:
                        es.append(s.type())
                        if s.accept('}'): break
                        s.expect(',')
                s.expect('>'); t=('struct',tuple(es),True)
            else:
                n=int(s.next()); s.expect('x'); e=s.type(); s.expect('>'); t=('vec',n,e)
        elif x.startswith('%'):
            t=('named',x[1:].strip('"'))
        elif x=='opaque': t=('opaque',)
        else: raise Unsupported('type %r in %s'%(x,' '.join(s.t)))
        if s.peek()=='(' and t!=('label',):
            # function type: skip params -> keep return type
            save=s.i
            d=0; ok=False
            # look: '(' types ')' followed by value  (call fnty)
            s.skip_paren()
            return ('fn',t)
        return t
    def tv(s):
        t=s.type(); s.skip_attrs(); return (t,s.value(t))
    def value(s,t):
        x=s.next()
        if x[0]=='%': return ('l',x[1:].strip('"'))
        if x[0]=='@': return ('g',x[1:].strip('"'))
        if x=='null': return ('c',0)
        if x=='true': return ('c',1)
        if x=='false': return ('c',0)
        if x in('undef','poison'): return ('undef',)
        if x=='zeroinitializer': return ('zero',)
        if x=='none': return ('undef',)
        if x.startswith('c"'):
            return ('cstr',unescape(x[2:-1]))
        if t and t[0] in('f64','f32'):
            if x.startswith('0x'):
                return ('f',struct.unpack('>d',struct.pack('>Q',int(x[2:],16)))[0])
            return ('f',float(x))
        if re.fullmatch(r'-?\d+',x):
            return ('c',int(x) & ((1<<t[1])-1)) if t[0]=='i' else ('c',int(x))
        if x in('getelementptr',):
            while s.peek() in('inbounds','nuw','nusw') : s.next()
            if s.peek()=='inrange': s.next(); s.skip_paren()
            s.expect('(')
            bt=s.type(); s.expect(','); base=s.tv(); idx=[]
            while s.accept(','):
                s.accept('inrange')
                idx.append(s.tv())
            s.expect(')')
            return ('cgep',bt,base,idx)
        if x in('bitcast','inttoptr','ptrtoint','trunc','addrspacecast','zext','sext'):
            s.expect('('); a=s.tv(); s.expect('to'); tt=s.type(); s.expect(')')
            return ('ccast',x,a,tt)
        if x in('sub','add','icmp','select','mul','and','or','xor','shl'):
            while s.peek()!='(' : s.next()
            s.expect('('); a=s.tv(); s.expect(','); b=s.tv(); s.expect(')')
            return ('cbin',x,a,b)
        if x in('[','{','<'):
            close={'[':']','{':'}','<':'>'}[x]
            packed=False
            if x=='<' and s.peek()=='{': s.next(); packed=True; close='}'
            es=[]
            if not s.accept(close):
                while True:
                    es.append(s.tv())
                    if s.accept(close): break
                    s.expect(',')
            if packed: s.expect('>')
            return ('agg',es)
        if x=='blockaddress': s.skip_paren(); return ('undef',)
        raise Unsupported('value %r in %s'%(x,' '.join(s.t)))

def unescape(b):
    out=bytearray(); i=0
    while i<len(b):
        if b[i]=='\\':
            if b[i+1]=='\\': out.append(92); i+=2
            else: out.append(int(b[i+1:i+3],16)); i+=3
        else:
            out+=b[i].encode('utf-8'); i+=1
    return bytes(out)

def split_stmt(line):
    # strip metadata suffixes
    return line

class Inst:
    __slots__=('op','dst','a','txt')
    def __init__(s,op,dst,a,txt): s.op=op; s.dst=dst; s.a=a; s.txt=txt
    def __repr__(s): return s.txt

class Block:
    __slots__=('name','phis','insts','succ')
    def __init__(s,name): s.name=name; s.phis=[]; s.insts=[]; s.succ=[]

class Function:
    def __init__(s,name,header,lines,mod):
        s.name=name; s.header=header; s.lines=lines; s.mod=mod; s.parsed=False
        s.dem=None
    def parse(s):
        if s.parsed: return s
        p=P(TOK.findall(s.header),s.mod)
        # find '@name' '('
        while not (p.peek().startswith('@') and p.peek(1)=='('): p.next()
        # return type: parse from the start
        j=p.i; p2=P(p.t[:j],s.mod)
        k=j-1
        s.params=[]; s.varargs=False
        p.next(); p.expect('(')
        if not p.accept(')'):
            while True:
                if p.accept('...'): s.varargs=True
                else:
                    t=p.type(); p.skip_attrs()
                    nm=None
                    if p.peek().startswith('%'): nm=p.next()[1:].strip('"')
                    else: nm=str(len(s.params))
                    s.params.append((t,nm))
                if p.accept(')'): break
                p.expect(',')
        s.blocks={}; s.order=[]
        cur=None
        lines=s.lines; i=0; n=len(lines)
        first=True
        while i<n:
            ln=lines[i]; i+=1
            if not ln.strip() or ln.lstrip().startswith(';'): continue
            if not ln.startswith(' '):
                # label
                m=re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):',ln)
                if m:
                    cur=Block(m.group(1).strip('"')); s.blocks[cur.name]=cur; s.order.append(cur.name); continue
                raise Unsupported('line '+ln)
            if cur is None:
                nm=str(len(s.params)) 
                cur=Block(nm); s.blocks[nm]=cur; s.order.append(nm)
            txt=ln
            if re.match(r'\s+switch ',ln):
                while ']' not in txt.split('[',1)[1] if '[' in txt else True:
                    txt+=' '+lines[i].strip(); i+=1
            else:
                while i<n and lines[i].startswith('          '):
                    txt+=' '+lines[i].strip(); i+=1
            ins=parse_inst(txt,s.mod)
            if ins is None: continue
            if ins.op=='phi': cur.phis.append(ins)
            else: cur.insts.append(ins)
        for b in s.blocks.values():
            t=b.insts[-1]
            if t.op=='br': b.succ=[x for x in t.a[1:] if x]
            elif t.op=='switch': b.succ=[t.a[1]]+[x[1] for x in t.a[2]]
            elif t.op=='invoke': b.succ=[t.a[3],t.a[4]]
        s.entry=s.order[0]
        s.loops=find_loops(s)
        s.parsed=True
        return s

def find_loops(f):
    # dominators, natural loops
    order=[]; seen=set()
    stack=[(f.entry,iter(f.blocks[f.entry].succ))]; seen.add(f.entry)
    while stack:
        b,it=stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x); stack.append((x,iter(f.blocks[x].succ))); break
        else:
            order.append(b); stack.pop()
    rpo=order[::-1]; idx={b:i for i,b in enumerate(rpo)}
    preds={b:[] for b in rpo}
    for b in rpo:
        for x in f.blocks[b].succ: preds[x].append(b)
    dom={f.entry:f.entry}
    ch=True
    def inter(a,b):
        while a!=b:
            while idx[a]>idx[b]: a=dom[a]
            while idx[b]>idx[a]: b=dom[b]
        return a
    while ch:
        ch=False
        for b in rpo[1:]:
            new=None
            for q in preds[b]:
                if q in dom: new=q if new is None else inter(q,new)
            if dom.get(b)!=new: dom[b]=new; ch=True
    def dominates(a,b):
        while True:
            if a==b: return True
            if b==f.entry: return False
            b=dom[b]
    loops={}
    for b in rpo:
        for x in f.blocks[b].succ:
            if dominates(x,b):
                body=loops.setdefault(x,{x})
                st=[b]
                while st:
                    y=st.pop()
                    if y not in body:
                        body.add(y); st+=preds[y]
    return loops

BIN=set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CAST=set('zext sext trunc fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

def parse_inst(txt,mod):
    s=txt.strip()
    toks=TOK.findall(s)
    # drop metadata tail: ', !x !n'
    for k,x in enumerate(toks):
        if x.startswith('!') and k>0 and toks[k-1]==',' and toks[0]!='call':
            toks=toks[:k-1]; break
    p=P(toks,mod)
    dst=None
    if p.peek().startswith('%') and p.peek(1)=='=':
        dst=p.next()[1:].strip('"'); p.next()
    op=p.next()
    while op in('tail','musttail','notail'): op=p.next()
    if op in BIN:
        flags=set()
        while p.peek() in('nuw','nsw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint'): flags.add(p.next())
        t=p.type(); a=p.value(t); p.expect(','); b=p.value(t)
        return Inst(op,dst,(t,a,b,flags),s)
    if op in CAST:
        while p.peek() in('nneg','nuw','nsw'): p.next()
        a=p.tv(); p.expect('to'); t=p.type()
        return Inst('cast',dst,(op,a[0],a[1],t),s)
    if op in('icmp','fcmp'):
        pred=p.next()
        while pred in('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','samesign'): pred=p.next()
        t=p.type(); a=p.value(t); p.expect(','); b=p.value(t)
        return Inst(op,dst,(pred,t,a,b),s)
    if op=='load':
        while p.peek() in('volatile','atomic'): p.next()
        t=p.type(); p.expect(','); a=p.tv()
        return Inst(op,dst,(t,a[1]),s)
    if op=='store':
        while p.peek() in('volatile','atomic'): p.next()
        v=p.tv(); p.expect(','); a=p.tv()
        return Inst(op,None,(v[0],v[1],a[1]),s)
    if op=='getelementptr':
        while p.peek() in('inbounds','nuw','nusw'): p.next()
        bt=p.type(); p.expect(','); base=p.tv(); idx=[]
        while p.accept(','): idx.append(p.tv())
        return Inst('gep',dst,(bt,base[1],idx),s)
    if op=='alloca':
        p.accept('inalloca')
        t=p.type(); n=None
        if p.accept(',') and p.peek()!='align': n=p.tv()
        return Inst(op,dst,(t,n),s)
    if op=='phi':
        t=p.type(); inc=[]
        while True:
            p.expect('['); v=p.value(t); p.expect(','); b=p.next()[1:].strip('"'); p.expect(']')
            inc.append((v,b))
            if not p.accept(','): break
        return Inst(op,dst,(t,inc),s)
    if op=='select':
        while p.peek() in('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
        c=p.tv(); p.expect(','); a=p.tv(); p.expect(','); b=p.tv()
        return Inst(op,dst,(c[1],a[0],a[1],b[1]),s)
    if op=='br':
        if p.peek()=='label':
            p.next(); l=p.next()[1:].strip('"'); return Inst(op,None,(None,l,None),s)
        c=p.tv(); p.expect(','); p.expect('label'); a=p.next()[1:].strip('"'); p.expect(','); p.expect('label'); b=p.next()[1:].strip('"')
        return Inst(op,None,(c[1],a,b),s)
    if op=='switch':
        v=p.tv(); p.expect(','); p.expect('label'); d=p.next()[1:].strip('"'); p.expect('[')
        cases=[]
        while not p.accept(']'):
            cv=p.tv(); p.expect(','); p.expect('label'); cases.append((cv[1][1],p.next()[1:].strip('"')))
        return Inst(op,None,(v,d,cases),s)
    if op=='ret':
        if p.peek()=='void': return Inst(op,None,(None,None),s)
        v=p.tv(); return Inst(op,None,v,s)
    if op=='unreachable': return Inst(op,None,(),s)
    if op in('call','invoke'):
        p.skip_attrs()
        while p.peek() in('fastcc','ccc'): p.next()
        p.skip_attrs()
        rt=p.type()
        if rt[0]=='fn': rt=rt[1]
        callee=p.value(PTR) if p.peek()!='asm' else ('asm',)
        if callee==('asm',):
            return Inst('asm',dst,(),s)
        args=[]
        p.expect('(')
        if not p.accept(')'):
            while True:
                if p.peek()=='metadata':
                    p.next(); 
                    while p.peek() not in(',',')'): p.next()
                    args.append((('metadata',),('undef',)))
                else: args.append(p.tv())
                if p.accept(')'): break
                p.expect(',')
        if op=='call': return Inst('call',dst,(rt,callee,args),s)
        while p.peek()!='to': p.next()
        p.expect('to'); p.expect('label'); n=p.next()[1:].strip('"'); p.expect('unwind'); p.expect('label'); u=p.next()[1:].strip('"')
        return Inst('invoke',dst,(rt,callee,args,n,u),s)
    if op=='landingpad':
        t=p.type(); clauses=[]; cleanup=False
        while p.peek():
            x=p.next()
            if x=='cleanup': cleanup=True
            elif x=='catch': clauses.append(p.tv()[1])
            elif x=='filter': raise Unsupported('filter clause')
        return Inst(op,dst,(clauses,cleanup),s)
    if op=='resume':
        return Inst(op,None,p.tv(),s)
    if op=='extractvalue':
        a=p.tv(); idx=[]
        while p.accept(','): idx.append(int(p.next()))
        return Inst(op,dst,(a[1],idx),s)
    if op=='insertvalue':
        a=p.tv(); p.expect(','); b=p.tv(); idx=[]
        while p.accept(','): idx.append(int(p.next()))
        return Inst(op,dst,(a,b,idx),s)
    if op=='freeze':
        a=p.tv(); return Inst(op,dst,a,s)
    if op=='fneg':
        while p.peek() in('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
        a=p.tv(); return Inst(op,dst,a,s)
    if op in('fence',): return None
    return Inst('unsupported:'+op,dst,(),s)

class Module:
    def __init__(s,text):
        s.types={}; s.funcs={}; s.decls={}; s.globals={}; s._gl={}
        lines=text.split('\n'); i=0; n=len(lines)
        while i<n:
            ln=lines[i]
            if ln.startswith('define '):
                m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',ln)
                name=m.group(1).strip('"'); j=i+1
                while lines[j]!='}': j+=1
                s.funcs[name]=Function(name,ln,lines[i+1:j],s); i=j
            elif ln.startswith('declare '):
                m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',ln)
                s.decls[m.group(1).strip('"')]=ln
            elif ln.startswith('%') and ' = type ' in ln:
                nm,_,r=ln.partition(' = type ')
                s.types[nm[1:].strip('"')]=r
            elif ln.startswith('@'):
                m=re.match(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$',ln)
                s.globals[m.group(1).strip('"')]=m.group(2)
            i+=1
        s._t={}
        s.sizes={}
    def named(s,nm):
        if nm not in s._t:
            r=s.types.get(nm)
            if r is None: raise Unsupported('type '+nm)
            s._t[nm]=P(TOK.findall(r),s).type()
        return s._t[nm]
    def resolve(s,t):
        while t[0]=='named': t=s.named(t[1])
        return t
    def sizeof(s,t):
        k=t
        if k in s.sizes: return s.sizes[k][0]
        s._lay(t); return s.sizes[k][0]
    def alignof(s,t):
        if t not in s.sizes: s._lay(t)
        return s.sizes[t][1]
    def offsets(s,t):
        if t not in s.sizes: s._lay(t)
        return s.sizes[t][2]
    def _lay(s,t):
        o=t; t=s.resolve(t)
        if t[0]=='i':
            w=(t[1]+7)//8
            z=1
            while z<w: z*=2
            r=(z if w<=8 else 16,min(z,16),None)
        elif t[0]=='ptr': r=(8,8,None)
        elif t[0]=='f64': r=(8,8,None)
        elif t[0]=='f32': r=(4,4,None)
        elif t[0]=='f80': r=(16,16,None)
        elif t[0]=='arr': r=(t[1]*s.sizeof(t[2]),s.alignof(t[2]),None)
        elif t[0]=='vec': r=(t[1]*s.sizeof(t[2]),t[1]*s.sizeof(t[2]),None)
        elif t[0]=='struct':
            off=0; al=1; offs=[]
            for e in t[1]:
                a=1 if t[2] else s.alignof(e)
                off=(off+a-1)//a*a; offs.append(off); off+=s.sizeof(e); al=max(al,a)
            r=((off+al-1)//al*al,al,offs)
        else: raise Unsupported('sizeof %r'%(t,))
        s.sizes[o]=r; s.sizes[t]=r
    def global_def(s,name):
        """-> (type, initializer value or None, constant?)"""
        if name in s._gl: return s._gl[name]
        r=s.globals[name]
        toks=TOK.findall(r)
        p=P(toks,s)
        ext=False; const=False; tls=False
        while True:
            x=p.next()
            if x=='external' or x=='extern_weak': ext=True
            if x in('constant','global'):
                const=(x=='constant'); break
            if x=='thread_local':
                tls=True
                if p.peek()=='(' : p.skip_paren()
            if x=='alias':
                s._gl[name]=('alias',None,None,None); return s._gl[name]
        t=p.type(); init=None
        if not ext and p.peek() not in (None,','):
            p.skip_attrs()
            init=p.value(t)
        s._gl[name]=(t,init,const,tls)
        return s._gl[name]
