#!/usr/bin/env python3-vt
"""check.py PROPERTY : discharge every contract of a property against /repo's current tree"""
import sys, os, json, time, importlib, multiprocessing as mp, shutil, subprocess, traceback, collections, re
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
HERE=os.path.dirname(os.path.abspath(__file__))
from vc import build, frame, irparse, engine

MOD=None; CONS=None; DEADLINE=120; TEND=0; NFAIL=None; FAILFAST=3
def job(a):
    ci,cases=a
    out=[]
    for c in cases:
        if NFAIL[ci]>=FAILFAST:      # this contract is refuted already: the remaining cases add nothing
            out.append(dict(name=CONS[ci].name,case=repr(c),obl=[],fails=[],undecided=[],fn=None,skipped=True)); continue
        left=TEND-time.time()
        if left<2:
            out.append(dict(name=CONS[ci].name,case=repr(c),obl=[],fails=[],undecided=['total time budget exhausted'],fn=None)); NFAIL[ci]+=1; continue
        try:
            r=frame.run_case(MOD,CONS[ci],c,min(DEADLINE,left))
            out.append(r)
            if r['fails'] or r['undecided']: NFAIL[ci]+=1
        except irparse.Unsupported as e:
            out.append(dict(name=CONS[ci].name,case=repr(c),obl=[],fails=[],undecided=['unsupported: '+str(e)],fn=None))
        except Exception as e:
            out.append(dict(name=CONS[ci].name,case=repr(c),obl=[],fails=[],undecided=['internal: '+traceback.format_exc()[-1500:]],fn=None))
    return ci,out

def main():
    global MOD,CONS,DEADLINE,TEND,NFAIL
    prop=sys.argv[1]
    if prop=='--selftest': return selftest()
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1'))
    only=None
    if '--only' in sys.argv: only=sys.argv[sys.argv.index('--only')+1]
    verbose='-v' in sys.argv
    t0=time.time()
    pm=importlib.import_module('vc.contracts.'+prop.lower())
    CONS=[c for c in pm.CONTRACTS if not only or re.search(only,c.name)]
    DEADLINE=getattr(pm,'DEADLINE',200)
    if tier=='thorough': DEADLINE*=3
    d=build.mkscratch()
    replay_dir=os.path.join(HERE,'evidence','replay'); os.makedirs(replay_dir,exist_ok=True)
    for x in os.listdir(replay_dir):
        if x.startswith(prop+'-'): os.unlink(os.path.join(replay_dir,x))
    builderr=None
    try:
        try:
            inst=[HERE+'/vc/inst/'+x for x in getattr(pm,'INST',())]; lib=build.libsources(); srcs=[f for f in pm.SRCS if f in lib]+[f for f in lib if f not in build.LIB]
            def load(srcs):
                global MOD
                MOD=irparse.Module(build.build_ir(d,srcs,inst)); engine.demangle_all(list(MOD.funcs)+list(MOD.decls))
            load(srcs)
            from vc.frame import find_fn
            if len(srcs)<len(lib) and any(c.fn and not find_fn(MOD,c.fn) for c in CONS): load(lib)   # moved to another file
        except Exception as e:
            builderr=str(e)
        if builderr:
            res={ci:[dict(name=c.name,case='',obl=[],fails=[],undecided=['cannot compile /repo to IR: '+builderr[-1500:]],fn=None)] for ci,c in enumerate(CONS)}
            report(prop,tier,seed,pm,res,t0,d,replay_dir,verbose); return
        tasks=[]
        for ci,c in enumerate(CONS):
            cs=c.cases()
            if tier=='thorough' and hasattr(c,'thorough_cases'): cs=c.thorough_cases()
            g=c.group()
            for i in range(0,len(cs),g): tasks.append((ci,cs[i:i+g]))
        tasks.sort(key=lambda t:-getattr(CONS[t[0]],'weight',1))
        ctxm=mp.get_context('fork')
        TEND=t0+(540 if tier=='quick' else 3000)
        NFAIL=ctxm.Array('i',len(CONS),lock=False)
        results=collections.defaultdict(list)
        with ctxm.Pool(8) as pool:
            for ci,out in pool.imap_unordered(job,tasks): results[ci]+=out
        report(prop,tier,seed,pm,results,t0,d,replay_dir,verbose)
    finally:
        shutil.rmtree(d,ignore_errors=True)

def report(prop,tier,seed,pm,results,t0,d,replay_dir,verbose):
    obl=0; disc=0; back=collections.Counter(); fns={}; trusted=set(); inl=set(); used=set(); solver=0; fails=[]; und=[]; missing=[]; samples=[]; cuts={}
    bounded=[]; paths=0; per={}
    for ci in sorted(results):
        c=CONS[ci]
        n0=obl
        for r in results[ci]:
            if r.get('missing'):
                if c.internal: missing.append(c.name)
                else: und.append((ci,r['case'],'function under contract not found: '+c.fn))
                continue
            for o in r['obl']:
                obl+=1
                if o[1]=='proved': disc+=1; back[o[2]]+=1
            if r['obl'] and len(samples)<12 and len([s for s in samples if s.startswith(c.name)])<2: samples.append(r['obl'][-1][0]+'  [case %s]'%r['case'])
            if r.get('fn'): fns.setdefault(r['fn'],0); fns[r['fn']]+=len(r['obl'])
            trusted|=set(r.get('trusted',())); inl|=set(r.get('inlined',())); used|=set(r.get('used',()))
            solver+=r.get('solver',0); paths+=r.get('paths',0)
            for f in r['fails']:
                if f['kind']!='unknown': fails.append((ci,f))
            for u in r['undecided']: und.append((ci,r['case'],u))
            for w in r.get('cuts',()): cuts[w[0]]=w[3]
        per[c.name]=dict(obligations=obl-n0,cpu_s=round(sum(r.get('time',0) for r in results[ci]),2))
        if obl==n0 and c.name not in missing and not any(u[0]==ci for u in und): und.append((ci,'','no obligations generated'))
        if c.bounded: bounded.append('%s: %s'%(c.name,c.bounded))
    findings=load_known(prop)
    violations=[]
    known=[]
    if verbose:
        for k,v in per.items(): print('  %-50s %s'%(k,v))
    if fails or und:
        violations,known=triage(prop,pm,fails,und,findings,d,replay_dir,seed)
    ev=dict(property=prop,tier=tier,seed=seed,level='proof',
        coverage=dict(obligations=obl,discharged=disc,checker_cmd='python3-vt /verif/check.py %s'%prop,
            trusted_base=['clang 18 (source to LLVM IR), opt sroa/simplifycfg','vc/engine.py VC generator','z3 %s'%__import__('z3').get_version_string(),'cvc5 1.1.2']+sorted('assumed contract: '+t for t in trusted),
            functions_under_contract=fns, callee_contracts_used=sorted(used), inlined_functions=sorted(inl),
            backends=dict(back), solver_s=round(solver,2), paths=paths, loop_invariants=cuts, contracts=per, bounded=bounded,
            skipped_missing_internal=missing, samples=samples),
        assumptions=list(getattr(pm,'ASSUMPTIONS',[]))+GENERIC,
        wall_s=round(time.time()-t0,2),violations=len(violations))
    json.dump(ev,open(os.path.join(HERE,'evidence',prop+'.json'),'w'),indent=1)
    for k in known: print('KNOWN-FINDING: property=%s %s'%(prop,k))
    print('%s: %d obligations, %d discharged (%s), %d functions under contract, %d paths, %.1fs wall, %.1fs solver'%(prop,obl,disc,dict(back),len(fns),paths,time.time()-t0,solver))
    if violations:
        for v in violations: print(v)
        sys.exit(1)
    if obl==0:
        print('ERROR: no obligations'); sys.exit(2)
    sys.exit(0)

GENERIC=['x86-64 SysV layout; signed overflow and shift counts follow two\'s complement / x86 masking',
 'the C/C++ runtime functions listed in trusted_base behave as their assumed contracts; memory allocation succeeds',
 'clang\'s translation of the source agrees with the production g++ -O2 build on defined behaviour',
 'std::string / std::vector growth is modelled without iterator invalidation']

def load_known(prop):
    r=[]
    p=os.path.join(HERE,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'^known: property=(\S+) id=(\S+) (.*)$',l.strip())
            if m and m.group(1)==prop: r.append((m.group(2),m.group(3)))
    return r

def triage(prop,pm,fails,und,findings,d,replay_dir,seed):
    """replay counterexamples on the real code; returns (violation lines, known lines)"""
    from vc import replay
    vio=[]; known=[]
    bycon=collections.OrderedDict()
    for ci,f in fails: bycon.setdefault(ci,dict(f=[],u=[]))['f'].append(f)
    for ci,case,u in und: bycon.setdefault(ci,dict(f=[],u=[]))['u'].append((case,u))
    rp=replay.Replay(d)
    i=0
    for ci,x in bycon.items():
        c=CONS[ci]
        i+=1
        path=os.path.join(replay_dir,'%s-%d.txt'%(prop,i))
        txt=['property %s, contract %s, function %s'%(prop,c.name,c.fn)]
        confirmed=None
        for f in x['f'][:40]:
            txt.append('FAILED OBLIGATION: %s   case %s  kind %s %s'%(f['name'],f['case'],f['kind'],f['detail']))
            txt.append('  counterexample: %s'%(f['vals'],))
        for cs,u in x['u'][:10]: txt.append('UNDECIDED: case %s: %s'%(cs,u))
        tried=0
        for f in x['f'][:60]:
            if f.get('argv') is not None:
                tried+=1
                if tried>12: break
                rc,out=rp.run(f['argv'])
                txt.append('  REPLAY %s -> exit %s\n%s'%(' '.join(map(str,f['argv'])),rc,indent(out)))
                if rc==1: confirmed=f['argv']; break
        if not confirmed and c.search:
            for s in ([c.search] if isinstance(c.search,str) else c.search):
                rc,out=rp.run(['search']+s.split()+[str(seed)],timeout=120)
                txt.append('  SEARCH %s -> exit %s\n%s'%(s,rc,indent(out)))
                if rc==1: confirmed=['search']+s.split()+[str(seed)]; break
        if rp.error: txt.append('replay harness: '+rp.error)
        open(path,'w').write('\n'.join(txt)+'\n')
        if confirmed: vio.append('VIOLATION property=%s replay=%s'%(prop,path))
        else: vio.append('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,path))
        print('FAILED contract %s: %s'%(c.name,(x['f'][0]['name'] if x['f'] else x['u'][0][1])[:300]))
    conf=[v for v in vio if not v.endswith('no-failing-input-found')]
    if conf: vio=conf
    return vio,known
def selftest():
    """setup: the tool chain is there and the engine proves and refutes what it should"""
    import z3
    x=z3.BitVec('x',8); so=z3.Solver(); so.add(x*2!=x+x)
    assert so.check()==z3.unsat
    for t in ('clang++','g++','opt-18','cvc5'): assert shutil.which(t),t
    os.makedirs(os.path.join(HERE,'evidence','replay'),exist_ok=True)
    sys.path.insert(0,os.path.join(HERE,'tools')); import lia_selftest
    assert lia_selftest.run(600)
    print('setup ok')
def indent(s): return '\n'.join('      '+l for l in s.split('\n')[-40:])
if __name__=='__main__': main()
