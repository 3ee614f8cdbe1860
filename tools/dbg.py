import sys; sys.path.insert(0,'/verif')
import importlib,shutil,re,os
from vc import build,frame,irparse,engine
def load(prop):
    pm=importlib.import_module('vc.contracts.'+prop.lower())
    d=build.mkscratch()
    txt=build.build_ir(d,pm.SRCS,['/verif/vc/inst/'+x for x in getattr(pm,'INST',())])
    open('/tmp/all.ll','w').write(txt)
    shutil.rmtree(d)
    M=irparse.Module(txt); engine.demangle_all(list(M.funcs)+list(M.decls))
    return pm,M
def one(pm,M,name,case=None,dl=100):
    c=[c for c in pm.CONTRACTS if re.search(name,c.name)][0]
    if case is None: case=c.cases()[0]
    r=frame.run_case(M,c,case,dl)
    for f in r['fails']: print('FAIL',f)
    for u in r['undecided']: print('UND',u)
    print(len(r['obl']),'obl',r.get('time'),r.get('solver'),r['cuts'] if 'cuts' in r else '')
    return r
