"""Concrete harness: compiles /repo's current library sources plus replay/*.cc (ASan) and runs counterexamples."""
import os, re, subprocess, concurrent.futures as cf, glob
from . import build
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class Replay:
    def __init__(s,d): s.d=d; s.exe=None; s.error=None
    def build(s):
        if s.exe or s.error: return
        o=s.d+'/replay'; os.makedirs(o,exist_ok=True)
        fl=build.cflags(s.d)+['-O1','-g','-fsanitize=address','-fno-omit-frame-pointer','-I'+HERE+'/replay']
        files=[(build.REPO+'/wreport/'+f,o+'/'+f.replace('/','_')+'.o') for f in build.libsources()]
        files+=[(f,o+'/h_'+os.path.basename(f)+'.o') for f in sorted(glob.glob(HERE+'/replay/*.cc'))]
        def one(x):
            return subprocess.run(['g++']+fl+['-c',x[0],'-o',x[1]],capture_output=True,text=True)
        with cf.ThreadPoolExecutor(8) as ex: rs=list(ex.map(one,files))
        for r,(f,_) in zip(rs,files):
            if r.returncode: s.error='compile %s: %s'%(f,r.stderr[-2000:]); return
        r=subprocess.run(['g++','-fsanitize=address']+[x[1] for x in files]+['-o',o+'/replay'],capture_output=True,text=True)
        if r.returncode: s.error='link: '+r.stderr[-2000:]; return
        s.exe=o+'/replay'
    def run(s,argv,timeout=60):
        s.build()
        if not s.exe: return 2,'no harness: %s'%s.error
        env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:exitcode=1:abort_on_error=0:allocator_may_return_null=1',WREPORT_TABLES=build.REPO+'/tables')
        try:
            r=subprocess.run([s.exe]+[str(a) for a in argv],capture_output=True,text=True,errors='replace',timeout=timeout,env=env,cwd=s.d)
        except subprocess.TimeoutExpired: return 3,'timeout'
        rc=r.returncode
        if rc<0: rc=1   # crash
        return rc,(r.stdout+r.stderr)[-6000:]
