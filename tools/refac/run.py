"""run.py [ids...]: apply each behaviour-preserving edit to a scratch copy of /repo and run the checks on it: they have to stay quiet"""
import sys,os,subprocess,shutil,glob
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(os.path.dirname(H)); S='/tmp/rf'; T=S+'/repo'; BASE=os.environ.get('BASE','/repo')
R=[]
def refac(id,props,edits): R.append((id,props.split(),edits))
for f in sorted(glob.glob(H+'/r_*.py')): exec(open(f).read())
def main(ids):
    os.makedirs(S,exist_ok=True)
    if not os.path.exists(T): subprocess.check_call(['cp','-a',BASE,T])
    for id,props,edits in R:
        if ids and not any(x in id for x in ids): continue
        subprocess.check_call(['git','-C',T,'checkout','-q','--','.'])
        subprocess.check_call("git -C %s fetch -q %s HEAD && git -C %s reset -q --hard FETCH_HEAD"%(T,BASE,T),shell=True)
        ok=True
        for f,a,b in edits:
            p=T+'/'+f; s=open(p).read()
            if s.count(a)!=1: print(id,'DOES NOT APPLY',f,s.count(a)); ok=False; break
            open(p,'w').write(s.replace(a,b))
        if not ok: continue
        for f in {e[0] for e in edits if e[0].endswith('.cc')}:
            r=subprocess.run('g++ -std=c++17 -fsyntax-only -w -I%s -I%s/wreport -I%s/_build -I%s/_build/wreport %s/%s'%(T,T,T,T,T,f),shell=True,capture_output=True,text=True)
            if r.returncode: print(id,'DOES NOT COMPILE',r.stderr[:600]); ok=False
        if not ok: continue
        for p in props:
            r=subprocess.run(['python3-vt','check.py',p],cwd=V,capture_output=True,text=True,env=dict(os.environ,VP_REPO=T))
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            fl=[l for l in r.stdout.splitlines() if l.startswith('FAIL') or 'undecided' in l.lower()][:4]
            print(id,p,'rc=%d'%r.returncode,'quiet' if r.returncode==0 else v[:2],*[x[:200] for x in fl],sep=' ',flush=True)
main(sys.argv[1:])
