"""mkbug(id,property,edits,demo,needs,breaks): writes seeded/<id>/ from textual edits against /repo's HEAD"""
import os, subprocess, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO='''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -fno-access-control %s-I. -I_build "$D/demo.cc" -o "$T/demo" -L_build/wreport -lwreport -Wl,-rpath,"$PWD/_build/wreport"
cd "$T" && WREPORT_TABLES=$OLDPWD/tables timeout 100 ./demo
'''
def mkbug(id,prop,edits,demo,needs,breaks,flags=''):
    d=V+'/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain','-uno'],capture_output=True,text=True).stdout.strip()
    try:
        for f,a,b in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
        df=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(df); open(d+'/demo.cc','w').write(demo); open(d+'/demo.sh','w').write(DEMO%flags); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
