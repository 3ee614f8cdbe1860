#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property descriptions below."""
import json, os
HERE=os.path.dirname(os.path.abspath(__file__))
P=[]; NA=[]
def prop(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),note='',level='proof',technique='contract-based deductive verification (weakest-precondition style symbolic execution of the compiled source with loop invariants, z3/cvc5)'):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=list(observe),hook_needed=False),_note=note,_level=level,_tech=technique))
exec(open(os.path.join(HERE,'properties_src.py')).read())
if __name__=='__main__':
    with open(os.path.join(HERE,'properties.jsonl'),'w') as f:
        for p in P: f.write(json.dumps({k:v for k,v in p.items() if not k.startswith('_')})+'\n')
    na={x['property'] for x in NA}
    m=dict(version=1,setup_cmd='python3-vt check.py --selftest',
        checks=[dict(property=p['id'],quick_cmd='python3-vt check.py '+p['id'],thorough_cmd='VERIF_TIER=thorough python3-vt check.py '+p['id'],evidence_file='evidence/%s.json'%p['id'],technique=p['_tech'],level=p['_level'],level_note=p['_note']) for p in P if p['id'] not in na],
        not_applicable=NA,notes='No hooks in /repo: contracts live in vc/contracts and are checked against the LLVM IR clang produces from the current sources on every run.')
    json.dump(m,open(os.path.join(HERE,'MANIFEST.json'),'w'),indent=1)
