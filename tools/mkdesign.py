"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import json,glob,os,re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| planted change | caught by | needs | breaks |','|---|---|---|---|']
for f in sorted(glob.glob(H+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[-2],m['property'],m['needs'],m['what_it_breaks']))
p=H+'/DESIGN.md'; s=open(p).read(); i=s.index('<!-- bugs -->'); j=s.index('<!-- /bugs -->')
open(p,'w').write(s[:i]+'<!-- bugs -->\n'+'\n'.join(rows)+'\n'+s[j:])
