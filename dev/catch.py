#!/usr/bin/env python3
"""catch.py: runs all checks against each planted bug and writes the table in DESIGN.md"""
import os,re,json,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
S='/tmp/scr/catch'; os.makedirs(S,exist_ok=True)
def one(i):
    d=S+'/'+i; shutil.rmtree(d,ignore_errors=True); subprocess.run(['cp','-a','/repo',d])
    subprocess.run(['git','-C',d,'apply','/verif/seeded/%s/patch.diff'%i],check=True)
    e=dict(os.environ,GOFLAGS='-mod=readonly',GOWORK='off')
    o=subprocess.run(['bash','-c','. /opt/vp/env.sh; mkdir -p %s.v/evidence; cp /verif/known_findings.txt %s.v; /verif/bin/az -verif %s.v -repo %s -prop all'%(d,d,d,d)],capture_output=True,text=True,env=e).stdout
    shutil.rmtree(d); shutil.rmtree(d+'.v')
    m=json.load(open('/verif/seeded/%s/meta.json'%i))
    v=[]
    for x in re.findall(r'VIOLATION property=(C\d+)',o):
        if x not in v: v.append(x)
    return i,m['property'],m['needs'],v
ids=sorted(os.listdir('/verif/seeded'))
with ThreadPoolExecutor(4) as ex: rows=list(ex.map(one,ids))
t='| planted bug | property | reported by | needs |\n|-|-|-|-|\n'
for i,p,n,v in sorted(rows,key=lambda r:(r[1],r[0])):
    t+='| %s | %s | %s | %s |\n'%(i,p,', '.join(sorted(v)) or '**none**',n)
    if p not in v: print('MISSED',i,p)
s=open('/verif/DESIGN.md').read()
a='<!-- catch -->\n'; b='<!-- /catch -->'
if 'CATCHTABLE' in s: s=s.replace('CATCHTABLE',a+t+b)
else: s=s[:s.index(a)]+a+t+s[s.index(b):]
open('/verif/DESIGN.md','w').write(s)
