#!/usr/bin/env python3
"""mt.py PROPS FILES...: each file holds blocks 'old ==> new' separated by lines of ----, several edits of a block separated
by lines of &&. Applies each block to a scratch copy of /repo, builds and runs the checks PROPS ('-': the one in the name of
the file, 'all'). The name of the file is PROP.path_with_underscores[@suffix]; an edit may start with a line '@@ path' to name another file.
Options by environment: QUIETONLY=1 prints only what is quiet, CAUGHTONLY=1 only what is caught"""
import sys,subprocess,os,shutil,atexit
from concurrent.futures import ThreadPoolExecutor
import queue
SCR='/tmp/scr/mt.%d'%os.getpid(); N=int(os.environ.get('N','8'))
os.makedirs(SCR); atexit.register(shutil.rmtree,SCR,True)
AZ=SCR+'/az'; shutil.copy('/tmp/scr/az',AZ)
paths={}
for d,ds,fs in os.walk('/repo'):
    if '.git' in d: continue
    for x in fs:
        r=os.path.relpath(os.path.join(d,x),'/repo'); paths[r.replace('/','_')]=r
q=queue.Queue()
for i in range(N):
    p='%s/p%d'%(SCR,i)
    shutil.rmtree(p,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',p],check=True)
    os.makedirs('%s/v%d/evidence'%(SCR,i),exist_ok=True)
    shutil.copy('/verif/known_findings.txt','%s/v%d/'%(SCR,i))
    q.put(i)
def one(job):
    fn,props,blk=job
    i=q.get(); P='%s/p%d/'%(SCR,i); desc=[]; out=''
    try:
        touched=set()
        f=fn
        for part in blk.strip('\n').split('\n&&\n'):
            if part.startswith('@@ '):
                h,part=part.split('\n',1); f=h[3:].strip()
            if ' ==> ' not in part and part.endswith(' ==>'): part+=' '
            old,new=part.split(' ==> ',1)
            if old.endswith('\n') and new and not new.endswith('\n'): new+='\n'
            touched.add(f)
            s=open(P+f).read()
            if s.count(old)<1: return 'NOMATCH '+old
            open(P+f,'w').write(s.replace(old,new,1))
            desc.append(old.strip()[:50].replace('\n','\\n')+' ==> '+new.strip()[:70].replace('\n','\\n'))
        b=subprocess.run(['bash','-c','. /opt/vp/env.sh; cd %s && go build ./... '%P],capture_output=True,text=True)
        if b.returncode: return 'BUILD FAIL %s %s'%(desc,b.stderr[-300:])
        r=subprocess.run(['bash','-c','. /opt/vp/env.sh; timeout 800 %s -repo %s -verif %s/v%d -prop %s'%(AZ,P,SCR,i,props)],capture_output=True,text=True)
        rules=[]; prop=''
        for l in r.stdout.split('\n'):
            if l.startswith('VIOLATION'): prop=l.split()[1][9:]
            if l.startswith('rule:'): rules.append(prop+':'+l[11:].strip())
        v={0:'QUIET ',1:'CAUGHT'}.get(r.returncode,'ERR%d'%r.returncode)
        if os.environ.get('QUIETONLY') and r.returncode==1: return None
        if os.environ.get('CAUGHTONLY') and r.returncode==0: return None
        out='%s %s | %s'%(v,rules[:5],' && '.join(desc))
        if os.environ.get('V') and r.returncode==1: out+='\n'+r.stdout
        if r.returncode not in (0,1): out+='\n'+r.stderr[-1500:]
        return out
    finally:
        subprocess.run(['git','-C',P,'checkout','-q','--','.'])
        q.put(i)
jobs=[]
for f in sys.argv[2:]:
    b=os.path.basename(f); pid,n=b.split('.',1); n=n.split('@')[0]
    props=sys.argv[1] if sys.argv[1]!='-' else pid
    for blk in open(f).read().rstrip('\n').split('\n----\n'):
        jobs.append((paths[n],props,blk))
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(one,jobs):
        if r: print(r)
os.remove(AZ)
