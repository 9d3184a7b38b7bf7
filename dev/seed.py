#!/usr/bin/env python3
"""seed.py [-n] ID...: makes /verif/seeded/ID from /verif/dev/seeds/ID.spec and confirms it in scratch copies: the patched
tree builds and passes the stable tests (-n: skip the tests), the demonstration passes without and fails with the change.
spec: 'property:', 'pkg:' (package of the demonstration), 'needs:', 'breaks:' lines, then '=== edit' with the blocks of mt.py
('@@ path' first, parts separated by &&) and '=== demo' with a Go test TestSeed"""
import sys,os,re,json,subprocess,shutil
SCR=os.environ.get('SEEDDIR','/tmp/scr/seed')
os.makedirs(SCR,exist_ok=True)
DEMO='''#!/bin/bash
# exit 0: the property holds for this case; run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
S=$(mktemp -d)
trap 'rm -rf -- "$S"' EXIT
export TMPDIR="$S"
printf '{"Replace":{"%%s/%(pkg)s/zz_seed_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$S/overlay.json"
go test -overlay "$S/overlay.json" -vet=off -count=1 -timeout 250s -run '^TestSeed$' ./%(pkg)s
'''
def sh(c,**k): return subprocess.run(['bash','-c',c],capture_output=True,text=True,**k)
def run(i,tests):
    s=open('/verif/dev/seeds/%s.spec'%i).read()
    head,rest=s.split('=== edit\n',1); edit,demo=rest.split('=== demo\n',1)
    h=dict(re.findall(r'^(\w+): (.*)$',head,re.M))
    D='/verif/seeded/'+i; os.makedirs(D,exist_ok=True)
    P=SCR+'/repo'
    if not os.path.exists(P): sh('cp -a /repo '+P)
    sh('git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD; git -C %s clean -fdq'%(P,P,P))
    open(D+'/demo_test.go','w').write(demo)
    open(D+'/demo.sh','w').write(DEMO%h); os.chmod(D+'/demo.sh',0o755)
    json.dump({'property':h['property'],'needs':h['needs'],'what_it_breaks':h['breaks']},open(D+'/meta.json','w'),indent=1)
    open(D+'/meta.json','a').write('\n')
    r=sh('cd %s && bash %s/demo.sh'%(P,D))
    if r.returncode: print(i,'DEMO FAILS ON CLEAN TREE',r.stdout[-1500:],r.stderr[-800:]); return False
    f=None
    for part in edit.strip('\n').split('\n&&\n'):
        if part.startswith('@@ '):
            l,part=part.split('\n',1); f=l[3:].strip()
        if ' ==> ' not in part and part.endswith(' ==>'): part+=' '
        old,new=part.split(' ==> ',1)
        t=open(P+'/'+f).read()
        if t.count(old)!=1: print(i,'MATCHES %d'%t.count(old),old); return False
        open(P+'/'+f,'w').write(t.replace(old,new))
    sh('. /opt/vp/env.sh; cd %s && gofmt -w $(git diff --name-only)'%P)
    d=sh('git -C %s diff'%P).stdout
    open(D+'/patch.diff','w').write(d)
    # removed lines are original?
    base=sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    orig={}
    bad=[]; fn=None; n=0; removed=0
    for l in d.split('\n'):
        if l.startswith('--- a/'): fn=l[6:]; bl={int(x.split()[1]) if 0 else k+1:x for k,x in enumerate(sh('cd /repo && git blame -s -l HEAD -- '+fn).stdout.split('\n'))}
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            removed+=1
            if not bl[n].lstrip('^').startswith(base[:30]) and l[1:].strip(): bad.append(l)
            n+=1
        elif l.startswith(' '): n+=1
    if bad: print(i,'NOT ORIGINAL',bad)
    if not removed: print(i,'note: no line removed')
    b=sh('. /opt/vp/env.sh; cd %s && go build ./... && go vet ./trie ./models/trie_blake2b/... >/dev/null 2>&1; go build ./...'%P)
    if b.returncode: print(i,'BUILD',b.stderr); return False
    r=sh('cd %s && bash %s/demo.sh'%(P,D))
    if r.returncode==0: print(i,'DEMO PASSES ON PATCHED TREE'); return False
    msg=[x for x in r.stdout.split('\n') if 'Error' in x or 'panic' in x or 'zz_seed' in x or 'FAIL' in x or 'build' in x][:4]
    az=sh('. /opt/vp/env.sh; /verif/setup.sh; VERIF_REPO=%s bash /verif/run.sh %s'%(P,h['property']))
    caught=[x for x in az.stdout.split('\n') if x.startswith('rule')][:2]
    res='%s %s demo ok (%s) check=%d %s'%(i,h['property'],' / '.join(m.strip()[:120] for m in msg),az.returncode,caught)
    if tests:
        t=sh("sed 's#cd /repo#cd %s#; s#/opt/vp/logs#%s/logs#' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/out.json"%(P,SCR,SCR,SCR,SCR))
        out=json.load(open(SCR+'/out.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        stable=base.get('stable') or base.get('tests') or base.get('passed') or base
        got=set(out.get('passed',out.get('pass',[])))
        miss=[x for x in stable if x not in got]
        res+=' TESTS '+('OK' if not miss else 'FAIL %d %s'%(len(miss),miss[:5]))
    print(res,flush=True)
    return True
tests='-n' not in sys.argv
for i in sys.argv[1:]:
    if i!='-n': run(i,tests)
