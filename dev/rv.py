#!/usr/bin/env python3
"""rv.py PROPS [COMMIT...]: reverts each fix commit of /repo in a scratch copy and runs the checks"""
import sys,subprocess
P='/tmp/scr/rv'
subprocess.run('rm -rf /tmp/scr/rv; cp -a /repo /tmp/scr/rv; git -C /tmp/scr/rv update-index -q --refresh; mkdir -p /tmp/scr/rvv/evidence; cp /verif/known_findings.txt /tmp/scr/rvv',shell=True,check=True)
log=subprocess.run(['git','-C','/repo','log','--oneline','--no-decorate'],capture_output=True,text=True).stdout.split('\n')
for l in log:
    if ' fix:' not in l: continue
    c=l.split()[0]
    if len(sys.argv)>2 and c not in sys.argv[2:]: continue
    d=subprocess.run(['git','-C','/repo','show',c],capture_output=True).stdout
    a=subprocess.run(['git','-C',P,'apply','-R','--3way','-'],input=d,capture_output=True)
    res='CONFLICT'
    if a.returncode==0:
        r=subprocess.run(['bash','-c','. /opt/vp/env.sh; /tmp/scr/az -repo %s -verif /tmp/scr/rvv -prop %s'%(P,sys.argv[1])],capture_output=True,text=True)
        rules=[]; prop=''
        for x in r.stdout.split('\n'):
            if x.startswith('VIOLATION'): prop=x.split()[1][9:]
            if x.startswith('rule:'): rules.append(prop+':'+x[11:].strip())
        res='%d %s %s'%(r.returncode,sorted(set(rules)),r.stderr[-300:] if r.returncode not in (0,1) else '')
    subprocess.run('git reset -q --hard',shell=True,cwd=P)
    print(l,'=>',res,flush=True)
