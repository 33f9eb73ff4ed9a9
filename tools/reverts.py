#!/usr/bin/env python3
# Developer tool: undo each fix: commit of /repo alone (scratch clone) and run the property's quick check on it.
import re,subprocess,os,sys,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W='/tmp/w/rev%d'%os.getpid(); J='/tmp/w/rev.json'
L=[re.match(r'fixed: property=(C\d+) (\w+) (.*)',l) for l in open(V+'/KNOWN_FINDINGS.txt')]
out=json.load(open(J)) if os.path.exists(J) else {}
sel=sys.argv[1:]
for m in filter(None,L):
    p,c,t=m.groups()
    k=p+' '+c
    if sel and not any(s in k for s in sel): continue
    if not sel and k in out: continue
    subprocess.run(['rm','-rf',W]); subprocess.run(['git','clone','-q','/repo',W],check=True)
    r=subprocess.run(['git','-C',W,'-c','user.name=x','-c','user.email=x','revert','-n',c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    if r.returncode: out[k]='conflict'
    else:
        r=subprocess.run([sys.executable,V+'/run.py',p],env=dict(os.environ,VERIF_REPO=W),stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        s=r.stdout.decode('utf8','replace')
        out[k]='caught' if r.returncode==1 else 'MISSED' if r.returncode==0 else 'error '+s[-300:]
    print(k,out[k],t[:90],flush=True); json.dump(out,open(J,'w'),indent=1)
subprocess.run(['rm','-rf',W])
