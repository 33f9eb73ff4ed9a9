#!/usr/bin/env python3
# Developer tool: line coverage of /repo/src under the workloads -> /tmp/w/cov/uncovered.txt and covered.json
import os,sys,glob,subprocess,json
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('VERIF_REPO','/repo')
import run as R, checks
from concurrent.futures import ThreadPoolExecutor
W='/tmp/w/cov'; os.makedirs(W,exist_ok=True)
pf=['-fprofile-instr-generate','-fcoverage-mapping']
R.VARIANTS['cov']=(['-O1','-DVH_FAST']+pf,['-O2'],pf)
cfg=checks.CHECKS; files=sorted(set(f for c in cfg.values() for f in c['files']))
exe=R.build('cov',files,W)
def go(w):
    n=cfg[w]['quick'][0][1]
    subprocess.run([exe,w,'1','0',str(n),'41',W+'/pf'+w,W+'/sf'+w,'0',sys.argv[1] if len(sys.argv)>1 else '10','noleak','20'],env=dict(R.ENV,LLVM_PROFILE_FILE=W+'/%s.profraw'%w),stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
with ThreadPoolExecutor(4) as ex: list(ex.map(go,cfg))
subprocess.check_call(['llvm-profdata-18' if os.path.exists('/usr/bin/llvm-profdata-18') else 'llvm-profdata','merge','-o',W+'/all.prof']+glob.glob(W+'/*.profraw'))
cv='llvm-cov-18' if os.path.exists('/usr/bin/llvm-cov-18') else 'llvm-cov'
t=subprocess.run([cv,'export','-instr-profile='+W+'/all.prof',exe,'-format=lcov'],stdout=subprocess.PIPE).stdout.decode()
cov={};f=None
for l in t.splitlines():
    if l.startswith('SF:'): f=l[3:]; cov[f]={}
    elif l.startswith('DA:'): a,b=l[3:].split(',')[:2]; cov[f][int(a)]=int(b)
cov={k:v for k,v in cov.items() if '/repo/src' in k}
json.dump(cov,open(W+'/covered.json','w'))
with open(W+'/uncovered.txt','w') as o:
    for k in sorted(cov):
        L=open(k).read().split('\n'); u=[i for i,c in sorted(cov[k].items()) if c==0]
        o.write('=== %s: %d of %d lines not executed\n'%(k,len(u),len(cov[k])))
        for i in u: o.write('%d: %s\n'%(i,L[i-1]))
