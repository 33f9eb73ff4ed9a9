"""helper: from fix import *; sub(file, old, new); commit(msg)  -- used to make the fix: commits in /repo"""
import subprocess
R='/repo/'
def sub(F,old,new,n=1):
    s=open(R+F).read()
    assert s.count(old)==n,(s.count(old),old)
    open(R+F,'w').write(s.replace(old,new))
def commit(m):
    subprocess.check_call(['git','-C',R,'commit','-qam','fix: '+m])
    print(subprocess.check_output(['git','-C',R,'log','--oneline','-1'],text=True).strip())
def test():
    import json
    subprocess.check_call(['bash','/opt/vp/build.sh'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    subprocess.check_call(['bash','/opt/vp/test.sh','/tmp/o.json'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    d=json.load(open('/tmp/o.json')); print('tests passed',len(d['passed']),'failed',d['failed'])
