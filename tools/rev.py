import json,subprocess,os,sys,shutil
from concurrent.futures import ThreadPoolExecutor
kf=json.load(open('/verif/known_findings.json'))
def one(a):
    i,(h,c)=a
    d='/tmp/w/rv%s'%h
    shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',d])
    r=subprocess.run(['git','-C',d,'revert','-n',h],capture_output=True,text=True)
    if r.returncode: res='CONFLICT'
    else:
        r=subprocess.run(['./run.sh',c,'quick'],cwd='/tmp/w/vr',env=dict(os.environ,VERIF_REPO=d,VERIF_SEED='1'),capture_output=True,text=True)
        res='caught' if r.returncode==1 and 'VIOLATION property=%s'%c in r.stdout else 'MISSED rc%d'%r.returncode
    shutil.rmtree(d)
    print(h,c,res,flush=True)
L=[]
import re
for m in re.finditer(r'^([0-9a-f]{7}) (C\d\d)',open('/verif/tools/kf.py').read(),re.M): L.append(m.groups())
m=re.search(r'"""([0-9a-f]{7}) (C\d\d)',open('/verif/tools/kf.py').read()); L.insert(0,m.groups())
L=L[:len(L)]
with ThreadPoolExecutor(4) as e: list(e.map(one,enumerate(dict.fromkeys(L))))
