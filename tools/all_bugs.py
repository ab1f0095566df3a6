"""all_bugs.py: run the check of every planted bug on a copy of the repository that carries it; prints the misses."""
import os,json,subprocess,sys
from concurrent.futures import ThreadPoolExecutor
S='/verif/seeded'
def go(b):
    d='/tmp/ab.%s'%b
    subprocess.run('rm -rf %s; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/%s/patch.diff'%(d,d,d,d,S,b),shell=True)
    c=json.load(open('%s/%s/meta.json'%(S,b)))['property']
    r=subprocess.run(['python3','check.py',c,'--repo',d],cwd='/verif',capture_output=True,text=True)
    subprocess.run('rm -rf '+d,shell=True)
    return b,c,r.returncode,('VIOLATION property='+c) in r.stdout
n=0
for b,c,rc,v in ThreadPoolExecutor(7).map(go,sorted(os.listdir(S))):
    n+=1
    if rc!=1 or not v: print('MISSED',b,c,rc)
print('bugs',n)
