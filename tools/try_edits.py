"""try_edits.py FILE [I,J]: apply each edit of FILE (list B of (checks, [(file, old, new)])) to a copy of the repository and run its checks."""
import sys,subprocess,os,shutil,importlib.util
from concurrent.futures import ThreadPoolExecutor
spec=importlib.util.spec_from_file_location('x',sys.argv[1]);m=importlib.util.module_from_spec(spec);spec.loader.exec_module(m)
V=os.environ.get('V','/verif')
def run(i):
    checks,edits=m.B[i]
    d='/tmp/nbr%d'%i
    subprocess.run('rm -rf %s; mkdir -p %s; git -C /repo archive HEAD neocore | tar x -C %s'%(d,d,d),shell=True)
    for f,o,n in edits:
        p=d+'/neocore/'+f; s=open(p).read()
        if s.count(o)<1: return i,'NOT FOUND '+o[:60]
        open(p,'w').write(s.replace(o,n,1))
    out=[]
    for c in checks.split():
        r=subprocess.run(['python3','check.py',c,'--repo',d],cwd=V,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900)
        l=r.stdout.splitlines()
        out.append('%s exit %d %s'%(c,r.returncode,l[0][:150] if r.returncode and l else ''))
    shutil.rmtree(d)
    return i,'\n      '.join(out)
sel=[int(x) for x in sys.argv[2].split(',')] if len(sys.argv)>2 else range(len(m.B))
with ThreadPoolExecutor(7) as ex:
    for i,o in ex.map(run,sel):
        print(('MISS ' if 'exit 1' not in o else 'ok   ')+str(i),o if 'exit 1' not in o else o[:170])
