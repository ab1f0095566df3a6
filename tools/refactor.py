"""rf.py SPEC [CHECKS] : build /tmp/rfrepo from /repo with functions replaced per SPEC; run tests; run checks."""
import ast,sys,subprocess,re,textwrap,os
spec=open(sys.argv[1]).read()
d='/tmp/rfrepo'
subprocess.run('mkdir -p %s && rm -rf %s/* && git -C /repo archive HEAD | tar x -C %s'%(d,d,d),shell=True,check=True)
blocks=re.split(r'^### ',spec,flags=re.M)[1:]
for b in blocks:
    head,code=b.split('\n',1)
    f,q=[x.strip() for x in head.split('::')]
    p=d+'/neocore/'+f; s=open(p).read(); L=s.split('\n')
    if q.startswith('sub '):
        old,new=code.split('\n=>\n'); new=new.rstrip('\n'); old=old.rstrip('\n')
        assert old in s,(f,old); open(p,'w').write(s.replace(old,new,1)); continue
    node=ast.parse(s); 
    for part in q.split('.'):
        node=[n for n in node.body if isinstance(n,(ast.FunctionDef,ast.ClassDef)) and n.name==part][-1]
    a=min([node.lineno]+[x.lineno for x in node.decorator_list])-1
    e=node.end_lineno
    code=textwrap.indent(code.rstrip('\n'),' '*node.col_offset)
    open(p,'w').write('\n'.join(L[:a]+code.split('\n')+L[e:]))
if '--notest' not in sys.argv:
    # tests run against the copy
    r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-x','-p','no:cacheprovider','tests'],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,PYTHONPATH=d,PATH='/opt/venv/bin:'+os.environ['PATH']))
    print(r.stdout[-300:])
cks=[a for a in sys.argv[2:] if a[0]=='C'] or sorted('C'+f[1:3] for f in os.listdir('/verif/vfa/checks') if re.match(r'c\d\d\.py',f))
from concurrent.futures import ThreadPoolExecutor
def go(c):
    r=subprocess.run(['python3','check.py',c,'--repo',d],cwd='/verif',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return c,r.returncode,r.stdout.splitlines()
for c,rc,l in ThreadPoolExecutor(6).map(go,cks):
    if rc:
        print(c,'exit',rc,l[-1] if l else '')
        for x in l[:4]: print('    ',x[:230])
print('done',len(cks))
