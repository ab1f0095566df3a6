"""rfone.py SPEC [CHECKS] [--test] [-i N]: each block applied alone; decorators kept unless the block has its own."""
import ast,sys,subprocess,re,textwrap,os,shutil
from concurrent.futures import ThreadPoolExecutor
spec=open(sys.argv[1]).read()
blocks=re.split(r'^### ',spec,flags=re.M)[1:]
only=None
if '-i' in sys.argv: only=[int(x) for x in sys.argv[sys.argv.index('-i')+1].split(',')]
cks=[a for a in sys.argv[2:] if a[0]=='C'] or sorted('C'+f[1:3] for f in os.listdir('/verif/vfa/checks') if re.match(r'c\d\d\.py',f))
def apply(d,b):
    head,code=b.split('\n',1)
    f,q=[x.strip() for x in head.split('::')]
    p=d+'/neocore/'+f; s=open(p).read(); L=s.split('\n')
    if q.startswith('sub'):
        old,new=code.split('\n=>\n'); new=new.rstrip('\n'); old=old.rstrip('\n')
        assert old in s,(f,old); open(p,'w').write(s.replace(old,new,1)); return
    node=ast.parse(s)
    for part in q.split('.'):
        node=[n for n in node.body if isinstance(n,(ast.FunctionDef,ast.ClassDef)) and n.name==part][-1]
    own=code.lstrip().startswith('@')
    a=min([node.lineno]+([x.lineno for x in node.decorator_list] if own else []))-1
    code=textwrap.indent(textwrap.dedent(code.rstrip('\n')),' '*node.col_offset)
    open(p,'w').write('\n'.join(L[:a]+code.split('\n')+L[node.end_lineno:]))
def go(i):
    d='/tmp/rfone.%d'%i
    subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s'%(d,d),shell=True,check=True)
    out=[]
    try:
        for b in blocks[i].split('\n#### '): apply(d,b)
        if '--test' in sys.argv:
            r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-x','-p','no:cacheprovider','tests'],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,PYTHONPATH=d,PATH='/opt/venv/bin:'+os.environ['PATH']))
            out.append(r.stdout.splitlines()[-1])
        for c in cks:
            r=subprocess.run(['python3','check.py',c,'--repo',d],cwd='/verif',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            if r.returncode: out+=[c+' exit %d'%r.returncode]+['     '+x[:int(os.environ.get('W','250'))] for x in r.stdout.splitlines() if 'KNOWN-F' not in x][:int(os.environ.get('N','4'))]
    except Exception as e: out.append('ERR %r'%e)
    subprocess.run('rm -rf /tmp/rfone.%d'%i,shell=True)
    return out
ids=[i for i in range(len(blocks)) if only is None or i in only]
with ThreadPoolExecutor(8) as ex:
    for i,o in zip(ids,ex.map(go,ids)):
        bad=[x for x in o if ' passed' not in x or 'failed' in x]
        if bad or '-v' in sys.argv: print(i,blocks[i].split('\n')[0]); print('\n'.join(o))
print('done',len(ids))
