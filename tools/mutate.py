"""mutate.py [FILES...] : every single-node mutant of neocore functions; prints mutants no check reports."""
import ast,copy,os,sys,subprocess,json,random,glob
from concurrent.futures import ThreadPoolExecutor
ROOT='/repo/neocore'
cov={}
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    d=json.load(open(f)); 
    for q in d['coverage']['functions_analysed']:
        cov.setdefault(q,[]).append((d.get('wall_seconds',d.get('coverage',{}).get('wall_seconds',1)) if True else 1, d['property']))
CM={ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Is:ast.IsNot,ast.IsNot:ast.Is,ast.In:ast.NotIn,ast.NotIn:ast.In}
BM={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Add,ast.FloorDiv:ast.Div,ast.Div:ast.FloorDiv,ast.Mod:ast.Add,ast.LShift:ast.RShift,ast.RShift:ast.LShift,ast.BitAnd:ast.BitOr,ast.BitOr:ast.BitAnd,ast.BitXor:ast.BitOr,ast.Pow:ast.Mult}
def muts(fn):
    nodes=[n for b in fn.body for n in ast.walk(b)]
    doc=fn.body[0].value if isinstance(fn.body[0],ast.Expr) and isinstance(fn.body[0].value,ast.Constant) else None
    for i,n in enumerate(nodes):
        if n is doc: continue
        if isinstance(n,ast.Compare):
            for j,o in enumerate(n.ops):
                yield i,'cmp',lambda m,j=j,o=o: m.ops.__setitem__(j,CM[type(o)]())
        elif isinstance(n,ast.BoolOp):
            yield i,'bool',lambda m: setattr(m,'op',ast.Or() if isinstance(m.op,ast.And) else ast.And())
            for j in range(len(n.values)):
                yield i,'booldrop%d'%j,('repl',lambda m,j=j: m.values[1-j] if len(m.values)==2 else ast.BoolOp(m.op,m.values[:j]+m.values[j+1:]))
        elif isinstance(n,(ast.BinOp,ast.AugAssign)):
            if type(n.op) in BM and not (isinstance(n,ast.BinOp) and isinstance(n.op,ast.Mod) and isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)): yield i,'bin',lambda m: setattr(m,'op',BM[type(m.op)]())
        elif isinstance(n,ast.Constant):
            v=n.value
            if isinstance(v,bool): yield i,'flip',lambda m: setattr(m,'value',not m.value)
            elif isinstance(v,int):
                yield i,'+1',lambda m: setattr(m,'value',m.value+1)
                yield i,'-1',lambda m: setattr(m,'value',m.value-1)
            elif isinstance(v,(str,bytes)) and v: yield i,'lit',lambda m: setattr(m,'value',m.value[:-1])
        elif isinstance(n,ast.UnaryOp):
            yield i,'unary',('repl',lambda m: m.operand)
        elif isinstance(n,ast.Return) and n.value is not None and not (isinstance(n.value,ast.Constant) and n.value.value is None):
            yield i,'retnone',lambda m: setattr(m,'value',ast.Constant(None))
        elif isinstance(n,ast.Call):
            if len(n.args)>=2: yield i,'swap',lambda m: m.args.__setitem__(slice(0,2),m.args[1::-1])
            if n.args: yield i,'call->arg',('repl',lambda m: m.args[0])
            if n.keywords:
                for j in range(len(n.keywords)): yield i,'dropkw%d'%j,lambda m,j=j: m.keywords.pop(j)
        elif isinstance(n,ast.Slice):
            if n.lower is not None: yield i,'slo',lambda m: setattr(m,'lower',None)
            if n.upper is not None: yield i,'sup',lambda m: setattr(m,'upper',None)
        elif isinstance(n,ast.Name) and isinstance(n.ctx,ast.Load):
            pass
        if isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign,ast.Raise,ast.Break,ast.Continue,ast.Assert,ast.If)) and n is not (fn.body[0] if doc is not None else None):
            yield i,'del',('repl',lambda m: ast.Pass())
        if isinstance(n,ast.If): yield i,'iftrue',lambda m: setattr(m,'test',ast.Constant(True))
def build(path):
    src=open(path).read(); tree=ast.parse(src); L=src.split('\n')
    mod='neocore'+path[len(ROOT):-3].replace('/','.')
    out=[]
    def rec(node,pre):
        for c in getattr(node,'body',[]):
            if isinstance(c,ast.ClassDef): rec(c,pre+[c.name])
            elif isinstance(c,ast.FunctionDef):
                for i,k,f in muts(c):
                    m=copy.deepcopy(c)
                    nodes=[n for b in m.body for n in ast.walk(b)]
                    if isinstance(f,tuple):
                        old=nodes[i]; new=f[1](old)
                        class R(ast.NodeTransformer):
                            def visit(self,x):
                                if x is old: return new
                                return self.generic_visit(x)
                        m=R().visit(m)
                    else: f(nodes[i])
                    m=ast.fix_missing_locations(m); 
                    try: txt=ast.unparse(m)
                    except Exception: continue
                    if txt==ast.unparse(c): continue
                    ln=getattr(nodes[i],'lineno',c.lineno)
                    a=min([c.lineno]+[d.lineno for d in c.decorator_list])-1
                    ind=' '*c.col_offset
                    out.append((mod+':'+'.'.join(pre+[c.name]),k,ln,L[:a]+[ind+x for x in txt.split('\n')]+L[c.end_lineno:],txt,ast.unparse(c)))
    rec(tree,[])
    return out
def diff(a,b):
    import difflib
    return [x for x in difflib.unified_diff(b.split('\n'),a.split('\n'),lineterm='',n=0) if x[:1] in '+-' and x[:3] not in ('+++','---')]
def go(args):
    n,(path,(q,k,ln,lines,txt,orig))=args
    d='/tmp/mt.%d'%n
    subprocess.run('mkdir -p %s && cp -r /repo/neocore %s/'%(d,d),shell=True,check=True)
    rel=path[len('/repo/'):]
    open(d+'/'+rel,'w').write('\n'.join(lines))
    caught=None; odd=[]
    for w,c in sorted(cov.get(q,[])):
        try: r=subprocess.run(['python3','check.py',c,'--repo',d],cwd='/tmp/vcopy',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=200)
        except subprocess.TimeoutExpired: odd.append(c+' timeout'); continue
        if r.returncode==1: caught=c; break
        if r.returncode!=0: odd.append(c+' exit %d'%r.returncode)
    tests=None
    if caught is None:
        r=subprocess.run(['timeout','120','/opt/venv/bin/python','-m','pytest','-q','-x','-p','no:cacheprovider','/repo/tests'],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,PYTHONPATH=d,PATH='/opt/venv/bin:'+os.environ['PATH']))
        tests=r.stdout.splitlines()[-1] if r.stdout else '?'
        if 'failed' in tests or 'error' in tests: tests='TESTS FAIL'
    subprocess.run('rm -rf %s'%d,shell=True)
    return n,path,q,k,ln,caught,odd,tests,diff(txt,orig),[c for w,c in cov.get(q,[])]
files=sys.argv[1:] or sorted(p for p in glob.glob(ROOT+'/**/*.py',recursive=True))
work=[(p,m) for p in files for m in build(p)]
print(len(work),'mutants',flush=True)
if '-n' in os.environ.get('MT',''): sys.exit()
cnt=0
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(go,enumerate(work)):
        n,path,q,k,ln,caught,odd,tests,df,cs=r
        if caught: cnt+=1
        if (caught is None and tests!='TESTS FAIL') or odd: print('%s %s line %d: caught=%s %s tests=%s checks=%d\n    %s'%(q,k,ln,caught,odd,tests,len(cs),'\n    '.join(df[:6])),flush=True)
print('caught',cnt,'of',len(work))
