"""mutate.py OUT COUNT SEED SLOTS [fileRegex]: random mutants of covered lines

Development helper, never run by a check. Needs /tmp/covmap.json: a map of
"file:line" to the checks that execute the line."""
import ast,json,os,random,re,shutil,subprocess,sys,time
from concurrent.futures import ThreadPoolExecutor
import threading,queue
OUT,COUNT,SEED,SLOTS=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4])
FILE=re.compile(sys.argv[5] if len(sys.argv)>5 else '.')
ROOT='/repo/nimble/'
cov=json.load(open('/tmp/covmap.json'))
files=sorted({k.split(':')[0] for k in cov})
CMP={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.In:'not in',ast.NotIn:'in',ast.Is:'is not',ast.IsNot:'is'}
BIN={ast.Add:'-',ast.Sub:'+',ast.Mult:'/',ast.Div:'*',ast.FloorDiv:'*',ast.Mod:'+'}
cands=[]
for rel in files:
    if not FILE.search(rel): continue
    src=open(ROOT+rel).read(); lines=src.split('\n')
    offs=[0]
    for l in lines: offs.append(offs[-1]+len(l.encode())+1)
    b=src.encode()
    tree=ast.parse(src)
    def pos(n): return offs[n.lineno-1]+n.col_offset, offs[n.end_lineno-1]+n.end_col_offset
    skip=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.Raise) or (isinstance(n,(ast.Assign,ast.AugAssign)) and 'msg' in ast.unparse(n.targets[0] if isinstance(n,ast.Assign) else n.target).lower()):
            skip.update(range(n.lineno,n.end_lineno+1))
        if isinstance(n,ast.If) and n.body and all(isinstance(x,ast.Raise) or isinstance(x,ast.Assign) and 'msg' in ast.unparse(x.targets[0]) for x in n.body) : pass
    infunc=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.FunctionDef,)):
            for s in n.body: infunc.update(range(s.lineno,s.end_lineno+1))
    def add(n,op,new,span=None):
        if n.lineno in skip or n.lineno not in infunc: return
        cs=None
        for l in range(n.lineno,n.end_lineno+1):
            cs=cov.get(f'{rel}:{l}')
            if cs: break
        if not cs: return
        a,e=span or pos(n)
        cands.append((rel,n.lineno,op,a,e,new,tuple(cs)))
    for n in ast.walk(tree):
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            l=b[slice(*pos(n.left))].decode(); r=b[slice(*pos(n.comparators[0]))].decode()
            add(n,'cmp',f'{l} {CMP[type(n.ops[0])]} {r}')
        elif isinstance(n,ast.BoolOp):
            w=' or ' if isinstance(n.op,ast.And) else ' and '
            add(n,'bool','('+w.join('('+b[slice(*pos(v))].decode()+')' for v in n.values)+')')
            for i in range(len(n.values)):
                vs=[v for j,v in enumerate(n.values) if j!=i]
                w2=' and ' if isinstance(n.op,ast.And) else ' or '
                add(n,'dropcond','('+w2.join('('+b[slice(*pos(v))].decode()+')' for v in vs)+')')
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            add(n,'not','('+b[slice(*pos(n.operand))].decode()+')')
        elif isinstance(n,ast.BinOp) and type(n.op) in BIN and not isinstance(n.left,ast.Constant):
            l=b[slice(*pos(n.left))].decode(); r=b[slice(*pos(n.right))].decode()
            if "'" in l+r or '"' in l+r: continue
            add(n,'bin',f'{l} {BIN[type(n.op)]} {r}')
        elif isinstance(n,ast.Constant) and type(n.value) is int:
            add(n,'const',str({0:1,1:0}.get(n.value,n.value+1)))
        elif isinstance(n,ast.Constant) and type(n.value) is bool:
            add(n,'const',str(not n.value))
        elif isinstance(n,(ast.Expr,ast.AugAssign)) and not (isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)) and not isinstance(getattr(n,'value',None),(ast.Yield,)):
            add(n,'delete','pass')
        elif isinstance(n,ast.Assign) and isinstance(n.targets[0],(ast.Attribute,ast.Subscript)):
            add(n,'delete','pass')
        elif isinstance(n,(ast.If,ast.IfExp)):
            t=n.test
            add(t,'iftrue','True'); add(t,'iffalse','False')
        elif isinstance(n,(ast.Continue,ast.Break)):
            add(n,'loop','pass')
        elif isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and n.func.attr in('copy','deepcopy') and not n.args and not n.keywords:
            add(n,'nocopy',b[slice(*pos(n.func.value))].decode())
rng=random.Random(SEED)
print(len(cands),'candidates')
if COUNT==0: sys.exit()
# at most one per line
bylines={}
for c in cands: bylines.setdefault(c[:2],[]).append(c)
keys=sorted(bylines); rng.shuffle(keys)
chosen=[rng.choice(bylines[k]) for k in keys[:COUNT]]
q=queue.Queue()
for i,c in enumerate(chosen): q.put((i,c))
lock=threading.Lock()
ORDER=json.load(open('/tmp/mu/times.json'))
def run(slot,check,cases,secs):
    env=dict(os.environ,VERIF_REPO=f'/tmp/mu/s{slot}/repo',VERIF_JOBS='1',VERIF_SEED='1')
    try:
        p=subprocess.run(['bash',f'/tmp/mu/s{slot}/verif/run.sh',check,'quick','--cases',str(cases)],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=secs,start_new_session=True)
    except subprocess.TimeoutExpired: return 'timeout',''
    o=p.stdout.decode('utf8','replace')
    if p.returncode==1: return 'killed',o
    if p.returncode==2 and ('worker(s) died' in o or 'Error' in o): return 'broken',o
    if p.returncode not in (0,2): return 'broken',o
    return 'alive',o
QC=json.load(open('/tmp/mu/cases.json'))
def work(slot):
    d=f'/tmp/mu/s{slot}'
    while True:
        try: i,c=q.get_nowait()
        except queue.Empty: return
        rel,line,op,a,e,new,cs=c
        shutil.copytree('/repo/nimble',d+'/repo/nimble',dirs_exist_ok=True,ignore=shutil.ignore_patterns('__pycache__'))
        p=d+'/repo/nimble/'+rel
        src=open(ROOT+rel,'rb').read()
        mut=src[:a]+new.encode()+src[e:]
        old=src[a:e].decode()
        try: compile(mut,p,'exec')
        except SyntaxError: continue
        open(p,'wb').write(mut)
        cs=[x for x in ORDER if x in cs]
        verdict=None; t=time.time()
        for frac in (0.03,0.35):
            for ck in cs:
                r,o=run(slot,ck,max(20,int(QC[ck]*frac)),400)
                if r!='alive':
                    verdict=(r,ck,frac,o[-300:] if r=='broken' else ''); break
            if verdict: break
        with lock:
            with open(OUT,'a') as f:
                f.write(json.dumps({'i':i,'rel':rel,'line':line,'op':op,'old':old,'new':new,'src':src.decode().split('\n')[line-1],'checks':cs,'verdict':verdict,'t':round(time.time()-t),'a':a,'e':e})+'\n')
for s in range(SLOTS):
    d=f'/tmp/mu/s{s}'
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d+'/repo')
    shutil.copytree('/repo/nimble',d+'/repo/nimble',ignore=shutil.ignore_patterns('__pycache__')); shutil.copy('/repo/pyproject.toml',d+'/repo/'); shutil.copy('/repo/setup.py',d+'/repo/')
    shutil.copytree('/verif',d+'/verif',ignore=shutil.ignore_patterns('.git','evidence','seeded'))
    r=d+'/verif/vlib/runner.py'; t=open(r).read()
    t=t.replace("deadline = start + conf['seconds']","deadline = start + 350"); open(r,'w').write(t)
with ThreadPoolExecutor(SLOTS) as ex: list(ex.map(work,range(SLOTS)))
