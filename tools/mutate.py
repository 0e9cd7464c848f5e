#!/usr/bin/env python3
"""mutate.py [-n N] [-seed S] [-j J] FILE...: systematic small changes to /repo's sources, to find what no check sees.
Each mutant is made in a scratch copy; those that build and pass the stable tests are given to the checks of the
properties the file matters to until one reports a violation. Survivors are printed for inspection (many are equivalent)."""
import sys,re,random,subprocess,os,shutil,tempfile,json,argparse
from concurrent.futures import ThreadPoolExecutor
ap=argparse.ArgumentParser(); ap.add_argument('-n',type=int,default=20); ap.add_argument('-seed',type=int,default=1)
ap.add_argument('-j',type=int,default=2); ap.add_argument('-vx',default='/verif/bin/vx'); ap.add_argument('-all',action='store_true'); ap.add_argument('-asm',action='store_true',help='run only the probes whose emitted code differs'); ap.add_argument('-lines',default=''); ap.add_argument('files',nargs='+')
a=ap.parse_args()
FRONT=['C10','C09','C11','C28','C16','C13','C15','C17','C14','C12','C08']
BACK=['C03','C01','C02','C20','C12','C13','C14','C17','C18','C15','C31','C19','C21','C06','C04','C16']
SETS={'lex':['C07','C06','C04','C08'],'parse.go':['C08','C05','C12','C10','C13','C28','C11','C15','C17'],'typecheck.go':FRONT,'symtab.go':FRONT+['C20','C21'],'semantic.go':FRONT+['C20'],'ast.go':FRONT,
 'codegen.go':BACK,'gc.go':BACK,'asm.go':BACK,'peep.go':BACK,'closures.go':['C15','C20','C14','C16','C13'],'walk.go':['C15','C20','C12','C10'],'main.go':['C10','C08','C14'],
 'arrays.clara':['C18','C20'],'bytes.clara':['C19','C20'],'core.clara':['C23','C01','C19'],'enums.clara':['C26','C20'],'err.clara':['C30'],'fs.clara':['C30'],
 'functional.clara':['C26'],'gc.clara':['C20','C21'],'mem.clara':['C20','C21','C18'],'hash.clara':['C27'],'io.clara':['C30','C23'],'list.clara':['C25','C24'],'map.clara':['C24'],
 'runtime.clara':['C29','C18','C20','C30','C31'],'strings.clara':['C22','C32','C23'],'time.clara':['C33'],'runtime.c':['C20','C21','C30'],'bootstrap.c':['C29','C20']}
def sets(f):
    if f.startswith('lex/'): return SETS['lex']
    return SETS[os.path.basename(f)]
OPS=[(r'==','!='),(r'!=','=='),(r'<=','<'),(r'>=','>'),(r'(?<![<=>!:-])<(?![<=-])','<='),(r'(?<![<=>!:-])>(?![>=])','>='),(r'&&','||'),(r'\|\|','&&'),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r' \+ ',' - '),(r' - ',' + '),(r' \+ 1\b',''),(r' - 1\b',''),(r'\band\b','or'),(r'\bor\b','and'),(r'!(?=[a-zA-Z(])',''),(r'\bcontinue\b','break'),
 (r'(?<![\w.])(\d+)(?![\w.])',lambda m:str(int(m.group(1))+1)),(r'(?<![\w.])([1-9]\d*)(?![\w.])',lambda m:str(int(m.group(1))-1)),(r'\bnil\b','XX')]
OPS=OPS[:-1]
def mutants(f):
    L=open('/repo/'+f).read().split('\n'); out=[]
    for i,l in enumerate(L):
        c=l.split('//')[0]
        if not c.strip() or 'import' in c or 'panic(' in c or 'Errorf' in c or 'errs' in c and 'append' in c and False: continue
        for pat,rep in OPS:
            for m in re.finditer(pat,c):
                if c[:m.start()].count('"')%2: continue
                r=rep(m) if callable(rep) else rep
                out.append((f,i,l,l[:m.start()]+r+l[m.end():]))
        t=c.strip()
        if re.match(r'^[\w.\[\]]+(\(.*\)|\s*=\s.*[^{(,])$',t) and not t.startswith('return'):
            out.append((f,i,l,re.match(r'\s*',l).group(0)))
        if re.match(r'^\s*(asm\.|errs = append)',l): pass
        m=re.match(r'^(\s*)(if|} else if|elseif) (.*) \{$',c)
        if m and ':=' not in c and f.endswith('.go'):
            out.append((f,i,l,m.group(1)+m.group(2)+' false && ('+m.group(3)+') {'))
            out.append((f,i,l,m.group(1)+m.group(2)+' true || ('+m.group(3)+') {'))
    return out
STABLE=None
def emit(cc,inst,out):
    """emitted code of every dumped probe program, as digests (gcc is replaced by true)"""
    import hashlib
    os.makedirs(out+'/bin',exist_ok=True)
    if not os.path.exists(out+'/bin/gcc'): os.symlink('/bin/true',out+'/bin/gcc')
    e=dict(os.environ,PATH=out+'/bin:'+os.environ['PATH'])
    def one(n):
        d=out+'/'+n; os.makedirs(d,exist_ok=True)
        try: p=subprocess.run([cc,'-install',inst,'-prog','/tmp/dump/'+n,'-out',d],env=dict(e,TMPDIR=d),capture_output=True,text=True,timeout=60)
        except subprocess.TimeoutExpired: return n,'hang'
        h='rejected'
        s=[x for x in os.listdir(d) if x.endswith('.S')]
        if p.returncode==0 and s:
            # maps are written in any order, functions without a name are called by an address
            t=open(d+'/'+s[0],encoding='latin-1').read()
            h=re.sub(r'clara_[0-9A-F]+',lambda m:m.group(0) if STABLE is None or m.group(0) in STABLE else 'clara_H',re.sub(r'\.SM\d+','.SM',t))
            if STABLE is None: h=set(re.findall(r'clara_[0-9A-F]+',h))
            else: h=hashlib.md5('\n'.join(sorted(h.split('\n'))).encode()).hexdigest()
        shutil.rmtree(d,ignore_errors=True); return n,h
    with ThreadPoolExecutor(4) as ex: return dict(ex.map(one,sorted(os.listdir('/tmp/dump'))))
def fixed(r):
    """captured variables in a fixed order, so that emitted code can be compared (only in the copy that is compared)"""
    f=r+'/closures.go'; t=open(f).read()
    t=t.replace("\treturn vars\n}",'\tsort.Slice(vars, func(i, j int) bool { return vars[i].Name < vars[j].Name })\n\treturn vars\n}',1).replace('import (','import (\n\t"sort"',1)
    open(f,'w').write(t)
if a.asm:
    shutil.rmtree('/tmp/dump',ignore_errors=True); os.makedirs('/tmp/dump'); subprocess.run([a.vx,'-dump','/tmp/dump'],check=True)
    b=tempfile.mkdtemp(prefix='mutb.',dir='/tmp'); shutil.copytree('/repo',b+'/r',symlinks=True); fixed(b+'/r'); subprocess.run(['go','build','-o',b+'/c','.'],cwd=b+'/r',check=True)
    x,y=[emit(b+'/c','/repo/install',b+'/o') for _ in 'xy']
    st=set()
    for n in x: st|=x[n]&y[n]
    STABLE=st
    BASE=emit(b+'/c','/repo/install',b+'/o'); o=emit(b+'/c','/repo/install',b+'/o'); BASE={n:h for n,h in BASE.items() if o[n]==h}
    print('programs compared',len(BASE),flush=True); shutil.rmtree(b)
def bydiff(w,r,e,f):
    shutil.copytree(r,w+'/r2',symlinks=True); fixed(w+'/r2'); subprocess.run(['go','build','-o',w+'/c','.'],cwd=w+'/r2',env=e,check=True); shutil.rmtree(w+'/r2')
    now=emit(w+'/c',r+'/install',w+'/o'); by={}
    for n in BASE:
        if now[n]!=BASE[n]:
            i,p=n[:-6].split('__',1); by.setdefault(i,[]).append(p)
    if not by: return 'SAME'
    for i in sorted(by,key=lambda i:len(by[i])):
        ps=by[i]; random.Random(1).shuffle(ps)
        for k in range(0,min(len(ps),60),20):
            try: q=subprocess.run([a.vx,'-root',w+'/v','-repo',r,'-only',','.join('='+p for p in ps[k:k+20]),i],env=e,capture_output=True,text=True,timeout=600)
            except subprocess.TimeoutExpired: continue
            if q.returncode==1: return 'caught '+i
    return 'SURVIVED differing='+str({i:len(x) for i,x in by.items()})
ms=[]
rnd=random.Random(a.seed)
for f in a.files:
    x=mutants(f)
    if a.lines: lo,hi=map(int,a.lines.split('-')); x=[m for m in x if lo<=m[1]+1<=hi]
    rnd.shuffle(x); ms+=x if a.all else x[:a.n]
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOSUMDB='off',VX_FAST='1',GOWORK='off')
def one(m):
    f,i,old,new=m
    w=tempfile.mkdtemp(prefix='mut.',dir='/tmp')
    try:
        r=w+'/repo'; shutil.copytree('/repo',r,symlinks=True)
        L=open(f'{r}/{f}').read().split('\n'); assert L[i]==old; L[i]=new; open(f'{r}/{f}','w').write('\n'.join(L))
        e=dict(env,TMPDIR=w)
        if subprocess.run(['go','vet','-vettool=/bin/true','.'],cwd=r,env=e,capture_output=True).returncode and subprocess.run(['go','build','-o',w+'/c','.'],cwd=r,env=e,capture_output=True).returncode: return 'nobuild'
        try: p=subprocess.run(['timeout','60','go','test','-json','-vet=off','-count=1','-parallel','1','./...'],cwd=r,env=e,capture_output=True,text=True,timeout=90)
        except subprocess.TimeoutExpired: return 'tests'
        ok=set()
        for l in p.stdout.split('\n'):
            try: d=json.loads(l)
            except: continue
            if d.get('Action')=='pass' and 'Test' in d: ok.add(d['Package']+'/'+d['Test'])
        if stable-ok: return 'tests'
        os.makedirs(w+'/v'); shutil.copy('/verif/known-findings.txt',w+'/v/')
        if a.asm: return bydiff(w,r,e,f)
        for c in sets(f):
            try: q=subprocess.run([a.vx,'-root',w+'/v','-repo',r,c],env=e,capture_output=True,text=True,timeout=800)
            except subprocess.TimeoutExpired: print('   timeout',c,f,i+1,new.strip(),flush=True); continue
            if q.returncode==1: return 'caught '+c
            if q.returncode not in(0,): print('   rc',q.returncode,c,q.stdout[-200:],flush=True)
        return 'SURVIVED'
    finally:
        subprocess.run(['pkill','-KILL','-f','^'+w]); shutil.rmtree(w,ignore_errors=True)
def run(m):
    s=one(m)
    if s!='nobuild' and s!='tests': print(f'{s}  {m[0]}:{m[1]+1}\n   - {m[2].strip()}\n   + {m[3].strip()}',flush=True)
    return s.split()[0]
from collections import Counter
with ThreadPoolExecutor(a.j) as ex: print(Counter(ex.map(run,ms)))
