#!/usr/bin/env python3
"""run.py filter N SEED OUT.json: picks N of the small edits of /repo that compile and pass the stable tests.
run.py check OUT.json RESULT.log: runs the checks on each until one reports it."""
import sys,os,json,random,subprocess,shutil,tempfile,collections
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.abspath(__file__))
def sh(c,cwd=None,t=900): return subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True,errors='replace',timeout=t)
ENG='C08 C09 C17 C14 C13 C16 C27 C02 C07 C10 C11 C12 C15 C05 C06 C03 C01 C04 C21'.split()
ROOT='C26 C24 C25 C16 C27 C19 C20 C23 C22 C21 C18 C02 C11 C10 C01'.split()
def apply(d,m):
    f=d+'/'+m['file'].removeprefix('/repo/')
    b=open(f,'rb').read(); b=b[:m['start']]+m['text'].encode()+b[m['end']:]
    open(f,'wb').write(b)
base=set()
def ok(m):
    d=tempfile.mkdtemp(prefix='am-')
    try:
        sh(f'cp -a /repo/. {d}'); apply(d,m)
        if sh('. /opt/vp/env.sh; gofmt -w '+m['file'].removeprefix('/repo/')+' && go vet . ./engine',d).returncode: return None
        if not sh('git diff --stat',d).stdout.strip(): return None
        try: r=sh('. /opt/vp/env.sh; go test -vet=off -count=1 -timeout 60s ./...',d,90)
        except subprocess.TimeoutExpired: return None
        if r.returncode: return None
        m['diff']=sh('git diff -U1 | tail -n +5',d).stdout
        return m
    finally: shutil.rmtree(d,ignore_errors=True)
def check(m):
    d=tempfile.mkdtemp(prefix='am-'); vc=os.environ.get('VC','/tmp/vc')
    try:
        sh(f'cp -a /repo/. {d}'); apply(d,m)
        for p in (ENG if '/engine/' in m['file'] else ROOT):
            try: r=sh(f'. /opt/vp/env.sh; GOMEMLIMIT=6GiB timeout 600 {vc} -repo {d} -mode all -property {p}','/verif/checker',700)
            except subprocess.TimeoutExpired: continue
            if r.returncode:
                l=[x for x in r.stdout.splitlines() if ' rule ' in x or 'undecided' in x][:1]
                return m,p,(l or [r.stdout[:200]+r.stderr[:200]])[0]
        return m,None,''
    finally: shutil.rmtree(d,ignore_errors=True)
if sys.argv[1]=='filter':
    n,seed,out=int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
    files=[f for f in sh('ls /repo/*.go /repo/engine/*.go').stdout.split() if not f.endswith('_test.go')]
    ms=[json.loads(l) for l in sh(f'. /opt/vp/env.sh; go build -o /tmp/am/gen {here}/gen.go && /tmp/am/gen '+' '.join(files),'/tmp').stdout.splitlines()]
    random.Random(seed).shuffle(ms); got=[]
    print(len(ms),'edits')
    with ThreadPoolExecutor(int(os.environ.get('JOBS','2'))) as ex:
        for i in range(0,len(ms),20):
            got+=[m for m in ex.map(ok,ms[i:i+20]) if m]
            if len(got)>=n: break
    json.dump(got[:n],open(out,'w')); print(len(got),'of',i+20,'survive')
else:
    ms=json.load(open(sys.argv[2])); log=open(sys.argv[3],'a'); n=collections.Counter()
    with ThreadPoolExecutor(int(os.environ.get('JOBS','5'))) as ex:
        for m,p,l in ex.map(check,ms):
            n[bool(p)]+=1
            log.write((f'caught {p} ' if p else 'MISSED ')+f"{m['file']}:{m['line']} {m['func']} {m['op']} {l[:160]}\n"+('' if p else m['diff']+'\n')); log.flush()
    log.write(f'{dict(n)}\n')
