#!/usr/bin/env python3
"""mkseed.py SPEC.py [names]: builds and confirms the planted bugs of a spec.
A spec lists S = [dict(id, prop, needs, breaks, edits=[(file, old, new)], pkg='engine'|'.', race=bool, demo='go test code')].
Every seed is confirmed in scratch copies: demo passes on HEAD, fails with the patch; stable tests pass; only original lines change."""
import sys,os,subprocess,shutil,runpy,json,re,tempfile
here=os.path.dirname(os.path.abspath(__file__)); verif="/verif"; OUT=os.environ.get("OUT","/verif/seeded")
BASE='454608d'
def sh(c,cwd=None,timeout=600):
    return subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True,errors='replace',timeout=timeout)
DEMO='''#!/bin/bash
# Runs the demonstration in demo_test.go against the repository in the working directory.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/%szz_seed_test.go":"%s/demo_test.go"%s}}' "$PWD" "PKGDIR" "$d" "HELP" > "$t/o.json"
go test -vet=off RACE-count=1 -timeout 120s -overlay "$t/o.json" -run '^TestSeed$' ./PKG
'''
def one(s):
    work=tempfile.mkdtemp(prefix='seed-')
    d=f'{work}/repo'
    sh(f'cp -a /repo {d}')
    try:
        for f,o,n in s['edits']:
            t=open(f'{d}/{f}').read()
            if t.count(o)!=1: return f"{s['id']}: pattern occurs {t.count(o)} times in {f}: {o[:50]!r}"
            open(f'{d}/{f}','w').write(t.replace(o,n,1))
        sh('. /opt/vp/env.sh; gofmt -w '+' '.join({f for f,_,_ in s['edits']}),d)
        diff=sh('git diff',d).stdout
        # original lines?
        orig=True; changed=0
        for f in {f for f,_,_ in s['edits']}:
            bl=sh(f'git blame -s {f} HEAD -- | cut -c1-9',d).stdout
            ours=set()
            for i,l in enumerate(sh(f'git blame -s HEAD -- {f}',d).stdout.splitlines(),1):
                if not re.match(r'\^?454608d',l): ours.add(i)
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+',sh(f'git diff -U0 -- {f}',d).stdout,re.M):
                a=int(h[1]); n=int(h[2] or 1)
                for i in range(a,a+n):
                    changed+=1
                    if i in ours: orig=False
        if changed==0: orig=None
        b=sh('. /opt/vp/env.sh; go vet . ./engine && go build ./...',d)
        if b.returncode: return f"{s['id']}: build: {b.stdout}{b.stderr}"
        out=f"{OUT}/{s['id']}"
        shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        open(f'{out}/patch.diff','w').write(diff)
        pkg=s.get('pkg','engine'); pd='engine/' if pkg=='engine' else ''
        hp=''
        if s.get('help',True):
            hf='eng_help.go' if pkg=='engine' else 'sio_help.go'
            shutil.copy(f'{here}/{hf}',f'{out}/help_test.go')
            hp=',\\"%s/%szz_help_test.go\\":\\"%s/help_test.go\\"'
        demo=DEMO.replace('PKGDIR',pd).replace('./PKG','./'+('engine' if pkg=='engine' else '')).replace('RACE','-race ' if s.get('race') else '')
        if hp: demo=demo.replace('"$d" "HELP"','"$d" ",\\"$PWD/'+pd+'zz_help_test.go\\":\\"$d/help_test.go\\""')
        else: demo=demo.replace('"HELP"','""')
        open(f'{out}/demo.sh','w').write(demo); os.chmod(f'{out}/demo.sh',0o755)
        open(f'{out}/demo_test.go','w').write(s['demo'])
        sh(f'. /opt/vp/env.sh; gofmt -w {out}/*.go')
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(f'{out}/meta.json','w'),indent=1)
        res=[]
        base=f'{work}/base'; sh(f'cp -a /repo {base}')
        ok=[sh(f'bash {out}/demo.sh',base) for _ in range(s.get('reps',2))]
        bad=[sh(f'bash {out}/demo.sh',d) for _ in range(2)]
        cl='clean:'+','.join(str(r.returncode) for r in ok); pt='patched:'+','.join(str(r.returncode) for r in bad)
        flag=''
        if any(r.returncode for r in ok): flag+=' DEMO-FAILS-CLEAN '+ok[0].stdout[-600:]+ok[0].stderr[-300:]
        if not all(r.returncode for r in bad): flag+=' DEMO-PASSES-PATCHED'
        if any('build failed' in r.stdout for r in bad): flag+=' DEMO-BUILD '+bad[0].stdout[-500:]
        t=sh('. /opt/vp/env.sh; go test -json -vet=off -count=1 ./... | python3 -c "'
             "import sys,json;print(*[json.loads(l).get('Test') for l in sys.stdin if '\\\"Action\\\":\\\"fail\\\"' in l])"+'"',d)
        if t.stdout.strip(): flag+=' TESTS-FAIL '+t.stdout.strip()[:200]
        vc=os.environ.get('VC','/tmp/vc')
        v=sh(f". /opt/vp/env.sh; cd {verif}/checker; {vc} -repo {d} -mode all -property {s['prop']} > {work}/log 2>&1; echo $?; grep -aE ' rule |undecided' {work}/log | head -2 | cut -c1-170").stdout.split('\n',1)
        r=v[0] if s['prop'] in CLAIMED else 'unclaimed'
        return f"{'ok  ' if not flag and orig else 'BAD '} {s['id']} [{s['prop']}] {cl} {pt} original={orig} caught={r}{flag}\n      {v[1].strip()}"
    finally:
        shutil.rmtree(work,ignore_errors=True)
CLAIMED=set(re.findall(r'^ "(C\d\d)": P\(',open(f'{verif}/tools/levels.py').read(),re.M))
g=runpy.run_path(sys.argv[1]); sel=sys.argv[2:]
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get('JOBS','4'))) as ex:
    for r in ex.map(one,[s for s in g['S'] if not sel or s['id'] in sel]): print(r,flush=True)
