#!/usr/bin/env python3
"""mutrun.py filter PROP N SEED FILE[:FUNC]... : sample small changes, keep
those which pass the tests, in /tmp/mut/PROP.json.
mutrun.py check PROP [extra gosym args]: run the check on every kept change.
"""
import json,os,random,subprocess,sys,time
from concurrent.futures import ThreadPoolExecutor
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
ENV='. /opt/vp/env.sh; export GOFLAGS=-mod=mod; '
def apply(repo,m):
    p=f"{repo}/{m['File']}"
    b=open(p,'rb').read()
    open(p,'wb').write(b[:m['Off']]+m['New'].encode()+b[m['End']:])
def filt(prop,n,seed,specs):
    r=sh(f'cd /repo && /tmp/mutgen '+' '.join(f"'{s}'" for s in specs))
    muts=[json.loads(l) for l in r.stdout.splitlines()]
    random.Random(seed).shuffle(muts)
    K=4
    clones=[f'/tmp/mut/c{i}' for i in range(K)]
    for c in clones:
        if not os.path.isdir(c): sh(f'git clone -q /repo {c}')
        sh(f'cd {c} && git checkout -q -- . && git pull -q')
    kept=[]; stat={'total':len(muts),'tried':0,'build':0,'tests':0}
    def one(i):
        c=clones[i]
        while muts and len(kept)<n:
            m=muts.pop(); stat['tried']+=1
            apply(c,m)
            try:
                r=sh(ENV+f'cd {c} && nice go build ./...')
                if r.returncode: stat['build']+=1; continue
                try: r=sh(ENV+f'cd {c} && nice go test -vet=off -timeout 60s ./... 2>&1 | grep -v "no test files"',timeout=200)
                except subprocess.TimeoutExpired: stat['tests']+=1; continue
                if 'FAIL' in r.stdout: stat['tests']+=1; continue
                kept.append(m)
            finally: sh(f'git -C {c} checkout -- .')
    with ThreadPoolExecutor(K) as ex: list(ex.map(one,range(K)))
    json.dump(kept,open(f'/tmp/mut/{prop}.json','w'),indent=0)
    print(prop,stat,'kept',len(kept),flush=True)
def check(prop,extra):
    c='/tmp/mut/chk'
    if not os.path.isdir(c): sh(f'git clone -q /repo {c}')
    sh(f'cd {c} && git checkout -q -- . && git pull -q')
    for m in json.load(open(f'/tmp/mut/{prop}.json')):
        apply(c,m)
        t=time.time()
        r=sh(f"cd /verif && timeout 900 /tmp/gosym -prop {prop} -repo {c} {extra}")
        sh(f'git -C {c} checkout -- .')
        v='VIOLATION property='+prop in r.stdout
        h=[l for l in r.stdout.splitlines() if l.startswith('harness ')]
        print(prop,'CAUGHT' if v and r.returncode==1 else f'MISSED rc={r.returncode}',f"{time.time()-t:.0f}s {m['File']}:{m['Line']} {m['Func']} {m['Desc']}",'##',(h[0][:110] if h else r.stdout[-200:] if r.returncode not in(0,1) else ''),flush=True)
if sys.argv[1]=='filter': filt(sys.argv[2],int(sys.argv[3]),int(sys.argv[4]),sys.argv[5:])
else:
    for p in sys.argv[2].split(','): check(p,' '.join(sys.argv[3:]))
