#!/usr/bin/env python3
"""seed.py FILE: make and validate planted bugs described in FILE.

FILE defines SEEDS, a list of dicts with keys id, prop, pkg, edits [(file, old,
new)], test (Go test source with TestZZDemo), needs, breaks.
"""
import json,os,subprocess,sys,tempfile,time,importlib.util
REPO=os.environ.get('REPO','/repo')  # or a clone of it
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > $T/o.json
go test %(race)s -count=1 -timeout 120s -overlay $T/o.json -run TestZZDemo ./%(pkg)s
rc=$?
rm -rf "$T"
exit $rc
'''
def clean():
    sh(f'git -C {REPO} checkout -- .')
def main():
    spec=importlib.util.spec_from_file_location('s',sys.argv[1]); s=importlib.util.module_from_spec(spec); spec.loader.exec_module(s)
    only=sys.argv[2:] 
    assert sh(f'git -C {REPO} status --short').stdout.strip()=='' , 'repo not clean'
    for b in s.SEEDS:
        if only and b['id'] not in only: continue
        d='/verif/seeded/'+b['id']
        os.makedirs(d,exist_ok=True)
        open(d+'/demo_test.go','w').write(b['test'].lstrip())
        open(d+'/demo.sh','w').write(DEMO%dict(pkg=b['pkg'],race=b.get('flags','')))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        bad=None
        r=sh(f'cd {REPO} && timeout 280 bash {d}/demo.sh')
        if r.returncode!=0: bad='demo fails on the unchanged tree\n'+r.stdout[-1500:]
        if not bad:
            for f,old,new in b['edits']:
                t=open(f'{REPO}/{f}').read()
                if t.count(old)!=1: bad=f'{f}: pattern found {t.count(old)} times: {old!r}'; break
                open(f'{REPO}/{f}','w').write(t.replace(old,new))
        if not bad:
            # a planted bug must change lines of the original repository
            base={}
            cur=None; orig=0; added=[]
            for l in sh(f'git -C {REPO} diff -U0').stdout.splitlines():
                if l.startswith('--- a/'): cur=l[6:]; base[cur]=set(sh(f'git -C {REPO} show c4d1b12:{cur}').stdout.splitlines())
                elif l.startswith('-') and not l.startswith('---'):
                    if l[1:] in base[cur] and l[1:].strip() not in ('','}','{'): orig+=1
                    else: added.append(l)
            if orig==0: bad='no original line changed'
            elif added: print(b['id'],'note: changes own lines',added[:3])
        if not bad:
            open(d+'/patch.diff','w').write(sh(f'git -C {REPO} diff').stdout)
            r=sh(f'. /opt/vp/env.sh; cd {REPO} && go build ./...')
            if r.returncode!=0: bad='build fails '+r.stdout[-500:]
        if not bad:
            sh(f'. /opt/vp/env.sh; cd {REPO} && go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seedgo.json; python3 /opt/vp/results.py /tmp/seedtest.json gojson:/tmp/seedgo.json')
            t=json.load(open('/tmp/seedtest.json'))
            base=json.load(open('/opt/vp/BASELINE.json'))
            n=len(t['failed'])
            if n or len(t['passed'])<690: bad=f"tests fail: {list(t['failed'])[:5]} passed {len(t['passed'])}"
        if not bad:
            r=sh(f'cd {REPO} && timeout 280 bash {d}/demo.sh')
            if r.returncode==0: bad='demo passes with the patch'
            elif 'FAIL' not in r.stdout: bad='demo breaks: '+r.stdout[-500:]
            elif '[build failed]' in r.stdout or 'setup failed' in r.stdout: bad='demo build: '+r.stdout[-500:]
        caught='-'
        if not bad and os.environ.get('NOCHECK')!='1':
            t0=time.time()
            r=sh(f"cd /verif && timeout 900 bash check.sh {b['prop']} quick -repo {REPO}")
            caught='CAUGHT' if r.returncode==1 and 'VIOLATION property='+b['prop'] in r.stdout else f'MISSED rc={r.returncode}'
            caught+=f' {time.time()-t0:.0f}s '
            h=[l for l in r.stdout.splitlines() if l.startswith('harness ')]
            caught+=(h[0][:150] if h else '')
        clean()
        print(b['id'],'BAD '+bad if bad else 'ok '+caught,flush=True)
        if bad: sh(f'rm -rf {d}')
    clean()
main()
