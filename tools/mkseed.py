#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: builds /verif/seeded/<id>/ from a spec (development aid, not used by checks).

A spec is a python file defining SEEDS = [dict(id, prop, edits=[(file, old, new)], pkg, test, needs, breaks)].
A seed is kept only if it builds, passes the stable tests and its demo fails with it and passes without it.
"""
import json, os, shutil, subprocess, sys
V = '/verif/seeded/'
REPO = os.environ.get('SEED_REPO', '/repo')  # a scratch copy of /repo can be used
ENV = '''. /opt/vp/env.sh 2>/dev/null
'''
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s through an overlay (cwd: the repository).
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off
printf '{"Replace": {"%%s": "%%s"}}' "$R/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
def sh(c, cwd=REPO, t=280):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    except subprocess.TimeoutExpired as e:
        class R: returncode=124; stdout=str(e)
        return R
def missing(stable):
    passed = set()
    for l in sh('go test -vet=off -count=1 -json -tags integration $(go list -e -tags integration ./... | grep -v internal/pg$)').stdout.splitlines():
        if l.startswith('{'):
            e = json.loads(l)
            if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Package'] + '/' + e['Test'])
    return stable - passed
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
        d = V + s['id']
        os.makedirs(d, exist_ok=True)
        assert not sh('git status --porcelain').stdout.strip(), 'repo dirty'
        open(d+'/demo_test.go','w').write(s['test'].lstrip('\n'))
        open(d+'/demo.sh','w').write(DEMO % s); os.chmod(d+'/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d+'/meta.json','w'), indent=1)
        sh('gofmt -w demo_test.go', d)
        ok = True
        r = sh('bash %s/demo.sh' % d)
        if r.returncode != 0: print(s['id'], 'DEMO FAILS ON CLEAN', r.stdout[-1500:]); ok = False
        try:
            for f, a, b in s['edits']:
                t = open(REPO+'/'+f).read()
                assert t.count(a) == 1, (s['id'], f, t.count(a), a)
                open(REPO+'/'+f,'w').write(t.replace(a, b))
            sh('gofmt -w ' + ' '.join(sorted(set(e[0] for e in s['edits']))))
            open(d+'/patch.diff','w').write(sh('git diff').stdout)
            r = sh('go build ./...')
            if r.returncode: print(s['id'], 'NO BUILD', r.stdout[-800:]); ok = False
            if ok:
                r = sh('bash %s/demo.sh' % d)
                if r.returncode == 0: print(s['id'], 'DEMO PASSES WITH PATCH'); ok = False
                m = missing(stable)
                if m: print(s['id'], 'TESTS CATCH', m); ok = False
            if ok:
                ck = subprocess.run(['/verif/check', s['prop'], 'quick', '-repo', REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/verif')
                v = [l for l in ck.stdout.splitlines() if l.startswith('VIOLATION')]
                print(s['id'], 'KEPT', 'CAUGHT' if ck.returncode == 1 and v else 'MISSED rc=%d' % ck.returncode, flush=True)
                if not v: print(ck.stdout[-600:])
        finally:
            sh('git checkout -- .')
        if not ok: shutil.rmtree(d)
main()
