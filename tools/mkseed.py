#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/seeds.py and confirms each: applies, builds, tests pass, demo fails only with the change.
usage: mkseed.py [id ...]"""
import json, os, subprocess, sys, shutil, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
DEMO = r'''#!/bin/bash
# runs demo_test.go inside the package through an overlay; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOTOOLCHAIN=local GOPROXY=off GOWORK=off
t=$(mktemp -d) || exit 2
trap '[ -n "$t" ] && rm -rf "$t"' EXIT
cp "$r/v2/go.mod" "$t/v2.mod" && cp "$r/v2/go.sum" "$t/v2.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$t/v2.mod"
printf '{"Replace": {"%s": "%s"}}' "$r/v2/zz_demo_test.go" "$d/demo_test.go" > "$t/o.json"
cd "$r/v2" && go test @RACE@-overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ids = sys.argv[1:] or list(SEEDS)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bad = 0
assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
for i in ids:
    s = SEEDS[i]
    d = R + '/seeded/' + i
    w = tempfile.mkdtemp(prefix='seed')
    sh(f'git -C /repo worktree prune; cp -a /repo {w}/repo')
    for f, old, new in s['edits']:
        p = f'{w}/repo/{f}'
        t = open(p).read()
        if t.count(old) != 1:
            print(i, 'EDIT MATCHES', t.count(old), f); bad += 1; break
        open(p, 'w').write(t.replace(old, new))
    else:
        sh(f'gofmt -w {w}/repo/' + f' {w}/repo/'.join(sorted({e[0] for e in s["edits"]})))
        os.makedirs(d, exist_ok=True)
        diff = sh(f'git -C {w}/repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO.replace('@RACE@', '-race ' if s.get('race') else ''))
        open(d + '/demo_test.go', 'w').write('package xcore_test\n\n' + s['demo'].strip() + '\n')
        sh(f'gofmt -w {d}/demo_test.go')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
        if r0.returncode: print(i, 'DEMO FAILS ON UNCHANGED TREE', (r0.stdout + r0.stderr)[-1500:]); bad += 1
        ap = sh(f'git -C /repo apply {d}/patch.diff')
        if ap.returncode: print(i, 'DOES NOT APPLY', ap.stderr); bad += 1
        try:
            b = sh('bash /opt/vp/build.sh', cwd='/repo')
            if b.returncode: print(i, 'BUILD', b.stdout + b.stderr); bad += 1
            sh(f'bash /opt/vp/test.sh {w}/out.json', cwd='/repo')
            o = json.load(open(f'{w}/out.json'))
            passed = set(o.get('passed', []))
            miss = stable - passed
            if miss: print(i, 'TESTS FAIL', sorted(miss)[:5]); bad += 1
            r1 = sh(f'bash {d}/demo.sh', cwd='/repo')
            if r1.returncode == 0: print(i, 'DEMO PASSES WITH THE CHANGE'); bad += 1
            print(i, 'ok' if r0.returncode == 0 and r1.returncode and not miss else 'BAD')
        finally:
            sh('git -C /repo checkout -- .')
    shutil.rmtree(w)
sys.exit(1 if bad else 0)
