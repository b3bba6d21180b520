#!/usr/bin/env python3
"""mkseed.py [ID...]: write /verif/seeded/<ID>/ from tools/seeds/*.py and validate each in a scratch copy.

Each entry: id, property, needs, what, edits=[(file, old, new)], demo (Go test source with TestDemo), pkg ('.' or 'fees')."""
import sys, os, json, glob, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, nonzero otherwise; run with the repository as working directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
cp go.mod go.sum "$T/" || exit 3
printf '{"Replace":{"%%s":"%%s"}}' "$R/%(dir)szz_demo_test.go" "$D/demo_test.go.txt" > "$T/ov.json"
GOFLAGS="-mod=mod -modfile=$T/go.mod" go test -overlay "$T/ov.json" -vet=off -count=1 -timeout=120s -run '^TestDemo$' %(pkg)s
'''
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=isinstance(c, str), capture_output=True, text=True, **k)
seeds = []
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    ns = {}; exec(open(f).read(), ns); seeds += ns['SEEDS']
want = set(sys.argv[1:])
for s in seeds:
    if want and s['id'] not in want: continue
    d = V + '/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp'); r = tmp + '/repo'
    shutil.copytree('/repo', r, symlinks=True)
    sh('git checkout -q -- .', r)
    ok = True
    for f, a, b in s['edits']:
        t = open(r + '/' + f).read()
        n = t.count(a)
        if n != 1: print(s['id'], 'pattern matches', n, repr(a)[:60]); ok = False
        open(r + '/' + f, 'w').write(t.replace(a, b, 1))
    open(d + '/patch.diff', 'w').write(sh('git diff', r).stdout)
    pkg = s.get('pkg', '.')
    open(d + '/demo.sh', 'w').write(DEMO % {'dir': '' if pkg == '.' else pkg + '/', 'pkg': '.' if pkg == '.' else './' + pkg})
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go.txt', 'w').write(s['demo'].lstrip('\n'))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    if not ok: shutil.rmtree(tmp); continue
    env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
    b = sh('go build ./... && go test -count=1 . ./fees 2>&1 | tail -30', r, env=env)
    bad = sh(['bash', d + '/demo.sh'], r)
    sh('git checkout -q -- .', r)
    good = sh(['bash', d + '/demo.sh'], r)
    tests_ok = 'FAIL' not in b.stdout and b.returncode == 0
    print(s['id'], s['property'], 'tests', 'ok' if tests_ok else 'FAIL\n' + b.stdout + b.stderr, 'demo unchanged', good.returncode, 'changed', bad.returncode)
    if good.returncode != 0: print(good.stdout[-1500:], good.stderr[-800:])
    if bad.returncode == 0 or 'build failed' in bad.stdout: print('  NOT CAUGHT BY DEMO', bad.stdout[-800:])
    shutil.rmtree(tmp)
