#!/usr/bin/env python3
"""Plants bugs: reads tools/bugs/*.py (each defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], pkg, test)]),
confirms each in a scratch copy (builds, stable tests pass, demonstration passes without and fails with the change) and writes
seeded/<id>/. Says whether the checker catches it. Usage: plant.py [ID...]"""
import sys, os, json, shutil, subprocess, tempfile, glob, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# Runs demo.go.txt as a test inside the package, without writing to the repository.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
cp "$D/demo.go.txt" "$T/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$T/demo_test.go\\"}}" > "$T/overlay.json"
TMPDIR="$T" go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def tests(d):
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', './...'], d)
    res = {}
    for l in r.stdout.split('\n'):
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Test') and e['Action'] in ('pass', 'fail'): res[e['Package'] + '/' + e['Test']] = e['Action']
    return res
def one(b):
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp'); R = d + '/r'
    try:
        subprocess.run(['cp', '-a', '/repo', R], check=True)
        out = V + '/seeded/' + b['id']
        os.makedirs(out, exist_ok=True)
        if 'demo' in b: open(out + '/demo.sh', 'w').write(b['demo'])
        else:
            open(out + '/demo.sh', 'w').write(DEMO % b)
            open(out + '/demo.go.txt', 'w').write(b['test'])
        for n, t in b.get('files', {}).items(): open(out + '/' + n, 'w').write(t)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        os.makedirs(d + '/demo'); 
        for f in os.listdir(out):
            if not f.endswith('.diff') and f != 'meta.json': shutil.copy(out + '/' + f, d + '/demo')
        sh('go build ./... && go build -o bin/ ./cmd/...', R, shell=True)
        r0 = sh(['bash', d + '/demo/demo.sh'], R)
        for f, old, new in b['edits']:
            s = open(R + '/' + f).read()
            if s.count(old) != 1: return b, 'BADEDIT %s (%d): %s' % (f, s.count(old), old[:50])
            open(R + '/' + f, 'w').write(s.replace(old, new))
        open(out + '/patch.diff', 'w').write(sh(['git', 'diff', '--no-color'], R).stdout)
        r = sh('go build ./... && go build -o bin/ ./cmd/...', R, shell=True)
        if r.returncode: return b, 'NOBUILD ' + r.stderr[:600]
        res = tests(R)
        want = b.get('stable') or STABLE
        bad = [t for t in want if res.get(t) != 'pass']
        r1 = sh(['bash', d + '/demo/demo.sh'], R)
        os.makedirs(d + '/v/evidence'); shutil.copy(V + '/known_findings', d + '/v')
        c = sh([os.environ.get('CK', V + '/bin/checker'), '-repo', R, '-verif', d + '/v', b['property']], d)
        s = 'demo %d/%d tests-broken %d' % (r0.returncode, r1.returncode, len(bad))
        ok = r0.returncode == 0 and r1.returncode != 0 and not bad
        caught = c.returncode == 1 and 'VIOLATION property=' + b['property'] in c.stdout
        msg = ('VALID ' if ok else 'INVALID ') + ('caught ' if caught else 'MISSED(%d) ' % c.returncode) + s
        if r0.returncode: msg += '\n' + r0.stdout[-800:] + r0.stderr[-800:]
        if bad: msg += '\n  ' + ' '.join(bad[:4])
        if caught: msg += '\n      ' + c.stdout.strip().split('\n')[0][:300]
        else: msg += '\n      ' + (c.stdout + c.stderr)[-300:]
        return b, msg
    finally:
        subprocess.run(['chmod', '-R', 'u+w', d]); shutil.rmtree(d)
def stable():
    return [t for t in (BASE.get('stable') or BASE.get('tests') or BASE.get('passing'))]
STABLE = stable()
bugs = []
for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
    g = {}; exec(open(f).read(), g); bugs += g['BUGS']
ids = sys.argv[1:]
if ids: bugs = [b for b in bugs if any(b['id'].startswith(i) for i in ids)]
with cf.ThreadPoolExecutor(6) as ex:
    for b, m in ex.map(one, bugs): print(b['id'], b['property'], m)
