#!/usr/bin/env python3
"""Runs checks against small edits of /repo made in scratch copies.
A case file defines CASES = [(check, kind, [(file, old, new), ...]), ...]; kind is 'ok' (behaviour kept) or 'bug'.
Usage: mutate.py [-t] [-k SUBSTR] FILE...   (-t also runs the repository's tests)"""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CK = os.environ.get('CK', V + '/bin/checker')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
def run(case):
    n, check, kind, edits = case
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/r'], check=True)
        for f, old, new in edits:
            p = d + '/r/' + f
            s = open(p).read() if os.path.exists(p) else ''
            if old not in s: return n, check, kind, 'BADEDIT ' + f + ': ' + old[:60], ''
            s = s.replace(old, new, 1) if old else s + new
            open(p, 'w').write(s)
        subprocess.run(['goimports', '-w'] + [d + '/r/' + f for f, _, _ in edits if f.endswith('.go')], cwd=d + '/r', env=ENV)
        r = subprocess.run(['go', 'build', './...'], cwd=d + '/r', env=ENV, capture_output=True, text=True)
        if r.returncode: return n, check, kind, 'NOBUILD', r.stderr[:500]
        t = ''
        if TEST:
            r = subprocess.run(['go', 'test', './...'], cwd=d + '/r', env=ENV, capture_output=True, text=True)
            bad = [l.strip() for l in r.stdout.split('\n') if '--- FAIL' in l and 'TestOnSuite_Dirs' not in l]
            if bad or 'panic' in r.stdout: t = ' (tests fail: %s)' % ' '.join(bad)[:80]
        os.mkdir(d + '/v'); os.mkdir(d + '/v/evidence')
        if os.path.exists(V + '/known_findings'): shutil.copy(V + '/known_findings', d + '/v')
        if ALL and kind == 'ok':
            bad = []
            for i in IDS:
                r = subprocess.run([CK, '-repo', d + '/r', '-verif', d + '/v', i], capture_output=True, text=True)
                if r.returncode: bad.append(i + ': ' + ' / '.join(r.stdout.strip().split('\n')[:3])[:700])
            return n, check, kind, 'WRONG' if bad else 'good', '\n'.join(bad)
        r = subprocess.run([CK, '-repo', d + '/r', '-verif', d + '/v', check], capture_output=True, text=True)
        want = 0 if kind == 'ok' else 1
        return n, check, kind, ('good' if r.returncode == want else 'WRONG exit %d' % r.returncode) + t, r.stdout[-1800:] + r.stderr[-400:]
    finally:
        shutil.rmtree(d)
args = sys.argv[1:]
TEST = '-t' in args
ALL = '-a' in args  # run every check on the cases that keep behaviour
import json
IDS = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
VERB = '-v' in args
k = ''
if '-k' in args: i = args.index('-k'); k = args[i+1]; del args[i:i+2]
cases = []; seen = set()
for f in args:
    if f[0] == '-': continue
    g = {}; exec(open(f).read(), g)
    for i, c in enumerate(g['CASES']):
        if ALL and (c[1] != 'ok' or str(c[2]) in seen) or '-b' in args and c[1] != 'bug': continue
        seen.add(str(c[2]))
        e = c[2] if isinstance(c[2], list) else list(c[2:])
        n = '%s#%d' % (os.path.basename(f), i)
        if k in n + c[0]: cases.append((n, c[0], c[1], e))
with cf.ThreadPoolExecutor(7) as ex:
    for n, c, kd, res, out in ex.map(run, cases):
        print(n, c, kd, res)
        if not res.startswith('good') or VERB: print('\n'.join('      ' + l[:400] for l in out.strip().split('\n')[-7:]))
