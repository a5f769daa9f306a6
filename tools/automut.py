#!/usr/bin/env python3
"""Tries the small changes that automut lists: those that build and pass the stable tests are given to the checks until one reports.
Tests of changed code run as nobody, in scratch copies. Usage: automut.py MUTANTS OUT [-s] [-n EVERY] [-f FILE-SUBSTR]  (-s: also slow checks)"""
import sys, os, json, subprocess, shutil, queue, threading, collections, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/automut'
ENV = {'PATH': os.environ['PATH'], 'HOME': W + '/home', 'GOCACHE': W + '/cache', 'GOFLAGS': '-mod=mod -buildvcs=false', 'GOPROXY': 'off', 'GOTOOLCHAIN': 'local', 'GOWORK': 'off', 'TMPDIR': W + '/tmp',
       'GOMODCACHE': subprocess.run(['go', 'env', 'GOMODCACHE'], capture_output=True, text=True).stdout.strip()}
SLOW = 'C30 C27 C19 C18 C16 C17 C15 C32'.split()
B = json.load(open('/opt/vp/BASELINE.json'))
def strings(x):
    if isinstance(x, str): yield x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield k
            yield from strings(v)
    elif isinstance(x, list):
        for v in x: yield from strings(v)
STABLE = {s for s in strings(B) if 'Test' in s and '/' in s}
def sh(cmd, cwd, t=90, user=True):
    c = (['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups'] if user else ['env', 'GOMAXPROCS=2']) + ['timeout', '-k', '1', str(t)] + cmd
    return subprocess.run(c, cwd=cwd, env=ENV if user else dict(os.environ, **{k: ENV[k] for k in ('GOFLAGS', 'GOPROXY', 'GOTOOLCHAIN', 'GOWORK')}), capture_output=True, text=True, errors='replace')
hits = collections.defaultdict(collections.Counter); total = collections.Counter(); lock = threading.Lock()
def one(m, d):
    p = d + '/r/' + m['file']; s = open(p, 'rb').read()
    try:
        open(p, 'wb').write(s[:m['start']] + m['text'].encode() + s[m['end']:])
        r = sh(['go', 'build', './...'], d + '/r')
        if r.returncode:
            r2 = sh(['goimports', '-w', p], d + '/r')
            r = sh(['go', 'build', './...'], d + '/r')
        if r.returncode: return 'nobuild', ''
        r = sh(['go', 'test', '-json', '-vet=off', '-timeout', '60s', './...'], d + '/r')
        res = {}
        for l in r.stdout.split('\n'):
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Test') and e['Action'] in ('pass', 'fail'): res[e['Package'] + '/' + e['Test']] = e['Action']
        bad = [t for t in BASE if res.get(t) != 'pass']
        if bad: return 'killed', bad[0]
        with lock: order = sorted(IDS, key=lambda i: (-hits[m['file']][i], i in SLOW, -hits[os.path.dirname(m['file'])][i], -total[i]))
        if ONLY is not None: order = ONLY
        for i in order:
            if i in SLOW and not DEEP: continue
            r = sh([V + '/bin/checker', '-repo', d + '/r', '-verif', d + '/v', i], d, 900, False)
            if r.returncode == 1:
                with lock: hits[m['file']][i] += 1; hits[os.path.dirname(m['file'])][i] += 1; total[i] += 1
                return 'caught', i
            if r.returncode: return 'noanswer', i + ' ' + r.stderr[-300:]
        return 'MISSED', ''
    finally:
        open(p, 'wb').write(s)
def worker(n):
    d = '%s/w%d' % (W, n)
    os.makedirs(d + '/v/evidence'); shutil.copy(V + '/known_findings', d + '/v')
    subprocess.run(['cp', '-a', '/repo', d + '/r']); shutil.rmtree(d + '/r/.git')
    subprocess.run(['chown', '-R', '65534:65534', d + '/r'])
    while True:
        try: k, m = Q.get_nowait()
        except queue.Empty: return
        try: res, why = one(m, d)
        except Exception as e: res, why = 'ERROR', repr(e)
        with lock:
            print(json.dumps(dict(m, res=res, why=why, k=k)), file=OUT, flush=True)
            cnt[res] += 1
a = sys.argv[1:]; DEEP = '-s' in a; ONLY = None
def opt(o, d):
    if o in a: i = a.index(o); v = a[i + 1]; del a[i:i + 2]; return v
    return d
every = int(opt('-n', '1')); sub = opt('-f', ''); only = opt('-c', '')
if only: ONLY = only.split(','); DEEP = True
a = [x for x in a if x != '-s']
IDS = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
ms = [json.loads(l) for l in open(a[0])]
ms = [m for i, m in enumerate(ms) if i % every == 0 and sub in m['file']]
random.Random(1).shuffle(ms)
OUT = open(a[1], 'w'); cnt = collections.Counter()
subprocess.run(['rm', '-rf', '/tmp/automut'])
for x in ('home', 'cache', 'tmp'): os.makedirs(W + '/' + x)
subprocess.run(['cp', '-a', '/repo', W + '/base']); shutil.rmtree(W + '/base/.git')
subprocess.run(['chown', '-R', '65534:65534', W]); os.chmod(W, 0o777)
r = sh(['go', 'test', '-json', '-vet=off', './...'], W + '/base', 600)
BASE = []
for l in r.stdout.split('\n'):
    try: e = json.loads(l)
    except ValueError: continue
    if e.get('Test') and e['Action'] == 'pass': BASE.append(e['Package'] + '/' + e['Test'])
BASE = [t for t in BASE if t in STABLE or not STABLE]
print(len(ms), 'changes,', len(BASE), 'stable tests', flush=True)
Q = queue.Queue()
for k, m in enumerate(ms): Q.put((k, m))
ts = [threading.Thread(target=worker, args=(n,)) for n in range(8)]
for t in ts: t.start()
for t in ts: t.join()
print(dict(cnt)); print(total)
subprocess.run(['rm', '-rf', '/tmp/automut'])
