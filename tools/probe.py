#!/usr/bin/env python3
"""Self-test of the replay: for one case of every (harness, entry, kind of parameters) an
input that reaches the end of the harness is taken from the engine and run natively; it
has to get there too. usage: probe.py [PROPERTY ...]"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = check.V; CASES = check.CASES
props = sys.argv[1:] or sorted(CASES.GEN)
seen = {}
for p in props:
    for c in CASES.cases(p, 'quick'):
        k = (c.h, c.entry, tuple(sorted(c.params)), tuple(v for x, v in sorted(c.params.items()) if x in ('c', 'm', 'kd', 'i', 'h')))
        if k not in seen or seen[k][1].cost > c.cost: seen[k] = (p, c)
todo = list(seen.values()); print(len(todo), 'cases')
d = tempfile.mkdtemp(prefix='probe'); b = check.Build(d); bc = b.bitcode(sorted({c.h for _, c in todo}))
for h in sorted({c.h for _, c in todo}): b.native(h, 'plain')
def one(a):
    p, c = a; bcf = d + '/' + c.h + '.bc'
    try: r = subprocess.run([V + '/build/ksym', bcf, '--entry', c.entry] + sum([['--param', '%s=%d' % x] for x in c.params.items()], []) + c.opts, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120, env=dict(os.environ, KSYM_PROBE='2'))
    except subprocess.TimeoutExpired: return p, c.name, 'slow', ''
    try: j = json.loads(r.stdout)
    except ValueError: return p, c.name, 'no output', r.stdout[-200:]
    ps = [v for v in j['violations'] if v['kind'] == 'probe']
    if not ps: return p, c.name, 'no probe', j['status'] + ' ' + j['why'][:100] + str(j['covers'])
    for n, v in enumerate(ps):
        f = '%s/%s-%d-%d.cex' % (d, c.entry, id(c), n); check.cexfile(f, c, v, '--le' in c.opts)
        try: q = subprocess.run([b.native(c.h, 'plain'), c.entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100, env=dict(os.environ, KS_PROBE='1', **check.SAN))
        except subprocess.TimeoutExpired: return p, c.name, 'slow replay', ''
        if q.returncode or 'COVER end' not in q.stdout: return p, c.name, 'exit %d' % q.returncode, (q.stdout[-200:] + q.stderr[-200:])
    return p, c.name, 'ok', ''
n = {}
with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
    for p, c, r, t in ex.map(one, todo):
        n[r] = n.get(r, 0) + 1
        if r != 'ok': print(p, c, r, t.replace('\n', ' | '), flush=True)
print(n); shutil.rmtree(d)
