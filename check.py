#!/usr/bin/env python3
"""Decides one property of libkripto by symbolic execution of its current source.

usage: check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--keep] [--list]

Compiles /repo/lib and the harnesses to LLVM bitcode, runs every case of the
property under the symbolic executor (build/ksym), replays each counterexample
natively against the real library and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION lines were printed."""
import sys, os, json, subprocess, time, re, shutil, glob, signal, fnmatch
import concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KS_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
import cases as CASES

NPROC = int(os.environ.get('KS_JOBS', '8'))
BASE = ['-std=c99', '-D_DEFAULT_SOURCE', '-I', REPO + '/include', '-I', REPO + '/lib', '-I', V + '/harness', '-I', V + '/ref', '-DKRIPTO_UNIX', '-w']
# what gcc only warns about must not keep clang from giving an answer
LAX = ['-Wno-error=implicit-function-declaration', '-Wno-error=implicit-int', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=return-type']
BC = BASE + LAX + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c']

GBASE = ['-std=c99', '-D_DEFAULT_SOURCE', '-I', V + '/ref/golden/include', '-DKRIPTO_UNIX', '-w']  # the frozen copy sees only its own headers
BCF = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c']
GOLDEN = {'golden': ['block.c', 'memory.c', 'block/*.c'], 'goldenall': ['[!rv]*.c', '*/*.c']}

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

class Build:
    """One throw-away build directory of the library, harnesses and references."""
    def __init__(self, d):
        self.d = d; os.makedirs(d, exist_ok=True); self.memo = {}
        self.lib = sorted(glob.glob(REPO + '/lib/*.c') + glob.glob(REPO + '/lib/*/*.c'))
    def srcs(self, h):
        """the compilation units of harness h: (file, extra flags)"""
        out = [(V + '/harness/%s.c' % h, [])]
        for r in CASES.REFS.get(h, []):
            if r.startswith('golden'):
                for g in GOLDEN[r]: out += [(f, ['-include', V + '/ref/golden/rename.h']) for f in sorted(glob.glob(V + '/ref/golden/lib/' + g))]
            else: out.append((V + '/ref/%s.c' % r, []))
        return out
    def _many(self, cmds):
        errs = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for c, r in zip(cmds, ex.map(lambda c: run(c), cmds)):
                if r.returncode: errs.append(' '.join(c) + '\n' + r.stderr)
        if errs: raise RuntimeError('compilation failed:\n' + errs[0])
    def bitcode(self, hs, opt=()):
        """h -> linked bitcode file"""
        t = os.path.join(self.d, 'bc'); os.makedirs(t, exist_ok=True)
        cmds = []; libo = []
        for f in self.lib:
            o = os.path.join(t, os.path.relpath(f, REPO).replace('/', '_') + '.bc'); libo.append(o)
            cmds.append(['clang'] + BC + [f, '-o', o])
        per = {}
        for h in hs:
            per[h] = []
            for f, fl in self.srcs(h):
                o = os.path.join(t, os.path.relpath(f, V).replace('/', '_') + ('.g' if fl else '') + '.bc'); per[h].append(o)
                c = ['clang'] + (GBASE + BCF if fl else BC) + fl + [f, '-o', o]
                if c not in cmds: cmds.append(c)
        self._many(cmds)
        lib = os.path.join(t, 'lib.bc')
        r = run(['llvm-link-18'] + libo + ['-o', lib])
        if r.returncode: raise RuntimeError(r.stderr)
        out = {}
        def link(h):
            a = os.path.join(t, h + '.l.bc'); b = os.path.join(self.d, h + '.bc')
            r = run(['llvm-link-18', lib] + per[h] + ['-o', a])
            if r.returncode: raise RuntimeError(r.stderr)
            r = run(['opt-18', '-passes=mem2reg', a, '-o', b])
            if r.returncode: raise RuntimeError(r.stderr)
            return b
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for h, b in zip(hs, ex.map(link, hs)): out[h] = b
        shutil.rmtree(t, ignore_errors=True)
        return out
    def native(self, h, kind):
        """the replay program of harness h in the build kind asan, msan or plain"""
        key = (h, kind)
        if key in self.memo: return self.memo[key]
        cc, fl = {'asan': ('gcc', ['-O1', '-g', '-fsanitize=address,bounds,shift-exponent,integer-divide-by-zero', '-fno-sanitize-recover=all']),
                  'ubsan': ('gcc', ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all']),
                  'msan': ('clang', ['-O1', '-g', '-fsanitize=memory', '-fno-omit-frame-pointer']),
                  'plain': ('gcc', ['-O2'])}[kind]
        t = os.path.join(self.d, 'nat-' + kind); os.makedirs(t, exist_ok=True)
        cmds = []; objs = []
        for f, x in [(f, []) for f in self.lib] + self.srcs(h) + [(V + '/harness/replay.c', [])]:
            o = os.path.join(t, f.replace('/', '_') + ('.g' if x else '') + '.o'); objs.append(o)
            if not os.path.exists(o): cmds.append([cc] + (LAX if cc == 'clang' else []) + (GBASE if x else BASE) + fl + x + ['-c', f, '-o', o])
        self._many(cmds)
        e = os.path.join(self.d, 'replay-%s-%s' % (h, kind))
        r = run([cc] + fl + objs + ['-o', e, '-rdynamic', '-ldl', '-lm', '-Wl,--wrap=malloc', '-Wl,--wrap=calloc', '-Wl,--wrap=free'])
        if r.returncode: raise RuntimeError(r.stderr)
        self.memo[key] = e; return e

def cexfile(path, case, v, le, extra=''):
    with open(path, 'w') as f:
        f.write('E %d 0\n' % le)
        for k, x in case.params.items(): f.write('P %s %d\n' % (k, x))
        for k, x in v['choices']: f.write('C %s %d\n' % (k.replace(' ', '_'), x))
        for k, x in v['model'].items(): f.write('V %s %s\n' % (k.replace(' ', '_'), x))
        f.write(extra)

SAN = {'ASAN_OPTIONS': 'exitcode=78:detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'exitcode=78:halt_on_error=1:print_stacktrace=0', 'MSAN_OPTIONS': 'exitcode=78'}
def replay(b, case, v, path):
    """does the counterexample fail natively? -> (confirmed, how, text)"""
    le = '--le' in case.opts
    env = dict(os.environ, **SAN)
    kind = v['kind']
    try:
        if kind == 'wipe':
            outs = []; e = b.native(case.h, 'plain')
            for s in (0, 1):
                p = path + '.%d' % s; cexfile(p, case, v, le, 'S %d 0\nD 1 0\n' % s)
                r = run([e, case.entry, p], env=env, timeout=120); outs.append([l for l in r.stdout.split('\n') if l.startswith('FREE')])
            if len(outs[0]) == len(outs[1]):
                for i, (x, y) in enumerate(zip(*outs)):
                    if x != y: return True, 'plain', 'the memory released by free() number %d differs when only the secret differs' % (i + 1)
            return False, 'plain', 'freed memory equal under both secrets'
        if kind == 'hang':
            cexfile(path, case, v, le)
            try: r = run([b.native(case.h, 'plain'), case.entry, path], env=env, timeout=40)
            except subprocess.TimeoutExpired: return True, 'plain', 'the native run does not end either (40 s)'
            return False, 'plain', 'the native run ends (%d)' % r.returncode
        kinds = ['asan'] if kind in ('assert', 'memory') else ['ubsan'] if kind == 'ub' else ['msan'] if kind in ('uninit', 'ct') else ['asan', 'msan']
        if kind == 'memory': kinds.append('msan')
        if case.params.get('plain') and kind == 'assert': kinds = ['plain']
        if kind == 'global': return True, 'none', 'store to a global object of the library (decided on the path alone)'
        txt = ''
        for k in kinds:
            cexfile(path, case, v, le, 'T 1 0\n' if kind == 'ct' else '')
            r = run([b.native(case.h, k), case.entry, path], env=env, timeout=60 if k != 'plain' else 200)
            txt = (r.stdout[-600:] + r.stderr[:1500])
            bad = {'assert': (77, -6), 'memory': (78, -11, -6, -7, -8), 'ub': (78, -8), 'uninit': (78,), 'ct': (78,)}.get(kind, (77, 78))
            if r.returncode in bad or (kind == 'assert' and v['msg'].startswith('assertion failed') and r.returncode == 78): return True, k, txt
        return False, kinds[-1], 'exit %d: %s' % (r.returncode, txt)
    except subprocess.TimeoutExpired:
        if case.params.get('plain'): return False, 'plain', 'the replay took too long'
        return True, 'timeout', 'the replay does not terminate (60 s)'
    except RuntimeError as ex:
        return False, 'build', str(ex)[:500]

def known():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []

def main():
    a = sys.argv[1:]
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--only': only = a[i + 1]; i += 1
        elif a[i] == '--keep': keep = True
        elif a[i] == '--list':
            for c in CASES.cases(prop, tier): print(c.name, c.h, c.entry, c.params, ' '.join(c.opts), c.time)
            return 0
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    deadline = t0 + (float(os.environ.get('KS_DEADLINE', '600')) if tier == 'quick' else float(os.environ.get('KS_DEADLINE', '14400')))
    cs = [c for c in CASES.cases(prop, tier) if not only or only in c.name]
    assert len(set(c.name for c in cs)) == len(cs), 'duplicate case names'
    d = os.path.join(V, 'build', 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    for f in glob.glob(V + '/evidence/replay/%s-*' % prop): os.remove(f)
    ksym = V + '/build/ksym'
    if not os.path.exists(ksym):
        r = run([V + '/engine/build.sh'])
        if r.returncode: print(r.stdout, r.stderr); return 3
    rc = 0
    try:
        b = Build(d)
        try: bcs = b.bitcode(sorted(set(c.h for c in cs)))
        except RuntimeError as ex:
            print('BUILD-ERROR', str(ex)[:3000]); return 3
        tb = time.time() - t0
        def one(c):
            left = deadline - time.time()
            if left < 5: return c, {'status': 'inconclusive', 'why': 'not started: time budget of the check used up', 'violations': []}
            tl = min(c.time, left)
            cmd = [ksym, bcs[c.h], '--entry', c.entry, '--seed', str(seed), '--time', str(tl)] + list(c.opts)
            for k, x in c.params.items(): cmd += ['--param', '%s=%d' % (k, x)]
            try: r = run(cmd, timeout=tl * 1.5 + 60)
            except subprocess.TimeoutExpired: return c, {'status': 'inconclusive', 'why': 'executor exceeded its time', 'violations': []}
            try: return c, json.loads(r.stdout)
            except Exception: return c, {'status': 'inconclusive', 'why': 'executor failed (%d) %s' % (r.returncode, r.stderr[-300:]), 'violations': []}
        res = []
        order = sorted(cs, key=lambda c: -c.cost)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for c, j in ex.map(one, order):
                res.append((c, j))
                if os.environ.get('KS_VERBOSE'): print('  %-44s %-12s %6.2fs obl=%s nf=%s solver=%s q=%s %s' % (c.name, j['status'], j.get('wall_s', 0), j.get('obligations'), j.get('by_normal_form'), j.get('by_solver'), j.get('queries'), j.get('why', '')[:150]), flush=True)
        kf = [k for k in known() if k.get('property') == prop]
        viol, undec, samples, fns = [], [], [], {}
        tot = {}
        okc = 0; nk = 0
        for c, j in res:
            for k in ('paths', 'forks', 'merges', 'instructions', 'obligations', 'by_normal_form', 'by_solver', 'by_sweep', 'eq_bytes', 'queries', 'unsat', 'sat', 'unknown', 'solver_s', 'terms', 'prove_linear', 'prove_table', 'prove_smt', 'freed_blocks', 'freed_bytes', 'alloc_failures', 'sym_accesses'):
                tot[k] = tot.get(k, 0) + j.get(k, 0)
            for k, n in j.get('functions', {}).items(): fns[k] = fns.get(k, 0) + n
            if j['status'] == 'ok':
                if not j['covers'].get('end'): undec.append({'case': c.name, 'why': 'vacuous: the end of the harness was not reached'}); continue
                okc += 1
                samples.append({'case': c.name, 'entry': c.entry, 'params': c.params, 'paths': j['paths'], 'obligations': j['obligations'], 'by_normal_form': j['by_normal_form'], 'by_solver': j['by_solver'], 'terms': j['terms'], 'wall_s': j['wall_s'], 'reached': j['covers']})
            elif j['status'] == 'violation':
                conf = False
                if tier == 'quick' and (len(viol) >= 12 or time.time() - t0 > (700 if viol else 760)):
                    undec.append({'case': c.name, 'why': 'counterexample not replayed (%s): %s @%s' % ('enough violations confirmed' if len(viol) >= 12 else 'no time left', j['violations'][0]['msg'] if j['violations'] else '', j['violations'][0]['loc'] if j['violations'] else '')}); continue
                for n, v in enumerate(j['violations'][:4]):
                    p = V + '/evidence/replay/%s-%s-%d.cex' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', c.name), n)
                    okr, how, txt = replay(b, c, v, p)
                    if okr:
                        conf = True
                        m = [k for k in kf if fnmatch.fnmatchcase(c.name, k['case']) and re.search(k['match'], v['msg'] + ' @' + v['loc'])]
                        rec = {'case': c.name, 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'choices': v['choices'], 'replay': os.path.relpath(p, V), 'how': how, 'text': txt}
                        if m:
                            nk += 1
                            print('KNOWN-FINDING: property=%s %s' % (prop, m[0]['what']))
                        else:
                            viol.append(rec)
                            with open(p + '.txt', 'w') as f:
                                f.write('property %s case %s\n%s: %s at %s\nreplay: cd /verif && python3 tools/replay.py %s %s %s\n\n%s\n' % (prop, c.name, v['kind'], v['msg'], v['loc'], prop, c.name, os.path.relpath(p, V), txt))
                        break
                    undec.append({'case': c.name, 'why': 'counterexample did not reproduce natively: %s: %s @%s' % (v['kind'], v['msg'], v['loc']), 'replay': txt[:300]})
            else: undec.append({'case': c.name, 'why': j.get('why', '')[:300], 'obligations_done': j.get('obligations', 0)})
        for r in viol:
            print('%s: %s at %s [case %s %s]' % (r['kind'], r['msg'], r['loc'], r['case'], r['choices']))
            print('VIOLATION property=%s replay=%s' % (prop, r['replay'])); rc = 1
        for u in undec: print('UNDECIDED property=%s case=%s: %s' % (prop, u['case'], u['why']))
        info = CASES.INFO.get(prop, {})
        ex = ('Symbolic execution of the bitcode of the current source; %d cases (harness, configuration), of which %d are decided for all values of the symbolic inputs within their bounds, %d undecided (listed; nothing is claimed for them), %d counterexamples confirmed by native replay. ' % (len(cs), okc, len(undec), len(viol) + nk)) + info.get('explanation', '')
        step = max(1, len(samples) // 12)
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
              'coverage': {'explanation': ex, 'bounds': info.get('bounds', ''), 'outside': info.get('outside', ''),
                           'cases': len(cs), 'cases_decided': okc, 'cases_undecided': undec,
                           'obligations': tot.get('obligations', 0), 'discharged': tot.get('by_normal_form', 0) + tot.get('by_solver', 0) + tot.get('by_sweep', 0),
                           'totals': {k: round(x, 3) if isinstance(x, float) else x for k, x in tot.items()},
                           'functions_encoded': dict(sorted(fns.items())), 'samples': samples[::step][:14], 'build_s': round(tb, 2),
                           'known_findings_seen': nk, 'violations_detail': viol,
                           'checker_cmd': 'python3 check.py %s --tier %s' % (prop, tier),
                           'trusted_base': ['clang 18 front end and mem2reg', 'engine/ (symbolic executor, term normaliser)', 'z3', 'references and stubs under harness/ and ref/']},
              'assumptions': info.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        with open(V + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: %d cases, %d decided, %d undecided, %d violations, %d known; %d obligations, %d solver queries, %.1fs solver, %.1fs wall' % (prop, tier, len(cs), okc, len(undec), len(viol), nk, tot.get('obligations', 0), tot.get('queries', 0), tot.get('solver_s', 0), time.time() - t0))
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)
    return rc

if __name__ == '__main__':
    sys.exit(main())
