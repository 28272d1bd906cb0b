"""C22: builds the Python module with sanitizers and runs bindings_worker.py in interpreter processes."""
import concurrent.futures as cf, json, os, subprocess, threading
import buildlib

GROUPS = [('vectors', 600, 20000), ('functions', 600, 20000), ('maps', 640, 16000), ('neighborhoods', 300, 8000), ('controllers', 440, 12000), ('algorithms', 500, 10000),
          ('pyalgorithms', 200, 4000), ('universal', 400, 10000), ('multi', 250, 6000), ('parallel', 154, 3300), ('parallelerrors', 80, 1600), ('lifetime', 120, 2500), ('errors', 400, 9000), ('populations', 400, 9000), ('configured', 920, 18000)]
HERE = os.path.dirname(os.path.abspath(__file__))

def preload():
    f = lambda n: subprocess.run(['gcc', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip()
    return ' '.join(f(n) for n in ('libasan.so', 'libubsan.so', 'libstdc++.so'))

def env_for(tools, moddir):
    e = dict(os.environ)
    e.update(tools.SAN_ENV)
    e.update(LD_PRELOAD=preload(), PYTHONPATH=moddir, PYTHONDONTWRITEBYTECODE='1', PYTHONMALLOC='malloc', OMP_WAIT_POLICY='passive', GOMP_SPINCOUNT='0', PYTHONHASHSEED='0')
    return e

def run(pid, part, tier, seed, tmp, res, tools):
    moddir = buildlib.build_module('asan')
    env = env_for(tools, moddir)
    env['VERIF_BINDREF'] = buildlib.build('bindref', 'asan', ['bindref.cc'], scope='all')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    only = os.environ.get('VERIF_GROUP')
    jobs = []
    for g, q, t in GROUPS:
        if only and g != only:
            continue
        n = max(1, int((q if tier == 'quick' else t) * scale))
        size = max(20, n // 16 + 1)
        jobs += [(g, a, min(n, a + size)) for a in range(0, n, size)]
    jobs = [(g, a, b) for g, a, b in jobs]
    lock = threading.Lock()
    def one(job):
        g, a, b = job
        while a < b:
            out = os.path.join(tmp, 'py-%s-%d.jsonl' % (g, a))
            d = os.path.join(tmp, 'pyw-%s-%d' % (g, a)); os.makedirs(d, exist_ok=True); out = os.path.join(d, 'out.jsonl')
            wall = 300 + 3 * (b - a) + (1200 if tier != 'quick' else 0)
            try:
                p = subprocess.run(['/usr/bin/python3', os.path.join(HERE, 'bindings_worker.py'), g, str(seed), str(a), str(b), out], env=env, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=wall)
                rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
            except subprocess.TimeoutExpired:
                rc, err = None, ''
            last, done = None, a - 1
            with lock:
                for line in open(out) if os.path.exists(out) else []:
                    r = json.loads(line)
                    if 'begin' in r:
                        last = r['begin']
                        continue
                    done = r['case']
                    res.cases += 1; res.observations += r['obs']; res.cov |= set(r['cov'])
                    res.group_cases['py_' + g] = res.group_cases.get('py_' + g, 0) + 1
                    res.group_obs['py_' + g] = res.group_obs.get('py_' + g, 0) + r['obs']
                    for k, v in r['counts'].items():
                        res.counts['py %s %s' % (g, k)] = res.counts.get('py %s %s' % (g, k), 0) + v
                    if r['case'] < 2: res.samples.append('py_%s#%d: %s' % (g, r['case'], r['desc'][:200]))
                    if r['viol']:
                        res.violations.append(dict(key='py:%s:%s' % (g, r['viol'][0]), detail=r['viol'][1], group='py_' + g, idx=r['case'], part=part['name'], variant='asan', seed=seed, tier=tier))
                if rc == 0:
                    return
                if rc is None or rc == -9:
                    res.errors.append('%s case %s: %s' % (g, last, 'time ran out' if rc is None else 'killed'))
                    return
                if last is None:
                    res.errors.append('the interpreter could not start: ' + err[-1500:])
                    return
                if last > done:
                    res.violations.append(dict(key='py:%s:%s' % (g, tools.crash_key(g, rc, err)), detail='the interpreter ended with status %d: %s' % (rc, err[-3000:]), group='py_' + g, idx=last, part=part['name'], variant='asan', seed=seed, tier=tier))
                else:
                    res.violations.append(dict(key='py:%s:exit-%d' % (g, rc), detail='the interpreter ended with status %d after case %d: %s' % (rc, last, err[-3000:]), group='py_' + g, idx=last, part=part['name'], variant='asan', seed=seed, tier=tier))
                    return
                if len(res.violations) > 40:
                    return
            a = last + 1
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(one, jobs))
    if not only or only == 'embedded':
        embedded(part, tier, seed, tmp, res, tools, moddir, int((64 if tier == 'quick' else 800) * scale))

PYFN = '''
import hnco, hnco.function as fn, hnco.multiobjective.function as mf
calls = 0
class F(fn.Function):
    def __init__(self): fn.Function.__init__(self)
    def get_bv_size(self): return %(n)d
    def has_known_maximum(self): return %(known)s
    def get_maximum(self): return %(max)d
    def evaluate(self, x):
        global calls
        calls += 1
        if calls == %(boom)d: raise ValueError('boom')
        return float(sum(w * int(b) for w, b in zip(W, x)))
class M(mf.Function):
    def __init__(self): mf.Function.__init__(self)
    def get_bv_size(self): return %(n)d
    def get_output_size(self): return 2
    def evaluate(self, x, value):
        value[0] = float(sum(w * int(b) for w, b in zip(W, x))); value[1] = -float(sum(int(b) for b in x))
W = %(W)r
f = F()
m = M()
g = fn.LeadingOnes(%(n)d)
'''
def embedded(part, tier, seed, tmp, res, tools, moddir, count):
    """Functions defined in a Python file, run by the command-line programs in their embedded interpreter."""
    from . import cli
    env = cli.build(tools, ('hnco', 'hnco-mo'))
    env.tmp = tmp
    env.penv['PYTHONPATH'] = moddir
    env.penv['PYTHONDONTWRITEBYTECODE'] = '1'
    def case(c):
        r = c.rng
        n = r.randint(2, 16); W = [r.randint(-5, 9) for _ in range(n)]; mx = sum(w for w in W if w > 0); known = r.random() < .5; boom = r.choice([0, 0, 0, r.randint(2, 30)])
        py = os.path.join(c.dir, 'f.py'); open(py, 'w').write(PYFN % dict(n=n, W=W, known=known, max=mx, boom=boom))
        val = lambda s: float(sum(w for w, b in zip(W, s) if b == '1'))
        if c.idx % 4 == 0:
            base = ['-F', 1100, '-p', py, '--fn-name', 'm', '--seed', r.randint(0, 10 ** 6)]
            c.check(c.run('hnco-mo', base + ['--fn-get-bv-size'], expect=0)[1].strip() == str(n), 'size', c.cmds[-1])
            c.check(c.run('hnco-mo', base + ['--fn-get-output-size'], expect=0)[1].strip() == '2', 'outputs', c.cmds[-1])
            st, o, e = c.run('hnco-mo', base + ['--ea-mu', 8, '-i', 4, '--ea-tournament-size', 2, '--print-pareto-front'], expect=0)
            front = {tuple(float(x) for x in l.split()) for l in o.strip().splitlines()}
            ok = set()
            reach = {(0, 0)}
            for w in W: reach |= {(a + w, b - 1) for a, b in reach}
            c.check(front and front <= reach, 'front', '%s prints %r' % (c.cmds[-1], front)); c.count('fronts')
            st, o, e = c.run('hnco-mo', base[:5] + ['nosuch']); c.check(st == 1 and e.strip(), 'missing', c.cmds[-1])
        else:
            name = r.choice(['f', 'f', 'f', 'g']); base = ['-F', 1100, '-p', py, '--fn-name', name, '--seed', r.randint(0, 10 ** 6)]
            c.check(c.run('hnco', base + ['--fn-get-bv-size'], expect=0)[1].strip() == str(n), 'size', c.cmds[-1])
            c.check(c.run('hnco', base + ['--fn-has-known-maximum'], expect=0)[1].strip() == ('yes' if known or name == 'g' else 'no'), 'known', c.cmds[-1])
            b = r.randint(1, 120); st, o, e = c.run('hnco', base + ['-A', r.choice([0, 10, 300, 310, 610, 700] if n > 4 else [10, 300]), '-b', b, '--ea-mu', 4, '--ea-lambda', 8, '--population-size', 8, '--selection-size', 3, '--print-results', '--print-solution'])
            if name == 'f' and 0 < boom <= b and st == 1: c.check('boom' in e, 'exception', '%s: %s' % (c.cmds[-1], e)); c.count('exceptions')
            else:
                c.check(st == 0, 'status', '%s ended with %d: %s' % (c.cmds[-1], st, e[-300:])); R, m = cli.results(c, o, base); s = o[m.end():].strip()
                lead = len(s) - len(s.lstrip('1')); v = val(s) if name == 'f' else float(lead)
                c.check(v <= R['value'] and R['total_num_evaluations'] <= b, 'value', '%s: solution %s of value %r, results %r' % (c.cmds[-1], s, v, R)); c.count('runs')
                x = ''.join(r.choice('01') for _ in range(n))
                if name == 'f' and boom == 0: u = cli.evaluate(c, base, x); c.check(u == val(x), 'evaluate', '%s prints %r, expected %r' % (c.cmds[-1], u, val(x)))
            for bad in (['-p', py, '--fn-name', 'nosuch'], ['-p', py + 'x', '--fn-name', 'f'], ['-p', py, '--fn-name', 'W']):
                st, o, e = c.run('hnco', ['-F', 1100] + bad + ['-b', 5]); c.check(st == 1 and e.strip(), 'missing', '%s ended with %d' % (c.cmds[-1], st))
            open(py, 'a').write('raise KeyError(3)\n'); st, o, e = c.run('hnco', base + ['-b', 5]); c.check(st == 1 and e.strip(), 'raising', '%s ended with %d' % (c.cmds[-1], st))
        c.cover(repr((n, W, c.idx % 4))); return c.cmds[0]
    cli.drive(env, [('embedded', case, i) for i in range(count)], seed, tier, part, res)
