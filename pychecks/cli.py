"""C21, second part: the command-line programs run as processes (address and undefined-behaviour sanitizers on).
The monitor reads exit status, standard output, standard error and files, and cross-checks them."""
import concurrent.futures as cf, hashlib, json, math, os, random, re, shutil, subprocess, threading
import buildlib

class Viol(Exception):
    def __init__(self, key, detail):
        self.key, self.detail = key, detail
class Inconclusive(Exception):
    pass

class Ctx:
    def __init__(self, env, rng, group, idx):
        self.env, self.rng, self.group, self.idx = env, rng, group, idx
        self.obs = 0
        self.cov = set()
        self.counts = {}
        self.cmds = []
        self.dir = os.path.join(env.tmp, 'cli-%s-%d' % (group, idx))
        os.makedirs(self.dir, exist_ok=True)
    def check(self, ok, key, detail):
        self.obs += 1
        if not ok:
            raise Viol(key, detail)
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n
    def cover(self, what):
        self.cov.add(int(hashlib.sha1((self.group + '/' + what).encode()).hexdigest()[:15], 16))
    def run(self, prog, args, stdin=None, expect=None):
        """-> (exit status, stdout, stderr)"""
        cmd = [self.env.bin[prog]] + [str(a) for a in args]
        self.cmds.append(prog + ' ' + ' '.join(str(a) for a in args))
        for wall in (90, 300):
            try:
                p = subprocess.run(cmd, cwd=self.dir, env=self.env.penv, stdin=subprocess.DEVNULL if stdin is None else None, input=stdin, capture_output=True, timeout=wall)
                break
            except subprocess.TimeoutExpired:
                if wall == 300:
                    raise Viol('hang:' + prog, '%s did not end within %d s' % (self.cmds[-1], wall))
        self.count('processes')
        out, err = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        if p.returncode == -9:
            raise Inconclusive('%s was killed' % self.cmds[-1])
        if p.returncode < 0 or re.search(r'AddressSanitizer|runtime error:|Assertion .* failed', err):
            raise Viol(self.env.tools.crash_key(prog, p.returncode, err), '%s ended with status %d: %s' % (self.cmds[-1], p.returncode, err[-3000:]))
        self.check(p.returncode in (0, 1, 2, 3), 'status:' + prog, '%s ended with status %d: %s' % (self.cmds[-1], p.returncode, err[-500:]))
        if expect is not None:
            self.check(p.returncode == expect, 'status:' + prog, '%s ended with status %d instead of %d: %s' % (self.cmds[-1], p.returncode, expect, err[-500:]))
        return p.returncode, out, err

def near(a, b, rel=2e-5):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-9

# -- reference models --------------------------------------------------------------------------------
def lead(x):
    n = 0
    for b in x:
        if not b: break
        n += 1
    return n
def labs(x):
    s = [1 if b else -1 for b in x]
    n = len(s)
    return -sum(sum(s[i] * s[i + k] for i in range(n - k)) ** 2 for k in range(1, n))
MODELS = {0: sum, 5: lambda x: sum(2 ** i for i, b in enumerate(x) if b), 10: lead, 20: lambda x: 1 if all(x) else 0, 80: labs}

# -- functions ---------------------------------------------------------------------------------------
class Fn:
    def __init__(self, args, n, model=None, random_ties=False, small=False, name=''):
        self.args, self.n, self.model, self.random_ties, self.small, self.name = args, n, model, random_ties, small, name

def gen_function(c, small=False):
    r = c.rng
    kind = r.choice(['plain', 'plain', 'plain', 'file', 'file', 'expr'])
    n = r.randint(3, 8) if small else r.choice([r.randint(4, 12), r.randint(8, 40), r.randint(30, 80)])
    short = r.random() < .5
    F = '-F' if short else '--function'
    S = '-s' if short else '--bv-size'
    if kind == 'plain':
        f = r.choice([0, 5, 10, 11, 20, 30, 31, 40, 41, 80, 81, 110, 120, 130, 140])
        extra = []
        if f in (30, 31):
            n = max(n, 5); extra = ['-t', r.randint(1, n // 2)]
        if f in (40, 41):
            n = max(n, 6); extra = ['--fn-threshold', r.randint(1, n // 3)]
        if f == 110:
            t = r.randint(1, 3); n = t * r.randint(2, 3 if small else 6); extra = ['--fn-num-traps', t]
        if f == 120:
            n = 2 ** r.randint(2, 3 if small else 5)
        if f == 140:
            p = r.randint(2, 3); n = p * r.randint(2, 3 if small else 8); extra = ['--fn-prefix-length', p]
        if f in (80, 81):
            n = min(n, 30)
        return Fn([F, f, S, n] + extra, n, MODELS.get(f), name='F%d' % f)
    if kind == 'file':
        f = r.choice([1, 60, 70, 90, 91, 160, 161, 162, 171, 172, 190])
        path = os.path.join(c.dir, 'function.txt')
        if f in (60,): n = max(n, 5)
        if f == 70: n = max(n, 4)
        args = ['-F', f, '-s', n, '-p', path, '--seed', r.randint(0, 10 ** 6)]
        if f == 1:
            g = r.randint(0, 2)
            args += ['--lin-generator', g]
            if g == 2: args += ['--lin-ratio', r.choice(['1.5', '2'])]
        if f == 60: args += ['--nk-k', r.randint(1, 4)]
        if f == 70: args += ['--ms-num-clauses', r.randint(1, 40), '--ms-num-literals-per-clause', r.randint(1, 3)] + (['--ms-planted-solution'] if r.random() < .5 else [])
        if f == 160: args += ['--walsh-num-features', r.randint(1, 30)]
        if f == 162: args += ['--walsh2-generator', r.randint(0, 1)]
        if f in (171, 172):
            args += ['--nn%d-generator' % (f - 170), r.randint(0, 3)] + (['--periodic-boundary-conditions'] if r.random() < .5 else [])
        if f == 172:
            rows, cols = r.randint(1, 5), r.randint(2, 6)
            if small: rows, cols = 2, r.randint(2, 4)
            args += ['--nn2-num-rows', rows, '--nn2-num-columns', cols]; n = rows * cols
        if f == 190:
            e = r.randint(1, 2 if small else 12); args += ['--sudoku-num-empty-cells', e]; n = 4 * e
        st, out, err = c.run('ffgen', args)
        c.check(st == 0, 'ffgen', '%s failed: %s' % (c.cmds[-1], err[-300:]))
        c.check(os.path.exists(path) and os.path.getsize(path) > 0, 'ffgen-file', '%s wrote nothing' % c.cmds[-1])
        if r.random() < .25:
            first = open(path, 'rb').read()
            c.run('ffgen', args, expect=0)
            c.check(open(path, 'rb').read() == first, 'ffgen-seed', '%s twice wrote different files' % c.cmds[-1])
            c.count('generators repeated')
        if r.random() < .15:
            bad = [a if a != path else '/proc/nonexistent/x' for a in args]
            st, out, err = c.run('ffgen', bad)
            c.check(st == 1 and err.strip(), 'ffgen-unwritable', '%s ended with status %d and message %r' % (c.cmds[-1], st, err))
        return Fn(['-F', f, '-p', path], n, name='F%d' % f)
    f = r.choice([500, 503, 510, 513, 501, 511, 504])
    e, model = r.choice([('x+2*y', lambda x, y: x + 2 * y), ('(x-3)^2-y', lambda x, y: (x - 3) ** 2 - y), ('x*y-x', lambda x, y: x * y - x)])
    if f in (501, 511): e = e.replace('(x-3)^2', '(x-3)*(x-3)')     # no power operator in integer parsers
    if f in (500, 510, 504): rep = 'x: double(-4, 4, size = %d); y: double(0, 8, size = %d)' % (r.randint(2, 4 if small else 9), r.randint(2, 4 if small else 9))
    elif f in (503, 513): rep = 'x: int(-4, 11); y: int(0, 7)'
    else: rep = 'x: long(-4, 11); y: long(0, 7)'
    return Fn(['-F', f, '--fp-expression', e, '--fp-representations', rep], None, name='F%d' % f)

ALGS = [0, 10, 20, 100, 150, 160, 200, 300, 301, 310, 320, 330, 340, 400, 450, 500, 501, 600, 610, 612, 700, 800, 900, 901, 1000, 1001, 1100, 1110, 1200, 1250, 1300]
WHOLE = {0, 10, 20, 100, 160, 200, 300, 301, 800}      # never cut in the middle of an iteration
def gen_algorithm(c, n, alg=None):
    """-> (args, id, evaluations with iterations or None, indefinite when -i 0)"""
    r = c.rng
    a = alg if alg is not None else r.choice(ALGS)
    if a == 0 and n > 10: a = 300
    if a == 330 and n < 8: a = 310
    if a == 450 and n < 12: a = 400
    if 500 <= a < 1300 and n < 5: a = 300
    if a >= 900 and n > 30 or a in (150, 160) and n > 40: a = 10
    args, init, per, ends = ['-A' if r.random() < .5 else '--algorithm', a], 1, 1, False
    pop = r.randint(4, 20); sel = r.randint(1, pop - 1); mu = r.randint(3, 10); lam = r.randint(10, 20)
    P = ['--population-size', pop, '--selection-size', sel]
    if a in (20, 100, 200):
        args += ['-N', r.randint(0, 3), '--radius', r.randint(1, n)]
    if a in (150, 160): args += ['--neighborhood-iterator', r.randint(0, 1), '--radius', min(n, r.randint(1, 2))]
    if a == 100:
        pt = r.choice([0, 0, 20]); args += ['--rls-patience', pt]; ends = pt > 0
        if r.random() < .4: args += ['--incremental-evaluation']
        if r.random() < .3: args += ['--rls-strict']
    if a == 200: args += ['--sa-num-trials', 10]; init = 21
    if a == 310: args += ['--ea-mu', mu, '--ea-lambda', lam]; init, per = mu, lam
    if a == 320: args += ['--ea-mu', mu, '--ea-lambda', lam]; init, per = 1, lam
    if a == 330: args += ['--ea-lambda', lam]; per = lam
    if a == 340: args += P; per = pop
    if a == 400: args += ['--ea-mu', mu, '--ea-tournament-size', 2]; init = per = mu
    if a == 450: args += ['--ea-mu', 5, '--ea-lambda', 5]; per = 10
    if 500 <= a <= 612 or 900 <= a <= 1100: args += P; per = pop
    if a == 700: per = 2
    if a in (1110, 1200): args += ['--population-size', r.randint(4, 20)]
    if a in (0, 150, 160) or a >= 1110: ends = True
    if a in (500, 700, 800, 900): args += ['--learning-rate', r.choice(['0.01', '0.1', '0.5'])]
    return args, a, (init, per) if not ends and a != 450 else None, not ends

def results(c, out, args):
    m = re.search(r'\{\n  "value".*?\n\}\n', out, re.S)
    c.check(bool(m), 'no-results', 'no results in the output of hnco %s: %r' % (args, out[:300]))
    try:
        return json.loads(re.sub(r'\b-?(inf|nan)\b', 'null', m.group(0))), m
    except ValueError:
        raise Viol('results-json', 'the results are not JSON: %s' % m.group(0))

def evaluate(c, base, sol, name='sol.txt'):
    p = os.path.join(c.dir, name)
    open(p, 'w').write(sol + '\n')
    st, out, err = c.run('hnco', base + ['--load-solution', '--solution-path', p, '--print-results'], expect=0)
    return float(out.strip().splitlines()[-1])

def g_runs(c):
    r = c.rng
    small = r.random() < .25
    f = gen_function(c, small)
    seed = r.randint(0, 2 ** 32 - 1)
    base = f.args + ['--seed', seed]
    n = int(c.run('hnco', base + ['--fn-get-bv-size'], expect=0)[1])
    if f.n is not None:
        c.check(n == f.n, 'bv-size', '%s prints %d, expected %d' % (c.cmds[-1], n, f.n))
    mapped = False
    if r.random() < .35:
        mid = r.randint(1, 6); mapped = True; fnargs = list(base); fn_n = n
        ins = n if mid not in (4, 5) else r.randint(max(2, n - 3), n + 4)
        if r.random() < .5:
            mp = os.path.join(c.dir, 'map.txt')
            margs = ['-M', mid, '-x', ins, '-y', n, '-p', mp, '--seed', r.randint(0, 10 ** 6)]
            if mid == 6: margs += ['--ts-length', r.randint(0, 10), '--ts-sampling-mode', r.choice([0, 1, 2, 3, 4, 5])]
            if mid in (4, 5) and ins >= n and r.random() < .5: margs += ['--surjective']
            st, o, e = c.run('mapgen', margs)
            c.check(st == 0, 'mapgen', '%s failed: %s' % (c.cmds[-1], e[-300:]))
            if r.random() < .3:
                first = open(mp).read(); c.run('mapgen', margs, expect=0)
                c.check(open(mp).read() == first, 'mapgen-seed', '%s twice wrote different files' % c.cmds[-1])
            base = base + ['-M', mid, '--map-path', mp]
        else:
            base = base + ['-M', mid, '--map-random', '--map-input-size', ins]
        n2 = int(c.run('hnco', base + ['--fn-get-bv-size'], expect=0)[1])
        c.check(n2 == ins, 'map-size', '%s prints %d, expected %d' % (c.cmds[-1], n2, ins)); n = n2
    if r.random() < .2: base += ['--minimize']
    if r.random() < .15: base += ['--parsed-modifier', '--expression', r.choice(['2*x+1', 'x-7', 'x^2'])]
    noisy = r.random() < .08
    if noisy: base += r.choice([['--additive-gaussian-noise', '--noise-stddev', '0.5'], ['--prior-noise']])
    aargs, a, ev, indef = gen_algorithm(c, n)
    b = r.choice([r.randint(1, 40), r.randint(50, 400), r.randint(50, 400), 0])
    it = r.choice([0, 0, r.randint(1, 15)])
    if b == 0 and (indef and it == 0 or a >= 1110 or a == 100): b = 200     # neutral moves are not failures: local search with patience need not stop
    cache = r.random() < .2
    if cache and it == 0 and indef: it = r.randint(1, 15)
    if cache and a >= 1110: cache = False
    threads = r.choice([1, 1, 1, 2, 3]) if not noisy else 1
    if cache: threads = 1       # the cache serves sequential evaluations only
    opts = ['-b', b, '-i', it] + aargs + ['--num-threads', threads]
    cb = cache and r.random() < .5
    if cache: opts += ['--cache'] + (['--cache-budget'] if cb else [])
    restart = b > 0 and not cache and r.random() < .15
    if restart: opts += ['--restart']
    st, o, e = c.run('hnco', base + ['--fn-has-known-maximum'], expect=0)
    c.check(o.strip() in ('yes', 'no'), 'known-maximum', '%s prints %r' % (c.cmds[-1], o))
    known = o.strip() == 'yes'
    st, o, e = c.run('hnco', base + ['--fn-get-maximum'])
    c.check(st == (0 if known else 1), 'get-maximum', '%s ends with %d, known maximum: %s' % (c.cmds[-1], st, known))
    mx = float(o) if known else None
    if not known: c.check(bool(e.strip()), 'get-maximum', 'no message')
    target = None; som = False
    if r.random() < .25:
        if known and r.random() < .5: som = True; opts += ['--stop-on-maximum']
        else:
            x = ''.join(r.choice('01') for _ in range(n)); target = r.choice([evaluate(c, base, x) if not noisy else 1.5, 1e9, -1e9]); opts += ['--target=%r' % target]
    log = r.random() < .3
    if log: opts += ['--log-improvement']
    cmd = base + opts + ['--print-results', '--print-solution', '--save-results', '--results-path', 'r.json', '--save-solution', '--solution-path', 'out.txt']
    desc = not noisy and r.random() < .3
    if desc: cmd += ['--print-description', '--save-description', '--description-path', 'd.txt']
    st, out, err = c.run('hnco', cmd)
    what = c.cmds[-1]
    c.check(st != 1, 'unexpected-error', '%s ended with status 1: %s' % (what, err[-400:]))
    R, m = results(c, out, what)
    value, ne, tot = R['value'], R['num_evaluations'], R['total_num_evaluations']
    tail = out[m.end():].split('\n', 1)
    sol = tail[0]
    c.check(re.fullmatch('[01]+', sol) and len(sol) == n, 'solution-size', '%s prints the solution %r, expected %d bits' % (what, sol, n))
    c.check(1 <= ne <= tot, 'evaluations', '%s reports an improvement at evaluation %d of %d' % (what, ne, tot))
    if b > 0 and not cb: c.check(tot <= b, 'budget', '%s made %d evaluations' % (what, tot))
    hit = som or target is not None
    success = R.get('success')
    c.check((success is not None) == hit, 'success-reported', '%s: success %r' % (what, success))
    if hit: c.check(st == (0 if success else (2 if som else 3)), 'exit-status', '%s ended with status %d, success %s' % (what, st, success))
    else: c.check(st == 0, 'exit-status', '%s ended with status %d' % (what, st))
    if not hit and b > 0 and it == 0 and not cache and (indef or restart) and a != 0: c.check(tot == b, 'budget-used', '%s made %d evaluations for a budget of %d and indefinite iterations' % (what, tot, b)); c.count('budgets used up')
    if not hit and it > 0 and ev and not cache and not restart and not noisy:
        exp = ev[0] + ev[1] * it
        if a == 340: exp = None
        if exp and (b <= 0 or exp <= b): c.check(tot == exp, 'iterations', '%s made %d evaluations, expected %d' % (what, tot, exp)); c.count('iteration counts')
    c.check(json.load(open(os.path.join(c.dir, 'r.json'))) == R if 'null' not in json.dumps(R) else True, 'saved-results', 'the saved results differ from the printed ones')
    c.check(open(os.path.join(c.dir, 'out.txt')).read() == sol + '\n', 'saved-solution', 'the saved solution differs from the printed one')
    if desc: c.check(open(os.path.join(c.dir, 'd.txt')).read() == tail[1], 'saved-description', 'the saved description differs from the printed one')
    if cache: c.check(0 <= R['lookup_ratio'] <= 1, 'lookup', 'lookup ratio %r' % R['lookup_ratio'])
    if cache and not noisy: c.check(tot <= 2 ** n, 'cache-evaluations', '%s: %d evaluations of %d bit vectors with a cache' % (what, tot, 2 ** n))
    imp = [l.split() for l in out[:m.start()].splitlines() if re.fullmatch(r'\d+ \S+', l)]
    if log:
        c.check(imp, 'log', '%s logged no improvement' % what)
        ks = [int(i[0]) for i in imp]; vs = [float(i[1]) for i in imp]
        c.check(all(x < y for x, y in zip(ks, ks[1:])) and all(x <= y for x, y in zip(vs, vs[1:])), 'log-order', '%s logged improvements %r' % (what, imp))
        c.check(ks[0] == 1 and ks[-1] == ne and (value is None or near(vs[-1], value)), 'log-last', '%s logged %r, results %d %r' % (what, imp[-1], ne, value)); c.count('logged improvements', len(imp))
    if value is not None and not noisy:
        v = evaluate(c, base, sol)
        c.check(v <= value or near(v, value), 'solution-value', '%s reports value %r, its solution has value %r' % (what, value, v))
        cut = 'Last evaluation' in err
        if a != 450 and (success or not cut or a in WHOLE): c.check(near(v, value), 'solution-value', '%s reports value %r, its solution has value %r' % (what, value, v)); c.count('solutions equal')
        if known: c.check(value <= mx or near(value, mx), 'above-maximum', '%s reports %r above the maximum %r' % (what, value, mx))
        if som and success: c.check(near(value, mx), 'maximum-reached', '%s reports success with %r, maximum %r' % (what, value, mx))
        if som and not success and abs(mx) < 1e5 and mx == int(mx): c.check(value < mx, 'maximum-missed', '%s reports no success with %r, maximum %r' % (what, value, mx))
        if target is not None and success is not None: c.check(success == (value >= target) or near(value, target), 'target', '%s: success %s with value %r' % (what, success, value))
        if a == 0 and known and not hit and (b <= 0 or b >= 2 ** n) and not mapped: c.check(near(value, mx), 'complete-search', '%s reports %r, maximum %r' % (what, value, mx)); c.count('complete searches')
        if mapped:
            st, o2, e2 = c.run('hnco', [x for x in cmd if x not in ('--print-results', '--print-description', '--log-improvement')] + ['--concrete-solution'])
            y = o2.strip().splitlines()[-1] if o2.strip() else ''
            c.check(len(y) == fn_n and set(y) <= set('01'), 'concrete-size', '%s prints %r, expected %d bits' % (c.cmds[-1], y, fn_n))
            saved = open(os.path.join(c.dir, 'out.txt')).read().strip(); c.check(saved == y, 'concrete-saved', '%s saves the solution %r and prints %r' % (c.cmds[-1], saved, y))
            fb = fnargs + [x for x in base[len(fnargs):] if x in ('--minimize', '--parsed-modifier')] + (['--expression', base[base.index('--expression') + 1]] if '--expression' in base else [])
            c.check(near(evaluate(c, fb, y), v), 'concrete-value', '%s: value %r in the domain of the concrete function instead of %r' % (c.cmds[-1], evaluate(c, fb, y), v)); c.count('concrete solutions')
        elif f.model and '--parsed-modifier' not in base:
            e0 = f.model([int(ch) for ch in sol]) * (-1 if '--minimize' in base else 1)
            c.check(near(float(e0), v), 'model', '%s: value of %s is %r, expected %r' % (what, sol, v, e0)); c.count('modelled values')
    if r.random() < .3:
        st2, out2, err2 = c.run('hnco', cmd)
        c.check(st2 == st and out2 == out, 'not-reproducible', '%s twice prints different things' % what); c.count('repeated')
    if threads > 1 and r.random() < .7:
        i = cmd.index('--num-threads'); c1 = cmd[:i + 1] + [1] + cmd[i + 2:]
        st2, out2, err2 = c.run('hnco', c1)
        R2, m2 = results(c, out2, c1)
        if not hit: c.check(R2['value'] == value and R2['num_evaluations'] == ne and R2['total_num_evaluations'] == tot and out2[m2.end():] == out[m.end():], 'threads', '%s: with one thread %r, with %d threads %r' % (what, R2, threads, R)); c.count('thread counts compared')
    c.count('runs'); c.count('algorithm %d' % a); c.count('function ' + f.name); c.count('exit %d' % st)
    c.cover(what + sol)
    return what

def g_information(c):
    r = c.rng
    f = gen_function(c, True)
    base = f.args + ['--seed', r.randint(0, 10 ** 6)]
    n = int(c.run('hnco', base + ['--fn-get-bv-size'], expect=0)[1])
    st, o, e = c.run('hnco', base + ['--fn-display'], expect=0)
    st, o2, e = c.run('hnco', base + ['--fn-provides-incremental-evaluation'], expect=0)
    c.check(o2.strip() in ('yes', 'no'), 'incremental', '%s prints %r' % (c.cmds[-1], o2))
    if n <= 9 and f.model:
        st, o3, e = c.run('hnco', base + ['--fn-walsh-transform'], expect=0)
        w = {}
        vals = [f.model([(k >> i) & 1 for i in range(n)]) for k in range(2 ** n)]
        h = [float(v) for v in vals]
        step = 1
        while step < len(h):
            for i in range(0, len(h), 2 * step):
                for j in range(i, i + step):
                    h[j], h[j + step] = h[j] + h[j + step], h[j] - h[j + step]
            step *= 2
        co = sorted(((abs(x), bin(k).count('1')) for k, x in enumerate(h) if k), reverse=True)
        norm = co[0][0]
        if norm > 0:
            exp = sorted([(round(x / norm, 4), wgt) for x, wgt in co if x / norm > 1e-10])
            got = [(float(l.split()[1]), int(l.split()[0])) for l in o3.strip().splitlines()]
            c.check(all(x[0] >= y[0] - 1e-5 for x, y in zip(got, got[1:])), 'walsh-order', 'amplitudes are not sorted: %r' % got[:9])
            c.check(len(got) == len(exp) and all(near(x, y, 3e-4) and u == v for (x, u), (y, v) in zip(sorted((round(a, 4), b) for a, b in got), exp)), 'walsh', '%s prints %r, expected %r' % (c.cmds[-1], got[:8], exp[-8:])); c.count('transforms')
    if n <= 10:
        args = ['-A', 0, '-b', 0, '--print-results', '--print-solution']
        st, o, e = c.run('hnco', base + args, expect=0)
        R, m = results(c, o, args)
        c.check(R['total_num_evaluations'] == 2 ** n, 'complete-search', '%s made %d evaluations' % (c.cmds[-1], R['total_num_evaluations']))
        st, o1, e = c.run('hnco', base + ['--fn-get-maximum'])
        if st == 0: c.check(near(float(o1), R['value']), 'maximum', '%s prints %r, complete search finds %r' % (c.cmds[-1], o1, R['value'])); c.count('maxima')
        st, o, e = c.run('hnco', base + args + ['--minimize'], expect=0)
        R2, m2 = results(c, o, args)
        c.check(-R2['value'] <= R['value'], 'minimum', 'minimum %r, maximum %r' % (-R2['value'], R['value']))
        if f.model: c.check(near(R['value'], float(max(vals)) if n <= 9 else R['value']) and near(-R2['value'], float(min(vals)) if n <= 9 else -R2['value']), 'extrema', 'extrema %r, %r' % (R['value'], -R2['value']))
    c.count('functions'); c.cover(c.cmds[-1])
    return c.cmds[-1]

def g_errors(c):
    r = c.rng
    d = c.dir
    open(os.path.join(d, 'garbage'), 'w').write(''.join(r.choice('01 \n-+.abz{}<>"') for _ in range(r.randint(0, 200))))
    open(os.path.join(d, 'bits5'), 'w').write('01101\n')
    nofile = os.path.join(d, 'none')
    fns = [1, 50, 60, 70, 71, 90, 91, 150, 160, 161, 162, 171, 172, 190, 200, 1000, 1100]
    bad_expr = r.choice(['x+', '(x', 'x)', 'x+*y', '', 'sin x', 'x y', '@x', '1..2+x', 'f(x)'])
    cases = [
        ('hnco', ['--no-such-option']), ('hnco', ['-b']), ('hnco', ['--budget']), ('hnco', ['-?']), ('hnco', ['-Z', '3']), ('hnco', ['--print-results=3', '-b', 10]),
        ('hnco', ['-F', r.choice([-1, 2, 99, 174, 505, 1001, 5000])]), ('hnco', ['-A', r.choice([-1, 1, 99, 311, 1301, 5000]), '-b', 10]), ('hnco', ['-M', r.choice([7, 8, 100]), '--map-random']),
        ('hnco', ['-N', r.choice([4, -1, 99]), '-A', r.choice([20, 100, 200]), '-b', 10]), ('hnco', ['--neighborhood-iterator', r.choice([2, -1]), '-A', r.choice([150, 160]), '-b', 10]), ('hnco', ['--prior-noise', '--pn-neighborhood', r.choice([4, -1])]),
        ('hnco', ['-s', r.choice([0, -1, -100])]), ('hnco', ['--num-threads', r.choice([0, -1])]),
        ('hnco', ['-F', r.choice(fns), '-p', nofile]), ('hnco', ['-F', r.choice(fns[:-2]), '-p', os.path.join(d, 'garbage')]) , ('hnco', ['-M', r.randint(1, 6), '--map-path', nofile]), ('hnco', ['-M', r.randint(1, 6), '--map-path', os.path.join(d, 'garbage')]),
        ('hnco', ['--load-solution', '--solution-path', nofile]), ('hnco', ['--load-solution', '--solution-path', os.path.join(d, 'bits5'), '-s', 6, '--print-results']),
        ('hnco', ['-F', r.choice([500, 501, 503, 504, 510]), '--fp-expression', bad_expr]), ('hnco', ['-F', 500, '--fp-expression', 'x', '--fp-representations', r.choice(['x: double(0', 'x double(0, 1)', 'x: foo(0, 1)', 'x: double(0, 1, siz = 3)', 'x: double()', ': double(0, 1)'])]),
        ('hnco', ['--parsed-modifier', '--expression', r.choice(['x+', '(x', 'y', 'x x'])]), ('hnco', ['--fn-get-maximum', '-F', 80, '-s', 200]), ('hnco', ['--stop-on-maximum', '-F', 80, '-s', 200]),
        ('hnco', ['-b', 10, '--save-results', '--results-path', os.path.join(nofile, 'x')]), ('hnco', ['-b', 10, '--save-solution', '--solution-path', os.path.join(nofile, 'x')]), ('hnco', ['-b', 10, '--save-description', '--description-path', os.path.join(nofile, 'x')]),
        ('ffgen', ['-F', r.choice([0, 2, 50, 500, -1])]), ('ffgen', ['--no-such-option']), ('ffgen', ['-F', r.choice([1, 60, 70, 90, 91, 160, 161, 162, 171, 172, 190]), '-p', os.path.join(nofile, 'x')]), ('ffgen', ['-F', 1, '--lin-generator', 9]), ('ffgen', ['-F', 162, '--walsh2-generator', 7]), ('ffgen', ['-F', 171, '--nn1-generator', 7]), ('ffgen', ['-F', 172, '--nn2-generator', 7]),
        ('mapgen', ['-M', r.choice([0, 7, -1, 50])]), ('mapgen', ['--no-such-option']), ('mapgen', ['-M', r.randint(1, 6), '-p', os.path.join(nofile, 'x')]), ('mapgen', ['-M', r.choice([4, 5]), '-x', 3, '-y', 6, '--surjective']),
        ('hnco-mo', ['--no-such-option']), ('hnco-mo', ['-F', r.choice([0, 100, 525, 9999])]), ('hnco-mo', ['-F', 520, '--fp-expression', 'x+::y']), ('hnco-mo', ['-F', 1100, '-p', nofile]), ('hnco-mo', ['--num-threads', 0, '-F', 520, '--fp-expression', 'x::1-x']), ('hnco-mo', ['-A', 7, '-F', 520, '--fp-expression', 'x::1-x']),
    ]
    prog, args = cases[c.idx % len(cases)] if c.idx < 2 * len(cases) else r.choice(cases)
    if args[:2] == ['-F', 500] and 'double(0, 1, siz' in str(args): pass
    st, o, e = c.run(prog, args)
    c.check(st == 1, 'error-status', '%s ended with status %d: %s' % (c.cmds[-1], st, (o + e)[-300:]))
    c.check(bool(e.strip()), 'error-message', '%s ended with status 1 and no message' % c.cmds[-1])
    c.count('errors ' + prog); c.cover(c.cmds[-1].replace(d, ''))
    return c.cmds[-1].replace(d, '.')

def g_help(c):
    r = c.rng
    progs = {'hnco': ['', 'fn', 'fp', 'rep', 'mod', 'ctrl', 'pn', 'map', 'alg', 'ls', 'sa', 'ea', 'eda', 'hea', 'bm'], 'hnco-mo': ['', 'fn', 'fp', 'rep', 'alg', 'ea'], 'ffgen': [''], 'mapgen': ['']}
    prog = list(progs)[c.idx % 4]
    sec = r.choice(progs[prog])
    st, o, e = c.run(prog, ['--help' + ('-' + sec if sec else '')], expect=0)
    c.check('--' in o + e, 'help', '%s prints no help' % c.cmds[-1])
    c.run(prog, ['--version'], expect=0)
    if prog.startswith('hnco'):
        st, o, e = c.run(prog, ['--print-default-parameters'], expect=0)
        c.check(len(o.splitlines()) > 10, 'default-parameters', '%s prints %r' % (c.cmds[-1], o[:200]))
        if prog == 'hnco':
            it = r.randint(1, 9); mu = r.randint(20, 400)
            st, p, e = c.run(prog, ['-b', 50, '-i', it, '--ea-mu', mu, '--print-parameters', '-s', 20], expect=0)
            c.check(re.search(r'num_iterations = %d$' % it, p, re.M) and re.search(r'ea_mu = %d$' % mu, p, re.M) and re.search(r'bv_size = 20$', p, re.M), 'parameters', '%s prints %r' % (c.cmds[-1], p[:600])); c.count('parameters')
    c.count('help'); c.cover(c.cmds[-1] + sec + str(c.idx % 8))
    return c.cmds[-1]

def g_multi(c):
    r = c.rng
    f = r.choice([520, 521, 523, 524, 530, 531, 533, 534])
    e, m = r.choice([('x::y', lambda x, y: (x, y)), ('x*x::(x-2)^2', lambda x, y: (x * x, (x - 2) ** 2)), ('x+y::x-y::3-x', lambda x, y: (x + y, x - y, 3 - x)), ('x-5::y+1', lambda x, y: (x - 5, y + 1))])
    if f % 10 == 1: e = e.replace('(x-2)^2', '(x-2)*(x-2)')
    isint = f % 10 in (1, 3)
    ty = {1: 'long', 3: 'int'}.get(f % 10)
    hi = r.choice([7, 15])
    rep = 'x: %s(0, %d); y: %s(-3, %d)' % (ty, hi, ty, hi) if isint else 'x: double(-2, 4, size = %d); y: double(0, 8, size = %d)' % (r.randint(3, 10), r.randint(3, 10))
    mu = r.randint(4, 30); it = r.randint(1, 20); seed = r.randint(0, 2 ** 31)
    base = ['-F', f, '--fp-expression', e, '--fp-representations', rep, '--seed', seed]
    n = int(c.run('hnco-mo', base + ['--fn-get-bv-size'], expect=0)[1])
    k = int(c.run('hnco-mo', base + ['--fn-get-output-size'], expect=0)[1])
    c.check(k == len(m(1, 1)), 'mo-outputs', '%s prints %d' % (c.cmds[-1], k))
    opts = ['--ea-mu', mu, '-i', it, '--print-pareto-front', '--num-threads', r.choice([1, 1, 2]), '--ea-tournament-size', r.randint(2, 3)]
    if r.random() < .4: opts += ['-m', '0.2']
    if r.random() < .4: opts += ['--ea-allow-no-mutation']
    st, o, er = c.run('hnco-mo', base + opts, expect=0)
    front = [tuple(float(x) for x in l.split()) for l in o.strip().splitlines()]
    c.check(1 <= len(front) <= mu and all(len(v) == k for v in front), 'mo-front', '%s prints %d values' % (c.cmds[-1], len(front)))
    for u in front:
        for v in front:
            c.check(not (all(a <= b for a, b in zip(u, v)) and any(a < b and not near(a, b, 1e-5) for a, b in zip(u, v))), 'mo-dominated', '%s prints %r and %r' % (c.cmds[-1], u, v))
    st, o2, er = c.run('hnco-mo', base + opts, expect=0)
    c.check(o2 == o, 'mo-reproducible', '%s twice prints different fronts' % c.cmds[-1])
    i = opts.index('--print-pareto-front')
    st, o3, er = c.run('hnco-mo', base + opts[:i] + ['--print-description'] + opts[i + 1:], expect=0)
    descs = re.findall(r'Objectives: (.*)\n((?:.+\n)*)', o3)
    c.check(len(descs) == len(front), 'mo-descriptions', '%d descriptions for %d values' % (len(descs), len(front)))
    for head, body in descs:
        vals = dict(re.findall(r'^\s*(\w+) = (\S+)', body, re.M))
        obj = [float(x) for x in re.findall(r'-?[\d.]+(?:e[-+]?\d+)?|inf', head)]
        if 'x' in vals and 'y' in vals:
            exp = m(float(vals['x']), float(vals['y']))
            if f >= 530: exp = tuple(abs(v) for v in exp)
            c.check(len(obj) == k and all(abs(a - b) <= 1e-3 * (1 + abs(b)) for a, b in zip(obj, exp)), 'mo-values', '%s: objectives %r of x=%s y=%s, expected %r' % (c.cmds[-1], obj, vals['x'], vals['y'], exp)); c.count('described solutions')
    c.run('hnco-mo', base + ['--fn-display'], expect=0)
    c.count('fronts'); c.cover(c.cmds[-1] + str(front))
    return c.cmds[-1]

def g_plugin(c):
    r = c.rng
    n = r.randint(3, 30)
    so = os.path.join(c.env.tmp, 'plug.so')
    base = ['-F', 1000, '-s', n, '-p', so, '--fn-name', r.choice(['weighted', 'ones']), '--seed', r.randint(0, 99999)]
    x = ''.join(r.choice('01') for _ in range(n))
    v = evaluate(c, base, x)
    exp = sum((i + 1) * int(b) for i, b in enumerate(x)) if base[7] == 'weighted' else x.count('1')
    c.check(near(v, exp), 'plugin', '%s prints %r, expected %r' % (c.cmds[-1], v, exp))
    st, o, e = c.run('hnco', base + ['-A', 300, '-b', 50, '--print-results', '--print-solution'], expect=0)
    R, m = results(c, o, base)
    sol = o[m.end():].strip()
    exp = sum((i + 1) * int(b) for i, b in enumerate(sol)) if base[7] == 'weighted' else sol.count('1')
    c.check(near(R['value'], exp), 'plugin-value', '%s: value %r, expected %r' % (c.cmds[-1], R['value'], exp))
    st, o, e = c.run('hnco', base[:7] + ['nosuch'] + ['-b', 3])
    c.check(st == 1 and e.strip(), 'plugin-missing', '%s ended with %d' % (c.cmds[-1], st))
    c.count('plugins'); c.cover(c.cmds[-2] + x)
    return c.cmds[-2]

def g_human(c):
    """The interactive algorithm: every bit vector typed in is evaluated and its value printed, until quit, the end of the input, the last iteration or the end of the budget."""
    r = c.rng
    n = r.randint(1, 12); ones = r.random() < .5
    lines, asked = [], []
    for _ in range(r.randint(0, 8)):
        k = r.random(); m = n if k < .6 else n + r.randint(1, 5) if k < .8 else max(0, n - r.randint(1, 3))
        t = ''.join(r.choice('01') for _ in range(m))
        if not t: continue
        lines.append(t)
        if m >= n: asked.append(t[:n])
    it = r.choice([0, 0, r.randint(1, 6)]); b = r.choice([0, 0, r.randint(1, 6)])
    limit = len(asked)
    if it: limit = min(limit, it + 1)
    if b: limit = min(limit, b)
    end = r.choice(['quit\n', '', 'quit\n1' * 3]); text = '\n'.join(lines) + ('\n' if lines else '') + end
    if r.random() < .1 and not end: text = text.rstrip('\n')
    args = ['-A', 30, '-F', 0 if ones else 11, '-s', n, '-i', it, '-b', b, '--print-results', '--print-solution']
    cmd = [c.env.bin['hnco']] + [str(a) for a in args]
    c.cmds.append('hnco ' + ' '.join(str(a) for a in args) + ' <<< ' + repr(text))
    try: p = subprocess.run(['bash', '-c', '"$@" | head -c 300000; exit ${PIPESTATUS[0]}', '_'] + cmd, cwd=c.dir, env=c.env.penv, input=text.encode(), capture_output=True, timeout=300)
    except subprocess.TimeoutExpired: raise Viol('hang:human', '%s did not end' % c.cmds[-1])
    c.count('processes'); out, err = p.stdout.decode(), p.stderr.decode('utf8', 'replace')
    if re.search(r'AddressSanitizer|runtime error:|Assertion .* failed', err): raise Viol(c.env.tools.crash_key('hnco', p.returncode, err), '%s ended with status %d: %s' % (c.cmds[-1], p.returncode, err[-3000:]))
    c.check(p.returncode == 0, 'human-status', '%s ended with status %d after %d bytes of output: %s' % (c.cmds[-1], p.returncode, len(out), err[-300:]))
    val = lambda t: float(t.count('1')) if ones else evaluate(c, ['-F', 11, '-s', n], t)
    shown = [float(x) for x in re.findall(r'value: (\S+)', out)]
    want = [val(t) for t in asked[:limit]]
    c.check(shown == want, 'human-values', '%s shows the values %r, expected %r' % (c.cmds[-1], shown, want))
    R, m = results(c, out, args)
    c.check(R['total_num_evaluations'] == limit, 'human-evaluations', '%s counts %d evaluations instead of %d' % (c.cmds[-1], R['total_num_evaluations'], limit))
    if limit:
        best = max(want); sol = out[m.end():].split('\n')[0]
        c.check(R['value'] == best, 'human-best', '%s reports %r, the best value is %r' % (c.cmds[-1], R['value'], best))
        c.check(sol in asked[:limit] and val(sol) == best, 'human-solution', '%s reports the solution %s' % (c.cmds[-1], sol))
    c.count('interactive evaluations', limit); c.cover(c.cmds[-1])

def g_representations(c):
    """declared domains: complete search over them finds their documented ends"""
    r = c.rng
    kind = r.choice(['int', 'long', 'double', 'set', 'int', 'long']); f = {'int': 503, 'long': r.choice([501, 504]), 'double': r.choice([500, 504]), 'set': 504}[kind]
    sp = lambda: r.choice(['', ' ', '  '])
    if kind in ('int', 'long'):
        a = r.choice([0, r.randint(-200, 200), r.randint(-10 ** 5, 10 ** 5)]); b = a + r.choice([0, 1, 2, 3, 7, 8, 15, 16, r.randint(0, 60)])
        rep = '%s(%s%d%s,%s%d%s)' % (kind, sp(), a, sp(), sp(), b, sp()); lo, hi, bits, tol = a, b, (b - a).bit_length(), 0
    elif kind == 'double':
        a = round(r.uniform(-9, 5), 2); b = round(a + r.uniform(.5, 9), 2); q = r.randint(1, 6); lo, bits = a, q
        if r.random() < .5: rep = 'double(%s%r, %r, size%s=%s%d)' % (sp(), a, b, sp(), sp(), q)
        else:
            e = (b - a) / 2 ** q * 1.01; rep = 'double(%r,%r, precision = %r)' % (a, b, e)
        hi = b - (b - a) / 2 ** q; tol = 2e-5 * (abs(a) + abs(b) + 1)
    else:
        v = [round(r.uniform(-9, 9), 2) for _ in range(r.randint(1, 9))]; rep = 'set(%s)' % ', '.join('%r' % x for x in v); lo, hi, bits, tol = min(v), max(v), (len(v) - 1).bit_length(), 1e-4
    ty = {503: 'int', 501: 'long', 500: 'double', 504: r.choice(['long', 'double'])}[f]
    bits = max(1, bits)
    other = {'int': 'int(3, 4)', 'long': 'long(3, 4)', 'double': 'double(3, 5, size = 1)'}[ty]
    decl = ['x%s:%s%s' % (sp(), sp(), rep), 'y:%s' % other]; r.shuffle(decl)
    args = ['-F', f, '--fp-expression', r.choice(['x+y', 'y+x', 'x-7+y+7'])]
    text = (';' + sp()).join(decl) + r.choice(['', ';'])
    if r.random() < .3:
        path = os.path.join(c.dir, 'reps'); open(path, 'w').write(text); args += ['--fp-representations-path', path]
    else: args += ['--fp-representations', text]
    n = int(c.run('hnco', args + ['--fn-get-bv-size'], expect=0)[1])
    c.check(n == bits + 1, 'representation-size', '%s prints %d, expected %d' % (c.cmds[-1], n, bits + 1))
    for opt, want in (([], hi + 4), (['--minimize'], -(lo + 3))):
        st, o, e = c.run('hnco', args + ['-A', 0, '-b', 0, '--print-results'] + opt, expect=0)
        v = json.loads(o)['value']; c.check(abs(v - want) <= tol + 1e-5 * abs(want) * (abs(want) > 99999), 'representation-range', '%s: value %r, expected %r' % (c.cmds[-1], v, want)); c.count('domain ends')
    c.cover(text); return c.cmds[-1]

GROUPS = [('runs', g_runs, 900, 20000), ('information', g_information, 120, 2500), ('errors', g_errors, 150, 2000), ('help', g_help, 40, 120), ('multi', g_multi, 100, 2500), ('plugin', g_plugin, 12, 120), ('human', g_human, 60, 800), ('representations', g_representations, 60, 1500)]

class Env:
    pass

def build(tools, programs=('hnco', 'hnco-mo', 'ffgen', 'mapgen')):
    env = Env()
    env.tools = tools
    env.bin = {}
    A = os.path.join(buildlib.REPO, 'app')
    for name, src in (('hnco', ['hnco.cc']), ('hnco-mo', ['hnco-mo.cc']), ('ffgen', ['ffgen.cc', 'ffgen-options.cc']), ('mapgen', ['mapgen.cc', 'mapgen-options.cc'])):
        if name in programs: env.bin[name] = buildlib.build('app-' + name, 'asan', [os.path.join(A, s) for s in src], scope='all')
    env.penv = dict(os.environ)
    env.penv.update(tools.SAN_ENV)
    env.penv['OMP_WAIT_POLICY'] = 'passive'
    env.penv['GOMP_SPINCOUNT'] = '0'
    return env

def run(pid, part, tier, seed, tmp, res, tools):
    env = build(tools)
    env.tmp = tmp
    open(os.path.join(tmp, 'plug.c'), 'w').write('#include <stddef.h>\ndouble weighted(const char x[], size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += (i + 1) * (x[i] != 0); return s; }\ndouble ones(const char x[], size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += x[i] != 0; return s; }\n')
    subprocess.run(['gcc', '-shared', '-fPIC', '-o', os.path.join(tmp, 'plug.so'), os.path.join(tmp, 'plug.c')], check=True)
    jobs = []
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    for name, fn, q, t in GROUPS:
        for i in range(max(1, int((q if tier == 'quick' else t) * scale))):
            jobs.append((name, fn, i))
    drive(env, jobs, seed, tier, part, res)

def drive(env, jobs, seed, tier, part, res):
    lock = threading.Lock()
    stop = []
    def one(job):
        if len(stop) > 40:
            return
        name, fn, i = job
        h = int(hashlib.sha256(('%d/%s/%d' % (seed, name, i)).encode()).hexdigest()[:12], 16)
        c = Ctx(env, random.Random(h), name, i)
        viol = errr = None
        sample = None
        try:
            sample = fn(c)
        except Viol as v:
            viol = (v.key, v.detail)
        except Inconclusive as e:
            errr = str(e)
        except Exception as e:      # output the monitor cannot read
            viol = ('unreadable:' + name, '%s: %s after %s' % (type(e).__name__, e, c.cmds[-1:] ))
        shutil.rmtree(c.dir, ignore_errors=True)
        with lock:
            res.cases += 1
            res.observations += c.obs
            res.group_cases['cli_' + name] = res.group_cases.get('cli_' + name, 0) + 1
            res.group_obs['cli_' + name] = res.group_obs.get('cli_' + name, 0) + c.obs
            res.cov |= c.cov
            for k, v in c.counts.items():
                res.counts['cli ' + k] = res.counts.get('cli ' + k, 0) + v
            if sample and i < 2:
                res.samples.append('cli_%s#%d: %s' % (name, i, sample[:300]))
            if viol:
                stop.append(1)
                res.violations.append(dict(key='cli:' + viol[0], detail=viol[1] + ' [commands: ' + ' ; '.join(c.cmds)[-3000:] + ']', group='cli_' + name, idx=i, part=part['name'], variant='asan', seed=seed, tier=tier))
            if errr:
                res.errors.append(errr)
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(one, jobs))
