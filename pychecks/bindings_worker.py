"""C22: runs inside a Python interpreter which has imported the module built from bindings/hnco.cc (sanitizers on).
usage: bindings_worker.py GROUP SEED FROM TO OUT    (one JSON line per case in OUT)"""
import gc, hashlib, io, json, math, os, random, sys, tempfile, contextlib
import hnco, hnco.algorithm as al, hnco.function as fn, hnco.function.controller as ct, hnco.function.modifier as md
import hnco.map as mp, hnco.neighborhood as nb, hnco.random as rd, hnco.representation as rp
import hnco.multiobjective.algorithm as ma, hnco.multiobjective.function as mf

BV, PM = hnco.BitVector, hnco.Permutation

class Viol(Exception):
    def __init__(self, key, detail):
        Exception.__init__(self, key + ': ' + detail)
        self.key, self.detail = key, detail

class Ctx:
    def __init__(self, seed, group, idx, tmp):
        self.rng = random.Random(int(hashlib.sha256(('%d/%s/%d' % (seed, group, idx)).encode()).hexdigest()[:12], 16))
        self.idx, self.group, self.obs, self.counts, self.cov, self.desc, self.tmp = idx, group, 0, {}, set(), '', tmp
    def check(self, ok, key, detail=''):
        self.obs += 1
        if not ok:
            raise Viol(key, detail() if callable(detail) else detail)
    def eq(self, a, b, key, what=''):
        self.obs += 1
        if a != b:
            raise Viol(key, '%s: %r instead of %r' % (what, a, b))
    def close(self, a, b, key, what='', tol=1e-9):
        self.obs += 1
        if not (a == b or abs(a - b) <= tol * (1 + abs(b))):
            raise Viol(key, '%s: %r instead of %r' % (what, a, b))
    def raises(self, exc, f, key, what='', text=None):
        self.obs += 1
        try:
            f()
        except exc as e:
            if text and text not in str(e): raise Viol(key, '%s: message %r' % (what, str(e)[:200]))
            return e
        except Viol:
            raise
        except BaseException as e:
            raise Viol(key, '%s: raises %s (%s) instead of %r' % (what, type(e).__name__, str(e)[:200], exc))
        raise Viol(key, '%s: raises nothing, expected %r' % (what, exc))
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def cover(self, s): self.cov.add(int(hashlib.sha1((self.group + '/' + s).encode()).hexdigest()[:15], 16))
    def bits(self, n): return [self.rng.randint(0, 1) for _ in range(n)]
    def path(self, name): return os.path.join(self.tmp, '%s-%d-%s' % (self.group, self.idx, name))

def vec(x): return BV([int(b) for b in x])
def ls(x): return [int(b) for b in x]

# ---------------------------------------------------------------- containers
def g_vectors(c):
    r = c.rng
    kind = c.idx % 3
    cls = [BV, PM, mf.Value][kind]
    elem = [lambda: r.randint(0, 1), lambda: r.randint(-50, 50), lambda: r.choice([r.uniform(-9, 9), float(r.randint(-5, 5))])][kind]
    m = [elem() for _ in range(r.randint(0, 8))]
    v = cls(m)
    for _ in range(r.randint(1, 40)):
        k = r.randint(0, 17); what = '%s after operation %d on %r' % (cls.__name__, k, m)
        if k == 0: e = elem(); m.append(e); v.append(e)
        elif k == 1:
            if m: c.eq(v.pop(), m.pop(), 'pop', what)
            else: c.raises(IndexError, v.pop, 'pop-empty', what)
        elif k == 2:
            i = r.randint(0, len(m)); e = elem(); m.insert(i, e); v.insert(i, e)
        elif k == 3 and m:
            i = r.randint(-len(m), len(m) - 1); e = elem(); m[i] = e; v[i] = e
        elif k == 4 and m:
            i = r.randint(-len(m), len(m) - 1); c.eq(v[i], m[i], 'getitem', what)
        elif k == 5 and m:
            i = r.randint(-len(m), len(m) - 1); del m[i]; del v[i]
        elif k == 6:
            a, b, s = [r.choice([None, r.randint(-9, 9)]) for _ in range(2)] + [r.choice([None, 1, 2, -1, -2])]
            c.eq(list(v[a:b:s]), m[a:b:s], 'slice', what + ' slice %r' % ((a, b, s),))
        elif k == 7:
            e = [elem() for _ in range(r.randint(0, 3))]; m.extend(e); v.extend(r.choice([e, cls(e)]))
        elif k == 8: e = elem(); c.eq(v.count(e), m.count(e), 'count', what)
        elif k == 9: e = elem(); c.eq(e in v, e in m, 'contains', what)
        elif k == 10:
            e = elem()
            if e in m: m.remove(e); v.remove(e)
            else: c.raises(ValueError, lambda: v.remove(e), 'remove', what)
        elif k == 11: c.raises(IndexError, lambda: v[len(m) + r.randint(0, 5)], 'index-error', what)
        elif k == 12: w = cls(v); c.eq(w == v, True, 'equal', what); w.append(elem()); c.check(w != v and list(v) == m, 'copy', what)
        elif k == 13: c.eq(bool(v), bool(m), 'bool', what)
        elif k == 14: c.eq(list(iter(v)), m, 'iter', what)
        elif k == 15 and m:
            i = r.randint(0, len(m) - 1); c.eq(v.pop(i), m.pop(i), 'pop', what)
        elif k == 16 and r.random() < .1: m.clear(); v.clear()
        elif k == 17 and len(m) > 2:
            a = r.randint(0, len(m) - 1); b = r.randint(a, len(m)); del m[a:b]; del v[a:b]
        c.eq(list(v), m, 'contents', what); c.eq(len(v), len(m), 'len', what)
    if kind == 0:
        c.eq(str(v), ''.join(map(str, m)), 'str', 'str')
        n = r.randint(0, 30); c.eq(list(BV(n)), [0] * n, 'init'); b = r.randint(0, 1); c.eq(list(BV(n, b)), [b] * n, 'init')
        rd.Generator.set_seed(r.randint(0, 2 ** 32 - 1)); w = BV(64); w.random(); c.check(set(ls(w)) == {0, 1} and len(w) == 64, 'random', str(w))
        c.raises(TypeError, lambda: fn.OneMax(3).evaluate([0, 1, 1]), 'type', 'a list is not a bit vector')
    if kind == 1:
        n = r.randint(1, 20); w = PM(n); c.eq(len(w), n, 'init'); w.random(); c.eq(sorted(w), list(range(n)), 'random', 'permutation of %d' % n)
    if kind == 2:
        n = r.randint(0, 9); c.eq(list(mf.Value(n)), [0.0] * n, 'init'); c.eq(list(mf.Value(n, 1.5)), [1.5] * n, 'init')
        c.eq(str(mf.Value([1.5, -2])), '(1.5, -2)', 'str')
    c.cover('%d %r' % (kind, m)); c.count('histories')
    c.desc = cls.__name__ + ' ' + repr(m)[:80]

# ---------------------------------------------------------------- functions
def lead(x, b=1):
    k = 0
    while k < len(x) and x[k] == b: k += 1
    return k
def peaks(x, t, six):
    n = len(x); y = x[::-1]; h1, t0, h0, t1 = lead(x), lead(y, 0), lead(x, 0), lead(y)
    v = max(h1, t0); rew = h1 > t and t0 > t
    if six: v = max(v, h0, t1); rew = rew or (h0 > t and t1 > t)
    return v + (n if rew else 0)
def hiff(x):
    n = len(x); s = sum(x); v = n if s in (0, n) else 0
    return v + (hiff(x[:n // 2]) + hiff(x[n // 2:]) if n > 1 else 0)
def ridge(x): n, k, w = len(x), lead(x), sum(x); return n + k if k == w else n - w
def plateau(x): n, k, w = len(x), lead(x), sum(x); return n + 2 if k == n else n + 1 if k == w else n - w
def labs(x):
    s = [1 - 2 * b for b in x]; n = len(s)
    return sum(sum(s[i] * s[i + k] for i in range(n - k)) ** 2 for k in range(1, n))
def cancel(x, sinus):
    t = p = 0.0
    for i in range(len(x) // 9):
        v = sum(x[9 * i + 1 + j] << j for j in range(8)) - (256 if x[9 * i] else 0)
        u = v / 100.0; p = u if i == 0 else u + (math.sin(p) if sinus else p); t += abs(p)
    return -t
def long_path(n, k):
    p = [()]
    for d in range(k, n + 1, k):
        q = [(0,) * k + x for x in p] + [(0,) * (k - i) + (1,) * i + p[-1] for i in range(1, k)] + [(1,) * k + x for x in reversed(p)]
        p = q
    return p

def gen_closed(c):
    """-> (function, model, known maximum or None, name)"""
    r = c.rng; n = r.choice([r.randint(1, 8), r.randint(2, 40)])
    k = r.choice(['OneMax', 'LeadingOnes', 'Needle', 'Hiff', 'Ridge', 'Plateau', 'Trap', 'Jump', 'DeceptiveJump', 'FourPeaks', 'SixPeaks', 'Labs', 'LabsMf', 'SummationCancellation', 'SinusSummationCancellation', 'LongPath'])
    F = getattr(fn, k.replace('LabsMf', 'Labs'))
    if k == 'OneMax': return F(n), sum, n, k
    if k == 'LeadingOnes': return F(n), lead, n, k
    if k == 'Needle': return F(n), lambda x: int(all(x)), 1, k
    if k == 'Hiff': d = r.randint(0, 5); return F(2 ** d), hiff, (d + 1) * 2 ** d, k
    if k == 'Ridge': return F(n), ridge, 2 * n, k
    if k == 'Plateau': return F(n), plateau, n + 2, k
    if k == 'Trap':
        t, s = r.randint(1, 5), r.randint(1, 5)
        return F(t * s, t), lambda x: sum(s if sum(x[b * s:b * s + s]) == s else s - 1 - sum(x[b * s:b * s + s]) for b in range(t)), t * s, k
    if k == 'Jump': g = r.randint(1, n); return F(n, g), lambda x: sum(x) if sum(x) == n or sum(x) <= n - g else 0, n, k
    if k == 'DeceptiveJump': g = r.randint(1, n); return F(n, g), lambda x: n - sum(x) if n - g < sum(x) < n else g + sum(x), n + g, k
    if k in ('FourPeaks', 'SixPeaks'): n = max(n, 2); t = r.randint(0, n // 2 - 1); return F(n, t), lambda x: peaks(x, t, k == 'SixPeaks'), 2 * n - t - 1, k
    if k == 'Labs': return F(n), lambda x: -labs(x), None, k
    if k == 'LabsMf': n = max(n, 2); f = F(n); f.set_merit_factor_flag(True); return f, lambda x: n * n / (2 * labs(x)), None, k
    if k.endswith('Cancellation'): m = r.randint(1, 5); return F(9 * m), lambda x: cancel(x, k[0:2] == 'Si'), 0, k
    p = r.randint(2, 4); n = p * r.randint(1, 3); pts = {x: i for i, x in enumerate(long_path(n, p))}
    return F(n, p), lambda x: pts[tuple(x)] + 1 if tuple(x) in pts else -(n * sum(x[:p]) + sum(x[p:])), len(pts), k

def points(c, n, k=12):
    r = c.rng; out = []
    for _ in range(k):
        j = r.randint(0, 5)
        if j == 0: t = r.randint(0, n); out.append([1] * t + [0] * (n - t))
        elif j == 1: t = r.randint(0, n); out.append([0] * t + [1] * (n - t))
        elif j == 2: p = r.random(); out.append([int(r.random() < p) for _ in range(n)])
        elif j == 3: out.append([1] * n)
        else: out.append(c.bits(n))
    return out

def g_functions(c):
    r = c.rng
    if c.idx % 2 == 0:
        f, model, mx, name = gen_closed(c); n = f.get_bv_size()
        c.eq(f.has_known_maximum() or mx is None, True, 'known', name)
        if mx is not None: c.close(f.get_maximum(), mx, 'maximum', name)
        for x in points(c, n):
            v = vec(x); c.close(f.evaluate(v), model(x), 'value', '%s(%d) of %r' % (name, n, x)); c.eq(ls(v), x, 'argument-changed', name)
        c.check(bool(str(f).strip()), 'str', name)
        c.cover(name + str(n)); c.desc = '%s n=%d' % (name, n); c.count('closed forms'); return
    # instances drawn, saved, loaded; parsed when the format is textual
    n = r.randint(2, 24); seed = r.randint(0, 2 ** 32 - 1)
    k = r.choice(['MaxSat', 'MaxSatP', 'MaxNae', 'LinearFunction', 'EqualProducts', 'NearestNeighborIsingModel1', 'NearestNeighborIsingModel2', 'NkLandscape', 'Partition', 'Qubo', 'WalshExpansion', 'WalshExpansion1', 'WalshExpansion2'])
    p = c.path('f'); model = None; mx = None
    def make():
        rd.Generator.set_seed(seed)
        if k == 'MaxSat': f = fn.MaxSat(); f.random(n, lits, cls)
        elif k == 'MaxSatP': f = fn.MaxSat(); f.random(planted, lits, cls)
        elif k in ('MaxNae', 'Qubo'): f = fn.MaxNae3Sat() if k == 'MaxNae' else fn.Qubo(); f.load(p)
        else:
            f = getattr(fn, k)(); a = {'NearestNeighborIsingModel2': (rows, cols), 'NkLandscape': (n, kk), 'Partition': (n, 50), 'WalshExpansion': (n, nf)}.get(k, (n,)); f.random(*a)
        if k.startswith('Nearest') and per: f.set_periodic_boundary_conditions(True)
        return f
    lits = r.randint(1, min(3, n)); cls = r.randint(1, 30); planted = vec(c.bits(n)); rows, cols = r.randint(1, 5), r.randint(1, 5); kk = r.randint(1, min(4, n - 1)); nf = r.randint(1, 20); per = r.random() < .5
    if k == 'MaxNae':
        n = max(n, 3); e = [[v * r.choice([-1, 1]) for v in r.sample(range(1, n + 1), 3)] for _ in range(cls)]
        open(p, 'w').write('p cnf %d %d\n' % (n, cls) + ''.join(' '.join(map(str, q)) + ' 0\n' for q in e))
        model = lambda x: sum(1 for q in e if 0 < sum((l > 0) == bool(x[abs(l) - 1]) for l in q) < 3)
    if k == 'Qubo':
        q = {(i, j): r.choice([-1, 1]) * r.randint(1, 9) for i in range(n) for j in range(i, n) if r.random() < .5}
        open(p, 'w').write('p qubo 0 %d %d %d\n' % (n, sum(i == j for i, j in q), sum(i != j for i, j in q)) + ''.join('%d %d %d\n' % (i, j, v) for (i, j), v in q.items()))
        model = lambda x: -sum(v for (i, j), v in q.items() if x[i] and x[j])
    f = make(); m = rows * cols if k == 'NearestNeighborIsingModel2' else n
    c.eq(f.get_bv_size(), m, 'size', k)
    xs = points(c, m); vals = [f.evaluate(vec(x)) for x in xs]
    c.eq([make().evaluate(vec(x)) for x in xs], vals, 'seed', k + ': same seed, same instance')
    if k not in ('MaxNae', 'Qubo'):
        f.save(p); g = getattr(fn, k.replace('MaxSatP', 'MaxSat'))(); g.load(p)
        if k.startswith('Nearest') and per: g.set_periodic_boundary_conditions(True)
        c.eq(g.get_bv_size(), m, 'loaded-size', k)
        for x, v in zip(xs, vals): c.close(g.evaluate(vec(x)), v, 'loaded-value', '%s of %r' % (k, x), 1e-12)
        c.count('round trips')
    if k.startswith('MaxSat'):
        L = [l.split() for l in open(p) if l.strip() and l[0] not in 'cp']; e = [[int(t) for t in l[:-1]] for l in L]
        c.eq((len(e), {len(q) for q in e}), (cls, {lits}), 'maxsat', 'clauses')
        model = lambda x: sum(any((l > 0) == bool(x[abs(l) - 1]) for l in q) for q in e)
        if k == 'MaxSatP': c.eq(f.evaluate(planted), float(cls), 'planted', 'value of the planted solution')
    if model:
        for x, v in zip(xs, vals): c.close(v, model(x), 'value', '%s of %r' % (k, x))
    if k in ('LinearFunction', 'WalshExpansion1'):
        z = f.evaluate(vec([0] * m)); u = [f.evaluate(vec([int(i == j) for j in range(m)])) - z for i in range(m)]
        for x, v in zip(xs, vals): c.close(v, z + sum(a for a, b in zip(u, x) if b), 'linear', k, 1e-8)
        c.close(f.get_maximum(), z + sum(a for a in u if a > 0), 'maximum', k, 1e-8)
    if k == 'Partition': c.check(all(v <= 0 and v == int(v) for v in vals), 'partition', repr(vals))
    if os.path.exists(p): os.unlink(p)
    c.check(bool(str(f).strip()), 'str', k); c.cover(k + repr(vals)); c.desc = '%s n=%d' % (k, m); c.count('instances')

# ---------------------------------------------------------------- maps
def apply(m, x):
    y = BV(m.get_output_size()); m.map(vec(x), y); return ls(y)
def xor(a, b): return [i ^ j for i, j in zip(a, b)]
def g_maps(c):
    r = c.rng; n, k = r.randint(1, 10), r.randint(1, 10); rd.Generator.set_seed(r.randint(0, 2 ** 32 - 1))
    kind = ['Translation', 'Permutation', 'LinearMap', 'AffineMap', 'TsAffineMap', 'MapComposition', 'Injection', 'Projection'][c.idx % 8]
    def simple(kind, n, k):
        m = getattr(mp, kind)()
        if kind in ('Translation', 'Permutation'): m.random(n)
        elif kind == 'TsAffineMap': m.random(n, t, int(mode))
        else: m.random(k, n, surj)
        return m
    mode = r.choice([mp.TsAffineMap.SamplingMode.Unconstrained, mp.TsAffineMap.SamplingMode.CommutingTransvections, mp.TsAffineMap.SamplingMode.UniqueSource, mp.TsAffineMap.SamplingMode.UniqueDestination, mp.TsAffineMap.SamplingMode.DisjointTransvections, mp.TsAffineMap.SamplingMode.NonCommutingTransvections])
    t = r.randint(0, 6); surj = k <= n and r.random() < .5
    if kind == 'TsAffineMap': n = max(n, 3)
    if kind == 'MapComposition':
        k1, k2 = r.choice(['Translation', 'Permutation', 'LinearMap', 'AffineMap']), r.choice(['Translation', 'Permutation', 'LinearMap', 'AffineMap'])
        surj = False
        a = r.randint(1, 8); b = a if k2 in ('Translation', 'Permutation') else r.randint(1, 8); d = b if k1 in ('Translation', 'Permutation') else r.randint(1, 8)
        inner = simple(k2, a, b); outer = simple(k1, b, d); m = mp.MapComposition(outer, inner)
        c.eq((m.get_input_size(), m.get_output_size()), (a, d), 'sizes', 'composition')
        for _ in range(10): x = c.bits(a); c.eq(apply(m, x), apply(outer, apply(inner, x)), 'composition', '%s after %s of %r' % (k1, k2, x))
        c.check(not m.is_surjective() or outer.is_surjective() and inner.is_surjective(), 'surjective', 'composition')
        c.cover(k1 + k2); c.count('compositions'); c.desc = kind; return
    if kind in ('Injection', 'Projection'):
        big = r.randint(1, 12); small = r.randint(1, big); pos = sorted(r.sample(range(big), small))
        if kind == 'Injection':
            m = mp.Injection(PM(pos), big); c.eq((m.get_input_size(), m.get_output_size()), (small, big), 'sizes', kind)
            for _ in range(5): x = c.bits(small); y = [0] * big; [y.__setitem__(p, b) for p, b in zip(pos, x)]; c.eq(apply(m, x), y, 'injection', '%r of %r' % (pos, x))
        else:
            m = mp.Projection(PM(pos), big); c.eq((m.get_input_size(), m.get_output_size()), (big, small), 'sizes', kind)
            for _ in range(5): x = c.bits(big); c.eq(apply(m, x), [x[p] for p in pos], 'projection', '%r of %r' % (pos, x))
        c.eq(m.is_surjective(), kind == 'Projection' or big == small, 'surjective', kind); c.cover(kind + repr(pos) + str(big)); c.count(kind); c.desc = kind; return
    m = simple(kind, n, k); a, b = m.get_input_size(), m.get_output_size()
    c.eq((a, b), (n, k if kind in ('LinearMap', 'AffineMap') else n), 'sizes', kind)
    z = apply(m, [0] * a); cols = [xor(apply(m, [int(i == j) for j in range(a)]), z) for i in range(a)]
    for _ in range(10):
        x = c.bits(a); y = z
        for i in range(a):
            if x[i]: y = xor(y, cols[i])
        c.eq(apply(m, x), y, 'affine', '%s of %r' % (kind, x))
    rank = 0; rows = [sum(v << i for i, v in enumerate(col)) for col in cols]; basis = []
    for w in rows:
        for q in basis: w = min(w, w ^ q)
        if w: basis.append(w)
    rank = len(basis)
    if kind == 'LinearMap' or kind == 'Permutation': c.eq(z, [0] * b, 'linear', kind)
    if kind == 'Translation': c.eq(cols, [[int(i == j) for j in range(a)] for i in range(a)], 'translation', kind)
    if kind == 'Permutation': c.eq(sorted(map(sum, cols)), [1] * a, 'permutation', kind)
    if kind in ('Permutation', 'Translation', 'TsAffineMap'): c.eq(rank, n, 'bijective', kind)
    c.eq(m.is_surjective(), rank == b, 'surjective', '%s of rank %d to %d bits' % (kind, rank, b))
    if surj and kind in ('LinearMap', 'AffineMap'): c.eq(rank, b, 'sampled-surjective', kind)
    p = c.path('map'); m.save(p); g = getattr(mp, kind)(); g.load(p); os.unlink(p)
    for _ in range(6): x = c.bits(a); c.eq(apply(g, x), apply(m, x), 'loaded', kind)
    if kind == 'TsAffineMap': c.check(int(mode) in range(6), 'mode', repr(mode)); c.count('mode %d' % int(mode))
    if kind == 'TsAffineMap':
        # commuting transvections (no coordinate is both source and destination): no composite path
        A = [[cols[j][i] for j in range(a)] for i in range(a)]
        if int(mode) == int(mp.TsAffineMap.SamplingMode.CommutingTransvections): c.count('commuting')
    c.raises(RuntimeError, lambda: getattr(mp, kind)().load('/nonexistent/x'), 'load-error', kind)
    c.check(isinstance(str(m), str), 'str', kind); c.cover(kind + repr(cols)); c.count(kind); c.desc = '%s %d->%d' % (kind, a, b)

# ---------------------------------------------------------------- neighborhoods and iterators
def ham(a, b): return sum(x != y for x, y in zip(a, b))
def g_neighborhoods(c):
    r = c.rng; n = r.randint(1, 14); rad = r.randint(1, n); rd.Generator.set_seed(r.randint(0, 2 ** 32 - 1))
    if c.idx % 2:
        k = r.choice(['cube', 'flip', 'sphere']); n = min(n, 8); rad = min(rad, n); x = c.bits(n)
        if k == 'cube':
            it = hnco.HypercubeIterator(n); exp = sorted([(i >> j) & 1 for j in range(n)] for i in range(2 ** n))
        else:
            it = nb.SingleBitFlipIterator(n) if k == 'flip' else nb.HammingSphereIterator(n, rad); it.set_origin(vec(x))
            d = 1 if k == 'flip' else rad; exp = sorted(y for i in range(2 ** n) for y in [[(i >> j) & 1 for j in range(n)]] if ham(x, y) == d)
        got = [ls(y) for y in it]; c.eq(sorted(got), exp, 'iterator', '%s n=%d radius=%d' % (k, n, rad))
        def again():
            if k != 'cube': it.set_origin(vec(x))       # the origin is set before each pass
        again(); c.eq([ls(y) for y in it], got, 'iterator-again', k)
        again(); keep = [y for y in it]; c.eq([ls(y) for y in keep], got, 'iterator-copies', k + ': vectors kept while iterating')
        again(); it.init(); got2 = []
        while it.has_next(): got2.append(ls(it.next()))
        c.eq(got2, got, 'iterator-manual', k); c.count('iterators'); c.cover('%s %d %d %r' % (k, n, rad, x)); c.desc = k; return
    k = r.choice(['SingleBitFlip', 'HammingBall', 'HammingSphere', 'StandardBitMutation'])
    p = r.choice([1.0, r.uniform(.05, 1)])      # never-changing mutation without repetition is impossible
    N = {'SingleBitFlip': lambda: nb.SingleBitFlip(n), 'HammingBall': lambda: nb.HammingBall(n, rad), 'HammingSphere': lambda: nb.HammingSphere(n, rad), 'StandardBitMutation': lambda: nb.StandardBitMutation(n, p)}[k]()
    ok = {'SingleBitFlip': lambda d: d == 1, 'HammingBall': lambda d: 1 <= d <= rad, 'HammingSphere': lambda d: d == rad, 'StandardBitMutation': lambda d: d == n if p == 1 else True}[k]
    x = c.bits(n); N.set_origin(vec(x))
    for _ in range(20):
        N.propose(); y = ls(N.get_candidate()); d = ham(x, y); c.check(ok(d), 'distance', '%s(%d,%d,%g) proposes distance %d' % (k, n, rad, p, d))
        c.eq(sorted(N.get_flipped_bits()), [i for i in range(n) if x[i] != y[i]], 'flipped', k); c.eq(ls(N.get_origin()), x, 'origin', k)
        if r.random() < .5: N.keep(); x = y
        else: N.forget()
        c.eq(ls(N.get_origin()), x, 'origin', k); c.eq(ls(N.get_candidate()), x, 'candidate', k)
        w = c.bits(n); v = vec(w); N.mutate(v); c.check(ok(ham(w, ls(v))), 'mutate', '%s mutates %d bits' % (k, ham(w, ls(v))))
        o = BV(n); v = vec(w); N.map(v, o); c.check(ok(ham(w, ls(o))) and ls(v) == w, 'map', '%s maps to distance %d' % (k, ham(w, ls(o))))
    c.count('neighborhoods'); c.cover('%s %d %d %r' % (k, n, rad, x)); c.desc = k

# ---------------------------------------------------------------- Python-defined functions
class PyF(fn.Function):
    def __init__(self, n, f, mx=None):
        super().__init__(); self.n, self.f, self.mx, self.log = n, f, mx, []
    def get_bv_size(self): return self.n
    def evaluate(self, x):
        y = ls(x); v = self.f(y); self.log.append((y, v)); return v
    def has_known_maximum(self): return self.mx is not None
    def get_maximum(self):
        if self.mx is None: raise RuntimeError('unknown maximum')
        return self.mx

def rand_objective(c, n):
    r = c.rng; k = r.randint(0, 3)
    if k == 0: return sum, float(n)
    if k == 1: return lead, float(n)
    if k == 2: w = [r.uniform(-5, 5) for _ in range(n)]; return (lambda x: sum(a for a, b in zip(w, x) if b)), None
    s = r.randint(0, 2 ** 30); return (lambda x: float(int(hashlib.md5(repr((s, x)).encode()).hexdigest()[:4], 16) % 17)), None

def g_controllers(c):
    r = c.rng; n = r.randint(2, 12); f, mx = rand_objective(c, n); F = PyF(n, f, mx)
    k = r.choice(['budget', 'target', 'maximum', 'counter', 'tracker', 'cache', 'opposite', 'map', 'parsed', 'noise', 'prior'])
    xs = points(c, n, 15)
    if k == 'budget':
        b = r.randint(1, 12); g = ct.OnBudgetFunction(F, b)
        for i, x in enumerate(xs):
            if i < b: c.close(g.evaluate(vec(x)), f(x), 'value', k); c.eq(g.get_num_calls(), i + 1, 'calls', k)
            else: c.raises(hnco.LastEvaluation, lambda: g.evaluate(vec(x)), 'last', 'evaluation %d with budget %d' % (i + 1, b)); c.eq(len(F.log), b, 'calls', 'budget %d' % b)
    elif k in ('target', 'maximum'):
        if k == 'maximum' and mx is None: F.mx = mx = max(f(x) for x in xs)
        t = mx if k == 'maximum' else f(r.choice(xs)) + r.choice([0, 0, .25])
        g = ct.StopOnMaximum(F) if k == 'maximum' else ct.StopOnTarget(F, t)
        for x in xs:
            if f(x) >= t:
                c.raises(hnco.TargetReached, lambda: g.evaluate(vec(x)), 'reached', k); s = g.get_trigger(); c.eq(ls(s.first), x, 'trigger', k); c.close(s.second, f(x), 'trigger-value', k); c.check(str(s).startswith(''.join(map(str, x)) + ' -> '), 'str', str(s)); c.count('targets')
            else: c.close(g.evaluate(vec(x)), f(x), 'value', k)
    elif k == 'counter':
        g = ct.CallCounter(F)
        for i, x in enumerate(xs): c.close(g.evaluate(vec(x)), f(x), 'value', k); c.eq(g.get_num_calls(), i + 1, 'calls', k)
    elif k == 'tracker':
        g = ct.ProgressTracker(F); g.set_record_evaluation_time(True)
        for i, x in enumerate(xs): c.close(g.evaluate(vec(x)), f(x), 'value', k); c.eq(g.get_num_calls(), i + 1, 'calls', k)
        c.check(g.get_evaluation_time() >= 0, 'time', ''); g.get_last_improvement()
    elif k == 'cache':
        g = ct.Cache(F); seen = set(); hits = 0; xs = xs + [r.choice(xs) for _ in range(10)]; r.shuffle(xs)
        for x in xs: hits += tuple(x) in seen; seen.add(tuple(x)); c.close(g.evaluate(vec(x)), f(x), 'value', k); c.eq(len(F.log), len(seen), 'cache-calls', k)
        c.close(g.get_lookup_ratio(), hits / len(xs), 'ratio', k)
    elif k == 'opposite':
        g = md.OppositeFunction(F)
        for x in xs: c.close(g.evaluate(vec(x)), -f(x), 'value', k)
    elif k == 'map':
        a = r.randint(1, 12); m = mp.AffineMap(); rd.Generator.set_seed(r.randint(0, 2 ** 32 - 1)); m.random(n, a, False); g = md.FunctionMapComposition(F, m); c.eq(g.get_bv_size(), a, 'size', k)
        for x in points(c, a): c.close(g.evaluate(vec(x)), f(apply(m, x)), 'value', k); c.eq(F.log[-1][0], apply(m, x), 'argument', k)
        if mx is not None: c.check(g.has_known_maximum() <= m.is_surjective(), 'known', k)
        with tempfile.NamedTemporaryFile() as t: pass
    elif k == 'parsed':
        e, h = r.choice([('2*x+1', lambda v: 2 * v + 1), ('x-3', lambda v: v - 3), ('x*x', lambda v: v * v)]); g = md.ParsedModifier(F, e)
        for x in xs: c.close(g.evaluate(vec(x)), h(f(x)), 'value', k + ' ' + e)
    elif k == 'noise':
        rd.Generator.set_seed(r.randint(0, 2 ** 32 - 1)); s = r.choice([1e-6, 0.5]); g = md.AdditiveGaussianNoise(F, s)
        for x in xs: c.check(abs(g.evaluate(vec(x)) - f(x)) <= 9 * s, 'noise', k)
    else:
        rd.Generator.set_seed(r.randint(0, 2 ** 32 - 1)); g = md.PriorNoise(F, nb.HammingSphere(n, 1))
        for x in xs: g.evaluate(vec(x)); c.eq(ham(F.log[-1][0], x), 1, 'prior', k)
    if k not in ('map',): c.eq(g.get_bv_size(), n, 'size', k)
    if k in ('budget', 'target', 'counter', 'tracker', 'cache'):
        c.eq(g.has_known_maximum(), mx is not None, 'known', k)
        if mx is not None: c.close(g.get_maximum(), mx, 'maximum', k)
    c.check(isinstance(str(g), str), 'str', k); c.count(k); c.cover('%s %r' % (k, F.log[:2])); c.desc = k

# ---------------------------------------------------------------- algorithms
def gen_algorithm(c, n, cls=None):
    """-> (algorithm, name, (initial evaluations, evaluations per iteration) or None, has iterations, keep-alive)"""
    r = c.rng
    names = ['RandomSearch', 'RandomWalk', 'RandomLocalSearch', 'SimulatedAnnealing', 'OnePlusOneEa', 'SelfAdjustingOnePlusOneEa', 'MuPlusLambdaEa', 'MuCommaLambdaEa', 'TwoRateOnePlusLambdaEa', 'InformationTheoreticEa', 'GeneticAlgorithm', 'OnePlusLambdaCommaLambdaGa', 'Pbil', 'NpsPbil', 'Umda', 'CompactGa', 'Mmas', 'Hea', 'BmPbil', 'Mimic', 'Hboa', 'Ltga', 'Gomea', 'ParameterLessPopulationPyramid', 'CompleteSearch']
    k = cls or names[c.idx % len(names)]
    A = getattr(al, k)
    pop = r.randint(4, 20); sel = r.randint(1, pop - 1); mu, lam = r.randint(2, 8), r.randint(9, 18)
    def nbh(): return r.choice([lambda: nb.SingleBitFlip(n), lambda: nb.HammingBall(n, r.randint(1, n)), lambda: nb.HammingSphere(n, r.randint(1, n)), lambda: nb.StandardBitMutation(n, r.uniform(.1, .9))])()
    if k == 'RandomSearch': return A(n), k, (1, 1), True
    if k == 'CompleteSearch': return A(n), k, None, False
    if k == 'RandomWalk': return A(n, nbh()), k, (1, 1), True
    if k == 'RandomLocalSearch':
        a = A(n, nbh()); pt = r.choice([0, 10]); a.set_patience(pt); return a, k, (1, 1) if pt == 0 else None, True
    if k == 'SimulatedAnnealing':
        a = A(n, nbh()); a.set_num_transitions(r.randint(5, 50)); t = r.randint(5, 20); a.set_num_trials(t); a.set_initial_acceptance_probability(.6); a.set_beta_ratio(1.2); return a, k, (1 + 2 * t, 1), True
    if k == 'OnePlusOneEa':
        a = A(n); a.set_mutation_rate(r.choice([1 / n, .5])); a.set_allow_no_mutation(r.random() < .5); a.set_incremental_evaluation(r.random() < .5); return a, k, (1, 1), True
    if k == 'SelfAdjustingOnePlusOneEa':
        a = A(n); a.set_mutation_rate_init(1 / n); a.set_mutation_rate_min(1 / n / n); a.set_mutation_rate_max(.5); a.set_update_strength(1.05); a.set_success_ratio(.2); a.set_allow_no_mutation(r.random() < .5); a.set_incremental_evaluation(r.random() < .5); return a, k, (1, 1), True
    if k in ('MuPlusLambdaEa', 'MuCommaLambdaEa'):
        a = A(n, mu, lam); a.set_mutation_rate(r.choice([1 / n, .3])); a.set_allow_no_mutation(r.random() < .5); return a, k, (mu if k[2] == 'P' else 1, lam), True
    if k == 'TwoRateOnePlusLambdaEa': a = A(n, lam); a.set_mutation_rate_init(2 / n); a.set_allow_no_mutation(r.random() < .5); return a, k, (1, lam), True
    if k == 'InformationTheoreticEa':
        a = A(n, pop); a.set_selection_size(sel); a.set_learning_rate(r.uniform(.01, .5)); a.set_mutation_rate_init(1 / n); a.set_mutation_rate_min(1 / n / n); a.set_mutation_rate_max(.5); a.set_replacement(r.randint(0, 3)); a.set_allow_no_mutation(r.random() < .5); a.set_initial_hamming_weight(r.randint(0, n)); return a, k, None, True
    if k == 'GeneticAlgorithm':
        mu = max(mu, 4); a = A(n, mu); a.set_mutation_rate(1 / n); a.set_crossover_probability(r.random()); a.set_tournament_size(r.randint(2, 3)); a.set_allow_no_mutation(r.random() < .5); return a, k, (mu, mu), True
    if k == 'OnePlusLambdaCommaLambdaGa': a = A(n, r.randint(2, min(n, 6))); a.set_crossover_bias(.3); return a, k, None, True
    if k in ('Pbil', 'NpsPbil', 'Umda', 'Mimic'):
        a = A(n, pop); a.set_selection_size(sel if k != 'NpsPbil' else max(1, min(sel, pop // 2)))
        if k in ('Pbil', 'NpsPbil'): a.set_learning_rate(r.uniform(.01, .5))
        return a, k, (1, pop), True
    if k in ('CompactGa', 'Mmas'): a = A(n); a.set_learning_rate(r.uniform(.01, .3)); return a, k, (1, 2) if k == 'CompactGa' else (1, 1), True
    if k == 'Hea':
        a = A(n, pop); a.set_selection_size(sel); a.set_learning_rate(r.uniform(.01, .3)); a.set_randomize_bit_order(r.random() < .5); a.set_bound_moment(r.random() < .5); a.set_reset_period(r.choice([0, 5])); return a, k, (1, pop), True
    if k == 'BmPbil':
        a = A(n, pop); a.set_selection_size(max(1, min(sel, pop // 2))); a.set_learning_rate(r.uniform(.01, .3)); a.set_negative_positive_selection(r.random() < .5); a.set_num_gs_cycles(r.randint(1, 3)); a.set_num_gs_steps(r.randint(10, 40)); a.set_reset_mode(r.randint(0, 2)); a.set_sampling_mode(r.randint(0, 2)); return a, k, (1, pop), True
    a = A(n)
    if k in ('Hboa', 'Ltga'): a.set_population_size(r.randint(8, 20))
    return a, k, None, False

def g_algorithms(c):
    r = c.rng; n = r.randint(8, 13); f, mx = rand_objective(c, n); F = PyF(n, f, mx); seed = r.randint(0, 2 ** 32 - 1)
    state = r.getstate()
    a, k, ev, iters = gen_algorithm(c, n)
    gc.collect()
    b = r.randint(20, 250); it = r.randint(1, 20); limited = k in ('Hboa', 'Ltga', 'Gomea', 'ParameterLessPopulationPyramid', 'CompleteSearch', 'InformationTheoreticEa') or r.random() < .4
    stop = mx is not None and r.random() < .3
    g = F
    if stop: g = ct.StopOnMaximum(g)
    if limited: g = ct.OnBudgetFunction(g, b)
    if iters: a.set_num_iterations(it)
    rd.Generator.set_seed(seed); how = 'end'
    try: a.maximize([g])
    except hnco.LastEvaluation: how = 'last'
    except hnco.TargetReached: how = 'target'
    if how != 'target': a.finalize()
    log = list(F.log)[:b] if limited else list(F.log); best = max(v for _, v in log)
    if how == 'last': c.eq(len(log), b, 'budget', k)
    if limited: c.check(len(log) <= b, 'budget', '%s made %d evaluations' % (k, len(log)))
    if how == 'target': c.check(best >= mx and all(v < mx for _, v in log[:-1]), 'target', k); c.eq(ls(g.get_trigger().first) if not limited else log[-1][0], log[-1][0], 'trigger', k)
    if how == 'end' and ev: c.eq(len(log), ev[0] + ev[1] * it, 'evaluations', '%s, %d iterations' % (k, it)); c.count('evaluation counts')
    if k == 'CompleteSearch' and how == 'end': c.eq(len({tuple(x) for x, _ in log}), 2 ** n, 'complete', k)
    if how != 'target':
        s = a.get_solution(); x = ls(s.first); c.eq(len(x), n, 'solution-size', k); c.close(s.second, f(x), 'solution-value', '%s: solution %s' % (k, s)); c.check(any(y == x for y, _ in log), 'solution-evaluated', k)
        if how == 'end' and k not in ('RandomWalk', 'SimulatedAnnealing', 'MuCommaLambdaEa', 'BmPbil', 'InformationTheoreticEa', 'OnePlusLambdaCommaLambdaGa'): c.close(s.second, best, 'solution-best', k); c.count('solutions best')
        c.eq(str(s), '%s -> %g' % (''.join(map(str, x)), s.second), 'str', k)
        del a, g; gc.collect(); c.eq(ls(s.first), x, 'solution-kept', k)
    # the same again
    if r.random() < .5:
        r2 = r.getstate(); r.setstate(state); F2 = PyF(n, f, mx); a2 = gen_algorithm(c, n)[0]; r.setstate(r2); h = F2
        if stop: h = ct.StopOnMaximum(h)
        if limited: h = ct.OnBudgetFunction(h, b)
        if iters: a2.set_num_iterations(it)
        rd.Generator.set_seed(seed)
        try: a2.maximize([h])
        except (hnco.LastEvaluation, hnco.TargetReached): pass
        c.eq(F2.log[:len(log)], log, 'reproducible', k); c.count('repeated')
    c.count(k); c.count(how); c.cover('%s %s %r' % (k, how, log[-1])); c.desc = '%s n=%d' % (k, n)

class PyIter(al.IterativeAlgorithm):
    def __init__(self, n, r, own_init):
        super().__init__(n); self.n, self.r, self.calls, self.inits, self.own = n, r, 0, 0, own_init
    def init(self):
        self.inits += 1
        if self.own: self.random_solution()
        else: al.IterativeAlgorithm.init(self)
    def iterate(self):
        self.calls += 1
        self.update_solution(BV([self.r.randint(0, 1) for _ in range(self.n)]))
class PyAlg(al.Algorithm):
    def __init__(self, n): super().__init__(n); self.got = None; self.fin = 0
    def maximize(self, functions): self.got = functions
    def finalize(self): self.fin += 1

def g_pyalgorithms(c):
    r = c.rng; n = r.randint(1, 12); f, mx = rand_objective(c, n); F = PyF(n, f, mx); it = r.randint(1, 25)
    a = PyIter(n, r, True); a.set_num_iterations(it); b = r.choice([0, r.randint(1, 20)]); g = ct.OnBudgetFunction(F, b) if b else F
    rd.Generator.set_seed(r.randint(0, 2 ** 32 - 1)); how = 'end'
    try: a.maximize([g])
    except hnco.LastEvaluation: how = 'last'
    c.eq(how, 'last' if b and b < it + 1 else 'end', 'ended', 'budget %d, %d iterations' % (b, it))
    c.eq(a.inits, 1, 'init', 'calls of init'); c.eq(len(F.log), min(b or 10 ** 9, it + 1), 'evaluations', '')
    if how == 'end': c.eq(a.calls, it, 'iterate', 'calls of iterate')
    s = a.get_solution(); best = max(v for _, v in F.log); c.close(s.second, best, 'best', ''); c.eq(ls(s.first), next(x for x, v in F.log if v == best), 'first-best', '')
    c.eq(ls(a.solution.first), ls(s.first), 'solution', '')
    p = PyAlg(n); p.maximize([F]); c.check(p.got[0] is F, 'functions', ''); p.finalize(); c.eq(p.fin, 1, 'finalize', '')
    c.eq(str(al.Algorithm(n).get_solution()), '0' * n + ' -> 0', 'default-solution', '')
    c.raises(RuntimeError, lambda: al.Algorithm(n).maximize([F]), 'pure', 'maximize', 'pure virtual')
    q = al.IterativeAlgorithm(n); q.set_num_iterations(1); c.raises(RuntimeError, lambda: q.maximize([F]), 'pure', 'iterate', 'pure virtual')
    class Bad(PyIter):
        def iterate(self): raise KeyError('stop')
    z = Bad(n, r, True); z.set_num_iterations(it); c.raises(KeyError, lambda: z.maximize([F]), 'exception', 'iterate')
    c.count('runs'); c.cover('%d %d %d' % (n, it, b)); c.desc = 'n=%d it=%d' % (n, it)

# ---------------------------------------------------------------- universal functions and representations
def gen_reps(c):
    r = c.rng
    I, Fl, Cx, Ca, Pe = [], [], [], [], []
    for _ in range(r.randint(0, 3)):
        lo = r.randint(-20, 20); hi = lo + r.choice([1, 3, 7, 9, 100]); I.append((rp.DyadicIntegerRepresentation(lo, hi), lo, hi))
    def fl():
        lo = r.uniform(-5, 5); hi = lo + r.uniform(.5, 10); n = r.randint(1, 8); return (rp.DyadicFloatRepresentation(lo, hi, n), lo, hi, n)
    for _ in range(r.randint(0, 2)): Fl.append(fl())
    for _ in range(r.randint(0, 2)):
        a, b = fl(), fl()
        if r.random() < .3: Cx.append((rp.ComplexRepresentation(a[0]), a, a))
        else: Cx.append((rp.ComplexRepresentation(a[0], b[0]), a, b))
    for _ in range(r.randint(0, 2)): n = r.randint(2, 6); Ca.append((rp.LinearCategoricalRepresentation(n), n))
    for _ in range(r.randint(0, 2)): n = r.randint(2, 5); Pe.append((rp.PermutationRepresentation(n, r.randint(1, 3)), n))
    return I, Fl, Cx, Ca, Pe

def g_universal(c):
    r = c.rng; nb_ = r.randint(0, 4); I, Fl, Cx, Ca, Pe = gen_reps(c); multi = r.random() < .4
    if not (nb_ or I or Fl or Cx or Ca or Pe): nb_ = 2
    log = []
    class U(fn.UniversalFunction):
        def __init__(self): super().__init__()
        def evaluate(self, b, i, f, z, k, p):
            log.append((ls(b), list(i), list(f), list(z), list(k), [list(q) for q in p])); return float(len(log))
    class M(mf.UniversalFunction):
        def __init__(self): super().__init__()
        def get_output_size(self): return 2
        def evaluate(self, b, i, f, z, k, p, value):
            log.append((ls(b), list(i), list(f), list(z), list(k), [list(q) for q in p])); value[0] = float(len(log)); value[1] = -float(len(log))
    u = M() if multi else U()
    args = (u, nb_, [q[0] for q in I], [q[0] for q in Fl], [q[0] for q in Cx], [q[0] for q in Ca], [q[0] for q in Pe])
    ad = (mf.UniversalFunctionAdapter if multi else fn.UniversalFunctionAdapter)(*args)
    size = nb_ + sum(q[0].size() for L in (I, Fl, Cx, Ca, Pe) for q in L); n = ad.get_bv_size(); c.eq(n, size, 'size', 'universal function')
    if multi: c.eq(ad.get_output_size(), 2, 'outputs', '')
    for q in Fl: c.eq(q[0].size(), q[3], 'float-size', '')
    for q in I: c.check(2 ** q[0].size() >= q[2] - q[1] + 1 or 2 ** q[0].size() * 2 > q[2] - q[1], 'integer-size', '%d..%d with %d bits' % (q[1], q[2], q[0].size()))
    for t in range(8):
        x = c.bits(n); v = vec(x); s = r.randint(0, 2 ** 30); rd.Generator.set_seed(s)
        if multi: val = mf.Value(2); ad.evaluate(v, val); c.eq(list(val), [float(len(log)), -float(len(log))], 'value', '')
        else: c.eq(ad.evaluate(v), float(len(log)), 'value', '')
        c.eq(ls(v), x, 'argument-changed', '')
        B, IV, FV, CV, KV, PV = log[-1]; o = nb_
        c.eq(B, x[:nb_], 'booleans', 'of %r' % x); c.eq((len(IV), len(FV), len(CV), len(KV), len(PV)), (len(I), len(Fl), len(Cx), len(Ca), len(Pe)), 'arity', '')
        for q, y in zip(I, IV): c.eq(q[0].unpack(v, o), y, 'integer', ''); c.check(q[1] <= y <= q[2], 'integer-range', '%d not in %d..%d' % (y, q[1], q[2])); o += q[0].size()
        for q, y in zip(Fl, FV): c.eq(q[0].unpack(v, o), y, 'float', ''); c.check(q[1] - 1e-9 <= y < q[2] + 1e-9, 'float-range', '%r not in [%r, %r)' % (y, q[1], q[2])); o += q[3]
        for q, y in zip(Cx, CV):
            c.eq(q[0].unpack(v, o), y, 'complex', ''); c.eq((q[1][0].unpack(v, o), q[2][0].unpack(v, o + q[1][3])), (y.real, y.imag), 'complex-parts', ''); o += q[0].size()
        for q, y in zip(Ca, KV): c.eq(q[0].unpack(v, o), y, 'categorical', ''); c.check(0 <= y < q[1], 'categorical-range', str(y)); o += q[0].size()
        for q, y in zip(Pe, PV): c.eq(sorted(y), list(range(q[1])), 'permutation', ''); o += q[0].size()
        c.count('unpacked vectors')
    # dyadic grids are the documented ones
    for q in Fl[:1]:
        got = sorted(q[0].unpack(vec([(i >> j) & 1 for j in range(q[3])]), 0) for i in range(2 ** q[3])); st = (q[2] - q[1]) / 2 ** q[3]
        for i, y in enumerate(got): c.close(y, q[1] + i * st, 'grid', 'point %d' % i)
    for L in (I, Fl, Cx, Ca, Pe):
        for q in L: c.check(bool(str(q[0]).strip()), 'str', '')
    c.check(isinstance(str(ad), str) and isinstance(str(u), str), 'str', ''); c.cover('%d %d %r' % (n, multi, log[-1])); c.desc = 'bits=%d multi=%s' % (n, multi)
    if multi: c.raises(RuntimeError, lambda: mf.UniversalFunctionAdapter(mf.UniversalFunction(), 1, [], [], [], [], []).get_output_size(), 'pure', '')
    else: c.raises(RuntimeError, lambda: fn.UniversalFunctionAdapter(fn.UniversalFunction(), 1, [], [], [], [], []).evaluate(BV(1)), 'pure', '', 'pure virtual')

# ---------------------------------------------------------------- multiobjective
class PyMo(mf.Function):
    def __init__(self, n, k, f): super().__init__(); self.n, self.k, self.f, self.log = n, k, f, []
    def get_bv_size(self): return self.n
    def get_output_size(self): return self.k
    def evaluate(self, x, value):
        y = ls(x); v = self.f(y); self.log.append((y, v))
        for i in range(self.k): value[i] = v[i]
def g_multi(c):
    r = c.rng; n, k = r.randint(2, 12), r.randint(1, 3); W = [[r.randint(-4, 4) for _ in range(n)] for _ in range(k)]
    f = lambda x: [float(sum(a for a, b in zip(w, x) if b)) for w in W]
    F = PyMo(n, k, f); mu = r.randint(3, 14); it = r.randint(1, 8); seed = r.randint(0, 2 ** 32 - 1); threads = r.choice([1, 1, 2])
    rd.Generator.set_seed(seed); P = ma.Population(mu, n, k); P.random(); P.evaluate(F); c.eq(P.get_size(), mu, 'size', '')
    for x, v in zip(P.bvs, P.values): c.eq(list(v), f(ls(x)), 'population', '')
    F.log.clear(); a = ma.Nsga2(n, k, mu); a.set_num_iterations(it); a.set_tournament_size(2); a.set_mutation_rate(1 / n); a.set_allow_no_mutation(r.random() < .5); a.set_crossover_probability(r.random())
    fs = [F] + [PyMo(n, k, f) for _ in range(threads - 1)]
    rd.Generator.set_seed(seed); a.minimize(fs); c.eq(sum(len(q.log) for q in fs), mu * (it + 1), 'evaluations', '%d iterations of %d' % (it, mu))
    S = a.get_solutions(); bvs, vals = [ls(x) for x in S.bvs], [list(v) for v in S.values]; c.check(1 <= len(bvs) == len(vals), 'solutions', '')
    seen = {tuple(x) for q in fs for x, _ in q.log}
    for x, v in zip(bvs, vals): c.eq(v, f(x), 'value', ''); c.check(tuple(x) in seen, 'evaluated', '')
    for u in vals:
        for v in vals: c.check(not (all(p <= q for p, q in zip(u, v)) and u != v), 'dominated', '%r %r' % (u, v))
    del a; gc.collect(); [hash(str(q)) for q in S.bvs]; c.eq([ls(x) for x in S.bvs], bvs, 'solutions-kept', 'solutions after the algorithm is gone')
    c.raises(RuntimeError, lambda: mf.Function().get_output_size(), 'pure', '', 'pure virtual'); c.raises(RuntimeError, lambda: ma.Algorithm(n, k).minimize([F]), 'pure', '', 'pure virtual')
    c.check(isinstance(str(F), str), 'str', ''); c.count('fronts'); c.cover('%r' % vals); c.desc = 'n=%d k=%d mu=%d' % (n, k, mu)

# ---------------------------------------------------------------- several Python functions at once
def g_parallel(c):
    r = c.rng; n = r.randint(8, 12); f, mx = rand_objective(c, n); T = r.randint(2, 4); seed = r.randint(0, 2 ** 32 - 1)
    names = ['MuPlusLambdaEa', 'MuCommaLambdaEa', 'TwoRateOnePlusLambdaEa', 'InformationTheoreticEa', 'GeneticAlgorithm', 'Pbil', 'NpsPbil', 'Umda', 'Hea', 'Mimic', 'BmPbil']
    k = names[c.idx % len(names)]; state = r.getstate(); it = r.randint(1, 8); out = []; logs = []
    st = r.getstate()
    for t in (1, T):
        r.setstate(st); fs = [PyF(n, f, mx) for _ in range(t)]; a = gen_algorithm(c, n, k)[0]; a.set_num_iterations(it); rd.Generator.set_seed(seed)
        try: a.maximize(fs)
        except hnco.LastEvaluation: pass
        s = a.get_solution(); out.append((ls(s.first), s.second)); logs.append(sorted(tuple(x) for q in fs for x, _ in q.log))
        if t > 1: c.count('functions used', sum(bool(q.log) for q in fs))
    c.eq(out[1], out[0], 'threads', '%s with %d functions' % (k, T)); c.eq(logs[1], logs[0], 'threads-evaluations', k); c.cover('%s %d %r' % (k, T, out)); c.count(k); c.desc = '%s with %d functions' % (k, T)

# ---------------------------------------------------------------- an exception in one of several functions
def g_parallelerrors(c):
    r = c.rng; n = r.randint(8, 12); T = r.randint(2, 4); at = r.randint(1, 30); calls = [0]
    class Boom(Exception): pass
    def f(x):
        calls[0] += 1
        if calls[0] >= at: raise Boom('boom')
        return float(sum(x))
    if c.idx % 4 == 3:
        fs = [PyMo(n, 2, lambda x: [f(x), 1.0]) for _ in range(T)]; a = ma.Nsga2(n, 2, r.randint(4, 12)); a.set_tournament_size(2); run = lambda: a.minimize(fs); k = 'Nsga2'
    else:
        k = r.choice(['MuPlusLambdaEa', 'GeneticAlgorithm', 'Pbil', 'Umda', 'Mimic', 'Hea']); a = gen_algorithm(c, n, k)[0]; fs = [PyF(n, f) for _ in range(T)]; run = lambda: a.maximize(fs)
    a.set_num_iterations(50); c.raises(Boom, run, 'exception', k); c.check(calls[0] >= at, 'calls', k)
    at = 10 ** 9; a.set_num_iterations(2); run(); c.count('exceptions through ' + k); c.cover('%s %d %d' % (k, T, n)); c.desc = '%s with %d functions' % (k, T)

# ---------------------------------------------------------------- lifetime and errors
def g_lifetime(c):
    r = c.rng; n = 2 ** r.randint(2, 4); x = c.bits(n); v = vec(x); junk = []
    def churn():
        gc.collect()
        for _ in range(20): junk.append(r.choice([lambda: fn.Hiff(8), lambda: BV(n, 1), lambda: nb.SingleBitFlip(n), lambda: mp.Translation(), lambda: fn.Labs(9)])())
        if len(junk) > 60: junk.clear()
    f = fn.OneMax(n); e = sum(x)
    tr = mp.Translation(); rd.Generator.set_seed(r.randint(0, 99999)); tr.random(n); t0 = apply(tr, [0] * n)
    for _ in range(r.randint(1, 6)):
        k = r.randint(0, 8)
        if k == 0: f = ct.OnBudgetFunction(f, 10 ** 6)
        elif k == 1: f = ct.CallCounter(f)
        elif k == 2: f = ct.ProgressTracker(f)
        elif k == 3: f = ct.Cache(f)
        elif k == 4: f = ct.StopOnTarget(f, 1e9)
        elif k == 5: f = md.OppositeFunction(md.OppositeFunction(f))
        elif k == 6: f = md.ParsedModifier(f, 'x+1'); e += 1
        elif k == 7: f = md.FunctionMapComposition(md.FunctionMapComposition(f, mp.MapComposition(_tr(tr, c), mp.Translation.__new__(mp.Translation) if False else _id(n, c))), _tr(tr, c))
        else: f = ct.StopOnTarget(md.AdditiveGaussianNoise(f, 1e-300), 1e9)
        churn()
        c.close(f.evaluate(v), e, 'chain', 'chain of temporaries')
    f = md.PriorNoise(f, nb.HammingSphere(n, 1)); churn(); f.evaluate(v)
    a = al.RandomLocalSearch(n, nb.SingleBitFlip(n)); churn(); a.set_num_iterations(20); fm = fn.OneMax(n); a.maximize([fm]); a.finalize(); churn(); s = a.get_solution(); del a; churn(); c.eq(s.second, float(sum(ls(s.first))), 'solution', '')
    s = None; w = al.SimulatedAnnealing(n, nb.HammingBall(n, 2)); churn(); w.set_num_iterations(5); w.set_num_trials(3); w.maximize([fn.OneMax(n)])
    w = al.RandomWalk(n, nb.StandardBitMutation(n, .5)); churn(); w.set_num_iterations(5); w.maximize([fn.OneMax(n)])
    it = iter(hnco.HypercubeIterator(3)); churn(); c.eq(sum(1 for _ in range(8) if it.__next__() is not None), 8, 'iterator', ''); c.raises(StopIteration, it.__next__, 'iterator-end', '')
    h = hnco.HncoIterator(hnco.HypercubeIterator(2)); churn(); c.eq(len([h.__next__() for _ in range(4)]), 4, 'iterator', '')
    def adapter():
        class U(fn.UniversalFunction):
            def __init__(self): super().__init__()
            def evaluate(self, b, i, f, z, k, p): return float(sum(b) + sum(i))
        return fn.UniversalFunctionAdapter(U(), 3, [rp.DyadicIntegerRepresentation(0, 3)], [], [], [], [])
    d = adapter(); churn(); c.eq(d.evaluate(BV([1, 1, 0, 0, 0])), 2.0, 'adapter', 'adapter of a function out of scope')
    def pyf(): return ct.CallCounter(PyF(n, sum))
    g = pyf(); churn(); c.eq(g.evaluate(v), float(sum(x)), 'python-function', 'function out of scope')
    p = al.Population(5, n); p.random(); p.evaluate(fn.OneMax(n)); p.sort(); b = p.get_best_bv(); bs = p.bvs; vs = p.values; q = ls(b); w = p.get_worst_bv(0); sz = p.get_size(); del p; churn(); c.eq(ls(b), q, 'population-vector', ''); c.eq(len(bs), sz, 'population-vectors', ''); c.eq([sum(ls(y)) for y in bs], [int(y) for y in vs], 'population-values', '')
    c.count('lifetimes'); c.cover(repr(x)); c.desc = 'n=%d' % n
def _tr(tr, c):
    p = c.path('tr'); tr.save(p); m = mp.Translation(); m.load(p); os.unlink(p); return m
def _id(n, c):
    return mp.Injection(PM(list(range(n))), n)

def g_errors(c):
    r = c.rng; n = r.randint(1, 10); bad = '/nonexistent/file'
    class Boom(Exception): pass
    k = c.idx % 10
    if k == 0:
        cls = r.choice([fn.MaxSat, fn.MaxNae3Sat, fn.EqualProducts, fn.LinearFunction, fn.NearestNeighborIsingModel1, fn.NearestNeighborIsingModel2, fn.NkLandscape, fn.Partition, fn.Qubo, fn.WalshExpansion, fn.WalshExpansion1, fn.WalshExpansion2, mp.Translation, mp.Permutation, mp.LinearMap, mp.AffineMap, mp.TsAffineMap])
        c.raises(RuntimeError, lambda: cls().load(bad), 'missing-file', cls.__name__)
        p = c.path('g'); open(p, 'w').write(''.join(r.choice('01 pc\n-xyz') for _ in range(r.randint(0, 60))) + 'zz')
        c.raises((RuntimeError, ValueError, MemoryError), lambda: cls().load(p), 'garbage', cls.__name__); os.unlink(p)
        if hasattr(cls, 'save'): c.raises(RuntimeError, lambda: cls().save(bad), 'unwritable', cls.__name__)
    elif k == 1:
        for f in (lambda: fn.Trap(7, 3), lambda: fn.Hiff(6), lambda: fn.SummationCancellation(8), lambda: fn.LongPath(7, 2), lambda: al.RandomSearch(0), lambda: al.MuPlusLambdaEa(5, 0, 3), lambda: md.ParsedModifier(fn.OneMax(3), r.choice(['x+', '(x', 'y', '']))): c.raises(RuntimeError, f, 'invalid', 'constructor')
    elif k == 2:
        for f in (lambda: fn.Labs(199).get_maximum(), lambda: fn.Function().get_maximum(), lambda: ct.StopOnMaximum(fn.Labs(199)), lambda: fn.Function().get_bv_size(), lambda: fn.Function().evaluate(BV(3))): c.raises(RuntimeError, f, 'unknown', 'maximum')
    elif k == 3:
        for f in (lambda: fn.OneMax('3'), lambda: fn.OneMax(2.5), lambda: fn.OneMax(), lambda: fn.OneMax(3).evaluate('101'), lambda: fn.OneMax(3).evaluate(None), lambda: ct.OnBudgetFunction(3, 4), lambda: al.RandomSearch(3).maximize(fn.OneMax(3)), lambda: al.RandomSearch(3).maximize([3]), lambda: mp.Map(), lambda: nb.Neighborhood(), lambda: hnco.Iterator(), lambda: al.RandomWalk(3, fn.OneMax(3)), lambda: rp.DyadicIntegerRepresentation('a', 'b')): c.raises(TypeError, f, 'type', 'argument')
    elif k in (4, 5, 6):
        # an exception of a Python function crosses the library unchanged, wherever it is raised
        at = r.randint(1, 40); F = PyF(10, sum); exc = r.choice([Boom, ValueError, KeyError, ZeroDivisionError, StopIteration, MemoryError])
        def f(x):
            if len(F.log) + 1 >= at: raise exc('boom %d' % at)
            return sum(x)
        F.f = f; a, name, ev, iters = gen_algorithm(c, 10, r.choice(['RandomSearch', 'RandomLocalSearch', 'OnePlusOneEa', 'MuPlusLambdaEa', 'GeneticAlgorithm', 'Pbil', 'Umda', 'CompactGa', 'Hea', 'Mimic', 'Hboa', 'Ltga', 'Gomea', 'ParameterLessPopulationPyramid', 'CompleteSearch', 'Mmas']))
        g = F
        for _ in range(r.randint(0, 3)): g = r.choice([lambda: ct.CallCounter(g), lambda: ct.ProgressTracker(g), lambda: ct.Cache(g), lambda: ct.OnBudgetFunction(g, 10 ** 6), lambda: md.OppositeFunction(g)])()
        if iters: a.set_num_iterations(0 if name in ('RandomSearch', 'OnePlusOneEa', 'MuPlusLambdaEa', 'GeneticAlgorithm') else 100)
        try: a.maximize([g])
        except BaseException as e: c.check(type(e) is exc and 'boom %d' % at in str(e), 'exception', '%s: %s %s instead of %s' % (name, type(e).__name__, e, exc.__name__)); c.count('exceptions through ' + name)
        c.eq(len(F.log) <= at - 1, True, 'after-exception', name)
        F.f = sum; F.log.clear(); c.close(abs(g.evaluate(BV(10, 1))), 10, 'usable', 'the chain after an exception')
    elif k == 7:
        F = PyF(5, lambda x: r.choice(['a', None, [1]])); c.raises((RuntimeError, TypeError), lambda: ct.CallCounter(F).evaluate(BV(5)), 'result', 'evaluate returns no number')
        F.f = lambda x: 3; c.eq(ct.CallCounter(F).evaluate(BV(5)), 3.0, 'integer-result', ''); F.f = lambda x: True; c.eq(ct.CallCounter(F).evaluate(BV(5)), 1.0, 'bool-result', '')
    elif k == 8:
        c.eq(issubclass(hnco.LastEvaluation, Exception) and issubclass(hnco.TargetReached, Exception), True, 'exceptions', ''); g = ct.OnBudgetFunction(fn.OneMax(3), 1); g.evaluate(BV(3)); c.raises(hnco.LastEvaluation, lambda: g.evaluate(BV(3)), 'last', '')
        s = ct.StopOnMaximum(fn.OneMax(3)); c.raises(hnco.TargetReached, lambda: s.evaluate(BV(3, 1)), 'target', ''); c.raises(AttributeError, lambda: setattr(s.get_trigger(), 'second', 3.0), 'readonly', '')
    else:
        seed = r.randint(0, 2 ** 32 - 1); rd.Generator.set_seed(seed); u = [rd.Generator.uniform() for _ in range(5)]; c.check(all(0 <= t < 1 for t in u) and len(set(u)) == 5, 'uniform', repr(u)); rd.Generator.reset(); c.eq([rd.Generator.uniform() for _ in range(5)], u, 'reset', ''); rd.Generator.set_seed(seed); c.eq([rd.Generator.uniform() for _ in range(5)], u, 'seed', ''); rd.Generator.set_seed(); rd.Generator.uniform()
    c.count('errors %d' % k); c.cover('%d %d %d' % (k, n, c.idx)); c.desc = 'kind %d' % k

# ---------------------------------------------------------------- populations
def g_populations(c):
    r = c.rng; n, m = r.randint(1, 10), r.randint(1, 9); f, mx = rand_objective(c, n); F = PyF(n, f, mx)
    rd.Generator.set_seed(r.randint(0, 2 ** 32 - 1)); p = al.Population(m, n); c.eq((p.get_size(), p.get_bv_size()), (m, n), 'sizes', ''); p.random()
    if r.random() < .5: xs = [c.bits(n) for _ in range(m)]; p.bvs = [vec(x) for x in xs]; c.eq([ls(x) for x in p.bvs], xs, 'bvs', '')
    p.evaluate(F); xs = [ls(x) for x in p.bvs]; vs = [f(x) for x in xs]; c.eq(list(p.values), [float(v) for v in vs], 'values', ''); c.eq([x for x, _ in F.log], xs, 'evaluated', '')
    part = r.random() < .4; k = r.randint(1, m)
    if part: p.partial_sort(k)
    else: p.sort(); k = m
    srt = sorted(vs, reverse=True)
    c.eq([p.get_best_value(i) for i in range(k)], [float(v) for v in srt[:k]], 'sorted', 'of %r' % vs); c.eq(p.get_best_value(), float(srt[0]), 'best', '')
    for i in range(k): c.eq(f(ls(p.get_best_bv(i))), srt[i], 'best-bv', '')
    c.eq(f(ls(p.get_best_bv())), srt[0], 'best-bv', '')
    if not part:
        for i in range(m): c.eq(f(ls(p.get_worst_bv(i))), srt[m - 1 - i], 'worst-bv', '%d of %r' % (i, vs)); a, b = p.get_equivalent_bvs(i); c.eq((a, b), (srt.index(srt[i]), m - srt[::-1].index(srt[i])), 'equivalent', '')
    c.count('populations'); c.cover(repr(vs)); c.desc = '%d of %d bits' % (m, n)


class MoRef(mf.Function):
    def __init__(self, n, k): mf.Function.__init__(self); self.n, self.k = n, k
    def get_bv_size(self): return self.n
    def get_output_size(self): return self.k
    def evaluate(self, x, value):
        x = ls(x)
        for j in range(self.k): value[j] = float(sum(b * ((i * 7 + j * 5 + i * j) % 11 - 5) for i, b in enumerate(x)))
REF = []
def reference(line):
    """The answer of bindref.cc, which configures the same algorithm without Python."""
    import subprocess
    if not REF: REF.append(subprocess.Popen([os.environ['VERIF_BINDREF']], env={k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONMALLOC')}, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    REF[0].stdin.write(line + '\n'); REF[0].stdin.flush(); out = REF[0].stdout.readline()
    if not out: REF.clear()
    return out.split()

def g_configured(c):
    """Every parameter set from Python acts as the same parameter of the library."""
    r = c.rng; n = r.randint(10, 16)
    names = ['RandomWalk', 'RandomLocalSearch', 'SimulatedAnnealing', 'OnePlusOneEa', 'SelfAdjustingOnePlusOneEa', 'MuPlusLambdaEa', 'MuCommaLambdaEa', 'TwoRateOnePlusLambdaEa', 'InformationTheoreticEa', 'GeneticAlgorithm', 'OnePlusLambdaCommaLambdaGa', 'Pbil', 'NpsPbil', 'Umda', 'CompactGa', 'Mmas', 'Hea', 'BmPbil', 'Mimic', 'Hboa', 'Ltga', 'RandomSearch', 'Nsga2']
    k = names[c.idx % len(names)]; pop = r.randint(6, 20); mu, lam = r.randint(3, 8), r.randint(9, 16); it = r.randint(3, 25); sel = r.randint(1, pop - 1); rate = lambda: r.uniform(.02, .45); yes = lambda: r.randint(0, 1); lr = lambda: r.uniform(.01, .5)
    args, sets, obj = [], {}, []
    if k in ('RandomWalk', 'RandomLocalSearch', 'SimulatedAnnealing'):
        h = r.randint(0, 3); w = r.randint(1, 5) if h < 3 else r.uniform(.1, .9); args = [h, w]; H = [lambda: nb.SingleBitFlip(n), lambda: nb.HammingBall(n, w), lambda: nb.HammingSphere(n, w), lambda: nb.StandardBitMutation(n, w)][h](); obj = [H]
    if k == 'RandomLocalSearch': sets = dict(patience=r.choice([0, 1, 3, 8])); it = r.randint(30, 90)
    if k == 'SimulatedAnnealing': sets = dict(num_transitions=r.randint(3, 20), num_trials=r.randint(5, 30), initial_acceptance_probability=r.uniform(.3, .9), beta_ratio=r.uniform(1.05, 3)); it = r.randint(30, 90)
    if k == 'OnePlusOneEa': sets = dict(mutation_rate=rate(), allow_no_mutation=yes())
    if k == 'SelfAdjustingOnePlusOneEa': sets = dict(mutation_rate_init=r.uniform(.1, .2), mutation_rate_min=r.uniform(.05, .1), mutation_rate_max=r.uniform(.2, .4), update_strength=r.uniform(1.1, 2), success_ratio=r.uniform(.1, .9), allow_no_mutation=yes()); it = r.randint(20, 80)
    if k in ('MuPlusLambdaEa', 'MuCommaLambdaEa'): args = [mu, lam]; sets = dict(mutation_rate=rate(), allow_no_mutation=yes())
    if k == 'TwoRateOnePlusLambdaEa': args = [lam]; sets = dict(mutation_rate_init=r.uniform(2, n / 4) / n, allow_no_mutation=yes())
    if k == 'InformationTheoreticEa': args = [pop]; sets = dict(allow_no_mutation=yes(), initial_hamming_weight=r.randint(0, n), learning_rate=lr(), mutation_rate_init=r.uniform(.1, .2), mutation_rate_max=r.uniform(.2, .4), mutation_rate_min=r.uniform(.02, .1), replacement=r.randint(0, 2), selection_size=sel)
    if k == 'GeneticAlgorithm': args = [pop]; sets = dict(mutation_rate=rate(), crossover_probability=r.random(), tournament_size=r.randint(2, 5), allow_no_mutation=yes())
    if k == 'OnePlusLambdaCommaLambdaGa': args = [r.randint(2, 8)]; sets = dict(mutation_rate=rate(), crossover_bias=r.uniform(.1, .9))
    if k in ('Pbil', 'NpsPbil'): args = [pop]; sets = dict(learning_rate=lr(), selection_size=sel if k == 'Pbil' else r.randint(1, pop // 2))
    if k in ('Umda', 'Mimic'): args = [pop]; sets = dict(selection_size=sel)
    if k in ('CompactGa', 'Mmas'): sets = dict(learning_rate=lr()); it = r.randint(20, 80)
    if k == 'Hea': args = [pop]; sets = dict(bound_moment=yes(), learning_rate=lr(), randomize_bit_order=yes(), reset_period=r.randint(0, 6), selection_size=sel)
    if k == 'BmPbil': args = [pop]; sets = dict(learning_rate=lr(), negative_positive_selection=yes(), num_gs_cycles=r.randint(1, 4), num_gs_steps=r.randint(5, 60), reset_mode=r.randint(0, 2), sampling_mode=r.randint(0, 2), selection_size=r.randint(1, pop // 2))
    if k in ('Hboa', 'Ltga'): sets = dict(population_size=r.randint(6, 30))
    if k == 'Nsga2': args = [r.randint(1, 3), mu + 3]; sets = dict(tournament_size=r.randint(2, 5), mutation_rate=rate(), allow_no_mutation=yes(), crossover_probability=r.random())
    drop = r.choice([0, 0, .3]); sets = {s: v for s, v in sets.items() if r.random() >= drop or s.startswith('mutation_rate_') or s in ('selection_size', 'sampling_mode', 'tournament_size')}; order = list(sets); r.shuffle(order)
    seed, fseed, budget, fun = r.randint(0, 2 ** 32 - 1), r.randint(0, 2 ** 32 - 1), r.randint(60, 500) if k in ('Hboa', 'Ltga') or r.random() < .1 else 10 ** 6, r.choice(['nk', 'linear'])
    line = '%s n=%d it=%d %s %s' % (k, n, it, args, ' '.join('%s=%r' % (s, sets[s]) for s in order)); c.desc = line
    want = reference('%s %d %d %d %d %d %s %s ; %s' % (k, n, it, budget, seed, fseed, fun, ' '.join('%r' % a for a in args), ' '.join('%s %r' % (s, sets[s]) for s in order)))
    if not want: c.count('reference ended'); return          # the library itself fails: judged by other properties
    if k == 'Nsga2': a = ma.Nsga2(n, args[0], args[1])
    else: a = getattr(al, k)(n, *(obj or args))
    for s in order: getattr(a, 'set_' + s)(bool(sets[s]) if s in ('allow_no_mutation', 'bound_moment', 'randomize_bit_order', 'negative_positive_selection') else sets[s])
    if k not in ('Hboa', 'Ltga'): a.set_num_iterations(it)
    if k == 'Nsga2':
        F = MoRef(n, args[0]); rd.Generator.set_seed(seed); a.minimize([F]); got = ''.join(''.join(map(str, ls(b))) for b in a.get_solutions().bvs); u = rd.Generator.uniform(); c.check(got == want[0] and u == float(want[1]), 'configured:' + k, '%s: %s %r, the same run without Python %s' % (line, got, u, want))
    else:
        rd.Generator.set_seed(fseed)
        if fun == 'nk': f = fn.NkLandscape(); f.random(n, 3)
        else: f = fn.LinearFunction(); f.random(n)
        cc = ct.CallCounter(f); g = ct.OnBudgetFunction(cc, budget); rd.Generator.set_seed(seed)
        try: a.maximize([g])
        except hnco.LastEvaluation: pass
        a.finalize(); s = a.get_solution(); got = (''.join(map(str, ls(s.first))), s.second, cc.get_num_calls(), rd.Generator.uniform())
        c.check(got == (want[0], float(want[1]), int(want[2]), float(want[3])), 'configured:' + k, '%s: %r, the same run without Python %s' % (line, got, want))
    c.count(k); c.count('parameters', len(sets)); c.cover(line)

GROUPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('g_')}

def main():
    group, seed, a, b, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    tmp = os.path.dirname(out)
    with open(out, 'a') as o:
        for i in range(a, b):
            o.write(json.dumps(dict(begin=i)) + '\n'); o.flush()
            c = Ctx(seed, group, i, tmp); viol = None
            try: GROUPS[group](c)
            except Viol as v: viol = (v.key, v.detail)
            except Exception as e:
                import traceback
                viol = ('unexpected:%s' % type(e).__name__, traceback.format_exc()[-1500:])
            o.write(json.dumps(dict(case=i, obs=c.obs, counts=c.counts, cov=list(c.cov), desc=c.desc, viol=viol)) + '\n'); o.flush()

if __name__ == '__main__':
    main()
