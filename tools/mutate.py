#!/usr/bin/env python3
"""mutate.py [-n PER_FILE] [-s SEED] [-o OUT.jsonl] [-r SURVIVORS.jsonl] PATTERN...   mutation campaign: which small changes of the library do the C++ harnesses notice?

Works in a scratch folder on copies of single files; /repo is only read.  Each mutant recompiles the objects that depend on the
mutated file (no sanitizer, asserts on), links the harnesses of the quick tier and runs their shards one after another until one reports."""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not os.path.exists(V + '/buildlib.py'): V = os.environ.get('MUT_VERIF', '/verif')
sys.path.insert(0, V)
import buildlib as B
from registry import CHECKS
W = os.environ.get('MUT_DIR', '/tmp/mut')
FLAGS = [f for f in B.COMMON if f != '-g1'] + ['-O1', '-D_GLIBCXX_ASSERTIONS']
HARN = {}
for pid, c in CHECKS.items():
    for p in c['parts']:
        if 'module' in p or p.get('variant') in ('memcheck', 'tsan') or pid == 'C24' and p['name'] != 'c24': continue
        HARN.setdefault(pid, p)
ORDER = {  # path fragment -> checks in order of relevance; every other check follows
 'functions/function.cc': 'C14', 'functions/collection': 'C01 C02 C03 C14 C07 C08 C13', 'functions/controllers': 'C05 C02 C06', 'functions/modifiers': 'C04 C02 C03', 'functions/': 'C13 C01 C03 C05',
 'maps/': 'C10 C07', 'neighborhoods/': 'C11 C16', 'representations/': 'C12 C13', 'bit-matrix': 'C09', 'algorithms/population': 'C06 C17 C20', 'evolutionary': 'C16 C17 C15',
 'local-search': 'C16 C15', 'probability-vector': 'C18 C16 C15', 'walsh-moment': 'C18 C16 C15', 'multiobjective': 'C20 C13', 'algorithms/': 'C16 C15 C19', 'app/': 'C21', 'hnco/random.cc': 'C19 C23', '': 'C23 C09 C11 C19'}
def order(rel):
    o = []
    if 'multiobjective' in rel: return ['C13', 'C20', 'C06']
    for k, v in ORDER.items():
        if k in rel and (k or not o): o += v.split()
    o = list(dict.fromkeys(o)); late = ['C06', 'C24', 'C21', 'C19']
    if os.environ.get('MUT_ALL') is None and o: return o[:7]
    return o + [p for p in sorted(HARN) if p not in o and p not in late] + [p for p in late if p in HARN and p not in o]
def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
def objpath(src): return W + '/base/' + src.strip('/').replace('/', '_') + '.o'
def comp(src, obj, inc=()):
    r = sh(['g++'] + list(inc) + FLAGS + ['-MMD', '-MF', obj + '.d', '-c', src, '-o', obj])
    return r.returncode == 0, r.stderr[-500:]
def base():
    os.makedirs(W + '/base', exist_ok=True)
    srcs = B.listed_sources() + [V + '/harness/' + s for p in HARN.values() for s in p['sources']]
    def need(s):
        o = objpath(s)
        if not os.path.exists(o): return True
        t = os.path.getmtime(o); d = deps(o)
        return any(not os.path.exists(x) or os.path.getmtime(x) > t for x in d)
    todo = [s for s in srcs if need(s)]; todo.sort(key=lambda s: -os.path.getsize(s))
    with cf.ThreadPoolExecutor(8) as ex:
        for s, (ok, e) in zip(todo, ex.map(lambda s: comp(s, objpath(s)), todo)):
            if not ok: sys.exit('%s: %s' % (s, e))
    return B.listed_sources()
def deps(o):
    try: t = open(o + '.d').read()
    except OSError: return ['/nonexistent']
    return [x for x in t.replace('\\\n', ' ').split()[1:] if x.startswith((B.REPO, V))]
def mutations(text):
    out = []; pos = 0; incomment = False
    for ln, line in enumerate(text.split('\n'), 1):
        p0 = pos; pos += len(line) + 1; s = line.strip()
        if '/*' in s and '*/' not in s: incomment = True
        if incomment:
            if '*/' in s: incomment = False
            continue
        if not s or s.startswith(('//', '*', '#', '/*', 'assert', 'using', 'namespace', 'template', 'throw', 'class', 'public', 'private')) : continue
        code = re.split(r'//', line)[0]
        if '"' in code: continue
        def add(a, b, new, kind): out.append((p0 + a, p0 + b, new, ln, kind))
        for m in re.finditer(r'(?<= )(<=|>=|==|!=|<|>|&&|\|\||\+=|-=|\*=|\+|-|\*|/|%)(?= )', code):
            o = m.group(1)
            if o in '<>' and re.search(r'template|std::(vector|map|set|unique|shared|pair|tuple|array|function)\s*$', code[:m.start()].rstrip()): continue
            for n in {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+=': ['-=', '='], '-=': ['+='], '*=': ['+='], '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['+']}[o]: add(m.start(1), m.end(1), n, 'op')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            v = int(m.group(1))
            add(m.start(), m.end(), str(v + 1), 'const')
            if v > 0: add(m.start(), m.end(), str(v - 1), 'const')
        for m in re.finditer(r'(?<![\w.])(\d*\.\d+)(?![\w.])', code): add(m.start(), m.end(), str(float(m.group(1)) * .9 + .01), 'const')
        for m in re.finditer(r'\b(true|false)\b', code): add(m.start(), m.end(), 'false' if m.group(1) == 'true' else 'true', 'bool')
        for m in re.finditer(r'\bstd::(max|min)\b', code): add(m.start(), m.end(), 'std::min' if m.group(1) == 'max' else 'std::max', 'minmax')
        for m in re.finditer(r'\b(if|while) \((.*)\)\s*\{?\s*$', code):
            if m.group(1) == 'if': add(m.start(2), m.end(2), '!(' + m.group(2) + ')', 'negate'); add(m.start(2), m.end(2), 'false', 'never')
        for m in re.finditer(r'\.size\(\)', code): add(m.start(), m.end(), '.size() - 1', 'size')
        m = re.match(r'^(\s*)((?:[\w.>\-\[\]():&*+,<>= /!?%|]+));\s*$', code)
        if m and not re.match(r'(return|break|continue|const|auto|int|double|bool|std::|size_t|unsigned|virtual|friend|static|typedef|explicit|\w+ \w+$|\w+ \w+\(|\w+::|[\w:<>]+ &?\w+ ?=|delete)', s): add(len(m.group(1)), len(code.rstrip()), ';', 'delete')
        if m and s.startswith('break'): pass
    return out
KNOWN = set(re.findall(r'^known: property=\S+ key=(\S+)', open(V + '/known-findings.txt').read(), re.M))
lock = threading.Lock()
def run_mutant(job, srcs):
    f, mu, wid = job; d = '%s/w%d' % (W, wid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = open(f).read(); a, b, new, ln, kind = mu; t2 = t[:a] + new + t[b:]
    rel = os.path.relpath(f, B.REPO + '/lib'); r = dict(file=rel, line=ln, kind=kind, old=t.split('\n')[ln - 1].strip(), new=t2.split('\n')[ln - 1].strip())
    objs = {s: objpath(s) for s in srcs}; hs = {p: [V + '/harness/' + x for x in HARN[p]['sources']] for p in HARN}
    mf = d + '/' + rel; os.makedirs(os.path.dirname(mf)); 
    inc = []
    if f.endswith('.cc'):
        open(mf, 'w').write(t2); inc = ['-iquote', os.path.dirname(f)]; n = {f: d + '/0.o'}
        ok, e = comp(mf, n[f], inc)
        if not ok: r['result'] = 'invalid'; return r
        objs[f] = n[f]; hobj = {p: [objpath(x) for x in hs[p]] for p in hs}
    else:
        # a mirror of lib/ with this header replaced
        aff = [s for s in srcs if f in deps(objpath(s))]; haff = {p for p in hs for x in hs[p] if f in deps(objpath(x))}
        r['dependents'] = len(aff)
        if len(aff) > int(os.environ.get('MUT_MAXDEP', '14')): r['result'] = 'skipped'; return r
        mir = d + '/lib'; shutil.copytree(B.REPO + '/lib', mir, copy_function=os.link if False else shutil.copy); open(mir + '/' + rel, 'w').write(t2)
        fl = ['-I' + mir]
        for i, s in enumerate(aff):
            o = '%s/%d.o' % (d, i); ok, e = comp(mir + '/' + os.path.relpath(s, B.REPO + '/lib'), o, fl)
            if not ok: r['result'] = 'invalid'; return r
            objs[s] = o
        hobj = {p: [objpath(x) for x in hs[p]] for p in hs}; lazy = haff
    for p in order(rel):
        if f.endswith('.hh') and p in lazy:
            hobj[p] = []
            for x in hs[p]:
                o = '%s/h_%s.o' % (d, os.path.basename(x)); ok, e = comp(x, o, ['-I' + mir]); hobj[p].append(o)
                if not ok: r['result'] = 'invalid'; return r
        part = HARN[p]; use = [objs[s] for s in srcs if part.get('scope') == 'all' or not any(e in os.path.relpath(s, B.REPO + '/lib') for e in B.CORE_EXCLUDE)]
        if f.endswith('.cc') and objs[f] not in use: continue
        ex = '%s/%s' % (d, p); l = sh(['g++', '-fopenmp', '-o', ex] + hobj[p] + use + B.LIBS)
        if l.returncode: r['result'] = 'link'; r['err'] = l.stderr[-300:]; return r
        for i in range(8):
            out = d + '/o.json'
            try: q = sh([ex, '--seed', '1', '--tmp', d, '--cpu', '15', '--shard', str(i), '--nshards', '8', '--out', out], timeout=240, cwd=d, stdin=subprocess.DEVNULL, env=dict(os.environ, **part.get('env', {})))
            except subprocess.TimeoutExpired: r['result'] = 'killed'; r['by'] = p; r['how'] = 'timeout'; return r
            if q.returncode or not os.path.exists(out): r['result'] = 'killed'; r['by'] = p; r['how'] = 'exit %d' % q.returncode; return r
            v = [x for x in json.load(open(out))['violations'] if x['key'] not in KNOWN]
            if v: r['result'] = 'killed'; r['by'] = p; r['how'] = v[0]['key']; return r
        os.remove(ex)
        if p in os.environ.get('MUT_STOP', '').split(): break
    r['result'] = 'SURVIVED'; return r
def main():
    a = argparse.ArgumentParser(); a.add_argument('-n', type=int, default=8); a.add_argument('-s', type=int, default=1); a.add_argument('-o', default='/tmp/mut.jsonl'); a.add_argument('-j', type=int, default=8); a.add_argument('-d', action='store_true'); a.add_argument('-r', help='only the survivors listed in this file'); a.add_argument('pat', nargs='*'); o = a.parse_args()
    srcs = base(); fs = []
    for root, ds, ns in os.walk(B.REPO + '/lib/hnco'):
        for n in sorted(ns):
            p = root + '/' + n; rel = os.path.relpath(p, B.REPO + '/lib')
            if n.endswith(('.cc', '.hh')) and (not o.pat or any(re.search(x, rel) for x in o.pat)): fs.append(p)
    rng = random.Random(o.s); jobs = []
    for f in sorted(fs):
        t = open(f).read(); ms = mutations(t); rng.shuffle(ms); k = max(2, min(len(ms), round(o.n * len(t.split('\n')) / 100))); seen = set(); c = 0
        for m in ms:
            if c >= k: break
            if m[3] in seen and rng.random() < .8: continue
            seen.add(m[3]); jobs.append((f, m)); c += 1
    if o.r:
        want = {(j['file'], j['line'], j['new']) for j in map(json.loads, open(o.r)) if j['result'] == 'SURVIVED'}; jobs = []
        for f in sorted(fs):
            t = open(f).read(); rel = os.path.relpath(f, B.REPO + '/lib')
            for m in mutations(t):
                new = (t[:m[0]] + m[2] + t[m[1]:]).split('\n')[m[3] - 1].strip()
                if (rel, m[3], new) in want: jobs.append((f, m)); want.discard((rel, m[3], new))
    rng.shuffle(jobs); print(len(fs), 'files', len(jobs), 'mutants', flush=True)
    if o.d: return
    done = set()
    if os.path.exists(o.o):
        for l in open(o.o): j = json.loads(l); done.add((j['file'], j['line'], j['new']))
    free = list(range(o.j)); cnt = {}
    def work(j):
        t = open(j[0]).read(); t2 = t[:j[1][0]] + j[1][2] + t[j[1][1]:]
        if (os.path.relpath(j[0], B.REPO + '/lib'), j[1][3], t2.split('\n')[j[1][3] - 1].strip()) in done: return
        with lock: w = free.pop()
        t0 = time.time()
        try: r = run_mutant((j[0], j[1], w), srcs)
        except Exception as e: r = dict(file=j[0], line=j[1][3], new='', result='error', err=repr(e))
        finally:
            shutil.rmtree('%s/w%d' % (W, w), ignore_errors=True)
            with lock: free.append(w)
        r['t'] = round(time.time() - t0, 1)
        with lock:
            open(o.o, 'a').write(json.dumps(r) + '\n'); cnt[r['result']] = cnt.get(r['result'], 0) + 1
            if r['result'] not in ('killed', 'invalid', 'skipped'): print(r, flush=True)
    with cf.ThreadPoolExecutor(o.j) as ex: list(ex.map(work, jobs))
    print(cnt)
main()
