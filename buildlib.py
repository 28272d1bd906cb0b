"""Builds the code under test from /repo's working tree, plus a harness, per sanitizer variant.

Objects are cached by content hash (flags + file + all headers) under /verif/.build, which is not committed:
in a fresh sandbox everything is compiled again from /repo.
"""
import hashlib, os, subprocess, sys, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, '.build')
JOBS = os.cpu_count() or 8

class BuildError(Exception):
    pass

class LinkError(BuildError):
    pass

COMMON = ['-std=c++17', '-fopenmp', '-fPIC', '-g1', '-w', '-I' + os.path.join(VERIF, 'config'),
          '-I' + os.path.join(REPO, 'lib'), '-I' + os.path.join(VERIF, 'harness'), '-I/usr/include/python3.12',
          '-DHAVE_CONFIG_H']
VARIANTS = {
    # address + undefined-behaviour sanitizers, checked standard library, library asserts on
    'asan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS'],
    # thread sanitizer; OpenMP regions run on the instrumented runtime of harness/omp_shim.cc
    'tsan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS'],
    # no sanitizer: used for the command-line programs and the Python module
    'plain': ['-O1', '-D_GLIBCXX_ASSERTIONS'],
    # run under valgrind: reads of values that were never set
    'memcheck': ['-O1', '-D_GLIBCXX_ASSERTIONS'],
}
LIBS = ['-lboost_serialization', '-lgmpxx', '-lgmp', '-ldl', '-lpython3.12', '-lpthread']

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def header_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            if os.path.basename(root) in ('_build', '.git'):
                ds[:] = []
                continue
            for f in sorted(fs):
                if f.endswith(('.hh', '.h', '.hpp', '.tpp', '.inc', '.ipp', '.hxx')):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b'\0' + read(p) + b'\0')
    return h.hexdigest()

_hh = {}
def repo_header_hash():
    if 'r' not in _hh:
        _hh['r'] = header_hash([os.path.join(REPO, 'lib'), os.path.join(REPO, 'app'), os.path.join(VERIF, 'config')])
    return _hh['r']

def harness_header_hash():
    if 'h' not in _hh:
        _hh['h'] = header_hash([os.path.join(VERIF, 'harness')])
    return _hh['h']

CORE_EXCLUDE = ('hnco/app/', 'hnco/multiobjective/app/', 'hnco/algorithms/gomea/', 'hnco/algorithms/fast-efficient-p3/',
                'gomea/', 'fast-efficient-p3/', 'python-function.cc')

def listed_sources():
    """Sources the repository itself compiles into libhnco (from lib/Makefile.am), plus every other
    .cc of lib/hnco that has appeared in the tree."""
    out = []
    for sub in ('hnco', 'fparser', 'fast-efficient-p3', 'gomea'):
        top = os.path.join(REPO, 'lib', sub)
        for root, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cc', '.cpp', '.c', '.cxx')):
                    out.append(os.path.join(root, f))
    am = open(os.path.join(REPO, 'lib', 'Makefile.am')).read()
    keep = []
    for p in out:
        rel = os.path.relpath(p, os.path.join(REPO, 'lib'))
        if rel.startswith('hnco/') or rel in am:
            keep.append(p)
    return keep

def compile_one(src, flags, hh, extra=''):
    key = sha(' '.join(flags), hh, extra, src, read(src))[:32]
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++'] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stderr[-4000:]))
    os.replace(tmp, obj)
    return obj

def compile_many(jobs):
    # biggest files first
    jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, *j) for j in jobs]
        return [f.result() for f in futs]

def link(objs, flags, out, libs):
    r = subprocess.run(['g++'] + flags + ['-o', out] + objs + libs, capture_output=True, text=True)
    if r.returncode:
        raise LinkError('linking %s failed:\n%s' % (out, r.stderr[-4000:]))

def build(name, variant, harness, defines=(), extra_flags=(), libs=(), scope='core'):
    """Compile lib + harness sources (paths relative to /verif/harness or absolute) and link executable.

    scope 'core' leaves out the parts of the library the harness does not use (they are costly to compile);
    if the rest turns out to need them, everything is compiled."""
    if scope == 'core':
        try:
            return build_(name, variant, harness, defines, extra_flags, libs, 'core')
        except LinkError:
            pass
    return build_(name, variant, harness, defines, extra_flags, libs, 'all')

def jobs_of(variant, harness, defines, extra_flags, scope):
    flags = COMMON + VARIANTS[variant]
    srcs = listed_sources()
    if scope == 'core':
        srcs = [s for s in srcs if not any(e in os.path.relpath(s, os.path.join(REPO, 'lib')) for e in CORE_EXCLUDE)]
    # the bundled expression parser hashes constants through out of range conversions of no consequence
    nocast = flags + (['-fno-sanitize=float-cast-overflow'] if variant == 'asan' else [])
    jobs = [(s, nocast if '/lib/fparser/' in s else flags, repo_header_hash()) for s in srcs]
    hjobs = []
    for h in harness:
        p = h if os.path.isabs(h) else os.path.join(VERIF, 'harness', h)
        hjobs.append((p, flags + ['-D' + d for d in defines] + list(extra_flags),
                      sha(repo_header_hash(), harness_header_hash())))
    return flags, hjobs, jobs

def prebuild(parts):
    """Compile what several parts need, side by side."""
    if len(parts) < 2:
        return
    todo = {}
    for p in parts:
        _, h, j = jobs_of(p.get('variant', 'asan'), p['sources'], p.get('defines', ()), p.get('flags', ()), p.get('scope', 'core'))
        for x in h + j:
            todo[(x[0], tuple(x[1]), x[2])] = x
    compile_many(list(todo.values()))

def build_(name, variant, harness, defines, extra_flags, libs, scope):
    flags, hjobs, jobs = jobs_of(variant, harness, defines, extra_flags, scope)
    objs = compile_many(hjobs + jobs)
    objs = sorted(set(objs))
    out = os.path.join(BUILD, 'bin', name + '-' + variant)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    key = sha(' '.join(objs), ' '.join(flags), ' '.join(libs))
    stamp = out + '.key'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    lflags = [f for f in flags if f.startswith('-f') or f.startswith('-O')]
    if variant == 'tsan':
        lflags = [f for f in lflags if f != '-fopenmp']
    link(objs, lflags, out, list(libs) + LIBS)
    with open(stamp, 'w') as f:
        f.write(key)
    return out

def build_module(variant):
    """The Python module of bindings/hnco.cc with the library inside; returns the folder to import it from."""
    flags = COMMON + VARIANTS[variant]
    nocast = flags + (['-fno-sanitize=float-cast-overflow'] if variant == 'asan' else [])
    rel = lambda s: os.path.relpath(s, os.path.join(REPO, 'lib'))
    srcs = [s for s in listed_sources() if not rel(s).startswith(('hnco/app/', 'hnco/multiobjective/app/')) and not rel(s).endswith('python-function.cc')]
    jobs = [(s, nocast if '/lib/fparser/' in s else flags, repo_header_hash()) for s in srcs]
    jobs.append((os.path.join(REPO, 'bindings', 'hnco.cc'), flags + ['-fvisibility=hidden', '-DVERSION_INFO=0'], repo_header_hash()))
    objs = sorted(set(compile_many(jobs)))
    d = os.path.join(BUILD, 'module-' + variant)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'hnco.so')
    key = sha(' '.join(objs), ' '.join(flags))
    stamp = out + '.key'
    if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key):
        link(objs, [f for f in flags if f.startswith(('-f', '-O'))] + ['-shared'], out, [l for l in LIBS if 'python' not in l])
        with open(stamp, 'w') as f:
            f.write(key)
    return d

def prune(limit_mb=1500):
    """Keep the object cache small."""
    d = os.path.join(BUILD, 'obj')
    if not os.path.isdir(d):
        return
    fs = []
    for f in os.listdir(d):
        p = os.path.join(d, f)
        try:
            st = os.stat(p)
            fs.append((st.st_mtime, st.st_size, p))
        except OSError:
            pass
    tot = sum(s for _, s, _ in fs)
    for m, s, p in sorted(fs):
        if tot < limit_mb << 20:
            break
        try:
            os.remove(p)
            tot -= s
        except OSError:
            pass

if __name__ == '__main__':
    print(len(listed_sources()))
