#!/usr/bin/env python3
"""check.py <property id> <quick|thorough>      decide one property
   check.py --replay <file>                     run the recorded case again
"""
import importlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time, hashlib
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import buildlib
from registry import CHECKS

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:handle_abort=0:strict_string_checks=0:detect_invalid_pointer_pairs=0:max_allocation_size_mb=4096:allocator_may_return_null=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1',
    'PYTHONDONTWRITEBYTECODE': '1',
}

class Result:
    def __init__(self):
        self.cases = 0
        self.observations = 0
        self.cov = set()
        self.counts = {}
        self.group_cases = {}
        self.group_obs = {}
        self.samples = []
        self.violations = []     # dicts: key, detail, replay-info
        self.errors = []

    def add(self, d, name, d2):
        t = getattr(self, name)
        for k, v in d2.items():
            t[k] = t.get(k, 0) + v

def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out

def crash_key(group, rc, err):
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    kind = None
    if m:
        kind = 'asan-' + m.group(1)
    if not kind:
        m = re.search(r'runtime error: ([^\n]{0,80})', err)
        if m:
            kind = 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?', '', m.group(1).lower())).strip('-')[:60]
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', err)
        if m:
            kind = 'tsan-' + m.group(1).strip().replace(' ', '-')
    if not kind:
        m = re.search(r"Assertion `([^']*)' failed", err) or re.search(r"Assertion '([^']*)' failed", err)
        if m:
            kind = 'assert-' + re.sub(r'\W+', '-', m.group(1))[:60].strip('-')
    if not kind:
        m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
        if m:
            kind = 'terminate-' + re.sub(r'\W+', '-', m.group(1))
    if not kind:
        m = re.search(r'==\d+== (Conditional jump|Use of uninitialised|Invalid (?:read|write|free)|Syscall param|Source and destination|Mismatched free)', err)
        if m:
            kind = 'memcheck-' + m.group(1).replace(' ', '-').lower()
    if not kind:
        kind = 'signal-%d' % -rc if rc < 0 else 'exit-%d' % rc
    return 'crash:%s:%s' % (group, kind)

def read_cur(path):
    b = open(path, 'rb').read()
    z = lambda x: x.split(b'\0', 1)[0].decode('utf8', 'replace')
    return z(b[:16]), z(b[16:80]), z(b[80:112]), z(b[112:])

def run_proc(cmd, tmp, tag, wall, extra_env=None):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(extra_env or {})
    errp = os.path.join(tmp, tag + '.err')
    with open(errp, 'wb') as e, open(os.path.join(tmp, tag + '.stdout'), 'wb') as o:
        try:
            r = subprocess.run(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, timeout=wall, env=env, cwd=tmp)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = None
    with open(errp, 'rb') as e:
        e.seek(0, 2)
        n = e.tell()
        e.seek(max(0, n - 20000))
        tail = e.read().decode('utf8', 'replace')
        if n > 20000:
            e.seek(0)
            head = e.read(20000).decode('utf8', 'replace')
            tail = head + '\n...\n' + tail
    return rc, tail

def wrapper(variant):
    if variant != 'memcheck':
        return []
    return ['valgrind', '-q', '--tool=memcheck', '--leak-check=no', '--exit-on-first-error=yes', '--error-exitcode=99', '--track-origins=no', '--num-callers=30', '--fair-sched=try']

def run_cxx(pid, part, tier, seed, tmp, res):
    binary = buildlib.build(part['name'], part.get('variant', 'asan'), part['sources'], part.get('defines', ()), part.get('flags', ()), part.get('libs', ()), part.get('scope', 'core'))
    t0 = time.time()
    nsh = part.get('shards', {}).get(tier) or min(os.cpu_count() or 8, part.get('max_shards', 8))
    wall = part.get('wall', {'quick': 700, 'thorough': 20000})[tier]
    cpu = part.get("cpu", 120)
    variant = part.get('variant', 'asan')
    base = wrapper(variant) + [binary, '--seed', str(seed), '--tmp', tmp, '--cpu', str(cpu)]
    if tier == 'thorough':
        base.append('--thorough')
    scale = float(os.environ.get('VERIF_SCALE', '1')) * part.get('scale', 1)
    if scale != 1:
        base += ['--scale', str(scale)]

    def shard(i):
        out = os.path.join(tmp, '%s-%s.%d.json' % (part['name'], variant, i))
        rc, err = run_proc(base + ['--shard', str(i), '--nshards', str(nsh), '--out', out], tmp, '%s-%s.%d' % (part['name'], variant, i), wall, part.get('env'))
        return i, rc, err, out

    with cf.ThreadPoolExecutor(nsh) as ex:
        results = list(ex.map(shard, range(nsh)))
    for i, rc, err, out in results:
        if rc == 0 and os.path.exists(out):
            d = json.load(open(out))
            res.cases += d['cases']
            res.observations += d['observations']
            for n in ('counts', 'group_cases', 'group_obs'):
                res.add(None, n, d[n])
            res.samples += d['samples']
            cov = open(out + '.cov', 'rb').read()
            res.cov.update(struct.unpack('<%dQ' % (len(cov) // 8), cov))
            for v in d['violations']:
                if part.get('crashes_only'):
                    continue
                v.update(part=part['name'], variant=variant, seed=seed, tier=tier)
                res.violations.append(v)
            continue
        state, group, idx, desc = ('?', '?', '0', '') if not os.path.exists(out + '.cur') else read_cur(out + '.cur')
        if rc is None:
            res.errors.append('shard %d of %s exceeded its wall-clock watchdog in %s#%s (inconclusive)' % (i, part['name'], group, idx))
            continue
        if rc == 77 or state == 'HANG':
            out2 = out + '.re'
            rc2, err2 = run_proc(base[:-2] + ['--cpu', str(3 * cpu), '--group', group, '--idx', idx, '--out', out2] if base[-2] == '--cpu'
                                 else base + ['--cpu', str(3 * cpu), '--group', group, '--idx', idx, '--out', out2], tmp, 'rerun.%d' % i, wall, part.get('env'))
            if rc2 == 77:
                res.violations.append(dict(key='hang:%s' % group, detail='no termination after %d s of CPU time, twice [case: %s]' % (3 * cpu, desc[:3000]), group=group, idx=int(idx), part=part['name'], variant=variant, seed=seed, tier=tier))
            else:
                res.errors.append('case %s#%s exceeded its CPU budget once, not twice (inconclusive)' % (group, idx))
            continue
        if rc == 2 and state != 'RUN':
            res.errors.append('harness %s failed: %s' % (part['name'], err[-800:]))
            continue
        if rc == -9:
            res.errors.append('shard %d of %s was killed (memory?) in %s#%s (inconclusive)' % (i, part['name'], group, idx))
            continue
        res.violations.append(dict(key=crash_key(group, rc, err), detail='process ended with status %s [case: %s]\n%s' % (rc, desc[:3000], err[-6000:] if 'AddressSanitizer' not in err else err[:6000]),
                                   group=group, idx=int(idx or 0), part=part['name'], variant=variant, seed=seed, tier=tier))
        res.cases += 1
    res.counts['wall_run_' + part['name'] + '_' + variant] = round(time.time() - t0, 1)

def run_py(pid, part, tier, seed, tmp, res):
    mod = importlib.import_module('pychecks.' + part['module'])
    mod.run(pid=pid, part=part, tier=tier, seed=seed, tmp=tmp, res=res, tools=sys.modules[__name__])

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = CHECKS[pid]
    t0 = time.time()
    res = Result()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=os.environ.get('VERIF_TMP', '/tmp'))
    try:
        try:
            buildlib.prebuild([p for p in chk['parts'] if 'module' not in p and not (tier == 'quick' and p.get('thorough_only'))])
        except buildlib.BuildError:
            pass    # reported below, by the part concerned
        for part in chk['parts']:
            if tier == 'quick' and part.get('thorough_only'):
                continue
            if part.get('only') and os.environ.get('VERIF_PART') and os.environ['VERIF_PART'] != part['name']:
                continue
            try:
                (run_py if 'module' in part else run_cxx)(pid, part, tier, seed, tmp, res)
            except buildlib.BuildError as e:
                res.errors.append(str(e))
        # vacuity: every group must have observed something
        if not res.violations and not res.errors:
            for g, n in res.group_cases.items():
                if n and not res.group_obs.get(g):
                    res.errors.append('group %s ran %d cases and its monitor observed nothing' % (g, n))
            if not res.cases:
                res.errors.append('no case ran')
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    known = known_findings(pid)
    new, old = [], {}
    for v in res.violations:
        if v['key'] in known:
            old.setdefault(v['key'], v)
        else:
            new.append(v)
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': chk['level'],
        'coverage': {
            'evaluations': res.cases, 'distinct_nontrivial': len(res.cov), 'rule': chk['rule'],
            'samples': res.samples[:25], 'oracle_decisions': res.observations,
            'cases_per_group': res.group_cases, 'decisions_per_group': res.group_obs, 'observed': res.counts,
        },
        'assumptions': chk.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(new),
        'known_findings_seen': sorted(old), 'inconclusive': res.errors,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for k, v in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    print('%s %s seed=%d: %d cases, %d oracle decisions, %d distinct situations, %.1f s' % (pid, tier, seed, res.cases, res.observations, len(res.cov), wall))
    if new:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        seen = set()
        for v in new:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            name = '%s-%s.json' % (pid, hashlib.sha1(v['key'].encode()).hexdigest()[:10])
            path = os.path.join(VERIF, 'replay', name)
            v['property'] = pid
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
                f.write('\n')
            print('violated: %s: %s' % (v['key'], v['detail'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            if len(seen) >= 20:
                break
        return 1
    if res.errors:
        for e in res.errors:
            print('INCONCLUSIVE: ' + e)
        return 2
    return 0

def replay(path):
    v = json.load(open(path))
    chk = CHECKS[v['property']]
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        for part in chk['parts']:
            if part['name'] == v['part'] and part.get('variant', 'asan') == v.get('variant', 'asan') and 'module' not in part:
                binary = buildlib.build(part['name'], part.get('variant', 'asan'), part['sources'], part.get('defines', ()), part.get('flags', ()), part.get('libs', ()), part.get('scope', 'core'))
                out = os.path.join(tmp, 'r.json')
                rc, err = run_proc(wrapper(part.get('variant', 'asan')) + [binary, '--seed', str(v['seed']), '--tmp', tmp, '--cpu', '600', '--group', v['group'], '--idx', str(v['idx']), '--out', out] + (['--thorough'] if v['tier'] == 'thorough' else []), tmp, 'r', 3600, part.get('env'))
                print('status', rc)
                print(err[-6000:])
                if os.path.exists(out):
                    print(open(out).read())
                return 0
        print('replay by running the check again; recorded detail:\n' + v['detail'])
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
