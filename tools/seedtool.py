#!/usr/bin/env python3
"""seedtool.py new ID PROPERTY NEEDS WHAT   : record /repo's uncommitted diff as /verif/seeded/ID (demo.sh is written by hand), then restore /repo
seedtool.py verify ID...                    : apply, build, test (82), demo must fail, check must alarm; restore; demo must pass"""
import json, os, subprocess, sys, glob
V, R = '/verif', '/repo'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def restore(): sh('git -C %s checkout -- .' % R)
def build(): return sh('bash /opt/vp/build.sh')
def demo(i): return sh('timeout 300 bash %s/seeded/%s/demo.sh' % (V, i), cwd=R)
def verify(i, clean):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i))); out = []
    try:
        a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i))
        if a.returncode: return '%s: patch does not apply: %s' % (i, a.stdout)
        b = build()
        if b.returncode: return '%s: does not build %s' % (i, b.stdout[-1500:])
        sh('bash /opt/vp/test.sh /tmp/seed_o.json'); o = json.load(open('/tmp/seed_o.json'))
        if len(o['passed']) != 82 or o['failed']: out.append('TESTS FAIL %s' % o['failed'])
        d = demo(i)
        if d.returncode == 0: out.append('DEMO PASSES with the patch')
        c = sh('VERIF_SEED=1 VERIF_TIER=quick python3 %s/check.py %s' % (V, m['property']))
        v = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'violated'))]
        out.append('CAUGHT' if c.returncode == 1 and any(l.startswith('VIOLATION property=%s ' % m['property']) for l in v) else 'MISSED (exit %d)' % c.returncode)
        out.append((v or [''])[0][:200])
    finally: restore()
    return '%s [%s]: %s' % (i, m['property'], '; '.join(out))
if sys.argv[1] == 'new':
    i, p, n, w = sys.argv[2:6]; d = '%s/seeded/%s' % (V, i); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout); restore()
    json.dump({'property': p, 'needs': n, 'what_it_breaks': w}, open(d + '/meta.json', 'w'), indent=1)
elif sys.argv[1] == 'verify':
    ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded')); restore(); build()
    bad = [i for i in ids if demo(i).returncode != 0]
    for i in bad: print(i, 'DEMO FAILS on the clean tree:', demo(i).stdout[-500:])
    for i in ids: print(verify(i, True), flush=True)
    build()
