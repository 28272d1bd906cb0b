#!/usr/bin/env python3
"""mkseeds.py SPEC.py: SPEC defines SEEDS = [dict(id, prop, needs, what, edits=[(file, old, new[, nth])], demo=<C++ main body or None>, head=<includes>, sh=<shell text instead>)]"""
import json, os, subprocess, sys, runpy
R, V = '/repo', '/verif'
CC = '''#!/bin/bash
# Builds d.cc against the library in _build and runs it: 0 if the behaviour is right.
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
g++ -std=c++17 -fopenmp -w -I lib -I _build/obj "$H/d.cc" -o "$D/d" -L _build/obj/lib/.libs -Wl,-rpath,"$PWD/_build/obj/lib/.libs" -lhnco -lboost_serialization -lgmp || exit 2
cd "$D" && timeout 120 ./d
'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    d = '%s/seeded/%s' % (V, s['id']); os.makedirs(d, exist_ok=True)
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    for e in s['edits']:
        f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 0
        t = open(R + '/' + f).read(); n = t.count(old); assert n > nth and (len(e) > 3 or n == 1), (s['id'], f, n, old)
        i = -1
        for _ in range(nth + 1): i = t.index(old, i + 1)
        open(R + '/' + f, 'w').write(t[:i] + new + t[i + len(old):])
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', R, 'diff'], text=True))
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    if s.get('demo'):
        open(d + '/d.cc', 'w').write(s.get('head', '') + '\nint main() {\n' + s['demo'] + '\n  return 0;\n}\n'); open(d + '/demo.sh', 'w').write(CC)
    else: open(d + '/demo.sh', 'w').write(s['sh'])
    for n, t in s.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
