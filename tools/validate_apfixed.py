"""Compares vf/refs.ap_fixed with the ap_fixed headers shipped with hls4ml (run by hand: /opt/venv/bin/python tools/validate_apfixed.py)."""
import collections, os, subprocess, sys, tempfile
import numpy as np
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + '/vendor']
from vf import refs
import importlib.util
inc = os.path.join(os.path.dirname(importlib.util.find_spec('hls4ml').origin), 'templates/vivado/ap_types')
src = ['#include "ap_fixed.h"', '#include <cstdio>', 'typedef ap_fixed<32,16> X;',
       'template<class T> void run(const char*n){for(int v=-400;v<=400;v++){double d=v/8.0; X x=d; T t=x; printf("%s %d %.8f\\n",n,v,t.to_double());}}', 'int main(){']
for k in (0, 1):
    for b, i in ((4, 4), (4, 2), (3, 5), (5, 0), (1, 1), (2, 4)):
        if k and b < 2:
            continue
        for r in ('TRN', 'TRN_ZERO', 'RND', 'RND_ZERO', 'RND_INF', 'RND_MIN_INF', 'RND_CONV'):
            for s in ('SAT', 'SAT_ZERO', 'SAT_SYM', 'WRAP', 'WRAP_SM'):
                if k == 0 and s == 'WRAP_SM':
                    continue
                src.append(f'run<ap_{"" if k else "u"}fixed<{b},{i},AP_{r},AP_{s}>>("{k},{b},{i},{r},{s}");')
src.append('}')
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.cpp', 'w').write('\n'.join(src))
    subprocess.check_call(['g++', '-O1', '-w', '-I', inc, d + '/a.cpp', '-o', d + '/a'])
    out = subprocess.check_output([d + '/a'], text=True)
D = collections.defaultdict(list)
for l in out.splitlines():
    n, v, t = l.split()
    D[n].append((int(v) / 8, float(t)))
bad = 0
for n, l in D.items():
    k, b, i, r, s = n.split(',')
    x, t = np.array(l).T
    y = refs.ap_fixed(x, int(k), int(b), int(i), r, s)
    if not np.array_equal(y, t):
        bad += 1
        j = np.where(y != t)[0]
        print(n, len(j), [(x[q], t[q], y[q]) for q in j[:3]])
print(len(D), 'types,', bad, 'disagree')
