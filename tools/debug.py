#!/usr/bin/env python3-vt
"""debug.py ID CASE PREFIX [OBLIGATION-REGEX]: prints decisions and normal forms of one path (development aid)."""
import os, sys, re, tempfile, shutil, hashlib
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + '/engine')
import explore as X, numpy as np
from path import *
import build as BLD
pid, case, pre = sys.argv[1:4]; rx = sys.argv[4] if len(sys.argv) > 4 else '^$'
repo = os.environ.get('VERIF_REPO', '/repo')
w = os.environ.get('DBG', '/tmp/w/dbg_' + pid)
import glob
if not os.path.exists(w + '/done') or os.environ.get('REBUILD'):
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    s, r, t = BLD.build(R + '/harness/%s.cpp' % pid, repo, w, False); open(w + '/done', 'w').write('%s\n%s' % (s, r))
s, r = open(w + '/done').read().split('\n')
X.init({'work': w, 'sym': s, 'real': r, 'seed': 1, 'z3_s': 6.0, 'known': set(), 'path_s': 240})
X.signal.alarm(0)
prefix = [int(x) for x in pre.split(',') if x != '']
d = X.run_sym(case, prefix, None)
print('end', d.end, 'decs', len(d.decs), 'nodes', len(d.op))
samples, S = gen_samples(d, int(os.environ.get('NS', 400)), 1, [], 0)
def fmt(P, n):
    try:
        x = P.nf(n); t = P.R.smt(x.n)
        for i in range(len(P.R.names) - 1, -1, -1): t = re.sub(r'\ba%d\b' % i, '%s#%d' % (P.R.names[i].replace(' ', ''), i), t)
        return (t[:600] + ('/%d' % x.q if x.q != 1 else '') + (' DEN ' + str(x.d) if x.d else ''))
    except Exception as e: return '!%s %s' % (type(e).__name__, e)
v = evaluate(d, samples, S, None)
am = X.assmask(d, v, S); m = am & X.decmask(d, v, len(d.decs), S)
print('samples on path', m.sum(), 'of', am.sum())
idx = np.nonzero(m if m.any() else am)[0][:12]
if len(idx) == 0: idx = np.arange(12)
while len(idx) < 6: idx = np.concatenate([idx, idx])
sub = X.pick(samples, idx); P = Prover(d, evaluate(d, sub, len(idx)), len(idx), X.G['z3'], None, timeout=6.0)
P.setup_cuts()
for k, a, b in d.assumes: print('assume', '<' if k == 0 else '<=', fmt(P, a), '||', fmt(P, b)); P.cons.append(c) if (c := P.cond(k, a, b, True))[0] != 'const' else None
for i, x in enumerate(d.decs):
    if x['kind'] == 3: print(i, 'choose', x['name'], x['taken']); continue
    print(i, ['<', '<=', '=='][x['kind']], x['taken'], '|', fmt(P, x['a']), '||', fmt(P, x['b']), '| num', v[x['a']][idx[0]], v[x['b']][idx[0]])
    try:
        c = P.cond(x['kind'], x['a'], x['b'], x['taken'])
        if c[0] != 'const': P.cons.append(c)
        elif not c[1]: print('   contradicts')
    except Exception as e: print('   ', e)
for mode in ((1, 0) if d.cuts else (0,)):
    P.mode = mode
    for (nm, kind, a, b, *_ ) in d.obls:
        if re.search(rx, nm) and a >= 0:
            print('OBL', mode, nm, kind, P.v[a][:3], P.v[b][:3]); print('   A', fmt(P, a)); print('   B', fmt(P, b))
if os.environ.get('ATOMS'):
    for i, nm in enumerate(P.R.names): print('atom', i, nm, P.R.num[i][:3] if hasattr(P.R, 'num') else '')
    for f, p in enumerate(getattr(P.R, 'factors', [])[:40]): print('factor', f, p)
