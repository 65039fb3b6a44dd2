"""Explores the paths of one harness case: runs the symbolic executable, forks on decisions, discharges obligations."""
import os, sys, time, math, signal, subprocess, itertools, json
import numpy as np
from path import *
from nf import TooBig, Undefined
from z3p import Z3

G = {}
FORCE = os.environ.get('VERIF_FORCE_FALLBACK')     # for testing the fallback only
class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

def init(cfg):
    G.update(cfg); G['z3'] = Z3(); G['n'] = 0
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(20000)

def tmpname():
    G['n'] += 1
    return os.path.join(G['work'], 'p%d_%d' % (os.getpid(), G['n']))

def run_sym(case, prefix, seed):
    o = tmpname(); cmd = [G['sym'], case, o]
    s = o + '.seed'
    with open(s, 'w') as f:
        for k, v in (seed or {}).items(): f.write('%s %s\n' % (k, float(v).hex()))
    cmd += [s, ','.join(map(str, prefix))]
    try: rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
    except subprocess.TimeoutExpired: rc = 'timeout'
    try: d = Dump(o)
    except FileNotFoundError: d = None
    for f in (o, s):
        try: os.unlink(f)
        except OSError: pass
    if d is None or d.end is None: raise Inconclusive('symbolic run failed (%s)' % rc)
    if d.end.startswith('abort'): raise Inconclusive('symbolic run: ' + d.end)
    return d

def choices_of(d): return {('choice:' + x['name']): x['taken'] for x in d.decs if x['kind'] == 3}

def run_real(case, inputs, choices):
    """observations of the plain build for one assignment"""
    o = tmpname(); i = o + '.in'
    with open(i, 'w') as f:
        for k, v in inputs.items(): f.write('%s %.17g\n' % (k, v))
        for k, v in choices.items(): f.write('%s %d\n' % (k, v))
    try: rc = subprocess.run([G['real'], case, o, i], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90).returncode
    except subprocess.TimeoutExpired: rc = 'timeout'
    obs = {'obl': {}, 'assume_ok': True, 'end': None, 'probe': {}, 'missing': False, 'rc': rc, 'order': []}
    try:
        for l in open(o, errors='replace'):
            l = l.rstrip('\n')
            if l.startswith('O '):
                nm, rest = l[2:].split('\t'); t = rest.split()
                obs['obl'].setdefault(nm, []).append((t[0], float.fromhex(t[1]), float.fromhex(t[2]))); obs['order'].append(nm)
            elif l.startswith('A '):
                t = l.split(); a, b = float.fromhex(t[2]), float.fromhex(t[3])
                if not (a <= b + 1e-12 * abs(b) if t[1] == '1' else a < b): obs['assume_ok'] = False
            elif l.startswith('P '):
                nm, v = l[2:].split('\t'); obs['probe'].setdefault(nm, []).append(float.fromhex(v))
            elif l.startswith('MISSING'): obs['missing'] = True
            elif l.startswith('END'): obs['end'] = l[4:]
    except FileNotFoundError: pass
    for f in (o, i):
        try: os.unlink(f)
        except OSError: pass
    return obs

def tol(name):
    if name.startswith('d '): return 2e-4, 2e-5
    return 1e-6, 1e-9

def mismatch(name, kind, a, b, scale=0.0):
    """the amount by which an observed obligation fails, 0 if it holds within tolerance"""
    r, ab = tol(name)
    if kind == 'true': return 0.0
    if kind == 'false': return 1.0
    if math.isnan(a) and math.isnan(b) and kind == 'eq': return 0.0
    if math.isnan(a) or math.isnan(b): return float('inf')
    if kind == 'eq' and a == b: return 0.0
    t = r * max(abs(a), abs(b), scale) + ab
    d = abs(a - b) if kind == 'eq' else a - b
    if kind == 'lt' and a == b: return 1.0
    return d / t if d > t else 0.0

def decmask(d, v, upto, S, margin=False):
    m = np.ones(S, dtype=bool)
    for i, x in enumerate(d.decs[:upto]):
        if x['kind'] == 3: continue
        m &= cmask(x['kind'], v[x['a']], v[x['b']], x['taken'])
    return m
def cmask(kind, a, b, taken, margin=False):
    m = cond_mask(kind, a, b, taken, margin)
    if kind == 2 and taken:
        with np.errstate(all='ignore'): m |= np.abs(a - b) <= 1e-9 * (1e-9 + np.maximum(np.abs(a), np.abs(b)))
    return m
def assmask(d, v, S):
    m = np.ones(S, dtype=bool)
    for k, a, b in d.assumes:
        x, y = v[a], v[b]
        with np.errstate(all='ignore'): m &= (x < y) if k == 0 else (x <= y + 1e-12 * np.abs(y))
    return m

def pick(samples, idx): return {k: a[idx] for k, a in samples.items()}
def sample_at(samples, i): return {k: float(a[i]) for k, a in samples.items()}

def model_seed(P, vals):
    """input values from a solver model"""
    out = {}
    R = P.R
    num = {}
    for k, v in vals.items():
        if v is None: continue
        if k[0] in 'ai' and k[1:].isdigit(): num[int(k[1:])] = v
    for node, at in P.var.items():
        if at in num and node in P.inv: out[P.inv[node][0]] = num[at]
    # angles from their sine and cosine
    for (mono, unit), (s, c) in P.base.items():
        try:
            sa = next(iter(P.R.atoms_of(s.n))); ca = next(iter(P.R.atoms_of(c.n)))
            if sa in num and ca in num and mono and not (mono & (mono - 1)):
                a = (mono.bit_length() - 1) // B
                nm = next((P.inv[n][0] for n, at in P.var.items() if at == a and n in P.inv), None)
                if nm is None or mono != 1 << (B * a): continue
                th = math.atan2(num[sa], num[ca]) / float(unit)
                lo, hi = R.lo[a], R.hi[a]
                cur = out.get(nm)
                per = 2 * math.pi / float(unit)
                if cur is not None: th += round((cur - th) / per) * per
                for k in (0, 1, -1):
                    t = th + k * per
                    if (lo is None or t >= float(lo) - 1e-12) and (hi is None or t <= float(hi) + 1e-12): out[nm] = t; break
        except StopIteration: pass
    return out

def explore(task):
    case, prefix, seed, certain = task
    t0 = time.time()
    res = {'case': case, 'prefix': prefix, 'children': [], 'obl': [], 'status': 'ok', 'note': '', 'pruned': 0, 'decs': 0}
    z = G['z3']; q0 = dict(z.res); zt0 = z.time
    signal.alarm(int(G.get('path_s', 240)))
    try:
        _explore(case, list(prefix), seed, certain, res)
    except Timeout: res['status'] = 'inconclusive'; res['note'] = 'time limit of the path'
    except Inconclusive as e: res['status'] = 'inconclusive'; res['note'] = str(e)
    except MemoryError: res['status'] = 'inconclusive'; res['note'] = 'memory'
    finally: signal.alarm(0)
    res['z3'] = {k: z.res[k] - q0[k] for k in q0}; res['z3_s'] = z.time - zt0; res['t'] = time.time() - t0
    return res

def _explore(case, prefix, seed, certain, res):
    K = len(prefix)
    d = run_sym(case, prefix, seed)
    NS = G.get('nsamples', 400)
    extra = [seed] if seed else []
    P = None; tried_model = False; samples = None
    infeasible = False
    for attempt in range(4):
        condnodes = [x[k] for x in d.decs if x['kind'] != 3 for k in ('a', 'b')] + [x for k, a, b in d.assumes for x in (a, b)]
        need = cone(d, condnodes)
        samples, S = gen_samples(d, NS, G['seed'] + attempt, extra, NS // 10 if extra else 0)
        v = evaluate(d, samples, S, need)
        am = assmask(d, v, S)
        pm = am & decmask(d, v, min(K, len(d.decs)), S)
        full = am & decmask(d, v, len(d.decs), S)
        if full.sum() >= 3 or attempt == 3: break
        if pm.any():
            NS = NS * 8
            i = int(np.argmax(pm)) if not full.any() else int(np.argmax(full))
            seed = sample_at(samples, i); extra = [seed]
            if not full.any(): d = run_sym(case, prefix, seed)
            continue
        # no sample satisfies the prefix: ask the solver
        if tried_model: break
        tried_model = True
        verdict, ms = solve_prefix(d, samples, S, K, certain)
        if verdict == 'unsat': infeasible = True; break
        if verdict == 'sat' and ms:
            seed = dict(sample_at(samples, 0)) | ms; extra = [seed]; certain = True
            d = run_sym(case, prefix, seed)
            continue
        break
    res['decs'] = len(d.decs) - K
    if infeasible: res['status'] = 'infeasible'; return
    full = am & decmask(d, v, len(d.decs), S)
    nvalid = int(full.sum())
    res['nvalid'] = nvalid; res['certain'] = bool(nvalid) or certain
    if nvalid == 0: res['note'] = 'no concrete sample of this path'
    idx = np.nonzero(full)[0]
    if len(idx) > 24: idx = np.concatenate([idx[:4], idx[-20:]])
    if nvalid == 0: idx = np.nonzero(am)[0][:12]
    if len(idx) == 0: idx = np.arange(min(12, S))
    if len(idx) < 6: idx = np.concatenate([idx] * 6)[:6]
    sub = pick(samples, idx); n = len(idx)
    sv = evaluate(d, sub, n)
    P = Prover(d, sv, n, G['z3'], None, timeout=G['z3_s'])
    P.setup_cuts()
    # assumptions and decisions, in order; flips of the new decisions
    feasible = True
    na = 0
    am_all = am
    run_mask = am.copy()
    for i, x in enumerate(d.decs + [None]):
        upto = x['nass'] if x else len(d.assumes)
        while na < upto:
            k, a, b = d.assumes[na]; na += 1
            try:
                c = P.cond(k, a, b, True)
                if c[0] != 'const': P.cons.append(c)
                elif not c[1]: feasible = False
            except (TooBig, Undefined): pass
        if x is None: break
        if x['kind'] == 3:
            if i >= K:
                for w in range(x['lo'], x['hi'] + 1):
                    if w != x['taken']: res['children'].append((case, [y['taken'] for y in d.decs[:i]] + [w], seed, res['certain']))
            continue
        a, b = x['a'], x['b']
        c = None
        try: c = P.cond(x['kind'], a, b, x['taken'])
        except (TooBig, Undefined): pass
        if i >= K:
            m = run_mask & cond_mask(x['kind'], v[a], v[b], 1 - x['taken'], True)
            pre = [y['taken'] for y in d.decs[:i]] + [1 - x['taken']]
            if m.any():
                ii = int(np.argmax(m)); res['children'].append((case, pre, sample_at(samples, ii), True))
            else:
                verdict, vals = 'unknown', {}
                if c is not None:
                    if c[0] == 'const': verdict = 'unsat' if c[1] else 'sat'
                    else:
                        f = P.cond(x['kind'], a, b, 1 - x['taken'])
                        verdict, vals = P.query(f[1], f[0], min(G['z3_s'], 2.0), 0, True)
                        if verdict != 'unsat': verdict, vals = P.query(f[1], f[0], G['z3_s'], 1, True)
                if verdict == 'unsat': res['pruned'] += 1
                else:
                    sd = sample_at(samples, int(idx[0])) | model_seed(P, vals)
                    res['children'].append((case, pre, sd, verdict == 'sat'))
        run_mask &= cmask(x['kind'], v[a], v[b], x['taken'])
        if c is not None:
            if c[0] == 'const':
                if not c[1]: feasible = False; break
            else: P.cons.append(c)
    P.mode = 0
    if not feasible: res['status'] = 'infeasible'; return
    if d.end == 'skip': res['status'] = 'skip'; return
    if nvalid == 0 and P.cons:
        # is the path possible at all?
        at = set()
        for s, t in P.cons: at |= s
        verdict, vals = P.query('true', at, G['z3_s'], 1)
        if verdict == 'unsat': res['status'] = 'infeasible'; return
    obligations(case, d, P, sub, n, sv, res, nvalid)

def solve_prefix(d, samples, S, K, certain):
    idx = np.arange(min(S, 12))
    sub = pick(samples, idx)
    am = None
    P = Prover(d, evaluate(d, sub, len(idx)), len(idx), G['z3'], None, timeout=G['z3_s'])
    P.setup_cuts()
    try:
        for k, a, b in d.assumes:
            try:
                c = P.cond(k, a, b, True)
                if c[0] != 'const': P.cons.append(c)
                elif not c[1]: return 'unsat', None
            except (TooBig, Undefined): pass
        for x in d.decs[:K]:
            if x['kind'] == 3: continue
            try:
                c = P.cond(x['kind'], x['a'], x['b'], x['taken'])
                if c[0] != 'const': P.cons.append(c)
                elif not c[1]: return 'unsat', None
            except (TooBig, Undefined): pass
    except Inconclusive: return 'unknown', None
    if not P.cons: return 'unknown', None
    at = set()
    for s, t in P.cons: at |= s
    verdict, vals = P.query('true', at, G['z3_s'], 1, True)
    return verdict, (model_seed(P, vals) if verdict == 'sat' else None)

def obligations(case, d, P, sub, n, sv, res, nvalid):
    batch = []; atoms = set()
    seen = set(); ident = set()
    # obligations that fail on a sample come first: a counterexample must not wait for a proof
    order = d.obls
    if nvalid: order = sorted(d.obls, key=lambda o: 0 if o[1] == 'false' or (o[1] != 'true' and o[2] != o[3] and numeric_bad(o[0], o[1], sv[o[2]], sv[o[3]])) else 1)
    for (nm, kind, a, b, nass, ndec) in order:
        if kind == 'true': res['obl'].append((nm, 'concrete')); continue
        if kind == 'false':
            counterexample(case, d, P, nm, kind, sub, list(range(n)), res, nvalid, None)
            continue
        if a == b and kind != 'lt': res['obl'].append((nm, 'identical')); ident.add((kind, a)); continue
        key = (kind, a, b)
        if key in seen: res['obl'].append((nm, 'repeated')); continue
        seen.add(key)
        ok, why = prove(case, d, P, nm, kind, a, b, sub, n, res, nvalid, batch, atoms, sv)
        if ok: res['obl'].append((nm, why))
        elif ok is None: res['obl'].append((nm, 'undecided', why))
    if batch:
        flush(P, batch, atoms, res)
    if ident:
        # both sides are the same term: one query over uninterpreted terms
        ids = sorted({a for _, a in ident})
        v, _ = P.z3.check('\n'.join('(declare-const n%d Real)' % a for a in ids) + '\n(assert (or %s))' % ' '.join('(not (%s n%d n%d))' % ('=' if k == 'eq' else '<=', a, a) for k, a in sorted(ident)), 20.0)
        if v != 'unsat': res['obl'].append(('identical terms', 'undecided', 'solver: ' + v))
    if nvalid: witness(case, d, sub, n, sv, res)

def witness(case, d, sub, n, sv, res):
    """a sample of the path is run on the plain build; the values of every obligation are compared with the encoding
    (a few samples, because a degenerate one may leave the path in double arithmetic)"""
    for i in sorted({n - 1, n // 2, 0}, reverse=True):
        witness1(case, d, sub, i, sv, res)
        if res['witness']['agrees']: return

def witness1(case, d, sub, i, sv, res):
    inp = {k: float(a[i]) for k, a in sub.items()}
    ch = choices_of(d)
    obs = run_real(case, inp, ch)
    why = ''
    seq = {}
    for (nm, kind, a, b, *_ ) in d.obls: seq.setdefault(nm, []).append((kind, a, b))
    if obs['end'] is None: why = 'plain run ended with %r' % (obs['rc'],)
    else:
        for nm, l in seq.items():
            m = obs['obl'].get(nm, [])
            if len(m) != len(l): why = 'obligation %s met %d times instead of %d' % (nm, len(m), len(l)); break
            for (k, a, b), (k2, x, y) in zip(l, m):
                if k != k2: why = 'obligation %s: %s instead of %s' % (nm, k2, k); break
                if a < 0: continue
                for e, r in ((sv[a][i], x), (sv[b][i], y)):
                    if not (math.isfinite(e) and math.isfinite(r)): continue
                    rt = 2e-3 if nm.startswith('d ') else 1e-5
                    if abs(e - r) > rt * max(abs(e), abs(r), 1.0): why = 'obligation %s: %r, encoded %r' % (nm, r, float(e)); break
            if why: break
    res['witness'] = {'inputs': inp, 'choices': ch, 'agrees': not why, 'why': why}

def flush(P, batch, atoms, res):
    """one solver query for the obligations whose sides were brought to polynomial normal forms"""
    txt = '(or %s)' % ' '.join(batch) if len(batch) > 1 else batch[0]
    v, _ = P.query(txt, atoms, 60.0, 0)
    res['batch'] = res.get('batch', 0) + len(batch)
    if v != 'unsat': res['obl'].append(('normal-form batch', 'undecided', 'solver: ' + v))

def numeric_bad(nm, kind, x, y):
    with np.errstate(all='ignore'):
        sc = np.maximum(np.abs(x), np.abs(y))
        r, ab = 1e-5, 1e-7
        if kind == 'eq': bad = (np.abs(x - y) > r * sc + ab) | (np.isnan(x) != np.isnan(y))
        elif kind == 'le': bad = x - y > 1e-7 * sc + 1e-9
        else: bad = (x - y > 1e-7 * sc + 1e-9)
        idx = np.nonzero(bad)[0]
        w = np.nan_to_num(np.abs(x - y) / (sc + 1e-6), nan=1e9, posinf=1e9)
    return sorted((int(i) for i in idx), key=lambda i: -w[i])

def prove(case, d, P, nm, kind, a, b, sub, n, res, nvalid, batch, atoms, sv):
    R = P.R; why = ''
    modes = (1, 0) if d.cuts else (0,)
    todo = []
    for mode in modes:
        if mode == 1: P.setup_cuts()
        P.mode = mode
        try:
            x, y = P.nf(a), P.nf(b)
            if kind == 'eq':
                L, Q = R.cross(x, y)
                if L == Q and not FORCE:
                    if len(L) <= 1500:
                        t = '(not (= %s %s))' % (R.smt(L), R.smt(Q)); batch.append(t); atoms |= R.atoms_of(L)
                        return True, 'proved'
                    return True, 'proved-nf'
                df = R.padd(L, Q, 1, -1); at = R.atoms_of(df); t = '(= %s 0.0)' % R.smt(df)
                if FORCE: at = R.atoms_of(L) | R.atoms_of(Q); t = '(= %s %s)' % (R.smt(L), R.smt(Q))
                why = 'normal forms differ (%d terms)' % len(df)
            else:
                x = R.sub(x, y)      # must be <= 0 / < 0
                if not x.n and kind == 'le': return True, 'proved'
                s = P.sign(R.neg(x), strict=(kind == 'lt'))
                if s == 1: return True, 'proved'
                df = P.posnum(x); at = R.atoms_of(df); t = '(%s %s 0.0)' % ('<=' if kind == 'le' else '<', R.smt(df))
                why = 'sign not decided'
            todo.append((mode, t, at))
        except (TooBig, Undefined) as e: why = type(e).__name__ + ' ' + str(e)
        finally: P.mode = 0
    bad = numeric_bad(nm, kind, sv[a], sv[b]) if nvalid else []
    if bad:
        st = counterexample(case, d, P, nm, kind, sub, bad, res, nvalid, (a, b))
        if st in ('violation', 'known'): return False, st
    for mode, t, at in todo:
        P.mode = mode
        try:
            for level in (0, 1, 2) if not FORCE else ():
                v, vals = P.query('(not %s)' % t, at, G['z3_s'] * (1 + level), level, True)
                if v == 'unsat': return True, 'proved-smt'
                if v == 'sat' and level >= 1:
                    ms = model_seed(P, vals)
                    base = {k: float(x[0]) for k, x in sub.items()} | ms
                    st = try_samples(case, d, P, nm, kind, a, b, base, res, nvalid)
                    if st: return False, st
            st = fallback(case, d, P, nm, kind, t, at, sub, n, res)
            if st: return True, st
        except (TooBig, Undefined) as e: why = type(e).__name__ + ' ' + str(e)
        finally: P.mode = 0
    # last resort for a failed proof: a wider numerical search for a counterexample
    base = {k: float(x[0]) for k, x in sub.items()}
    st = try_samples(case, d, P, nm, kind, a, b, base, res, nvalid, wide=True)
    if st: return False, st
    return None, why

def rat(x, den=32): return Fraction(float(x)).limit_denominator(den)
def lit(q): return ('%d.0' % q if q >= 0 else '(- %d.0)' % -q) if q.denominator == 1 else '(/ %s %d.0)' % ('%d.0' % q.numerator if q >= 0 else '(- %d.0)' % -q.numerator, q.denominator)
def pins(P, at, i, keep):
    """rational values, near sample i, for the inputs, unit vectors, sines and cosines among the atoms (all but `keep` inputs)"""
    R = P.R; out = {}
    def val(a):
        try: return float(R.num[a][i])
        except (TypeError, IndexError, AttributeError): return None
    for g in P.d.groups:
        ga = [P.var.get(k) for k in g]
        if None in ga or not any(a in at for a in ga): continue
        x, y, z = (val(a) or 0.0 for a in ga)
        if z > 1 - 1e-9: u = v = Fraction(0); q = [Fraction(0), Fraction(0), Fraction(1)]
        else:
            u, v = rat(x / (1 - z)), rat(y / (1 - z)); w = u * u + v * v
            q = [2 * u / (w + 1), 2 * v / (w + 1), (w - 1) / (w + 1)]
        for a, t in zip(ga, q): out[a] = t
    free = [a for n, a in sorted(P.var.items()) if a in at and a not in out]
    held = set(free[k % len(free)] for k in keep) if free else set()
    for a in free:
        if a in held: continue
        t = val(a)
        if t is None or not math.isfinite(t): continue
        q = rat(t)
        lo, hi = R.lo[a], R.hi[a]
        if lo is not None and q < lo or hi is not None and q > hi or (q == 0) != (t == 0): q = Fraction(t).limit_denominator(10 ** 6)
        if lo is not None and q < lo: q = lo
        if hi is not None and q > hi: q = hi
        out[a] = q
    trig = {}
    for (s, c) in P.base.values():
        try: sa = next(iter(R.atoms_of(s.n))); ca = next(iter(R.atoms_of(c.n)))
        except StopIteration: continue
        x, y = val(sa), val(ca)
        if x is None or y is None or sa in out or ca in out: continue
        if abs(1 + y) < 1e-9: trig[sa] = Fraction(0); trig[ca] = Fraction(-1); continue
        h = rat(x / (1 + y)); trig[sa] = 2 * h / (1 + h * h); trig[ca] = (1 - h * h) / (1 + h * h)
    return out, trig

def fallback(case, d, P, nm, kind, t, at, sub, n, res):
    """a smaller bound for an obligation the solver cannot settle: the path's inputs but two are pinned to rationals
    near a sample, and the solver decides the obligation for every value of the rest"""
    done = 0
    for att in range(3):
        full, ctx = P.context(at, 1)
        pin, trig = pins(P, full, att % max(1, n), (2 * att, 2 * att + 1))
        for extra in ([trig, {}] if trig else [{}]):
            allp = {a: q for a, q in (pin | extra).items() if a in full}
            ptxt = ['(= a%d %s)' % (a, lit(q)) for a, q in sorted(allp.items()) if P.R.kind[a] != 'int']
            if not ptxt: continue
            v, _ = P.query('(and %s true)' % ' '.join(ptxt), full, G['z3_s'], 1)
            if v != 'sat': continue
            v, _ = P.query('(and %s (not %s))' % (' '.join(ptxt), t), full, G['z3_s'], 1)
            if v == 'unsat': done += 1; break
    return 'proved-pinned' if done else None

def try_samples(case, d, P, nm, kind, a, b, base, res, nvalid, wide=False):
    samples, S = gen_samples(d, 2000 if wide else 40, G['seed'] + 99, [base], 300 if wide else 40)
    nodes = [x[k] for x in d.decs if x['kind'] != 3 for k in ('a', 'b')] + [x for k, p, q in d.assumes for x in (p, q)] + [a, b]
    v = evaluate(d, samples, S, cone(d, nodes))
    m = assmask(d, v, S) & decmask(d, v, len(d.decs), S)
    idx = np.nonzero(m)[0]
    if not len(idx): return None
    bad = numeric_bad(nm, kind, v[a][idx], v[b][idx])
    if not bad: return None
    sel = idx[bad[:12]]
    return counterexample(case, d, P, nm, kind, pick(samples, sel), list(range(len(sel))), res, nvalid, (a, b))

def counterexample(case, d, P, nm, kind, sub, bad, res, nvalid, nodes):
    """a failing obligation with concrete inputs: known finding, confirmed violation, or unconfirmed"""
    for (f, name, a, b) in d.known:
        if name == nm and f in G['known']:
            ok = None
            try: ok = P.R.equal(P.nf(a), P.nf(b))
            except (TooBig, Undefined): pass
            if ok: res['obl'].append((nm, 'known', f)); return 'known'
    ch = choices_of(d)
    names = [k for k in sub]
    tried = 0; why = ''
    sv = evaluate(d, sub, len(next(iter(sub.values()))) if sub else 1, cone(d, list(nodes))) if nodes else None
    for i in bad[:10]:
        inp = {k: float(sub[k][i]) for k in names}
        obs = run_real(case, inp, ch); tried += 1
        if not obs['assume_ok'] or obs['missing']: why = 'assumption not met in the plain run'; continue
        worst = 0.0; pair = None
        for (k2, x, y) in obs['obl'].get(nm, []):
            w = mismatch(nm, k2, x, y)
            if w > 0 and nodes and kind == k2 and not d.uninit:
                xs, ys = float(sv[nodes[0]][i]), float(sv[nodes[1]][i])
                if all(map(math.isfinite, (x, y, xs, ys))) and abs((x - y) - (xs - ys)) > 0.2 * abs(xs - ys) + tol(nm)[0] * max(abs(x), abs(y)):
                    why = 'plain run differs from the encoding: %r %r, encoded %r %r' % (x, y, xs, ys); continue
            if w > worst: worst = w; pair = (k2, x, y)
        if obs['end'] is None:      # the plain build died or hung
            worst = 1.0; pair = ('crash', 0.0, 0.0)
        if kind == 'false' and nm not in obs['obl'] and obs['end'] in ('crash', 'exception'):
            for nm2 in obs['order'][::-1]:
                if nm2.startswith('no-'): worst = 1.0; pair = ('false', 0.0, 0.0); break
        if worst > 0:
            verdict = confirm(d, P, nm, kind, nodes, inp)
            if verdict == 'unsat': why = 'numerical noise: the solver refutes the counterexample'; continue
            res['obl'].append((nm, 'violation', {'inputs': inp, 'choices': ch, 'observed': pair, 'solver': verdict}))
            return 'violation'
    if kind == 'false': res['obl'].append((nm, 'unconfirmed', 'symbolic counterexample not reproduced by %d plain runs (samples of the path: %d) %s' % (tried, nvalid, why)))
    return 'unconfirmed' if kind == 'false' else None

def confirm(d, P, nm, kind, nodes, inp):
    """the solver's verdict on the negated obligation with the inputs near the counterexample"""
    if kind == 'false' or nodes is None: return 'the path reaches a failed assertion'
    try:
        R = P.R; x, y = P.nf(nodes[0]), P.nf(nodes[1])
        if kind == 'eq':
            L, Q = R.cross(x, y); df = R.padd(L, Q, 1, -1); at = R.atoms_of(df)
            t = '(not (= %s 0.0))' % R.smt(df)
        else:
            df = P.posnum(R.sub(x, y)); at = R.atoms_of(df); t = '(not (%s %s 0.0))' % ('<=' if kind == 'le' else '<', R.smt(df))
        v, _ = P.query(t, at, G['z3_s'], 1)
        return v
    except (TooBig, Undefined): return 'not encoded'
