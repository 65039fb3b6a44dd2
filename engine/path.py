"""One explored path: the dumped DAG, its numeric evaluation over samples, and the symbolic prover over normal forms."""
import re, math, random, itertools, time, zlib
from fractions import Fraction
import numpy as np
from nf import Ring, RF, TooBig, Undefined, B
from z3p import Z3

CONST, VAR, ADD, SUB, MUL, DIV, NEG, SQRT, SIN, COS, TAN, ACOS, ASIN, ATAN, ATAN2, ABS, FLOOR, EXP, LOG, POISON = range(20)
np.seterr(all='ignore')

class NeedSplit(Exception):
    def __init__(self, rf): self.rf = rf
class Inconclusive(Exception): pass

class Dump:
    def __init__(self, path):
        self.op = []; self.a = []; self.b = []; self.c = []
        self.inputs = {}      # name -> (node, lo, hi)
        self.groups = []; self.decs = []; self.assumes = []; self.obls = []; self.hints = []; self.alias = []; self.cuts = []
        self.probes = []; self.known = []; self.uninit = {}; self.end = None
        for l in open(path, errors='replace'):
            l = l.rstrip('\n')
            k = l[:2]
            if k == 'N ':
                t = l.split()
                op = int(t[2])
                self.op.append(op)
                self.a.append(-1); self.b.append(-1); self.c.append(0.0)
                if op == CONST: self.c[-1] = float.fromhex(t[3])
                elif op not in (VAR, POISON):
                    self.a[-1] = int(t[3])
                    if len(t) > 4: self.b[-1] = int(t[4])
            elif k == 'I ':
                t = l.split(' ')
                f = lambda s: None if s == '-' else float.fromhex(s)
                self.inputs[t[2]] = (int(t[1]), f(t[3]), f(t[4]))
            elif k == 'U ':
                t = l.split(); self.uninit[int(t[1])] = t[2]; self.inputs[t[2]] = (int(t[1]), None, None)
            elif k == 'G ': self.groups.append(tuple(int(x) for x in l.split()[1:]))
            elif k == 'D ':
                t = [int(x) for x in l.split()[1:]]
                self.decs.append({'kind': t[0], 'a': t[1], 'b': t[2], 'taken': t[3], 'nass': len(self.assumes)})
            elif k == 'C ':
                t = l[2:].rsplit(' ', 3)
                self.decs.append({'kind': 3, 'name': t[0], 'lo': int(t[1]), 'hi': int(t[2]), 'taken': int(t[3]), 'nass': len(self.assumes)})
            elif k == 'A ':
                t = l.split(); self.assumes.append((int(t[1]), int(t[2]), int(t[3])))
            elif k == 'O ':
                nm, rest = l[2:].split('\t'); t = rest.split()
                self.obls.append((nm, t[0], int(t[1]), int(t[2]), len(self.assumes), len(self.decs)))
            elif k == 'F ':
                f, nm, rest = l[2:].split('\t'); t = rest.split(); self.known.append((f, nm, int(t[0]), int(t[1])))
            elif k == 'H ': self.hints.append(int(l[2:]))
            elif k == 'L ': self.alias.append(int(l[2:]))
            elif k == 'K ':
                t = l.split(); self.cuts.append((t[1], [int(x) for x in t[2:]]))
            elif k == 'P ':
                nm, rest = l[2:].split('\t'); self.probes.append((nm, int(rest)))
            elif l.startswith('END'): self.end = l[4:]
        self.n = len(self.op)
        self.name_of = {v[0]: k for k, v in self.inputs.items()}

def evaluate(d, samples, S, need=None):
    """samples: {input name: array}; returns the list of arrays per node (None when not needed)"""
    v = [None] * d.n
    for i in range(d.n):
        if need is not None and not need[i]: continue
        op = d.op[i]
        if op == CONST: v[i] = np.full(S, d.c[i]); continue
        if op == VAR: v[i] = samples[d.name_of[i]]; continue
        if op == POISON: v[i] = np.full(S, np.nan); continue
        x = v[d.a[i]]; y = v[d.b[i]] if d.b[i] >= 0 else None
        if op == ADD: r = x + y
        elif op == SUB: r = x - y
        elif op == MUL: r = x * y
        elif op == DIV: r = x / y
        elif op == NEG: r = -x
        elif op == SQRT: r = np.sqrt(x)
        elif op == SIN: r = np.sin(x)
        elif op == COS: r = np.cos(x)
        elif op == TAN: r = np.tan(x)
        elif op == ACOS: r = np.arccos(x)
        elif op == ASIN: r = np.arcsin(x)
        elif op == ATAN: r = np.arctan(x)
        elif op == ATAN2: r = np.arctan2(y * 0 + x, y)
        elif op == ABS: r = np.abs(x)
        elif op == FLOOR: r = np.floor(x)
        elif op == EXP: r = np.exp(x)
        elif op == LOG: r = np.log(x)
        v[i] = r
    return v

def cone(d, roots):
    need = bytearray(d.n)
    for r in roots: need[r] = 1
    for i in range(d.n - 1, -1, -1):
        if need[i]:
            if d.a[i] >= 0: need[d.a[i]] = 1
            if d.b[i] >= 0: need[d.b[i]] = 1
    return need

SPECIAL = [0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 1e-3, -1e-3, 10.0, -10.0]
def gen_samples(d, S, seed, extra=(), jitter=0):
    """generic samples for every input; `extra`: given assignments (followed by `jitter` variations of each)"""
    out = {}
    ng = S
    cols = []
    rs = np.random.RandomState((seed * 7919 + 13) & 0x7fffffff)
    for e in extra:
        cols.append((e, 0.0))
        for j in range(jitter): cols.append((e, 10.0 ** rs.uniform(-7, 0)))
    for nm, (node, lo, hi) in d.inputs.items():
        r = np.random.RandomState((zlib.crc32(nm.encode()) ^ (seed * 2654435761)) & 0x7fffffff)
        u = r.uniform(0, 1, ng); g = r.normal(0, 1.5, ng); w = r.randint(0, 12, ng)
        if lo is None or hi is None:
            x = g.copy()
            x = np.where(w == 0, np.sign(g) * 10.0 ** r.uniform(-4, 2, ng), x)
            x = np.where(w == 1, np.array(SPECIAL)[r.randint(0, len(SPECIAL), ng)], x)
            x = np.where(w == 2, r.randint(-3, 4, ng), x)
        else:
            x = lo + (hi - lo) * u
            if lo > 0: x = np.where(w <= 3, np.exp(np.log(lo) + (np.log(hi) - np.log(lo)) * u), x)
            if lo > 0 and lo < 1 < hi: x = np.where(w == 4, np.exp(np.clip(0.5 * g, np.log(lo), np.log(hi))), x)
            x = np.where(w == 10, np.where(u < 0.5, lo, hi), x)
            if lo <= 0 <= hi: x = np.where(w == 11, 0.0, x)
            x = np.clip(x, lo, hi)
        k = r.normal(0, 1, max(1, len(cols)))
        ex = []
        for c, (e, s) in enumerate(cols):
            b = e.get(nm)
            if b is None: b = x[c % ng] if ng else 0.5
            if s:
                b = b + s * k[c] * (1 if lo is None or hi is None else (hi - lo) * 0.3) if k[c] > -0.5 else b
                if lo is not None and hi is not None: b = min(max(b, lo), hi)
            ex.append(b)
        out[nm] = np.concatenate([np.array(ex, dtype=float), x]) if ex else x
    for g in d.groups:
        ns = [d.name_of[i] for i in g]
        r = np.random.RandomState((zlib.crc32(ns[0].encode()) ^ (seed * 40503)) & 0x7fffffff)
        tot = len(out[ns[0]]); ne = len(cols)
        m = r.normal(0, 1, (3, tot)); w = r.randint(0, 10, tot); ax = r.randint(0, 3, tot); sg = r.choice([-1.0, 1.0], tot)
        for i in range(3):
            m[i] = np.where(w == 0, np.where(ax == i, sg, 0.0), m[i])
            m[i] = np.where((w == 1) & (ax == i), 0.0, m[i])
        for c, (e, s) in enumerate(cols):
            if all(q in e for q in ns):
                for i in range(3): m[i][c] = out[ns[i]][c]
        nn = np.sqrt(m[0] ** 2 + m[1] ** 2 + m[2] ** 2); nn = np.where(nn == 0, 1.0, nn)
        for i in range(3): out[ns[i]] = m[i] / nn
    # clock readings are increasing
    ck = sorted((nm for nm in out if nm.startswith('clock#')), key=lambda s: int(s[6:]))
    acc = None
    for nm in ck:
        acc = np.abs(out[nm]) if acc is None else acc + np.abs(out[nm])
        ne = len(cols)
        keep = np.array([1 if (i < ne and nm in cols[i][0] and cols[i][1] == 0) else 0 for i in range(len(acc))], dtype=bool) if ne else None
        if keep is not None: acc = np.where(keep, out[nm], acc)
        out[nm] = acc
    return out, len(cols) + ng

def cond_mask(kind, a, b, taken, margin=False):
    with np.errstate(all='ignore'):
        if kind == 0: m = (a < b) if taken else (b <= a)
        elif kind == 1: m = (a <= b) if taken else (b < a)
        else: m = (a == b) if taken else (a != b)
        m = m & ~np.isnan(a) & ~np.isnan(b)
        if margin and not (kind == 2 and taken):
            m = m & (np.abs(a - b) > 1e-9 * (1e-6 + np.maximum(np.abs(a), np.abs(b))))
    return m

def is_pi_multiple(c):
    if c == 0 or not math.isfinite(c): return None
    f = Fraction(c / math.pi).limit_denominator(8)
    if f and abs(f.numerator) <= 16 and abs(float(f) * math.pi - c) <= 1e-15 * abs(c) * 2: return f
    return None

def ideal(c):
    """the real number a double constant stands for: a short decimal, a small fraction, or its exact value"""
    t = repr(c)
    if len(t.replace('-', '').replace('.', '').split('e')[0].strip('0')) <= 12: return Fraction(t)
    f = Fraction(c).limit_denominator(1000)
    if float(f) == c: return f
    return Fraction(c)

def parse(t):
    st = [[]]
    for k in re.findall(r'[()]|[^\s()]+', t):
        if k == '(': st.append([])
        elif k == ')': x = st.pop(); st[-1].append(x)
        else: st[-1].append(k)
    return st[0][0]
def text(e): return e if isinstance(e, str) else '(' + ' '.join(map(text, e)) + ')'
def mostly(mask):
    """numerical filters accept a few samples spoilt by cancellation; what they accept is then checked exactly"""
    return len(mask) > 0 and np.mean(mask) >= 0.7
def steady(ra):
    f = ra[np.isfinite(ra)]
    if len(f) < 0.7 * len(ra) or not len(f): return None
    m = float(np.median(f))
    return m if mostly(np.abs(ra - m) <= 1e-7 * abs(m)) else None
class Sigs:
    """nodes indexed by their values at a few samples, compared within a tolerance"""
    def __init__(self): self.v = []; self.n = []; self.m = None
    def __len__(self): return len(self.n)
    def add(self, v, n):
        if v is not None: self.v.append(v); self.n.append(n); self.m = None
    def get(self, v):
        if v is None or not self.n: return ()
        if self.m is None: self.m = np.array(self.v)
        with np.errstate(all='ignore'):
            k = np.mean((np.abs(self.m - v) <= 1e-9 + 1e-8 * np.abs(v)) | (np.isnan(self.m) & np.isnan(v)), axis=1) >= 0.7
        return [self.n[i] for i in np.nonzero(k)[0]]

class Prover:
    """Normal forms and solver queries for one path. `vals` holds numeric arrays over a few valid samples."""
    def __init__(self, d, vals, S, z3, stats, splits=(), timeout=8.0):
        self.d = d; self.v = vals; self.S = S; self.z3 = z3; self.stats = stats; self.timeout = timeout
        R = self.R = Ring()
        self.cache = {0: {}, 1: {}}
        self.cons = []; self.facts = {}      # facts: atom -> list of (atoms, text)
        self.pi = R.atom('pi', 'real', np.full(S, math.pi), Fraction(314159265358979, 10 ** 14), Fraction(314159265358980, 10 ** 14))
        self.var = {}; self.base = {}; self.angles = []; self.bykey = {}
        self.Ks = {}
        self.sigs = Sigs(); self.linmemo = {}; self.cutnode = {}; self.mode = 0
        self.signcache = {}; self.neg = []
        inv = {}
        for nm, (node, lo, hi) in d.inputs.items(): inv[node] = (nm, lo, hi)
        self.inv = inv
        grp = {}
        for g in d.groups: grp[g[2]] = g
        self.grp = grp; self.ingroup = {n for g in d.groups for n in g}
        self.splits = list(splits)
        for n in d.alias: self.sigs.add(self.sig(n), n)
        self.cutdone = False
    # ---- atoms ----
    def fact(self, atoms, text):
        atoms = frozenset(atoms)
        for a in atoms: self.facts.setdefault(a, []).append((atoms, text))
    def varatom(self, n):
        a = self.var.get(n)
        if a is not None: return a
        R = self.R
        if n in self.ingroup:
            g = next(g for g in self.d.groups if n in g)
            at = []
            for k in g:
                at.append(R.atom(self.inv[k][0], 'real', self.v[k], Fraction(-1), Fraction(1)))
                self.var[k] = at[-1]
            x, y, z = at
            R.relation(z, {0: 1, 2 << (B * x): -1, 2 << (B * y): -1})
            self.fact(at, '(= (+ (* a%d a%d) (* a%d a%d) (* a%d a%d)) 1.0)' % (x, x, y, y, z, z))
            return self.var[n]
        nm, lo, hi = self.inv.get(n, ('n%d' % n, None, None))
        fl = None if lo is None else Fraction(lo); fh = None if hi is None else Fraction(hi)
        a = self.var[n] = R.atom(nm, 'real', self.v[n], fl, fh)
        return a
    def newatom(self, name, num, kind='real', lo=None, hi=None):
        return self.R.atom(name, kind, num, lo, hi)
    # ---- numeric signature ----
    def sig(self, n):
        x = self.v[n]
        if x is None: return None
        return x
    # ---- normal form of a node ----
    def nf(self, n):
        c = self.cache[self.mode]
        r = c.get(n)
        if r is not None:
            if isinstance(r, Exception): raise r
            return r
        # iterative post-order
        stack = [n]
        d = self.d
        while stack:
            i = stack[-1]
            if i in c: stack.pop(); continue
            if self.mode == 1 and i in self.cutnode: c[i] = self.cutnode[i]; stack.pop(); continue
            if self.mode == 1:
                m = self.match(i)
                if m is not None: c[i] = m; stack.pop(); continue
            todo = [k for k in (d.a[i], d.b[i]) if k >= 0 and k not in c]
            if todo: stack.extend(todo); continue
            stack.pop()
            try:
                bad = [c[k] for k in (d.a[i], d.b[i]) if k >= 0 and isinstance(c[k], Exception)]
                if bad: raise bad[0]
                r = self.nf1(i)
                if self.mode == 0: r = self.tidy(i, r)
                c[i] = r
            except (TooBig, Undefined) as e:
                c[i] = e
        r = c[n]
        if isinstance(r, Exception): raise r
        return r
    def tidy(self, i, r):
        """prefer the declared form of an equal expression"""
        if not self.sigs or self.d.op[i] in (CONST, VAR) or len(r.n) <= 3 and not r.d: return r
        for k in self.sigs.get(self.sig(i)):
            if k == i or k in self.inprogress: continue
            self.inprogress.add(k)
            try:
                a = self.nf(k)
                if self.R.equal(a, r): return a
            except (TooBig, Undefined): pass
            finally: self.inprogress.discard(k)
        return r
    inprogress = set()
    def match(self, i):
        """in the cut ring: a node equal (in the base ring) to a cut or alias node"""
        if self.d.op[i] in (CONST, VAR): return None
        s = self.sigs.get(self.sig(i))
        if not s: return None
        for k in s:
            if k == i or k in self.matching: continue
            self.matching.add(k)
            try:
                self.mode = 0
                try: ok = self.R.equal(self.nf(i), self.nf(k))
                except (TooBig, Undefined): ok = False
                finally: self.mode = 1
                if ok: return self.nf(k)
            except (TooBig, Undefined): pass
            finally: self.matching.discard(k)
        return None
    matching = set()
    def setup_cuts(self):
        if self.cutdone or not self.d.cuts: return
        self.cutdone = True
        R = self.R; S = self.S
        for name, nodes in self.d.cuts:
            E = [[self.v[nodes[3 * i + j]] for j in range(3)] for i in range(3)]
            tr = E[0][0] + E[1][1] + E[2][2]
            th = np.arccos(np.clip((tr - 1) / 2, -1, 1)); s2 = 2 * np.sin(th)
            ax = [(E[2][1] - E[1][2]) / s2, (E[0][2] - E[2][0]) / s2, (E[1][0] - E[0][1]) / s2]
            lo, hi = Fraction(1, 2000), Fraction(157, 100)
            h = R.atom('half_angle(%s)' % name, 'real', th / 2, lo, hi)
            at = [R.atom('axis(%s)%d' % (name, k), 'real', ax[k], Fraction(-1), Fraction(1)) for k in range(3)]
            R.relation(at[2], {0: 1, 2 << (B * at[0]): -1, 2 << (B * at[1]): -1})
            self.fact(at, '(= (+ (* a%d a%d) (* a%d a%d) (* a%d a%d)) 1.0)' % (at[0], at[0], at[1], at[1], at[2], at[2]))
            sn, cs = self.trig(RF({1 << (B * h): 2}))
            one_c = R.sub(R.one, cs)
            a = [R.A(k) for k in at]
            for i in range(3):
                for j in range(3):
                    x = R.mul(one_c, R.mul(a[i], a[j]))
                    if i == j: x = R.add(x, cs)
                    else:
                        k = 3 - i - j; sg = 1 if (i, j) in ((1, 0), (2, 1), (0, 2)) else -1
                        x = R.add(x, R.mul(sn, a[k]), sg)
                    self.cutnode[nodes[3 * i + j]] = x
                    self.sigs.add(self.sig(nodes[3 * i + j]), nodes[3 * i + j])
        self.mode = 1
    def constant(self, c):
        if not math.isfinite(c): raise Undefined('non-finite constant')
        f = is_pi_multiple(c)
        if f is not None: return self.R.scale(self.R.A(self.pi), f)
        return self.R.const(ideal(c))
    def nf1(self, i):
        d = self.d; R = self.R; op = d.op[i]; c = self.cache[self.mode]
        if op == CONST: return self.constant(d.c[i])
        if op == VAR: return R.A(self.varatom(i))
        if op == POISON: raise Undefined('undefined derivative')
        x = c[d.a[i]]; y = c[d.b[i]] if d.b[i] >= 0 else None
        if op == ADD: return R.add(x, y)
        if op == SUB: return R.sub(x, y)
        if op == MUL: return R.mul(x, y)
        if op == DIV: return R.div(x, y)
        if op == NEG: return R.neg(x)
        num = self.v[i]
        if op == SQRT: return self.sqrt(x, num)
        if op == SIN: return self.trig(x, self.v[d.a[i]])[0]
        if op == COS: return self.trig(x, self.v[d.a[i]])[1]
        if op == TAN:
            s, co = self.trig(x, self.v[d.a[i]]); return R.div(s, co)
        if op == ABS: return self.absval(x, num)
        if op == FLOOR: return self.floor(x, num)
        if op == ATAN2: return self.atan2(x, y, num)
        if op == ACOS: return self.arc('acos', x, num)
        if op == ASIN: return self.arc('asin', x, num)
        if op == ATAN: return self.atan2(x, R.one, num)
        key = (op, self.key(x))
        a = self.bykey.get(key)
        if a is None: a = self.bykey[key] = self.newatom('f%d' % op, num)
        return R.A(a)
    def key(self, x):
        return (tuple(sorted(x.n.items())), x.q, tuple(sorted(x.d.items())))
    # ---- trigonometry ----
    def base_trig(self, mono, unit, num=None):
        k = (mono, unit)
        b = self.base.get(k)
        if b: return b
        R = self.R
        an = RF({mono: unit.numerator}, unit.denominator)
        nm = R.rnum(an, self.S)
        s = R.atom('sin', 'real', np.sin(nm), Fraction(-1), Fraction(1))
        c = R.atom('cos', 'real', np.cos(nm), Fraction(-1), Fraction(1))
        R.relation(c, {0: 1, 2 << (B * s): -1})
        self.fact((s, c), '(= (+ (* a%d a%d) (* a%d a%d)) 1.0)' % (s, s, c, c))
        at = R.rf_atoms(an)
        t = self.val(an)
        both = set(at) | {s, c}
        lo, hi = self.bounds(an)
        if lo is not None and hi is not None and hi - lo < 6:
            f = lambda z: Fraction(z).limit_denominator(10 ** 9)
            pts = [float(lo), float(hi)]
            crit = [k * math.pi / 2 for k in range(-8, 9) if float(lo) <= k * math.pi / 2 <= float(hi)]
            for (aa, fn) in ((s, math.sin), (c, math.cos)):
                vs = [fn(p) for p in pts + crit]
                mn, mx = min(vs) - 2e-9, max(vs) + 2e-9
                # keep the sign when it is definite
                R.lo[aa] = max(Fraction(-1), f(mn)); R.hi[aa] = min(Fraction(1), f(mx))
                if 0 <= min(vs) < 1e-7: R.lo[aa] = Fraction(0)
                if min(vs) > 1e-7 and R.lo[aa] <= 0: R.lo[aa] = Fraction(min(vs)) / 2
        self.fact(both, '(=> (>= %s 0.0) (and (<= a%d %s) (<= (- %s (/ (* %s %s %s) 6.0)) a%d)))' % (t, s, t, t, t, t, t, s))
        self.fact(both, '(=> (<= %s 0.0) (and (>= a%d %s) (>= (- %s (/ (* %s %s %s) 6.0)) a%d)))' % (t, s, t, t, t, t, t, s))
        self.fact(both, '(>= a%d (- 1.0 (/ (* %s %s) 2.0)))' % (c, t, t))
        pb = both | {self.pi}
        self.fact(pb, '(=> (and (<= 0.0 %s) (<= %s a%d)) (>= a%d 0.0))' % (t, t, self.pi, s))
        self.fact(pb, '(=> (and (<= %s 0.0) (<= (- a%d) %s)) (<= a%d 0.0))' % (t, self.pi, t, s))
        self.fact(pb, '(=> (and (<= (- a%d) (* 2.0 %s)) (<= (* 2.0 %s) a%d)) (>= a%d 0.0))' % (self.pi, t, t, self.pi, c))
        b = self.base[k] = (R.A(s), R.A(c))
        self.angles.append(an)
        return b
    def val(self, x):
        t = self.R.smt(x.n)
        return t if x.q == 1 else '(/ %s %d.0)' % (t, x.q)
    def bounds(self, x):
        """interval of a polynomial with linear monomials in bounded atoms"""
        R = self.R; lo = hi = Fraction(0)
        for m, c in x.n.items():
            f = Fraction(c, x.q)
            l = h = Fraction(1); i = 0; mm = m
            while mm:
                e = mm & 255
                for _ in range(e):
                    if R.lo[i] is None or R.hi[i] is None: return None, None
                    ps = [l * R.lo[i], l * R.hi[i], h * R.lo[i], h * R.hi[i]]
                    l, h = min(ps), max(ps)
                mm >>= B; i += 1
            if f >= 0: lo += f * l; hi += f * h
            else: lo += f * h; hi += f * l
        return lo, hi
    def trig(self, x, num=None):
        R = self.R
        if not x.n: return R.zero, R.one
        if x.d or len(x.n) > 12: return self.opaque_trig(x)
        parts = []
        piq = Fraction(0)
        pim = 1 << (B * self.pi)
        for m, c in x.n.items():
            f = Fraction(c, x.q)
            if m == pim:
                if (2 * f).denominator != 1: return self.opaque_trig(x)
                piq += f; continue
            if m in self.Ks:           # K * pi, K integer
                if f.denominator == 1 and f % 2 == 0: continue
                return self.opaque_trig(x)
            parts.append((m, f))
        s, c = R.zero, R.one
        for m, f in parts:
            alt = self.angatom.get(m) if hasattr(self, 'angatom') else None
            if alt is not None and f.denominator == 1:
                bs, bc = alt; k = f
            else:
                us = [u for (mm, u) in self.base if mm == m]
                u = next((u for u in us if (f / u).denominator == 1), None)
                if u is None: u = Fraction(1, f.denominator) if m else abs(f)
                bs, bc = self.base_trig(m, u)
                k = f / u
            if abs(k) > 12: return self.opaque_trig(x)
            ms, mc = self.multiple(bs, bc, int(abs(k)))
            if k < 0: ms = R.neg(ms)
            s, c = R.add(R.mul(s, mc), R.mul(c, ms)), R.sub(R.mul(c, mc), R.mul(s, ms))
        k = int(2 * piq) % 4
        if k == 1: s, c = c, R.neg(s)
        elif k == 2: s, c = R.neg(s), R.neg(c)
        elif k == 3: s, c = R.neg(c), s
        return s, c
    def multiple(self, s, c, k):
        R = self.R
        rs, rc = R.zero, R.one
        for _ in range(k): rs, rc = R.add(R.mul(rs, c), R.mul(rc, s)), R.sub(R.mul(rc, c), R.mul(rs, s))
        return rs, rc
    def opaque_trig(self, x):
        k = self.key(x)
        b = self.bykey.get(('trig', k))
        if b: return b
        nb = self.bykey.get(('trig', self.key(self.R.neg(x))))
        if nb: return self.R.neg(nb[0]), nb[1]
        R = self.R; nm = R.rnum(x, self.S)
        s = R.atom('sin*', 'real', np.sin(nm), Fraction(-1), Fraction(1))
        c = R.atom('cos*', 'real', np.cos(nm), Fraction(-1), Fraction(1))
        R.relation(c, {0: 1, 2 << (B * s): -1})
        self.fact((s, c), '(= (+ (* a%d a%d) (* a%d a%d)) 1.0)' % (s, s, c, c))
        b = self.bykey[('trig', k)] = (R.A(s), R.A(c))
        return b
    # ---- roots, absolute values ----
    def numclose(self, x, y, tol=1e-9):
        with np.errstate(all='ignore'):
            ok = np.abs(x - y) <= tol * (1e-3 + np.maximum(np.abs(x), np.abs(y)))
        return bool(np.all(ok[~(np.isnan(x) | np.isnan(y))])) and bool(np.any(~(np.isnan(x) | np.isnan(y))))
    def candidates(self):
        R = self.R
        out = []
        for h in self.d.hints:
            try: out.append((self.nf(h), self.v[h]))
            except (TooBig, Undefined): pass
        return out
    def sqrt(self, x, num):
        R = self.R
        if not x.n: return R.zero
        k = self.key(x)
        r = self.bykey.get(('sqrt', k))
        if r is not None: return r
        n = x.n; q = x.q; dd = {}
        for f, e in x.d.items():
            if e & 1: n = R.pmul(n, R.fpoly(f)); e += 1
            dd[f] = e // 2
        # value = sqrt(n / (q * prod dd^2)) = sqrt(n * q) / (q * prod|dd|)
        den = R.const(1)
        for f, e in dd.items():
            den = R.mul(den, R.powi(self.absval(RF(R.fpoly(f)), None), e))
        root = self.psqrt(n, q)
        r = R.div(root, den) if dd else root
        self.bykey[('sqrt', k)] = r
        return r
    def psqrt(self, n, q):
        """sqrt of the polynomial n over the integer q"""
        from math import isqrt, gcd
        R = self.R
        # numeric content
        g = 0
        for c in n.values(): g = gcd(g, c)
        p = {m: c // g for m, c in n.items()}
        co = Fraction(g, q)
        # monomial content with even exponents
        m0 = None
        for m in p: m0 = m if m0 is None else R.mmin(m0, m)
        half = 0; i = 0; mm = m0 or 0
        while mm:
            e = mm & 255
            half |= (e // 2) << (B * i); mm >>= B; i += 1
        if half: p = {m - 2 * half: c for m, c in p.items()}
        out = R.one
        if half:
            i = 0; mm = half
            while mm:
                e = mm & 255
                if e: out = R.mul(out, R.powi(self.absval(R.A(i), R.num[i]), e))
                mm >>= B; i += 1
        return R.mul(out, self.psqrt2(p, co))
    def csqrt(self, f):
        from math import isqrt
        a, b = f.numerator * f.denominator, f.denominator
        s = 1; t = a; p = 2
        while p * p <= t and p < 1000:
            while t % (p * p) == 0: t //= p * p; s *= p
            p += 1
        r = isqrt(t)
        if r * r == t: return self.R.const(Fraction(s * r, b))
        at = self.bykey.get(('csqrt', t))
        if at is None:
            v = math.sqrt(t); fr = Fraction(v)
            at = self.bykey[('csqrt', t)] = self.R.atom('sqrt(%d)' % t, 'real', np.full(self.S, v), fr * Fraction(10 ** 14 - 1, 10 ** 14), fr * Fraction(10 ** 14 + 1, 10 ** 14))
            self.R.relation(at, {0: t})
            self.fact((at,), '(and (>= a%d 0.0) (= (* a%d a%d) %d.0))' % (at, at, at, t))
        return self.R.scale(self.R.A(at), Fraction(s, b))
    def psqrt2(self, p, co):
        R = self.R
        if len(p) == 1 and 0 in p:
            if p[0] < 0: raise Undefined('sqrt of a negative number')
            return self.csqrt(co * p[0])
        k = ('psqrt', tuple(sorted(p.items())))
        r = self.bykey.get(k)
        if r is None:
            r = self.find_root(p)
            if r is None:
                num = np.sqrt(R.pnum(p, self.S))
                a = R.atom('sqrt', 'real', num, Fraction(0), None)
                R.relation(a, dict(p))
                self.fact(set(R.atoms_of(p)) | {a}, '(and (>= a%d 0.0) (= (* a%d a%d) %s))' % (a, a, a, R.smt(p)))
                r = R.A(a)
            self.bykey[k] = r
        return R.mul(r, self.csqrt(co))
    def find_root(self, p):
        R = self.R; S = self.S
        target = np.sqrt(R.pnum(p, S))
        ok = np.isfinite(target) & (target > 0)
        if ok.sum() < 3: return None
        t = target[ok]
        basis = [(x, v[ok]) for x, v in self.candidates()]
        ats = R.atoms_of(p)
        for a in ats:
            if R.num[a] is not None: basis.append((R.A(a), R.num[a][ok]))
        for an in self.angles:
            if not (R.rf_atoms(an) <= set(range(len(R.names)))): continue
            for m in (1, 2, 4):
                s, c = self.trig(R.scale(an, m))
                basis.append((s, R.rnum(s, S)[ok])); basis.append((c, R.rnum(c, S)[ok]))
        basis = [(x, v) for x, v in basis if x.n][:60]
        for a in list(self.var.values())[:24]:
            if a not in ats and R.num[a] is not None: basis.append((R.A(a), R.num[a][ok]))
        def test(x, v):
            with np.errstate(all='ignore'): ra = t / np.abs(v)
            m = steady(ra)
            if m is None: return None
            f = Fraction(m).limit_denominator(64)
            if f <= 0 or abs(float(f) - m) > 1e-7 * m: return None
            e = R.scale(x, f)
            try:
                if R.equal(R.mul(e, e), RF(dict(p))): return self.absval(e, None)
            except TooBig: pass
            return None
        for x, v in basis:
            r = test(x, v)
            if r is not None: return r
        for i in range(len(basis)):
            for j in range(i, len(basis)):
                v = basis[i][1] * basis[j][1]
                with np.errstate(all='ignore'): ra = t / np.abs(v)
                if steady(ra) is not None:
                    r = test(R.mul(basis[i][0], basis[j][0]), v)
                    if r is not None: return r
        # linear combinations of two candidates (completing a square)
        return None
    def absval(self, x, num):
        R = self.R
        s = self.sign(x)
        if s is not None: return x if s >= 0 else R.neg(x)
        k = self.key(x)
        if k[0] and k[0][-1][1] < 0: return self.absval(R.neg(x), num)
        r = self.bykey.get(('abs', k))
        if r is None:
            if x.d:
                # |n/d| = |n| / prod |d|
                r = self.absval(RF(x.n, x.q), None)
                for f, e in x.d.items(): r = R.div(r, R.powi(self.absval(RF(R.fpoly(f)), None), e))
            else:
                nm = np.abs(R.rnum(x, self.S))
                a = R.atom('abs', 'real', nm, Fraction(0), None)
                sq = R.mul(x, x)
                if sq.q == 1:
                    R.relation(a, sq.n); r = R.A(a); t = self.val(x)
                    self.fact(set(R.rf_atoms(x)) | {a}, '(= a%d (ite (>= %s 0.0) %s (- %s)))' % (a, t, t, t))
                else:
                    y = RF(x.n)
                    yq = R.mul(y, y)
                    R.num[a] = nm * float(x.q)
                    R.relation(a, yq.n); t = R.smt(x.n)
                    self.fact(set(R.rf_atoms(x)) | {a}, '(= a%d (ite (>= %s 0.0) %s (- %s)))' % (a, t, t, t))
                    r = RF({1 << (B * a): 1}, x.q)
            self.bykey[('abs', k)] = r
        return r
    def floor(self, x, num):
        R = self.R
        if R.is_const(x):
            f = R.constval(x); return R.const(f.numerator // f.denominator)
        k = ('floor', self.key(x))
        r = self.bykey.get(k)
        if r is None:
            a = R.atom('floor', 'int', num)
            if not x.d:
                t = self.val(x)
                self.fact(set(R.rf_atoms(x)) | {a}, '(and (<= a%d %s) (< %s (+ a%d 1.0)))' % (a, t, t, a))
            else:
                n, d = self.numden(x)
                # floor(n/d): a <= n/d < a+1, with the sign of d known
                s = self.sign(d)
                if s is not None:
                    tn, td = self.val(n), self.val(d)
                    if s < 0: tn, td = '(- %s)' % tn, '(- %s)' % td
                    self.fact(set(R.rf_atoms(x)) | {a}, '(and (<= (* a%d %s) %s) (< %s (* (+ a%d 1.0) %s)))' % (a, td, tn, tn, a, td))
            self.Ks[(1 << (B * a)) + (1 << (B * self.pi))] = a
            r = self.bykey[k] = R.A(a)
        return r
    def numden(self, x):
        return RF(x.n, x.q), RF(self.R.dpoly(x.d))
    # ---- inverse trigonometry ----
    def angle_candidates(self):
        R = self.R
        bs = []
        for an in self.angles + [RF({1 << (B * a): 1}) for a in set(self.var.values()) if R.lo[a] is not None and R.hi[a] is not None and -8 <= R.lo[a] and R.hi[a] <= 8] + \
                  [RF({m: 1}) for m in getattr(self, 'angatom', {})]:
            if all(self.key(an) != self.key(b) for b in bs): bs.append(an)
        bs = bs[:7]
        nums = [R.rnum(b, self.S) for b in bs]
        out = []
        coefs = (1, -1, 2, -2)
        for i in range(len(bs)):
            for a in coefs + (4, -4):
                out.append(([(i, a)], a * nums[i]))
        for i, j in itertools.combinations(range(len(bs)), 2):
            for a in coefs:
                for b in coefs:
                    out.append(([(i, a), (j, b)], a * nums[i] + b * nums[j]))
        for i, j, k in itertools.combinations(range(len(bs)), 3):
            for a in (1, -1):
                for b in (1, -1):
                    for c in (1, -1):
                        out.append(([(i, a), (j, b), (k, c)], a * nums[i] + b * nums[j] + c * nums[k]))
        for i, j, k, l in itertools.combinations(range(len(bs)), 4):
            for a in (1, -1):
                for b in (1, -1):
                    for c in (1, -1):
                        for e in (1, -1):
                            out.append(([(i, a), (j, b), (k, c), (l, e)], a * nums[i] + b * nums[j] + c * nums[k] + e * nums[l]))
        return bs, out
    def strip_turns(self, x):
        """the angle without its integer multiples of 2 pi and with the pi part reduced"""
        n = {}
        for m, c in x.n.items():
            f = Fraction(c, x.q)
            if m in self.Ks and f.denominator == 1 and f % 2 == 0: continue
            if m == 1 << (B * self.pi):
                f = f % 2
                if f >= 1: f -= 2
                if not f: continue
                n[m] = int(f * x.q) if (f * x.q).denominator == 1 else None
                if n[m] is None: return x
                continue
            n[m] = c
        from nf import normq
        a, q = normq(n, x.q)
        return RF(a, q)
    def atan2(self, y, x, num):
        R = self.R
        if not y.n:
            s = self.sign(x)
            if s is not None and s > 0: return R.zero
        key = ('atan2', self.key(y), self.key(x))
        r = self.bykey.get(key)
        if r is not None: return r
        ok = np.isfinite(num)
        r = None
        # the direct case: y and x are the sine and cosine of an angle this ring already knows
        E = self.find_angle(y, x, num, ok)
        if E is not None: r = self.wrap(E, num)
        if r is None:
            rr = self.sqrt(R.add(R.mul(x, x), R.mul(y, y)), np.sqrt(R.rnum(x, self.S) ** 2 + R.rnum(y, self.S) ** 2))
            a = R.atom('atan2', 'real', num, None, None)
            self.fact((a, self.pi), '(and (<= a%d a%d) (<= (- a%d) a%d))' % (a, self.pi, self.pi, a))
            if not hasattr(self, 'angatom'): self.angatom = {}
            sn, cs = R.div(y, rr), R.div(x, rr)
            self.angatom[1 << (B * a)] = (sn, cs)
            r = R.A(a)
            sg = self.sign_fact(a, sn, cs)
        self.bykey[key] = r
        return r
    def sign_fact(self, a, sn, cs):
        n = self.posnum(sn)
        if n is not None:
            t = self.R.smt(n); at = self.R.atoms_of(n) | {a}
            self.fact(at, '(and (=> (> %s 0.0) (> a%d 0.0)) (=> (< %s 0.0) (< a%d 0.0)))' % (t, a, t, a))
            m = self.posnum(cs)
            if m is not None:
                u = self.R.smt(m)
                self.fact(at | self.R.atoms_of(m) | {self.pi}, '(and (=> (> %s 0.0) (and (< (* 2.0 a%d) a%d) (> (* 2.0 a%d) (- a%d)))) (=> (and (= %s 0.0) (> %s 0.0)) (= a%d 0.0)) (=> (and (= %s 0.0) (< %s 0.0)) (= a%d a%d)))' % (u, a, self.pi, a, self.pi, t, u, a, t, u, a, self.pi))
    def posnum(self, x):
        """polynomial with the sign of x, when the denominators' signs are known"""
        n = x.n
        for f, e in x.d.items():
            if e % 2 == 0: continue
            s = self.sign(RF(self.R.fpoly(f)))
            if s is None: n = self.R.pmul(n, self.R.fpoly(f))
            elif s < 0: n = {m: -c for m, c in n.items()}
        return n
    def find_angle(self, y, x, num, ok):
        R = self.R
        if ok.sum() < 3: return None
        bs, cands = self.angle_candidates()
        for lin, arr in cands:
            for sh in (0, 1, Fraction(1, 2), Fraction(-1, 2)):
                df = (arr + float(sh) * math.pi - num)[ok]
                k = np.round(df / (2 * math.pi))
                if not mostly(np.abs(df - k * 2 * math.pi) <= 1e-7): continue
                E = R.zero
                for i, a in lin: E = R.add(E, R.scale(bs[i], a))
                if sh: E = R.add(E, R.scale(R.A(self.pi), sh))
                try:
                    s, c = self.trig(E)
                    if not R.equal(R.mul(y, c), R.mul(x, s)): continue
                    pos = R.add(R.mul(x, c), R.mul(y, s))
                    if self.sign(pos, strict=True) == 1: return E
                except TooBig: continue
        return None
    def wrap(self, E, num):
        """the representative of E modulo 2 pi in (-pi, pi]"""
        R = self.R
        E = self.strip_turns(E)
        k = ('wrap', self.key(E))
        r = self.bykey.get(k)
        if r is not None: return r
        en = R.rnum(E, self.S)
        kk = np.round((num - en) / (2 * math.pi)); ok = np.isfinite(kk)
        if ok.any() and np.all(kk[ok] == kk[ok][0]) and abs(kk[ok][0]) <= 4:
            F = R.add(E, R.scale(R.A(self.pi), 2 * int(kk[ok][0])))
            t = self.val(F); at = R.rf_atoms(F) | {self.pi}
            if self.prove('(and (<= %s a%d) (< (- a%d) %s))' % (t, self.pi, self.pi, t), at, 2.0): r = F
        if r is None:
            a = R.atom('turns', 'int', kk)
            self.Ks[(1 << (B * a)) + (1 << (B * self.pi))] = a
            r = R.add(E, RF({(1 << (B * a)) + (1 << (B * self.pi)): 2}))
            t = self.val(r)
            self.fact(R.rf_atoms(r), '(and (<= %s a%d) (<= (- a%d) %s))' % (t, self.pi, self.pi, t))
        self.bykey[k] = r
        return r
    def arc(self, which, x, num):
        R = self.R
        key = (which, self.key(x))
        r = self.bykey.get(key)
        if r is not None: return r
        if which == 'asin':
            r = R.sub(R.scale(R.A(self.pi), Fraction(1, 2)), self.arc('acos', x, math.pi / 2 - num))
            self.bykey[key] = r
            return r
        ok = np.isfinite(num)
        r = None
        if R.is_const(x):
            q = {Fraction(1): Fraction(0), Fraction(-1): Fraction(1), Fraction(0): Fraction(1, 2), Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}.get(R.constval(x))
            if q is not None: r = R.scale(R.A(self.pi), q) if q else R.zero
        if r is None and ok.sum() >= 1:
            bs, cands = self.angle_candidates()
            for lin, arr in cands:
                for sh in (0, 2, -2, 1, -1):
                    if not mostly(np.abs((arr + sh * math.pi - num)[ok]) <= 1e-6): continue
                    E = R.zero
                    for i, a in lin: E = R.add(E, R.scale(bs[i], a))
                    if sh: E = R.add(E, R.scale(R.A(self.pi), sh))
                    try:
                        if not R.equal(self.trig(E)[1], x): continue
                    except TooBig: continue
                    t = self.val(E); at = R.rf_atoms(E) | {self.pi}
                    if self.prove('(and (<= %s a%d) (<= 0.0 %s))' % (t, self.pi, t), at, 3.0): r = E; break
                if r is not None: break
        if r is None:
            a = R.atom('acos', 'real', num, Fraction(0), Fraction(314159265358980, 10 ** 14))
            s = self.sqrt(R.sub(R.one, R.mul(x, x)), np.sin(num))
            if not hasattr(self, 'angatom'): self.angatom = {}
            self.angatom[1 << (B * a)] = (s, x)
            r = R.A(a)
        self.bykey[key] = r
        return r
    # ---- signs and solver queries ----
    def quick_sign(self, p):
        """-1, 0(+/-) .. of a polynomial from the signs of its atoms: returns (all terms >= 0, all terms <= 0, some term strictly)"""
        R = self.R
        pos = neg = True; strict = False
        for m, c in p.items():
            s = 1 if c > 0 else -1; st = True; i = 0; mm = m
            while mm:
                e = mm & 255
                if e:
                    lo, hi = R.lo[i], R.hi[i]
                    if e % 2 == 0:
                        if not ((lo is not None and lo > 0) or (hi is not None and hi < 0)): st = False
                    elif lo is not None and lo >= 0:
                        if lo == 0: st = False
                    elif hi is not None and hi <= 0:
                        s = -s
                        if hi == 0: st = False
                    else: return None
                mm >>= B; i += 1
            if s > 0: neg = False
            else: pos = False
            strict = strict or st
            if not pos and not neg: return None
        if pos: return 2 if strict else 1
        if neg: return -2 if strict else -1
        return None
    def psign(self, p):
        """sign of a polynomial: 2 (> 0), 1 (>= 0), -1, -2, or None"""
        if not p: return 1
        r = self.quick_sign(p)
        if r is not None: return r
        # split off the monomial content
        k = (tuple(sorted(p.items())), len(self.cons))
        if k in self.signcache: return self.signcache[k]
        R = self.R
        c, d = R.factor(p)
        r = None
        if len(d) > 1 or abs(c) != 1:
            s = 1 if c > 0 else -1; strict = True
            for f, e in d.items():
                if e % 2 == 0:
                    t = self.psign(R.fpoly(f))
                    if t is None or abs(t) == 1: strict = False
                    continue
                t = self.psign(R.fpoly(f))
                if t is None: s = None; break
                if abs(t) == 1: strict = False
                s = s * (1 if t > 0 else -1)
            if s is not None: r = s * (2 if strict else 1)
        if r is None and len(p) <= 120:
            num = R.pnum(p, self.S); num = num[np.isfinite(num)]
            sc = np.max(np.abs(num)) if len(num) else 0
            at = R.atoms_of(p); t = R.smt(p)
            if len(num) and np.min(num) > -1e-9 * sc:
                if np.min(num) > 1e-12 and self.prove('(> %s 0.0)' % t, at, 2.0): r = 2
                elif self.prove('(>= %s 0.0)' % t, at, 2.0): r = 1
            elif len(num) and np.max(num) < 1e-9 * sc:
                if np.max(num) < -1e-12 and self.prove('(< %s 0.0)' % t, at, 2.0): r = -2
                elif self.prove('(<= %s 0.0)' % t, at, 2.0): r = -1
            elif not len(num):
                if self.prove('(>= %s 0.0)' % t, at, 2.0): r = 1
                elif self.prove('(<= %s 0.0)' % t, at, 2.0): r = -1
        self.signcache[k] = r
        return r
    def sign(self, x, strict=False):
        """+1 / -1 when x >= 0 / x <= 0 is proved (strictly, if asked), else None"""
        if not x.n: return None if strict else 1
        s = self.psign(x.n)
        if s is None: return None
        r = 1 if s > 0 else -1; st = abs(s) == 2
        for f, e in x.d.items():
            if e % 2 == 0: continue
            t = self.psign(self.R.fpoly(f))
            if t is None: return None
            if t < 0: r = -r
        if strict and not st: return None
        return r
    def header(self, atoms):
        R = self.R; out = []
        ints = any(R.kind[a] == 'int' for a in atoms)
        if not ints: out.append('(set-logic QF_NRA)')
        for a in sorted(atoms):
            if R.kind[a] == 'int':
                out.append('(declare-const i%d Int)\n(define-fun a%d () Real (to_real i%d))' % (a, a, a))
            else: out.append('(declare-const a%d Real)' % a)
            f = lambda q: ('%d.0' % q.numerator if q >= 0 else '(- %d.0)' % -q.numerator) if q.denominator == 1 else '(/ %s %d.0)' % (('%d.0' % q.numerator) if q >= 0 else '(- %d.0)' % -q.numerator, q.denominator)
            if R.lo[a] is not None: out.append('(assert (>= a%d %s))' % (a, f(R.lo[a])))
            if R.hi[a] is not None: out.append('(assert (<= a%d %s))' % (a, f(R.hi[a])))
        return out
    def context(self, atoms, level, extra_cons=None):
        """facts and constraints about the atoms; level 0: only about these, 1: closed under sharing atoms"""
        atoms = set(atoms)
        cons = self.cons if extra_cons is None else extra_cons
        if level == 0:
            fs = {t for a in atoms for (s, t) in self.facts.get(a, ()) if s <= atoms}
            cs = [t for (s, t) in cons if s <= atoms]
            return atoms, list(fs) + cs
        fs = set(); cs = []
        while True:
            n = len(atoms)
            for (s, t) in cons:
                if s & atoms: atoms |= s
            for a in list(atoms):
                for (s, t) in self.facts.get(a, ()):
                    if level == 2 or len(s - atoms) <= 1: atoms |= s
            if len(atoms) == n: break
        fs = {t for a in atoms for (s, t) in self.facts.get(a, ()) if s <= atoms}
        cs = [t for (s, t) in cons if s <= atoms]
        return atoms, sorted(fs) + cs
    def query(self, body, atoms, timeout, level, values=None, cons=None):
        at, ctx = self.context(atoms, level, cons)
        txt = '\n'.join(self.header(at) + ['(assert %s)' % t for t in ctx] + ['(assert %s)' % body])
        if len(txt) > 3000000: return 'unknown', {}
        if len(txt) < 200000:
            lin = self.linear(at, ctx, body)
            if lin and self.z3.check(lin, min(timeout, 1.0), None)[0] == 'unsat': return 'unsat', {}
        return self.z3.check(txt, timeout, [('a%d' % a) if self.R.kind[a] != 'int' else 'i%d' % a for a in sorted(at)] if values else None)
    def linear(self, at, ctx, body):
        """the query with every monomial as an independent unknown (refutes what needs no more than linear reasoning)"""
        R = self.R; mon = {}; memo = self.linmemo
        def walk(e):
            if isinstance(e, str): return e
            if e[0] == '*':
                num = []; sy = []; rest = []
                for x in e[1:]:
                    if isinstance(x, str): (sy if x[0] == 'a' else num).append(x)
                    elif x[0] == '*' or x[0] == '-' and len(x) == 2 and isinstance(x[1], str) and x[1][0] != 'a' or x[0] == '/': num.append(text(x)) if x[0] != '*' else rest.append(x)
                    else: rest.append(x)
                if rest:
                    if len(rest) == 1 and not sy: return ['*'] + num + [walk(rest[0])]
                    raise ValueError
                if len(sy) <= 1: return ['*'] + num + sy
                nm = 'm_' + '_'.join(sorted(sy))
                return ['*'] + num + [nm] if num else nm
            return [e[0]] + [walk(x) for x in e[1:]]
        def conv(t):
            r = memo.get(t)
            if r is None:
                try: r = text(walk(parse(t)))
                except ValueError: r = ''
                memo[t] = r
            return r
        b = conv(body)
        if not b: return None
        out = [c for c in map(conv, ctx) if c]
        names = set(re.findall(r'm_[a_0-9]+', ' '.join(out) + b))
        hd = ['(set-logic QF_LRA)'] + ['(declare-const a%d Real)' % a for a in sorted(at)] + ['(declare-const %s Real)' % n for n in sorted(names)]
        for a in at:
            f = lambda q: '(/ %s%d.0%s %d.0)' % ('(- ' if q < 0 else '', abs(q.numerator), ')' if q < 0 else '', q.denominator)
            if R.lo[a] is not None: hd.append('(assert (>= a%d %s))' % (a, f(R.lo[a])))
            if R.hi[a] is not None: hd.append('(assert (<= a%d %s))' % (a, f(R.hi[a])))
        for n in names:
            c = {}
            for a in n[2:].split('_'): c[int(a[1:])] = c.get(int(a[1:]), 0) + 1
            if all(k % 2 == 0 or (R.lo[a] is not None and R.lo[a] >= 0) for a, k in c.items()): hd.append('(assert (>= %s 0.0))' % n)
        return '\n'.join(hd + ['(assert %s)' % t for t in out] + ['(assert %s)' % b])
    def prove(self, goal, atoms, timeout=None):
        timeout = timeout or self.timeout
        last = None
        for level in (0, 1):
            v, _ = self.query('(not %s)' % goal, atoms, min(timeout, 2.0) if level == 0 else timeout, level)
            if v == 'unsat': return True
        return False
    # ---- conditions ----
    def cond(self, kind, a, b, taken=True):
        """('const', bool) or (atoms, smt text)"""
        R = self.R
        x = R.sub(self.nf(a), self.nf(b))
        if R.is_const(x):
            c = R.constval(x)
            r = c < 0 if kind == 0 else c <= 0 if kind == 1 else c == 0
            return ('const', r == bool(taken))
        n = self.posnum(x) if kind != 2 else x.n
        t = R.smt(n)
        op = ('<' if taken else '>=') if kind == 0 else ('<=' if taken else '>') if kind == 1 else '='
        txt = '(%s %s 0.0)' % (op, t)
        if kind == 2 and not taken: txt = '(not %s)' % txt
        return (frozenset(R.atoms_of(n)), txt)
