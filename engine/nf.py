"""Normal forms: rational functions over atoms, with square relations (x^2 -> polynomial in earlier atoms).

A value is RF(n, q, d): n = {packed monomial: int}, q = positive int, d = {factor: exponent}; value = n / (q * prod d).
A factor is an atom index (int >= 0) or ~k for the k-th registered factor polynomial."""
from math import gcd, isqrt
from fractions import Fraction
import numpy as np

B = 8
MAXTERMS = 60000

class TooBig(Exception): pass
class Undefined(Exception): pass

class RF:
    __slots__ = ('n', 'q', 'd')
    def __init__(self, n, q=1, d=None):
        self.n = n; self.q = q; self.d = d or {}

def normq(n, q):
    if q == 1: return n, q
    g = q
    for c in n.values():
        g = gcd(g, c)
        if g == 1: return n, q
    return {m: c // g for m, c in n.items()}, q // g

class Ring:
    def __init__(self):
        self.names = []; self.kind = []; self.num = []      # per atom: name, kind, numeric samples
        self.lo = []; self.hi = []                            # rational bounds or None
        self.rel = {}; self.relmask = 0; self.relpow = {}
        self.facs = []; self.facix = {}; self.facnum = []
        self.facts = []          # callables/SMT facts per atom, filled by the prover: (set of atoms, smt text)
        self.bykey = {}
        self.one = RF({0: 1}); self.zero = RF({})

    def atom(self, name, kind='real', num=None, lo=None, hi=None):
        self.names.append(name); self.kind.append(kind); self.num.append(num); self.lo.append(lo); self.hi.append(hi)
        return len(self.names) - 1
    def relation(self, i, poly):
        """atom_i^2 = poly (integer coefficients)"""
        self.rel[i] = poly; self.relmask |= ((1 << B) - 2) << (B * i)
    def A(self, i): return RF({1 << (B * i): 1})
    def const(self, f):
        f = Fraction(f)
        return RF({0: f.numerator} if f else {}, f.denominator if f else 1)

    # polynomials
    def reduce(self, p):
        mask = self.relmask
        if not mask: return p
        todo = [(m, c) for m, c in p.items() if m & mask]
        if not todo: return p
        out = {m: c for m, c in p.items() if not (m & mask)}
        while todo:
            # merge the work list: the same monomial often appears many times
            if len(todo) > 4000:
                acc = {}
                for m, c in todo: acc[m] = acc.get(m, 0) + c
                todo = [(m, c) for m, c in acc.items() if c]
                if not todo: break
                if len(todo) > 4 * MAXTERMS: raise TooBig('reduce')
            nxt = {}
            for m, c in todo:
                b = m & mask
                i = (b.bit_length() - 1) // B
                e = (m >> (B * i)) & ((1 << B) - 1)
                k = e >> 1
                base = m - ((2 * k) << (B * i))
                for pm, pc in self.rpow(i, k).items():
                    mm = base + pm; v = c * pc
                    if mm & mask: nxt[mm] = nxt.get(mm, 0) + v
                    else:
                        w = out.get(mm, 0) + v
                        if w: out[mm] = w
                        elif mm in out: del out[mm]
            todo = [(m, c) for m, c in nxt.items() if c]
        return out
    def rpow(self, i, k):
        if k == 1: return self.rel[i]
        r = self.relpow.get((i, k))
        if r is None: r = self.relpow[(i, k)] = self.pmul(self.rpow(i, k - 1), self.rel[i])
        return r
    def pmul(self, a, b):
        if not a or not b: return {}
        if len(a) > len(b): a, b = b, a
        if len(a) == 1:
            (m1, c1), = a.items()
            r = {m1 + m: c1 * c for m, c in b.items()}
            return self.reduce(r)
        r = {}
        if len(a) * len(b) > 40 * MAXTERMS: raise TooBig('pmul')
        bi = list(b.items()); get = r.get
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = self.reduce({m: c for m, c in r.items() if c})
        if len(r) > MAXTERMS: raise TooBig('pmul')
        return r
    def padd(self, a, b, ca=1, cb=1):
        r = {m: c * ca for m, c in a.items()} if ca != 1 else dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * cb
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def ppow(self, p, k):
        r = {0: 1}
        for _ in range(k): r = self.pmul(r, p)
        return r
    def fpoly(self, f):
        return {1 << (B * f): 1} if f >= 0 else self.facs[~f]
    def dpoly(self, d):
        r = {0: 1}
        for f, e in d.items(): r = self.pmul(r, self.ppow(self.fpoly(f), e))
        return r

    # rational functions
    def cancel(self, n, q, d):
        if not n: return RF({})
        if d:
            d = dict(d)
            for f in list(d):
                if f >= 0:
                    sh = B * f; k = d[f]
                    for m in n:
                        e = (m >> sh) & ((1 << B) - 1)
                        if e < k:
                            k = e
                            if not k: break
                    if k:
                        n = {m - (k << sh): c for m, c in n.items()}
                        if d[f] == k: del d[f]
                        else: d[f] -= k
                else:
                    p = self.facs[~f]
                    while f in d and len(n) == len(p):
                        m0 = max(p); m1 = max(n)
                        if n[m1] % p[m0]: break
                        r = n[m1] // p[m0]; s = m1 - m0
                        if s < 0 or any(n.get(m + s) != c * r for m, c in p.items()): break
                        n = {s: r}
                        d[f] -= 1
                        if not d[f]: del d[f]
        n, q = normq(n, q)
        return RF(n, q, d)
    def add(self, x, y, sy=1):
        if not x.n: return y if sy == 1 else self.neg(y)
        if not y.n: return x
        if x.d == y.d:
            if x.q == y.q: n = self.padd(x.n, y.n, 1, sy); q = x.q
            else:
                g = gcd(x.q, y.q); q = x.q // g * y.q
                n = self.padd(x.n, y.n, y.q // g, sy * (x.q // g))
            return self.cancel(n, q, x.d)
        d = dict(x.d)
        for f, e in y.d.items():
            if d.get(f, 0) < e: d[f] = e
        mx = {f: e - x.d.get(f, 0) for f, e in d.items() if e > x.d.get(f, 0)}
        my = {f: e - y.d.get(f, 0) for f, e in d.items() if e > y.d.get(f, 0)}
        a = self.pmul(x.n, self.dpoly(mx)); b = self.pmul(y.n, self.dpoly(my))
        g = gcd(x.q, y.q)
        return self.cancel(self.padd(a, b, y.q // g, sy * (x.q // g)), x.q // g * y.q, d)
    def sub(self, x, y): return self.add(x, y, -1)
    def neg(self, x): return RF({m: -c for m, c in x.n.items()}, x.q, x.d)
    def mul(self, x, y):
        if not x.n or not y.n: return RF({})
        d = dict(x.d)
        for f, e in y.d.items(): d[f] = d.get(f, 0) + e
        return self.cancel(self.pmul(x.n, y.n), x.q * y.q, d)
    def scale(self, x, f):
        f = Fraction(f)
        if not f: return RF({})
        return self.cancel({m: c * f.numerator for m, c in x.n.items()}, x.q * f.denominator, x.d)
    def factor(self, p):
        """p = c * product of factors; returns (int c, {factor: exp})"""
        g = 0
        for c in p.values(): g = gcd(g, c)
        if p[max(p)] < 0: g = -g
        d = {}
        m0 = None
        for m in p:
            m0 = m if m0 is None else self.mmin(m0, m)
            if not m0: break
        if m0:
            i = 0; mm = m0
            while mm:
                e = mm & ((1 << B) - 1)
                if e: d[i] = e
                mm >>= B; i += 1
        r = {m - m0: c // g for m, c in p.items()}
        if len(r) == 1 and 0 in r: return g * r[0], d
        key = tuple(sorted(r.items()))
        k = self.facix.get(key)
        if k is None:
            k = self.facix[key] = len(self.facs); self.facs.append(r)
        d[~k] = d.get(~k, 0) + 1
        return g, d
    def mmin(self, a, b):
        r = 0; sh = 0
        while a and b:
            e = min(a & 255, b & 255)
            r |= e << sh; a >>= B; b >>= B; sh += B
        return r
    def inv(self, x):
        if not x.n: raise Undefined('division by zero')
        c, d = self.factor(x.n)
        n = self.pmul({0: x.q}, self.dpoly(x.d))
        if c < 0: n = {m: -v for m, v in n.items()}; c = -c
        return self.cancel(n, c, d)
    def div(self, x, y): return self.mul(x, self.inv(y))
    def powi(self, x, k):
        r = self.one
        for _ in range(k): r = self.mul(r, x)
        return r
    def is_const(self, x):
        return not x.d and (not x.n or (len(x.n) == 1 and 0 in x.n))
    def constval(self, x): return Fraction(x.n.get(0, 0), x.q)
    def cross(self, x, y):
        """polynomials L, R with x == y iff L == R (denominators nonzero)"""
        d = dict(x.d)
        for f, e in y.d.items():
            if d.get(f, 0) < e: d[f] = e
        mx = {f: e - x.d.get(f, 0) for f, e in d.items() if e > x.d.get(f, 0)}
        my = {f: e - y.d.get(f, 0) for f, e in d.items() if e > y.d.get(f, 0)}
        a = self.pmul(x.n, self.dpoly(mx)); b = self.pmul(y.n, self.dpoly(my))
        g = gcd(x.q, y.q)
        fa, fb = y.q // g, x.q // g
        return ({m: c * fa for m, c in a.items()} if fa != 1 else a), ({m: c * fb for m, c in b.items()} if fb != 1 else b)
    def equal(self, x, y):
        a, b = self.cross(x, y)
        return a == b

    # numeric evaluation over the samples
    def pnum(self, p, S):
        r = np.zeros(S)
        for m, c in p.items():
            try: t = np.full(S, float(c))
            except OverflowError: t = np.full(S, np.inf)
            i = 0
            while m:
                e = m & 255
                if e: t = t * self.num[i] ** e
                m >>= B; i += 1
            r = r + t
        return r
    def rnum(self, x, S):
        r = self.pnum(x.n, S)
        try: r = r / float(x.q)
        except OverflowError: r = r * float(Fraction(1, x.q))
        for f, e in x.d.items(): r = r / self.pnum(self.fpoly(f), S) ** e
        return r
    def atoms_of(self, p, acc=None):
        acc = set() if acc is None else acc
        m = 0
        for k in p: m |= k
        i = 0
        while m:
            if m & 255: acc.add(i)
            m >>= B; i += 1
        return acc
    def rf_atoms(self, x, acc=None):
        acc = self.atoms_of(x.n, acc)
        for f in x.d:
            if f >= 0: acc.add(f)
            else: self.atoms_of(self.facs[~f], acc)
        return acc
    # SMT-LIB
    def smt(self, p):
        if not p: return '0.0'
        ts = []
        for m, c in p.items():
            fs = []
            i = 0
            while m:
                e = m & 255
                if e: fs += ['a%d' % i] * e
                m >>= B; i += 1
            cs = '%d.0' % c if c >= 0 else '(- %d.0)' % -c
            if not fs: ts.append(cs)
            elif c == 1: ts.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
            else: ts.append('(* %s %s)' % (cs, ' '.join(fs)))
        return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)
