"""A z3 process kept alive, with a hard time limit per query."""
import subprocess, select, time, os

class Z3:
    def __init__(self, binary='z3-new'):
        self.binary = binary; self.p = None; self.queries = 0; self.time = 0.0; self.res = {'sat': 0, 'unsat': 0, 'unknown': 0}
        self.buf = b''
    def start(self):
        self.p = subprocess.Popen([self.binary, '-in', '-smt2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b''
    def kill(self):
        if self.p:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
        self.p = None
    def line(self, deadline):
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            t = deadline - time.time()
            if t <= 0 or not select.select([fd], [], [], t)[0]: return None
            d = os.read(fd, 1 << 16)
            if not d: return None
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode()
    def check(self, text, timeout=10.0, values=None):
        """text: declarations and assertions. Returns (verdict, {name: value text})"""
        t0 = time.time()
        self.queries += 1
        r, vals = 'unknown', {}
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None: self.start()
            try:
                q = '(reset)\n(set-option :timeout %d)\n%s\n(check-sat)\n(echo "done")\n' % (int(timeout * 1000), text)
                self.p.stdin.write(q.encode()); self.p.stdin.flush()
            except (BrokenPipeError, OSError):
                self.kill(); continue
            dl = time.time() + timeout + 3
            out = []
            while True:
                l = self.line(dl)
                if l is None: break
                if l == 'done': break
                out.append(l)
            if l is None:
                self.kill(); break
            if any('error' in x for x in out): r = 'unknown'; self.err = out; break
            r = out[-1].strip() if out else 'unknown'
            if r not in ('sat', 'unsat'): r = 'unknown'
            if r == 'sat' and values:
                self.p.stdin.write(('(get-value (%s))\n(echo "done")\n' % ' '.join(values)).encode()); self.p.stdin.flush()
                txt = ''
                while True:
                    l = self.line(time.time() + 5)
                    if l is None: self.kill(); break
                    if l == 'done': break
                    txt += ' ' + l
                vals = parse_values(txt)
            break
        self.res[r] += 1
        self.time += time.time() - t0
        return r, vals

def tokens(s):
    return s.replace('(', ' ( ').replace(')', ' ) ').split()
def parse(ts, i):
    if ts[i] == '(':
        r = []; i += 1
        while ts[i] != ')':
            x, i = parse(ts, i); r.append(x)
        return r, i + 1
    return ts[i], i + 1
def val(x):
    if isinstance(x, str):
        x = x.rstrip('?')
        try: return float(x)
        except ValueError: return None
    if not x: return None
    if x[0] == '-' and len(x) == 2:
        v = val(x[1]); return None if v is None else -v
    if x[0] == '/' and len(x) == 3:
        from fractions import Fraction
        a, b = val(x[1]), val(x[2])
        if a is None or b in (None, 0): return None
        try: return float(Fraction(x[1].rstrip('?').split('.')[0]) / Fraction(x[2].split('.')[0])) if isinstance(x[1], str) and isinstance(x[2], str) else a / b
        except Exception: return a / b
    if x[0] == 'root-obj' and len(x) == 3:
        # root-obj polynomial index: evaluate numerically
        import numpy as np
        co = {}
        def poly(e):
            if isinstance(e, str):
                return {1: 1.0} if e == 'x' else {0: float(e)}
            if e[0] == '+':
                r = {}
                for t in e[1:]:
                    for k, v in poly(t).items(): r[k] = r.get(k, 0) + v
                return r
            if e[0] == '-':
                r = poly(e[1])
                if len(e) == 2: return {k: -v for k, v in r.items()}
                for t in e[2:]:
                    for k, v in poly(t).items(): r[k] = r.get(k, 0) - v
                return r
            if e[0] == '*':
                r = {0: 1.0}
                for t in e[1:]:
                    s = poly(t); r = {a + b: 0 for a in r for b in s} | {}
                return r
            if e[0] == '^':
                return {int(e[2]): 1.0}
            return {0: 0.0}
        def pmul(e):
            if isinstance(e, list) and e[0] == '*':
                r = {0: 1.0}
                for t in e[1:]:
                    s = pmul(t); n = {}
                    for a, u in r.items():
                        for b, v in s.items(): n[a + b] = n.get(a + b, 0) + u * v
                    r = n
                return r
            if isinstance(e, list) and e[0] in '+-':
                if e[0] == '-' and len(e) == 2: return {k: -v for k, v in pmul(e[1]).items()}
                r = {}
                for j, t in enumerate(e[1:]):
                    for k, v in pmul(t).items(): r[k] = r.get(k, 0) + (v if e[0] == '+' or j == 0 else -v)
                return r
            if isinstance(e, list) and e[0] == '^': return {int(e[2]): 1.0}
            return {1: 1.0} if e == 'x' else {0: float(e)}
        try:
            p = pmul(x[1]); n = max(p)
            rts = sorted(z.real for z in np.roots([p.get(k, 0.0) for k in range(n, -1, -1)]) if abs(z.imag) < 1e-9 * (1 + abs(z)))
            return rts[int(x[2]) - 1]
        except Exception: return None
    return None
def parse_values(txt):
    try:
        t, _ = parse(tokens(txt), 0)
        return {a[0]: val(a[1]) for a in t if isinstance(a, list) and len(a) == 2}
    except Exception:
        return {}
