"""Lifetimes of the Python objects (property B02): which allocations each held name keeps, each statement touches and each
statement frees is measured by running the real bindings and library (tracer.cpp); Z3 then decides, over every history of
at most T statements with any set of names dropped before each, whether a statement can touch an allocation that is gone."""
import os, sys, json, re, subprocess, time, tempfile, sysconfig, hashlib
import z3
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import build as B

EYE = '[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]'
POSE = '[0.5, 1.0, 1.5, 0.1, 0.2, -0.1]'
P3 = '[1.0, 2.0, 4.0]'
VARS = {
    'pose': 'PoseVariable(%d, ' + POSE + ')', 'pose_m': 'PoseVariable(%d, ' + P3 + ', ' + EYE + ')', 'landmark': 'LandmarkVariable(%d, ' + P3 + ')',
    'generic1': 'GenericVariable(%d, [1.5])', 'generic2': 'GenericVariable(%d, [3.0, 4.0])', 'generic3': 'GenericVariable(%d, ' + P3 + ')',
    'rotation': 'RotationVariable(%d, ' + EYE + ')', 'inverse': 'InverseRangeVariable(%d, [0.0, 0.0, 0.0], [0.0, 0.0, 1.0], 5.0)',
    'plane': 'PlaneVariable(%d, [0.0, 0.0, 1.0], 2.0)', 'pose2': 'Pose2DVariable(%d, [1.0, 2.0, 0.3])'}
SIZE = {'pose': 6, 'pose_m': 6, 'landmark': 3, 'generic1': 1, 'generic2': 2, 'generic3': 3, 'rotation': 3, 'inverse': 1, 'plane': 4, 'pose2': 3}
B3 = '[0.0, 0.0, 1.0]'
# factor class, the kinds of variables it takes, the remaining arguments
FACTORS = [
    ('BearingObservationFactor', ['pose', 'landmark'], B3), ('BearingProjectionFactor2D', ['pose', 'landmark'], B3), ('InverseRangeBearingFactor', ['pose', 'inverse'], B3),
    ('GenericPriorFactor', ['generic2'], '[1.0, 2.0], 0.5'), ('GenericBetweenFactor', ['generic2', 'generic2', 'generic2'], '0.5'), ('LinearVelocityFactor', ['generic3', 'generic3', 'generic1'], '0.5, 0.5'),
    ('PosePositionPriorFactor', ['pose'], P3), ('PoseOrientationPriorFactor', ['pose'], EYE), ('PosePositionBetweenFactor', ['pose', 'pose', 'generic3'], '1.0, True'), ('PoseOrientationBetweenFactor', ['pose', 'pose', 'rotation'], '1.0'),
    ('RotationPriorFactor', ['rotation'], EYE), ('PlaneFactor', ['landmark', 'plane'], '1.0'), ('PlaneFactor', ['landmark', 'plane'], '1.0, True, 2.0, [0.0, 0.0, 0.0]'), ('PlanePriorFactor', ['plane'], B3 + ', 1.0'),
    ('BearingObservationFactor2D', ['pose2', 'generic2'], '0.25'), ('RangeBearingFactor2D', ['pose2', 'generic2'], '2.0, 0.25'), ('Pose2DPriorFactor', ['pose2'], P3 + ', 0.5, 0.5'), ('Pose2DBetweenFactor', ['pose2', 'pose2', 'generic3'], '0.5, 0.5'),
    ('CoordinateTransformFactor', ['rotation', 'generic3', 'generic1', 'landmark', 'landmark'], '1.0')]

def scenarios(desc, thorough):
    out = []
    for k, v in VARS.items():
        out.append({'name': 'variable ' + k, 'setup': ['x = ' + v % 3], 'sizes': {'x': SIZE[k]}, 'vars': ['x']})
    seen = set()
    for cls, kinds, rest in FACTORS:
        st = []; ns = []
        for j, k in enumerate(kinds): ns.append('v%d' % j); st.append('v%d = %s' % (j, VARS[k] % (j + 1)))
        st.append('f = %s(9, %s, %s)' % (cls, ', '.join(ns), rest))
        out.append({'name': '%s %d' % (cls, len(rest)), 'setup': st, 'sizes': {n: SIZE[k] for n, k in zip(ns, kinds)}, 'vars': ns})
        seen.add(cls)
    g = ['x = Pose2DVariable(11, [1.0, 2.0, 0.3])', 'y = GenericVariable(7, [3.0, 4.0])', 'k = GenericVariable(8, [0.5, 0.25])', 'k.set_constant(True)', 'z = GenericVariable(9, [1.0, 1.0])',
         'f = Pose2DPriorFactor(3, x, [1.0, 2.5, 0.2], 0.5, 0.25)', 'h = GenericPriorFactor(5, y, [4.5, 5.0], 0.5)', 'b = GenericBetweenFactor(6, y, z, k, 0.5)', 'r = RangeBearingFactor2D(2, x, y, 3.0, 0.5)',
         'g = FactorGraph()', 'g.add_variable(x)', 'g.add_variable(y)', 'g.add_variable(z)', 'g.add_factor(f)', 'g.add_factor(h)', 'g.add_factor(b)', 'g.add_factor(r)']
    fin = g + ['g.finalize_structure()', 'g.compute_full_jacobian_and_residual()']
    o = fin + ['s = OptimizerSettings()', 's.max_num_iterations = 2', 'o = SparseOptimizer()', 'o.setup(g, s)', 'o.optimize()', 'o.prepare_to_estimate_covariances()']
    sz = {'x': 3, 'y': 2, 'k': 2, 'z': 2, 'g': 7}
    out.append({'name': 'graph', 'setup': fin, 'sizes': sz, 'vars': ['x', 'y', 'k', 'z']})
    out.append({'name': 'unfinished graph', 'setup': g, 'sizes': sz, 'vars': ['x', 'y', 'k', 'z']})
    out.append({'name': 'optimizer', 'setup': o, 'sizes': sz, 'vars': ['x', 'y', 'k', 'z']})
    out.append({'name': 'settings and statistics', 'setup': ['s = OptimizerSettings()', 't = OptimizerStats()'], 'sizes': {}, 'vars': []})
    missing = [c for c, d in desc.items() if 'Factor' in d['bases'] and c not in seen and c != 'Factor']
    return out, missing

def arguments(m, n, sc):
    """the argument lists a method with arguments is called with"""
    s = sc['sizes']
    if m == 'set_value_from_vector': return ['%s.value()' % n]
    if m == 'apply_increment': return ['[%s]' % ', '.join(['0.0'] * s[n])] if n in s else []
    if m == 'set_constant': return ['False']
    if m == 'set_pos_2d': return ['[0.5, 0.5]']
    if m == 'set_theta': return ['0.25']
    if m == 'distance_from_point': return [P3]
    if m == 'get_variable': return ['7', '11', '12345']
    if m == 'set_variable_values_from_vector': return ['%s.get_variable_vector()' % n]
    if m == 'detailed_factor_test': return ['0.5']
    if m == 'print_jacobian_and_residual': return ['True']
    if m == 'set_verbose': return ['False']
    if m == 'estimate_covariance': return sc['vars']
    if m == 'add_variable': return ['GenericVariable(99, [1.0])']
    if m == 'add_factor': return ['GenericPriorFactor(77, %s, [0.0, 0.0], 0.5)' % v for v in sc['vars'] if s.get(v) == 2]
    if m == 'setup': return ['g, s']
    return None

class Tracer:
    def __init__(self, exe): self.exe = exe; self.programs = 0; self.seconds = 0.0
    def run(self, progs):
        if not progs: return []
        t = time.time()
        p = subprocess.run([self.exe], input='\n'.join(' ; '.join(x) for x in progs) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        r = [json.loads(l) for l in p.stdout.splitlines()]
        if len(r) != len(progs): raise RuntimeError('the tracer answered %d of %d programs' % (len(r), len(progs)))
        self.programs += len(progs); self.seconds += time.time() - t
        return r

class Model:
    """one scenario: a program that made the names, and what may be done with them"""
    def __init__(self, tr, desc, sc, prefix, names, T, st):
        self.tr, self.desc, self.sc, self.prefix, self.names, self.T, self.st = tr, desc, sc, prefix, dict(names), T, st
    def methods(self, cls):
        m = {}; a = set(); todo = [cls]
        while todo:
            c = self.desc.get(todo.pop())
            if not c: continue
            for k, v in c['methods'].items(): m.setdefault(k, v)
            a |= set(c['attrs']); todo += c['bases']
        return m, a
    def statements(self, n, kind):
        """what can be said about a name"""
        if kind == 'view': return ['%s.sum()' % n]
        if not kind.startswith('object:'): return []
        m, a = self.methods(kind[7:])
        r = []
        for k, counts in sorted(m.items()):
            if k == '__init__': continue
            if 0 in counts: r.append('%s.%s()' % (n, k))
            if any(counts):
                al = arguments(k, n, self.sc)
                if al is None: self.st['skipped'].add('%s.%s' % (kind[7:], k)); al = []
                for x in al:
                    if k == 'setup' and not {'g', 's'} <= set(self.names): continue
                    r.append('%s.%s(%s)' % (n, k, x))
        for k in sorted(a): r.append('%s.%s' % (n, k))
        return [x for x in r if self.needs(x) <= set(self.names)]
    def needs(self, s):
        own = set(re.findall(r'(?<![\w.])([a-z]\w*)(?!\s*=[^=])(?![\w(])', s))
        return {w for w in own if w in self.names or re.fullmatch(r'[a-z]\d*|[de]_\d+', w)}
    def derive(self):
        """names for what the statements hand out, obtained while everything is held"""
        cand = [(n, s) for n, k in list(self.names.items()) for s in self.statements(n, k)]
        r = self.tr.run([self.prefix + ['q = ' + s] for _, s in cand])
        c = 0; new = []
        for (n, s), x in zip(cand, r):
            if 'steps' not in x: continue
            k = x['steps'][-1]['kind']
            if x['steps'][-1]['error']: continue
            items = [(s, k)] if not k.startswith('list') else [('%s[%d]' % (s, j), y) for j, y in enumerate(k.split('|')[1:])]
            for t, y in items:
                if y == 'view' or y.startswith('object:'): new.append((n, t, y))
        # those that name an object already named are left out
        r = self.tr.run([self.prefix + ['q = ' + t] for _, t, _ in new])
        for (n, t, y), x in zip(new, r):
            if x['steps'][-1]['kind'].startswith('same:'): continue
            yield n, t, y
    def measure(self):
        names = list(self.names)
        self.stm = [s for n in names for s in self.statements(n, self.names[n])]
        progs = [self.prefix]
        progs += [self.prefix + (['!del ' + ', '.join(x for x in names if x != n)] if len(names) > 1 else ['1']) for n in names]
        progs += [self.prefix + ['!del ' + n] for n in names]
        progs += [self.prefix + ['!' + s] for s in self.stm]
        r = self.tr.run(progs)
        bad = [p for p, x in zip(progs, r) if 'steps' not in x]
        self.crash = bad
        if bad: return
        base = r[0]['steps'][-1]['blocks']
        pre = [f for s in r[0]['steps'] for f in s['faults']]
        self.prefix_faults = pre
        freed0 = {b for s in r[0]['steps'] for b in s['freed']}
        # what a statement leaves behind freed within itself never shows in the lists: only blocks that are ever touched or kept matter
        N = len(names)
        live = set(range(base)) - freed0
        self.alive = {}; self.steal = {}; self.touch = {}; self.frees = {}
        for n, x in zip(names, r[1:1 + N]): self.alive[n] = live - set(x['steps'][-1]['freed'])
        for n, x in zip(names, r[1 + N:1 + 2 * N]):
            others = set().union(*[self.alive[o] for o in names if o != n]) if N > 1 else set()
            self.steal[n] = set(x['steps'][-1]['freed']) & others
        for s, x in zip(self.stm, r[1 + 2 * N:]):
            y = x['steps'][-1]
            self.touch[s] = {b for b in y['touched'] if b < base} | {f[0] for f in y['faults'] if f[0] < base}
            self.frees[s] = {b for b in y['freed'] if b < base}
        # allocations alive with everything held but with no single name (temporaries of this measurement) are nobody's
        kept = set().union(*self.alive.values()) if names else set()
        self.freed0 = {b for t in self.touch.values() for b in t} - kept
        allb = set().union(*self.touch.values()) if self.touch else set()
        allb |= set().union(*self.steal.values()) if names else set()
        sig = {}
        for b in allb:
            k = (tuple(b in self.alive[n] for n in names), tuple(b in self.touch[s] for s in self.stm), tuple(b in self.frees[s] for s in self.stm), tuple(b in self.steal[n] for n in names), b in self.freed0)
            sig.setdefault(k, []).append(b)
        self.groups = {v[0]: v for v in sig.values()}
        self.st['allocations'] += len(allb); self.st['groups'] += len(self.groups); self.st['statements'] += len(self.stm)
    def decide(self):
        """yields confirmed histories; ends when the solver finds no further one"""
        names = list(self.names); T = self.T
        if self.crash: yield {'history': self.crash[0], 'why': 'crash', 'faults': 'crash'}; return
        if self.prefix_faults: yield {'history': self.prefix, 'why': 'while the names were made', 'faults': self.prefix_faults}; return
        S = z3.Solver(); S.set('timeout', 60000)
        held = {(n, t): z3.Bool('held_%s_%d' % (n, t)) for n in names for t in range(T + 1)}
        drop = {(n, t): z3.Bool('drop_%s_%d' % (n, t)) for n in names for t in range(T)}
        act = {(s, t): z3.Bool('act_%d_%d' % (i, t)) for i, s in enumerate(self.stm) for t in range(T)}
        for n in names: S.add(held[n, 0])
        for t in range(T):
            for n in names: S.add(held[n, t + 1] == z3.And(held[n, t], z3.Not(drop[n, t])))
            S.add(z3.PbLe([(act[s, t], 1) for s in self.stm], 1))
            for s in self.stm: S.add(z3.Implies(act[s, t], z3.And([held[n, t + 1] for n in self.needs(s)])))
        exempt = set()          # (earlier statement, later statement, allocation): refuted by running it
        events = {}
        for t in range(T):
            for b in self.groups:
                gone = z3.Not(z3.Or([held[n, t + 1] for n in names if b in self.alive[n]]))
                stolen = z3.Or([z3.And(z3.Not(held[n, t + 1])) for n in names if b in self.steal[n]])
                for i, s in enumerate(self.stm):
                    if b not in self.touch[s]: continue
                    e = z3.Bool('bad_%d_%d_%d' % (t, b, i)); events[t, b, i] = e
                    prior = [z3.And(act[q, u], z3.Not(z3.Bool('exempt_%d_%d_%d' % (j, i, b)))) for u in range(t) for j, q in enumerate(self.stm) if b in self.frees[q]]
                    S.add(e == z3.And(act[s, t], z3.Not(z3.Bool('trust_%d_%d' % (i, b))), z3.Or([gone, stolen, z3.BoolVal(b in self.freed0)] + prior)))
        # a name that takes what another keeps: dropping both frees it twice
        twice = []
        for n in names:
            for o in names:
                if o != n and self.steal[n] & self.alive[o]:
                    e = z3.Bool('twice_%s_%s' % (n, o)); S.add(e == z3.And(z3.Not(held[n, T]), z3.Not(held[o, T]))); twice.append(((n, o), e))
        S.add(z3.Or(list(events.values()) + [e for _, e in twice]))
        exempts = {'exempt_%d_%d_%d' % (j, i, b) for t in range(T) for b in self.groups for i, s in enumerate(self.stm) if b in self.touch[s] for j, q in enumerate(self.stm) if b in self.frees[q]}
        trusts = {'trust_%d_%d' % (i, b) for b in self.groups for i, s in enumerate(self.stm) if b in self.touch[s]}
        off = {x: z3.Not(z3.Bool(x)) for x in exempts | trusts}
        found = 0
        while True:
            t0 = time.time()
            r = S.check(list(off.values()))
            self.st['queries'] += 1; self.st['solver_s'] += time.time() - t0
            self.st[str(r)] = self.st.get(str(r), 0) + 1
            if str(r) != 'sat':
                if str(r) == 'unknown': self.st['undecided'].append(self.sc['name'])
                return
            m = S.model()
            on = [(k, e) for k, e in sorted(events.items()) if z3.is_true(m[e])]
            prog = list(self.prefix); hist = []
            def step(t, s):
                d = [n for n in names if z3.is_true(m[drop[n, t]]) and z3.is_true(m[held[n, t]])]
                if d: prog.append('del ' + ', '.join(d)); hist.append('del ' + ', '.join(d))
                if s: prog.append(s); hist.append(s)
            if on:
                (T0, b, i), _ = on[0]
                for t in range(T0 + 1): step(t, next((s for s in self.stm if z3.is_true(m[act[s, t]])), None))
                what = self.stm[i]
            else:
                for t in range(T): step(t, next((s for s in self.stm if z3.is_true(m[act[s, t]])), None))
                what = 'drop'
            x = self.tr.run([prog])[0]
            fl = 'crash' if 'steps' not in x else [f for s in x['steps'][len(self.prefix):] for f in s['faults']]
            self.st['replayed'] += 1
            if fl:
                found += 1
                yield {'history': hist, 'program': prog, 'why': what, 'faults': fl}
                # look for violations of another kind
                if on: S.add(z3.Not(z3.Or([e for (t, bb, ii), e in events.items() if ii == i])))
                else: S.add(z3.Not(z3.Or([e for _, e in twice])))
                if found >= 6: return
            elif on:
                # this reason does not hold up: the later statement looks elsewhere after the earlier one
                pri = [j for j, q in enumerate(self.stm) if b in self.frees[q] and any(z3.is_true(m[act[q, u]]) for u in range(T0))]
                if pri:
                    for j in pri: off.pop('exempt_%d_%d_%d' % (j, i, b), None); S.add(z3.Bool('exempt_%d_%d_%d' % (j, i, b)))
                else:
                    self.st['trusted'] = self.st.get('trusted', 0) + 1
                    if os.environ.get('VERIF_DEBUG'): print('   trusted', self.sc['name'], hist, b, [n for n in names if b in self.alive[n]])
                    off.pop('trust_%d_%d' % (i, b), None); S.add(z3.Bool('trust_%d_%d' % (i, b)))
                self.st['refuted'] += 1
            else:
                S.add(z3.Not(z3.Or([e for _, e in twice])))
                self.st['refuted'] += 1

def build_tracer(repo, work):
    src = os.path.join(repo, 'src')
    inc = ['-I' + os.path.join(VERIF, 'engine'), '-I' + os.path.join(VERIF, 'engine', 'pyshim'), '-I' + os.path.join(repo, 'python_bindings'), '-I' + src, '-I' + os.path.join(src, 'factorama'), '-include', os.path.join(VERIF, 'engine', 'real_pre.hpp')]
    cpps = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(src, 'factorama')) for f in fs if f.endswith('.cpp'))
    jobs = []; objs = []
    import concurrent.futures as cf
    for c in [os.path.join(HERE, 'tracer.cpp')] + cpps:
        o = os.path.join(work, hashlib.sha1(c.encode()).hexdigest()[:12] + '.o'); objs.append(o)
        jobs.append(['g++', '-std=c++17', '-g0', '-w', '-O1', '-DNDEBUG', '-I/usr/include/eigen3'] + inc + ['-c', c, '-o', o])
    with cf.ThreadPoolExecutor(8) as ex:
        for cmd, (rc, out) in zip(jobs, ex.map(B.run, jobs)):
            if rc: raise B.BuildError('compile failed: %s\n%s' % (' '.join(cmd), out[:4000]))
    exe = os.path.join(work, 'tracer')
    rc, out = B.run(['g++', '-o', exe] + objs)
    if rc: raise B.BuildError('link failed:\n' + out[:4000])
    return exe, [os.path.relpath(c, repo) for c in cpps]

def real_extension(repo, work):
    """the real extension module with AddressSanitizer; None when it cannot be built here"""
    d = os.path.join(work, 'asan'); os.makedirs(d, exist_ok=True)
    py = '/usr/bin/python3'
    try: inc = subprocess.run([py, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"]); print(sysconfig.get_config_var("EXT_SUFFIX"))'], stdout=subprocess.PIPE, text=True).stdout.split()
    except OSError: return None
    src = os.path.join(repo, 'src')
    cpps = sorted(os.path.join(a, f) for a, _, fs in os.walk(os.path.join(src, 'factorama')) for f in fs if f.endswith('.cpp'))
    so = os.path.join(d, '_factorama' + inc[1])
    import concurrent.futures as cf
    jobs = []; objs = []
    for c in [os.path.join(repo, 'python_bindings', 'python', 'factorama', '_factorama.cpp')] + cpps:
        o = os.path.join(d, hashlib.sha1(c.encode()).hexdigest()[:12] + '.o'); objs.append(o)
        jobs.append(['g++', '-std=c++17', '-g1', '-w', '-O1', '-fPIC', '-fsanitize=address', '-fvisibility=hidden', '-DNDEBUG', '-I/usr/include/eigen3', '-I' + inc[0], '-I' + src, '-I' + os.path.join(src, 'factorama'), '-I' + os.path.join(repo, 'python_bindings', 'python'), '-c', c, '-o', o])
    with cf.ThreadPoolExecutor(8) as ex:
        if any(rc for rc, _ in ex.map(B.run, jobs)): return None
    if B.run(['g++', '-shared', '-fsanitize=address', '-o', so] + objs)[0]: return None
    return d

def python_text(prog):
    t = ['from _factorama import *']
    for s in prog:
        s = re.sub(r"^([de]_\d+)\.sum\(\)$", r"\1.tobytes('A')", s)          # read through memcpy, which AddressSanitizer watches
        t += ['try:', '    ' + s, 'except Exception as e:', '    print(type(e).__name__, e)']
    return '\n'.join(t) + '\n'

def replay_real(ext, prog):
    """runs the program on the real module; what AddressSanitizer reports, or None"""
    lib = subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', PYTHONMALLOC='malloc', PYTHONPATH=ext, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run(['/usr/bin/python3', '-c', python_text(prog)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
    g = re.search(r'AddressSanitizer: ([\w-]+)', r.stdout)
    if g: return g.group(1)
    return 'killed by signal %d' % -r.returncode if r.returncode < 0 else None

def run(pid, tier, thorough, budget, t0, work, verbose, repo, seed, known):
    exe, tus = build_tracer(repo, work)
    tb = time.time() - t0
    desc = json.loads(subprocess.run([exe, '--describe'], stdout=subprocess.PIPE, text=True).stdout)['classes']
    tr = Tracer(exe)
    T = 6 if thorough else 3
    st = {'queries': 0, 'solver_s': 0.0, 'replayed': 0, 'refuted': 0, 'allocations': 0, 'groups': 0, 'statements': 0, 'skipped': set(), 'undecided': [], 'models': 0}
    viol = []; khit = {}; per = {}; samples = []
    scs, missing = scenarios(desc, thorough)
    late = 0
    for sc in scs:
        if time.time() - t0 > budget: st['undecided'].append('time: ' + sc['name']); continue
        roots = {}
        r = tr.run([sc['setup']])[0]
        if 'steps' not in r or any(s['error'] for s in r['steps']):
            st['undecided'].append('%s cannot be set up: %s' % (sc['name'], 'crash' if 'steps' not in r else [s['error'] for s in r['steps'] if s['error']][0])); continue
        for s, x in zip(sc['setup'], r['steps']):
            g = re.match(r'(\w+) = ', s)
            if g and x['kind'].startswith('object:'): roots[g.group(1)] = x['kind']
        m0 = Model(tr, desc, sc, sc['setup'], roots, T, st)
        # everything the names hand out while all of them are held
        prefix = list(sc['setup']); names = dict(roots)
        for j, (n, t, y) in enumerate(m0.derive()): prefix.append('d_%d = %s' % (j, t)); names['d_%d' % j] = y
        todo = [(sc['name'], Model(tr, desc, sc, prefix, names, T, st))]
        # and what a name hands out when it is the only one held
        for n in names:
            pre = prefix + (['del ' + ', '.join(x for x in names if x != n)] if len(names) > 1 else [])
            m1 = Model(tr, desc, sc, pre, {n: names[n]}, T, st)
            for j, (_, t, y) in enumerate(m1.derive()):
                todo.append(('%s, %s alone' % (sc['name'], t), Model(tr, desc, sc, pre + ['e_%d = %s' % (j, t)], {n: names[n], 'e_%d' % j: y}, T, st))); late += 1
        for nm, m in todo:
            m.measure()
            st['models'] += 1
            per[nm] = {'names': len(m.names), 'statements': len(getattr(m, 'stm', []))}
            if verbose: print('  %s: names %s, %d statements, %d groups' % (nm, m.names, len(getattr(m, 'stm', [])), len(getattr(m, 'groups', {}))))
            for v in m.decide():
                v['scenario'] = nm; v.setdefault('program', v['history'])
                key = '%s/%s' % (sc['name'].replace(' ', '_'), re.sub(r'\s', '', v['why']))
                if key in known: khit.setdefault(key, []).append(v)
                else: viol.append(v)
            if len(samples) < 12 and hasattr(m, 'stm'): samples.append({'scenario': nm, 'program': m.prefix, 'names': m.names})
    rc = 0
    for c in missing: st['undecided'].append('factor class without a scenario: ' + c)
    confirmed = []
    if viol:
        ext = real_extension(repo, work)
        for v in sorted(viol, key=lambda v: len(v['program']))[:24]:
            if len(confirmed) >= 3: break
            v['real'] = replay_real(ext, v['program'] if v['why'] != 'crash' else v['program']) if ext else 'not built'
            if v['real']: confirmed.append(v)
    for k, w in sorted(khit.items()): print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
    if confirmed:
        v = confirmed[0]
        rdir = os.environ.get('VERIF_REPLAY_DIR', os.path.join(tempfile.gettempdir(), 'factorama_replay')); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s_%s.json' % (pid, hashlib.sha1(str(v['program']).encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'tier': tier, 'case': v['scenario'], 'obligation': v['why'], 'program': v['program'], 'python': python_text(v['program']), 'observed': v['real'], 'tracer': v['faults'],
                   'others': [(x['scenario'], x['history'], x.get('real')) for x in viol if x is not v], 'how': 'run "python" against the extension module built with -fsanitize=address'}, open(rp, 'w'), indent=1)
        for x in confirmed: print('after "%s" of scenario "%s": %s (real extension: %s)' % ('; '.join(x['history'][-4:]), x['scenario'], x['faults'] if x['faults'] == 'crash' else 'memory that is gone is used', x['real']))
        for x in viol:
            if x not in confirmed: print('also: %s / %s' % (x['scenario'], '; '.join(x['history'][-3:])))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    else:
        for v in viol: st['undecided'].append('not confirmed on the real module: %s / %s' % (v['scenario'], '; '.join(v['history'][-3:])))
        if not per: rc = 2
    for u in st['undecided'][:30]: print('UNDECIDED: ' + u)
    z = {k: st.get(k, 0) for k in ('sat', 'unsat', 'unknown')}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': st['models'], 'transitions': st['statements'], 'traces_validated_against_impl': st['replayed'], 'samples': samples or [{'none': True}],
                       'functions_encoded': ['every constructor, method and attribute of python_bindings/python/factorama/_factorama.cpp, with the library behind them: ownership, accesses and frees measured per statement by running them'],
                       'translation_units': ['python_bindings/python/factorama/_factorama.cpp'] + tus,
                       'bounds': ['histories of at most %d statements with any set of names dropped before each, over %d scenarios' % (T, st['models'])], 'scenarios': per, 'programs_run': tr.programs, 'allocations': st['allocations'], 'allocation_classes': st['groups'],
                       'queries': z, 'solver_seconds': round(st['solver_s'], 2), 'histories_refuted_by_replay': st['refuted'], 'methods_not_exercised': sorted(st['skipped']), 'undecided': st['undecided'], 'known_findings_hit': {k: len(v) for k, v in khit.items()},
                       'build_seconds': round(tb, 1), 'exhaustive': not st['undecided'] and not viol},
          'assumptions': ['pybind11 wrappers, holders, keep_alive and return value policies behave as in engine/pyshim and lifetime/tracer.cpp (a reported history is confirmed on the real extension module under AddressSanitizer)', 'what a statement touches and frees is measured once per scenario, from the state in which its names were made'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    if not os.environ.get('VERIF_NO_EVIDENCE'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True); json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d models, %d programs run, %d statements, %d allocation classes, z3 %s %.1fs, replays %d (%d refuted), build %.1fs, total %.1fs' % (pid, st['models'], tr.programs, st['statements'], st['groups'], z, st['solver_s'], st['replayed'], st['refuted'], tb, time.time() - t0))
    return rc
