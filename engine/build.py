"""Builds the symbolic and the plain executable of one harness from /repo's current sources, in a scratch folder."""
import os, re, subprocess, concurrent.futures as cf
from rewrite import rewrite, rewrite_tree

ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
COMMON = ['-std=c++17', '-g0', '-w', '-DNDEBUG', '-ftrivial-auto-var-init=pattern', '-I/usr/include/eigen3']
SYM = COMMON + ['-O0', '-DVERIF_SYM', '-D_GLIBCXX_ASSERTIONS']
REAL = COMMON + ['-O1', '-D_GLIBCXX_ASSERTIONS']

class BuildError(Exception): pass

def closure(path, src):
    """the .cpp files of the repository needed by a file: those beside every header it includes, transitively"""
    seen = set(); todo = [path]; cpps = []
    while todo:
        f = todo.pop()
        try: t = open(f, encoding='utf-8', errors='surrogateescape').read()
        except OSError: continue
        for inc in re.findall(r'^\s*#\s*include\s+["<]([^">]+)[">]', t, re.M):
            for base in (os.path.dirname(f), src, os.path.join(VERIF, 'harness'), os.path.join(os.path.dirname(src), 'python_bindings')):
                p = os.path.normpath(os.path.join(base, inc))
                if os.path.isfile(p) and p not in seen:
                    seen.add(p); todo.append(p)
                    c = os.path.splitext(p)[0] + '.cpp'
                    if p.startswith(src) and os.path.isfile(c) and c not in cpps:
                        cpps.append(c); todo.append(c)
                    break
    return sorted(cpps)

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout

def build(harness, repo, work, thorough=False, jobs=8):
    src = os.path.join(repo, 'src')
    wsrc = os.path.join(work, 'sym', 'src')
    rewrite_tree(os.path.join(src, 'factorama'), os.path.join(wsrc, 'factorama'))
    sdir = os.path.join(work, 'sym')
    for f in [os.path.join(ENGINE, 'vh.hpp'), harness] + [os.path.join(VERIF, 'harness', x) for x in os.listdir(os.path.join(VERIF, 'harness')) if x.endswith('.hpp')]:
        with open(f) as fh: t = fh.read()
        with open(os.path.join(sdir, os.path.basename(f)), 'w') as fh: fh.write(rewrite(t))
    hb = os.path.basename(harness)
    # the Python bindings, compiled against a stand-in for pybind11
    with open(harness) as fh: py = 'bindings.hpp' in fh.read()
    if py:
        rewrite_tree(os.path.join(repo, 'python_bindings'), os.path.join(sdir, 'pb'))
        rewrite_tree(os.path.join(ENGINE, 'pyshim'), os.path.join(sdir, 'pyshim'))
    def objs(cpps):
        ex = ['-DVERIF_THOROUGH=1'] if thorough else []
        jl = []
        si = ['-I' + sdir, '-I' + wsrc, '-I' + os.path.join(wsrc, 'factorama'), '-I' + ENGINE, '-include', os.path.join(ENGINE, 'sym.hpp')]
        ri = ['-I' + ENGINE, '-I' + os.path.join(VERIF, 'harness'), '-I' + src, '-I' + os.path.join(src, 'factorama'), '-include', os.path.join(ENGINE, 'real_pre.hpp')]
        if py:
            si += ['-I' + os.path.join(sdir, 'pyshim'), '-I' + os.path.join(sdir, 'pb')]
            ri += ['-I' + os.path.join(ENGINE, 'pyshim'), '-I' + os.path.join(repo, 'python_bindings')]
        so = []; ro = []
        def one(cmd, out, lst):
            lst.append(out)
            if not os.path.exists(out): jl.append(cmd + ['-c', '-o', out])
        os.makedirs(os.path.join(work, 'real'), exist_ok=True)
        one(['g++'] + SYM + ex + si + [os.path.join(sdir, hb)], os.path.join(sdir, 'harness.o'), so)
        one(['g++'] + [('-O1' if x == '-O0' else x) for x in SYM] + si + [os.path.join(ENGINE, 'sym.cpp')], os.path.join(sdir, 'engine.o'), so)
        one(['g++'] + REAL + ex + ri + [harness], os.path.join(work, 'real', 'harness.o'), ro)
        one(['g++'] + REAL + ri + [os.path.join(ENGINE, 'real.cpp')], os.path.join(work, 'real', 'engine.o'), ro)
        for c in cpps:
            b = os.path.relpath(c, src).replace('/', '_') + '.o'
            one(['g++'] + SYM + si + [os.path.join(wsrc, os.path.relpath(c, src))], os.path.join(sdir, b), so)
            one(['g++'] + REAL + ri + [c], os.path.join(work, 'real', b), ro)
        with cf.ThreadPoolExecutor(jobs) as ex_:
            for cmd, (rc, out) in zip(jl, ex_.map(run, jl)):
                if rc: raise BuildError('compile failed: %s\n%s' % (' '.join(cmd), out[:6000]))
        return so, ro
    cpps = closure(harness, src)
    allc = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(src, 'factorama')) for f in fs if f.endswith('.cpp'))
    for attempt in (cpps, allc):
        so, ro = objs(attempt)
        ses = os.path.join(work, 'sym.exe'); res = os.path.join(work, 'real.exe')
        a = run(['g++', '-o', ses] + so); b = run(['g++', '-o', res] + ro)
        if a[0] == 0 and b[0] == 0: return ses, res, [os.path.relpath(c, repo) for c in attempt]
    raise BuildError('link failed:\n' + a[1][:3000] + b[1][:3000])
