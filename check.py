#!/usr/bin/env python3-vt
"""check.py ID: decides one property on /repo's current tree (see DESIGN.md)."""
import os, sys, time, json, re, shutil, tempfile, hashlib, multiprocessing as mp, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1'); os.environ.setdefault('OMP_NUM_THREADS', '1')
import build as B
import explore as X

REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def meta(path):
    m = {'bounds': [], 'assumes': [], 'encodes': []}
    for l in open(path):
        g = re.match(r'//\s*(bounds|assumes|encodes):\s*(.*)', l)
        if g: m[g.group(1)].append(g.group(2).strip())
    return m

def known_findings(pid):
    out = {}
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            g = re.match(r'known: property=(\S+) finding=(\S+) (.*)', l)
            if g and g.group(1) == pid: out[g.group(2)] = g.group(3).strip()
    except FileNotFoundError: pass
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    args = sys.argv[2:]
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    only = args[args.index('--case') + 1] if '--case' in args else None
    verbose = '-v' in args
    thorough = tier == 'thorough'
    budget = float(os.environ.get('VERIF_BUDGET', 3000 if thorough else 780))
    t0 = time.time()
    harness = os.path.join(ROOT, 'harness', pid + '.cpp')
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    rc = 2
    try:
        if pid == 'B02':
            sys.path.insert(0, os.path.join(ROOT, 'lifetime'))
            import decide
            rc = decide.run(pid, tier, thorough, budget, t0, work, verbose, REPO, SEED, known_findings(pid))
        else: rc = run(pid, tier, thorough, budget, t0, harness, work, only, verbose)
    except B.BuildError as e: print('ERROR: property=%s the sources could not be encoded:\n%s' % (pid, e))
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, thorough, budget, t0, harness, work, only, verbose):
    sym, real, tus = B.build(harness, REPO, work, thorough)
    tb = time.time() - t0
    import subprocess
    cases = subprocess.run([sym, '--list'], stdout=subprocess.PIPE, text=True).stdout.split()
    if only: cases = [c for c in cases if re.fullmatch(only, c)]
    known = known_findings(pid)
    cfg = {'work': work, 'sym': sym, 'real': real, 'seed': SEED, 'z3_s': 20.0 if thorough else 6.0, 'known': set(known), 'path_s': 900 if thorough else 240}
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    st = {'paths': 0, 'decs': 0, 'pruned': 0, 'infeasible': 0, 'skip': 0, 'uncertain': 0, 'obl': {}, 'z3': {'sat': 0, 'unsat': 0, 'unknown': 0}, 'z3_s': 0.0, 'batch': 0}
    percase = {}
    viol = []; und = []; knownhit = {}; samples = []; replays = 0; witness_bad = []
    ex = cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context('fork'), initializer=X.init, initargs=(cfg,))
    pend = {}
    wit = {}
    def submit(task): pend[ex.submit(X.explore, task)] = task
    for c in cases: submit((c, [], None, True))
    out_of_time = False
    try:
        while pend:
            left = budget - (time.time() - t0)
            if left <= 0: out_of_time = True; break
            done, _ = cf.wait(list(pend), timeout=min(left, 5), return_when=cf.FIRST_COMPLETED)
            for f in done:
                task = pend.pop(f); r = f.result()
                c = r['case']; pc = percase.setdefault(c, {'paths': 0, 'proved': 0, 't': 0.0, 'infeasible': 0, 'undecided': 0}); pc['t'] += r['t']
                for k in ('sat', 'unsat', 'unknown'): st['z3'][k] += r['z3'][k]
                st['z3_s'] += r['z3_s']; st['batch'] += r.get('batch', 0)
                st['pruned'] += r['pruned']; st['decs'] += r['decs']
                if verbose: print('  path %s %s %s %.1fs %s obl=%d dec=%d' % (c, ','.join(map(str, r['prefix'])), r['status'], r['t'], r['note'], len(r['obl']), r['decs']))
                for ch in r['children']: submit(ch)
                if r['status'] == 'infeasible': st['infeasible'] += 1; pc['infeasible'] += 1; continue
                st['paths'] += 1; pc['paths'] += 1
                if r['status'] == 'skip': st['skip'] += 1
                if r['status'] == 'inconclusive': und.append((c, r['prefix'], '(path)', r['note'])); pc['undecided'] += 1
                if not r.get('certain', True): st['uncertain'] += 1
                for o in r['obl']:
                    st['obl'][o[1]] = st['obl'].get(o[1], 0) + 1
                    if o[1].startswith('proved') or o[1] in ('identical', 'concrete', 'repeated'): pc['proved'] += 1
                    if o[1] == 'violation': viol.append((c, r['prefix'], o[0], o[2]))
                    if o[1] in ('undecided', 'unconfirmed'):
                        und.append((c, r['prefix'], o[0], o[1] + ': ' + str(o[2]))); pc['undecided'] += 1
                    if o[1] == 'known': knownhit.setdefault(o[2], []).append((c, o[0]))
                if r.get('witness'):
                    replays += 1
                    if len(samples) < 40 and c not in wit: samples.append({'case': c, 'path': r['prefix'], 'inputs': r['witness']['inputs'], 'choices': r['witness']['choices'], 'agrees': r['witness']['agrees']}); wit[c] = 1
                    if not r['witness']['agrees']: witness_bad.append((c, r['prefix'], r['witness']['why']))
            if len(viol) >= 12: break
    finally:
        for f in pend: f.cancel()
        procs = list((ex._processes or {}).values())
        for p in procs:
            try: p.kill()
            except Exception: pass
        ex.shutdown(wait=False, cancel_futures=True)
        subprocess.run(['pkill', '-KILL', '-f', work], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    m = meta(harness)
    vac = [c for c in cases if not percase.get(c, {}).get('proved') and not any(v[0] == c for v in viol) and not any(c == k[0] for h in knownhit.values() for k in h)]
    rc = 0
    if out_of_time: und.append(('-', [], '(exploration)', 'time budget exhausted with %d paths open' % len(pend)))
    if vac and not out_of_time and len(viol) == 0: und.append((','.join(vac), [], '(vacuous case)', 'no obligation was reached'))
    for h, w in sorted(knownhit.items()): print('KNOWN-FINDING: property=%s %s: %s (%d obligations)' % (pid, h, known[h], len(w)))
    if viol:
        c, pre, nm, info = viol[0]
        rdir = os.environ.get('VERIF_REPLAY_DIR', os.path.join(tempfile.gettempdir(), 'factorama_replay')); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s_%s.json' % (pid, hashlib.sha1((c + nm + str(pre)).encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'tier': tier, 'case': c, 'obligation': nm, 'inputs': info['inputs'], 'choices': info['choices'], 'observed': info['observed'], 'solver_on_negated_obligation': info['solver'],
                   'others': [(v[0], v[2]) for v in viol[1:]], 'how': 'python3-vt %s/replay.py <this file>' % ROOT}, open(rp, 'w'), indent=1, default=str)
        print('obligation "%s" of case %s fails: observed %s; solver on its negation: %s' % (nm, c, info['observed'], info['solver']))
        for v in viol[1:]: print('also: %s / %s' % (v[0], v[2]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif und:
        # what was decided held; what was not is listed here and in the evidence. No answer at all is an error.
        decided = sum(n for k, n in st['obl'].items() if k.startswith('proved') or k in ('identical', 'concrete', 'repeated', 'known'))
        rc = 2 if not decided or (vac and not out_of_time and any(not percase.get(c, {}).get('undecided') for c in vac)) else 0
        for u in und[:30]: print('UNDECIDED: case=%s path=%s obligation=%s %s' % (u[0], ','.join(map(str, u[1])), u[2], u[3]))
    for w in witness_bad[:10]: print('NOTE: witness disagrees: %s %s %s' % w)
    nob = sum(st['obl'].values())
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
          'coverage': {'states': st['paths'], 'transitions': st['decs'] + st['paths'], 'traces_validated_against_impl': replays, 'samples': samples[:12] or [{'none': True}],
                       'functions_encoded': m['encodes'], 'translation_units': tus, 'bounds': m['bounds'],
                       'cases': percase, 'obligations': nob, 'obligation_verdicts': st['obl'], 'obligations_in_batched_queries': st['batch'],
                       'queries': st['z3'], 'solver_seconds': round(st['z3_s'], 2), 'flips_refuted_by_solver': st['pruned'], 'infeasible_paths': st['infeasible'],
                       'paths_without_sample': st['uncertain'], 'skipped_paths': st['skip'], 'witness_disagreements': len(witness_bad),
                       'undecided': [list(map(str, u)) for u in und[:50]], 'known_findings_hit': {k: len(v) for k, v in knownhit.items()}, 'build_seconds': round(tb, 1),
                       'exhaustive': not und and not viol},
          'assumptions': ['real arithmetic for double; short decimal and pi-multiple constants stand for the real number they abbreviate', 'denominators met on a path are nonzero'] + m['assumes'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not only and not os.environ.get('VERIF_NO_EVIDENCE'): json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d paths, %d obligations %s, z3 %s %.1fs, build %.1fs, total %.1fs' % (pid, st['paths'], nob, st['obl'], st['z3'], st['z3_s'], tb, time.time() - t0))
    return rc

if __name__ == '__main__': main()
