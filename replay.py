#!/usr/bin/env python3-vt
"""replay.py FILE: runs a reported counterexample on the plain build of the current tree and prints what it observes.
Exit 1 if the obligation fails there (the violation is present), 0 if it holds."""
import os, sys, json, shutil, tempfile
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import build as B
import explore as X

def main():
    r = json.load(open(sys.argv[1]))
    work = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        _, real, _ = B.build(os.path.join(ROOT, 'harness', r['property'] + '.cpp'), os.environ.get('VERIF_REPO', '/repo'), work, r.get('tier') == 'thorough')
        X.G.update({'work': work, 'real': real, 'n': 0})
        obs = X.run_real(r['case'], r['inputs'], r['choices'])
    finally: shutil.rmtree(work, ignore_errors=True)
    print('property %s, case %s, ended: %s' % (r['property'], r['case'], obs['end']))
    for k, v in sorted(r['inputs'].items()): print('  input  %-28s %.17g' % (k, v))
    for k, v in sorted(r['choices'].items()): print('  choice %-28s %s' % (k[7:], v))
    bad = obs['end'] is None or obs['end'] in ('crash', 'exception')
    for nm, l in obs['obl'].items():
        for k, a, b in l:
            w = X.mismatch(nm, k, a, b)
            if w > 0 or nm == r['obligation']: print('  %s %-40s %s %.12g %.12g' % ('FAILS' if w > 0 else 'holds', nm, k, a, b))
            bad |= w > 0
    sys.exit(1 if bad else 0)
main()
