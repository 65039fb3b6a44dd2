#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TODO = 'not decided yet: its harness has not been written'
checks = []; na = []
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    h = os.path.join(R, 'harness', i + '.cpp')
    if i == 'B02': h = os.path.join(R, 'lifetime', 'tracer.cpp')
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not os.path.exists(h): na.append({'property': i, 'reason': TODO}); continue
    b = [x.split(':', 1)[1].strip() for x in open(h) if x.startswith('// bounds:')]
    a = [x.split(':', 1)[1].strip() for x in open(h) if x.startswith('// assumes:')]
    note = ('The real sources are executed symbolically path by path, over real numbers; every path within the bounds is explored and every obligation on it is '
            'discharged by Z3 (exact normal forms reduce an obligation to the polynomial identity the solver refutes the negation of), or by the identity of both sides in normal form. '
            'Bounds: ' + '; '.join(b) + '.')
    tech = 'symbolic execution of the real C++ sources with SMT (Z3) discharge of every path obligation'
    if i == 'B02':
        tech = 'bounded model checking with an SMT solver (Z3): histories are symbolic, the transition relation (ownership, accesses, frees of every statement) is extracted from the real bindings and library on every run'
        note = ('The bindings and the library are run under a small interpreter with every allocation on its own pages, which yields what each held name keeps, and what each statement touches and frees; Z3 decides over all histories within the bounds '
                'whether a statement can touch memory that is gone, refutations of single steps by replay are fed back to it, and a counterexample counts only after it is replayed on the real extension module under AddressSanitizer. Bounds: ' + '; '.join(b) + '.')
    if a: note += ' Assumes: ' + '; '.join(a) + '.'
    if i == 'B02': note += ' Trusted: the interpreter (lifetime/tracer.cpp) and engine/pyshim, g++, Z3.'
    else: note += ' Trusted: the scalar-type encoding of the sources (checked on every path by running the plain build on a sample of it), real arithmetic standing for doubles, Eigen executed as it is, g++, Z3.'
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                   'technique': tech, 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the encoding is made from the unmodified sources on every run. known_findings.txt lists the findings and the fix commits.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
