#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the registered checks."""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sg'))
sys.path.insert(0, os.path.join(HERE, 'sg', 'props'))
import base
for f in sorted(glob.glob(os.path.join(HERE, 'sg', 'props', '*.py'))):
    importlib.import_module(os.path.basename(f)[:-3])

NA = {
    'C47': 'The claim is about the contents of data files shipped beside the program (rank and weight of binary matrices), '
           'not about program text; deciding it means computing on the data, which is outside static analysis of the source.',
    'C48': 'Termination of every run under every fair schedule needs a liveness argument over the joint behaviour of n '
           'processes; static analysis of one program text does not decide it. The per-party causes (lost waiters, '
           'unflushed or unjoined work, missing barriers) are checked under C17 to C20, C41 and C45.',
}
TECH = {}
ps = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in ps:
    i = p['id']
    if i in base.PROPS and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': base.TECH.get(i, 'dataflow summaries of the type-checked program (value numbering with '
                                                     'algebraic normal forms) compared with specification terms'),
                       'level': 'other',
                       'level_note': base.NOTE.get(i, 'Static analysis: equal normal forms hold for every input; a differing '
                                     'summary is reported only with a valuation of the two terms that separates them; what '
                                     'the analysis cannot follow is reported as undecided in the evidence.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 sg/dump.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks analyse the type-checked source of /repo as it is at the time of the run; none executes it.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
