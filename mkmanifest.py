#!/usr/bin/env python3
"""writes MANIFEST.json from gv/plan.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from gv.plan import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {'C22': 'signal-to-noise ratio and bandwidth are statements about the spectrum of the coefficient tables over all band-limited inputs (real analysis of 10^4-10^5 floating point constants); no contract within reach of a deductive verifier expresses or decides them. The algorithmic half (right taps, right coefficients, right positions) is C16, C20 and C21.'}
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=p.get('technique', 'contract-based deductive verification of the goto program of /repo/src (VC generation + SMT), failing inputs replayed on the sanitized real code'),
            level=p['level'], level_note=p.get('note', 'Every obligation generated from the current sources is discharged for all inputs and iterations; see DESIGN.md for trusted parts. A bounded run of the real code supplies failing inputs and is not counted as proof.')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
