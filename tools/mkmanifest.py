#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vc'))
import registry
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
DEF = ('contract-based deductive verification: verification conditions generated from the compiled intermediate code of the real functions, loops by inferred inductive invariants, '
       'discharged by z3')
checks, na = [], []
for i in props:
    P = registry.PROPS.get(i)
    if P is None:
        na.append(dict(property=i, reason=registry.NA.get(i, 'no check yet: the functions it depends on are not under contract'))); continue
    checks.append(dict(property=i, quick_cmd='python3-vt vc/run.py %s' % i, thorough_cmd='python3-vt vc/run.py %s' % i, evidence_file='evidence/%s.json' % i,
                       technique=P.get('technique', DEF), level=P.get('level', 'proof'), level_note=P['note']))
json.dump(dict(version=1, setup_cmd='python3-vt vc/extract.py', checks=checks, not_applicable=na, notes=registry.NOTES), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
