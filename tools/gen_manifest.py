#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/spec.py: every property with explorations is claimed."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'mc'))
import spec
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec.JOBS:
        checks.append(dict(property=i, quick_cmd='python3 mc/run.py %s quick' % i, thorough_cmd='python3 mc/run.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='explicit-state model checking: exhaustive bounded enumeration of operands and operation sequences executed on the real headers, every transition compared with a reference-algebra model',
            level='model_checking', level_note=spec.NOTES.get(i, spec.NOTE)))
    else:
        na.append(dict(property=i, reason=spec.NA.get(i, 'not yet built: the exploration for this property is still to be written')))
m = dict(version=1, setup_cmd='python3 mc/run.py --setup', hooks=dict(guard='GATL_VERIF_HOOKS', enable='no hooks are needed: everything is observed through the public interface; the guard is reserved and unused', source_commits=[]),
    checks=checks, not_applicable=na,
    notes='See DESIGN.md. Fixed defects and known findings are listed in known_findings.txt.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
