#!/usr/bin/env python3
"""writes MANIFEST.json from vc/registry.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vc'))
import registry
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    s = registry.PROPS.get(p['id'])
    if not s:
        na.append(dict(property=p['id'], reason=registry.NOT_APPLICABLE.get(p['id'], 'no check built yet'))); continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=s.get('technique', 'contract-based deductive verification of the real C++ (clang AST -> obligations -> Verus/Z3), failed obligations replayed on the sanitised real code'),
                       level=s['level'], level_note=s.get('note', 'Every obligation generated from the current source is discharged for all inputs; trusts the clang AST, the VC generator in vc/, Verus/Z3 and the std:: models listed in the evidence.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed. fix: commits are listed in known-findings.txt.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
