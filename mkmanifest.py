#!/usr/bin/env python3
"""regenerates MANIFEST.json from parts.py (run by hand after adding a check)"""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True; sys.path.insert(0, '.')
import parts as P
T = P.MANIFEST_TEXT; ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
M = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[], notes='All checks are dynamic bounded-exhaustive explorations of the real code built from /repo; no hooks in /repo are needed, so there is no guard.')
for i in ids:
    if i in P.CHECKS:
        M['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique=T[i][0], level=P.CHECKS[i]['level'], level_note=T[i][1]))
    else: M['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(M, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
