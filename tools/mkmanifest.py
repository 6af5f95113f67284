"""Writes /verif/MANIFEST.json from the contract modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real code (pyvc: VCs from the ASTs of /repo, ring normal form + z3 + cvc5), contracts also evaluated at run time'
BOUNDED = 'contracts evaluated at run time on the real code (bounded stand-in for the deductive check)'
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    has = os.path.exists(os.path.join(V, 'contracts', i.lower() + '.py'))
    checks.append(dict(property=i, quick_cmd=f'bin/check {i}', thorough_cmd=f'bin/check {i} --tier thorough',
                       technique=TECH if has else BOUNDED, level='proof' if has else 'exploration',
                       level_note=NOTES.get(i, 'Contracts evaluated on drawn inputs against the real code; bounded, nothing proved yet.')))
m = dict(version=1, setup_cmd='bin/py -c "import numpy, scipy, sympy, symfit"', checks=checks, not_applicable=[],
         notes='Deductive verifier for the Python subset of symfit in pyvc/, contracts in contracts/, run-time contract checks in native/. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
