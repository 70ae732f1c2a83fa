"""MANIFEST.json from contracts/props.py"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from contracts import props
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    P = props.PROPS.get(i)
    if P is None or P.get('off'):
        na.append(dict(property=i, reason=props.NA.get(i, 'contracts of the functions involved are not written yet')))
        continue
    checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {i}',
        technique='contract-based deductive verification: function contracts, loop and data invariants on the clang AST of the real code, obligations discharged by z3/cvc5; failing obligations are backed by a search on the real code',
        level=P.get('level', 'proof'), level_note=P.get('note', props.NOTE)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
