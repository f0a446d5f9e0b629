"""writes MANIFEST.json: a check for every property whose contracts module exists"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc.check import CONTRACTS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
T = 'contract-based deductive verification of the real Python source: symbolic execution of /repo code against contracts, obligations discharged by normal form/polynomial identity testing and z3'
LN = json.load(open(V + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if all(os.path.exists('%s/contracts/%s.py' % (V, m)) for m in CONTRACTS[i]) and i in LN:
        lv, note = LN[i]
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i, technique=T, level=lv, level_note=note))
    else:
        na.append(dict(property=i, reason='no contract written yet'))
json.dump(dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
