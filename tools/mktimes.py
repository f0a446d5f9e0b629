"""order hints for the scheduler, from the last evidence"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'tools', 'times.json')
t = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(V, 'evidence', '*.json')):
    e = json.load(open(f))
    t[e['property']] = {s['scenario']: round(s['wall_s'], 1) for s in e['coverage']['scenarios'] if s['wall_s'] > 3}
json.dump(t, open(p, 'w'), indent=0, sort_keys=True)
