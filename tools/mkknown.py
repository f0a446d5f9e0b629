"""known_findings.json from tools/findings.txt (known entries) and the fix: commits of /repo listed in tools/fixed.txt"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for ln in open(V + '/tools/fixed.txt'):
    ln = ln.strip()
    if ln and not ln.startswith('#'):
        prop, commit, what = ln.split(None, 2)
        out.append(dict(id='fixed-' + commit, property=prop, status='fixed', what='fixed: property=%s %s %s' % (prop, commit, what)))
f = V + '/known.json'
if os.path.exists(V + '/tools/known.json'):
    for k in json.load(open(V + '/tools/known.json')):
        k['status'] = 'known'
        out.append(k)
json.dump(out, open(V + '/known_findings.json', 'w'), indent=1)
