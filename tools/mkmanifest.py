"""Writes /verif/MANIFEST.json from vf/meta.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vf import meta
ids = [json.loads(l)['id'] for l in open(f'{R}/properties.jsonl')]
checks = []
for i in ids:
    if i not in meta.PROPS:
        continue
    m = meta.PROPS[i]
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                       technique=m.get('technique', 'property-based testing (Hypothesis) against an independent reference'), level='exploration',
                       level_note=m['rule'] + ' Assumptions: ' + '; '.join(m.get('assumptions', [])) + '.'))
na = [dict(property=i, reason=meta.NA[i]) for i in ids if i not in meta.PROPS]
json.dump(dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na,
               notes='No hooks: the checks import HGQ from /repo/src as it is. Repairs are "fix:" commits, listed in known_findings.jsonl.'), open(f'{R}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
