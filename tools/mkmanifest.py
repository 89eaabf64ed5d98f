"""writes MANIFEST.json: one check per property in CLAIMED"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
f = os.path.join(HERE, 'tools', 'na.json')
if os.path.exists(f):
    NA = json.load(open(f))
checks, na = [], []
for p in props:
    i = p['id']
    hasp = os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py'))
    hasr = os.path.exists(os.path.join(HERE, 'real', i.lower() + '.py'))
    if i in NA or not (hasp or hasr):
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': 'contract-based deductive verification: VCs generated from the Python source of /repo, '
                                'discharged by z3/cvc5' + ('' if hasp else ' (no obligation within reach yet: contract '
                                'evaluated on the real code, bounded)'),
                   'level': 'proof' if hasp else 'exploration', 'level_note': 'see DESIGN.md, section ' + i})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
