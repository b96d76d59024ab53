"""Write MANIFEST.json from the table of checks (run by hand after adding a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'harness'))
import check  # noqa: E402

NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
claimed = [p for m in check.MODULES for p in check.MODULES[m]]
checks = []
for p in props:
    if p in claimed:
        n = NOTES[p]
        cmd = '/opt/venv/bin/python -B check.py ' + p
        checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick ' + cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                       'technique': n['technique'], 'level': 'model_checking', 'level_note': n['note']})
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': 'check still being built'} for p in props if p not in claimed],
       'notes': 'TLA+ specifications in spec/, checked with TLC; conformance drivers in harness/. No hooks in /repo.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks;', [x['property'] for x in man['not_applicable']])
