"""Writes MANIFEST.json from the property modules present in sim/props."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
checks, na = [], []
for r in rows:
    pid = r['id']
    if os.path.exists(os.path.join(HERE, 'sim', 'props', pid.lower() + '.py')):
        level, note = NOTES['levels'][pid]
        checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid, thorough_cmd='./check %s thorough' % pid,
                           evidence_file='/verif/evidence/%s.json' % pid,
                           technique='deterministic simulation with fault injection: ' + NOTES['technique'][pid],
                           level=level, level_note=note))
    else:
        na.append(dict(property=pid, reason=NOTES['na'].get(pid, 'check not built yet')))
out = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='', enable='', source_commits=[]),
           checks=checks, not_applicable=na, notes=NOTES['notes'])
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
