"""MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
notes = {}
exec(open(R + '/tools/notes.py').read(), notes)
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/symlrvb/harness/%s.py' % (R, i.lower())) and i not in notes['OFF']:
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': notes['TECH'].get(i, notes['TECH_DEFAULT']),
                       'level': 'model_checking', 'level_note': notes['NOTE'].get(i, notes['NOTE_DEFAULT'])})
    else:
        na.append({'property': i, 'reason': notes['OFF'].get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks run the unmodified package. Repairs are listed in known_findings.txt.'},
          open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
