"""Writes MANIFEST.json from the harnesses present."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
notes = json.load(open(H + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/harness/h_%s.py' % (H, i.lower())) and i in notes:
        checks.append(dict(property=i, quick_cmd='bash bin/check %s quick' % i, thorough_cmd='bash bin/check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=notes[i]['technique'], level='model_checking', level_note=notes[i]['note']))
    else:
        na.append(dict(property=i, reason='not built yet'))
m = dict(version=1, setup_cmd='bash bin/setup', checks=checks, not_applicable=na,
         notes='Every check: TLC model-checks a specification under spec/, the harness runs scenarios (from the model and seeded) on the code translated from /repo, TLC validates the recorded traces. No hooks in /repo are needed.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
