#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the checks present in checks/ and tools/notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    n = notes.get(i, {})
    if os.path.exists(os.path.join(V, 'checks', i + '.py')) and not n.get('na'):
        checks.append(dict(property=i, quick_cmd='cd /verif && ./check %s --tier quick' % i,
                           thorough_cmd='cd /verif && ./check %s --tier thorough' % i,
                           technique=n.get('technique', 'bounded-exhaustive explicit-state exploration of the real code against an independent reference semantics'),
                           level='model_checking', level_note=n.get('note', '')))
    else:
        na.append(dict(property=i, reason=n.get('na') or 'no check has been built for it yet'))
m = dict(version=1, setup_cmd='cd /verif && ./setup.sh', checks=checks, not_applicable=na,
         notes='Every check enumerates a finite space of diagrams / circuits / operation sequences / random outcomes '
               'completely and executes the code in /repo on every element; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not claimed')
