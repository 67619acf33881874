#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and the checks that
exist in /verif/checks."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props import PROPS            # noqa: E402
from levels import LEVELS, NOT_APPLICABLE    # noqa: E402

with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

checks = []
missing = list(NOT_APPLICABLE)
for p in PROPS:
    pid = p['id']
    if os.path.exists(os.path.join(root, 'checks', pid.lower() + '.py')):
        technique, note = LEVELS[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 run.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': technique,
            'level': 'exploration',
            'level_note': note,
        })
    else:
        missing.append({'property': pid,
                        'reason': 'check not built yet'})
manifest = {
    'version': 1,
    'setup_cmd': 'python3 run.py --setup',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: every monitor observes the public API, '
             'wrapped callables and signals. See DESIGN.md.',
}
with open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not applicable')
