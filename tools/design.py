"""Write DESIGN.md from design_head.md, the checks, the findings, the planted
bugs and design_tail.md."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
from levels import LEVELS


def read(*path):
    with open(os.path.join(*path), encoding='utf-8') as f:
        return f.read()


out = [read(HERE, 'design_head.md').rstrip(), '', '## Properties', '']
for p in PROPS:
    pid = p['id']
    out += ['### %s %s' % (pid, p['title']), '', 'Over: %s.' % p['quantifier']['text'].rstrip('.'), '',
            'Beyond the tests: %s' % p['why_tests_cant'], '', 'Oracle: %s.' % LEVELS[pid][0].split('oracle: ')[1], '']
    path = os.path.join(ROOT, 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        out += ['No check yet.', '']
        continue
    t = read(path)
    rule = re.search(r"^RULE = '''(.*?)'''", t, re.S | re.M)
    if rule:
        out += ['Workload and monitor: ' + ' '.join(rule.group(1).split()), '']
    assume = re.search(r"^ASSUMPTIONS = (\[.*?\])$", t, re.S | re.M)
    if assume:
        for a in eval(assume.group(1)):
            out.append('* Assumes: ' + ' '.join(a.split()))
        out.append('')
    cases = re.search(r"^CASES = (\{.*?\})", t, re.S | re.M)
    fixed = re.search(r"^FIXED = \{(.*?)\}\s*$", t, re.S | re.M)
    names = re.findall(r"'([^']+)':", fixed.group(1)) if fixed else []
    if cases:
        c = eval(cases.group(1))
        out += ['Bounds: %d random cases (quick), %d (thorough)%s.' % (
            c['quick'], c['thorough'], ', and the fixed scenarios ' + ', '.join(names) if names else ''), '']
findings = json.loads(read(ROOT, 'known_findings.json'))['findings']
out += ['## Genuine defects found', '',
        'All were repaired in /repo by "fix:" commits and are listed in known_findings.json; '
        'the checks report them again if they return. Open findings: %d.' % sum(f['status'] != 'fixed' for f in findings), '',
        '| property | commit | what failed |', '|---|---|---|']
for f in findings:
    out.append('| %s | %s | %s |' % (f['property'], f.get('commit', 'open'), (f.get('mechanism') or '').replace('|', '\\|')))
out += ['', '## False alarms corrected', '', read(HERE, 'design_alarms.md').rstrip(), '', '## Planted bugs', '',
        'Each was written from the text of a property and the code, and confirmed (tests pass, demo fails) by `tools/seedtest.py`. '
        '"Caught by" is its property\'s quick check with seed 1.', '', '| bug | property | needs | caught |', '|---|---|---|---|']
caught = json.loads(read(HERE, 'caught.json'))
for sid in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.loads(read(ROOT, 'seeded', sid, 'meta.json'))
    out.append('| %s | %s | %s: %s | %s |' % (sid, meta['property'], meta['needs'], meta['what_it_breaks'], caught.get(sid, '?')))
out += ['', read(HERE, 'design_tail.md').rstrip(), '']
with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8') as f:
    f.write('\n'.join(out))
