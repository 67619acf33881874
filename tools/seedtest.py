#!/usr/bin/env python3
"""Confirm planted bugs: python3 tools/seedtest.py ID... (default: all)

For each /verif/seeded/ID: applies its patch to a scratch copy of /repo, runs
the tests there, its demo on both trees, and the quick check of its property
on the patched copy (other checks with --all-checks)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0')


def stable():
    with open('/opt/vp/BASELINE.json') as f:
        b = json.load(f)
    return len(b.get('passed', b.get('stable', b)))


def run(cmd, cwd, env, limit=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return -1, 'timeout'


def one(sid, checks=None):
    folder = os.path.join(SEEDED, sid)
    with open(os.path.join(folder, 'meta.json')) as f:
        pid = json.load(f)['property']
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        tree = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', tree])
        rc, out = run(['bash', os.path.join(folder, 'demo.sh')], tree, ENV)
        if rc:
            return sid, pid, 'DEMO FAILS UNPATCHED\n' + out[-600:]
        rc, out = run(['git', 'apply', os.path.join(folder, 'patch.diff')], tree, ENV)
        if rc:
            return sid, pid, 'DOES NOT APPLY ' + out
        mine = blame(tree)
        rc, out = run(['bash', os.path.join(folder, 'demo.sh')], tree, ENV)
        if rc == 0:
            return sid, pid, 'DEMO PASSES PATCHED'
        env = dict(ENV, JYTHONPATH=tree + ':/opt/jylib')
        rc, out = run(['jython', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--disable-warnings', '--tb=line', 'tests'],
                      tree, env)
        tail = out.strip().splitlines()[-1] if out.strip() else ''
        if rc:
            return sid, pid, 'TESTS FAIL: ' + '\n'.join(l for l in out.splitlines() if 'Error' in l or 'FAILED' in l or l == tail)[-500:]
        found = []
        for check in checks or [pid]:
            rc, out = run([sys.executable, 'run.py', check, '--seed', '1'], HERE, dict(ENV, FV_REPO=tree, FV_EVIDENCE=tmp), 900)
            hit = rc == 1 and 'VIOLATION property=%s' % check in out
            if hit:
                found.append(check)
            elif rc not in (0, 1):
                found.append('%s:rc%s' % (check, rc))
        if found:
            return sid, pid, 'caught by ' + ' '.join(found) + mine
        return sid, pid, '--- MISSED' + mine
    finally:
        shutil.rmtree(tmp)


def blame(tree):
    """A note if the patch changes none of the original lines."""
    base = subprocess.check_output(['git', '-C', tree, 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[-1]
    diff = subprocess.check_output(['git', '-C', tree, 'diff', '-U0']).decode('utf-8').splitlines()
    import re
    name, original = None, 0
    for line in diff:
        if line.startswith('--- a/'):
            name = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            start, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                out = subprocess.check_output(['git', '-C', tree, 'blame', '-s', '-l', '-L', '%d,%d' % (start, start + n - 1), 'HEAD', '--', name])
                original += sum(1 for l in out.decode('utf-8').splitlines() if l.lstrip('^').startswith(base[:39]))
    return '' if original else '   (NO ORIGINAL LINE CHANGED)'


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    checks = None
    if '--all-checks' in sys.argv:
        checks = sorted(c[:-3].upper() for c in os.listdir(os.path.join(HERE, 'checks')) if c.endswith('.py'))
    path = os.path.join(HERE, 'tools', 'caught.json')
    with open(path) as f:
        caught = json.load(f)
    ids = args or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(3) as pool:
        for sid, pid, text in pool.map(lambda s: one(s, checks), ids):
            print('%-28s %s %s' % (sid, pid, text), flush=True)
            if not checks:
                caught[sid] = 'yes' if 'caught by ' + pid in text else 'no' if 'MISSED' in text else text.split('\n')[0]
    caught = dict((k, v) for k, v in caught.items() if os.path.isdir(os.path.join(SEEDED, k)))
    with open(path, 'w') as f:
        json.dump(caught, f, indent=1, sort_keys=True)
        f.write('\n')
