#!/usr/bin/env python3
"""Run one property's check: python3 run.py P01 [--tier quick|thorough].

Starts Jython workers that run the real flatland from /repo under the
workloads of checks/<id>.py, merges what their monitors observed, writes
evidence/<id>.json and decides:

  exit 0  the property held on everything observed
  exit 1  violated, with a VIOLATION line per distinct mechanism
  exit 2  no answer: the harness failed or the monitors saw too little
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FV_REPO', '/repo')
JYLIB = '/opt/jylib'
QUICK_LIMIT = 780
THOROUGH_LIMIT = 6000


def environment(heap='1200m'):
    env = dict(os.environ)
    env.update(LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
               JYTHONPATH='%s:%s' % (REPO, JYLIB), FV_REPO=REPO,
               JDK_JAVA_OPTIONS='-Xmx%s -XX:+UseSerialGC -Xss4m -XX:TieredStopAtLevel=1' % heap)
    env.pop('PYTHONPATH', None)
    return env


def worker_cmd(args):
    return ['jython', '-B', os.path.join(ROOT, 'jy', 'worker.py')] + args


def module_settings(pid):
    """SHARDS etc. are plain literals at the top of the check module."""
    settings = {'SHARDS': 7, 'HEAP': '1200m'}
    path = os.path.join(ROOT, 'checks', pid.lower() + '.py')
    with open(path, encoding='utf-8') as f:
        for line in f:
            for key in settings:
                if line.startswith(key + ' = '):
                    settings[key] = eval(line.split('=', 1)[1], {})
    return settings


def load_known():
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as f:
        return json.load(f)['findings']


def run_workers(pid, tier, seed, case, scale, limit):
    settings = module_settings(pid)
    shards = 1 if case is not None else settings['SHARDS']
    scratch = tempfile.mkdtemp(prefix='fv-%s-' % pid)
    procs = []
    try:
        for shard in range(shards):
            out = os.path.join(scratch, 'out%d.json' % shard)
            args = [pid, '--tier', tier, '--seed', str(seed),
                    '--shard', str(shard), '--shards', str(shards),
                    '--out', out, '--scale', str(scale)]
            if case is not None:
                args += ['--case', str(case)]
            err = open(os.path.join(scratch, 'err%d' % shard), 'wb')
            procs.append((subprocess.Popen(
                worker_cmd(args), env=environment(settings['HEAP']),
                cwd=scratch, stdout=err, stderr=subprocess.STDOUT,
                stdin=subprocess.DEVNULL, start_new_session=True),
                out, err))
        deadline = time.time() + limit
        results, problems = [], []
        for shard, (proc, out, err) in enumerate(procs):
            try:
                proc.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                problems.append('worker %d ran out of time' % shard)
                try:
                    os.killpg(proc.pid, 9)
                except OSError:
                    pass
                proc.wait()
            err.close()
            if os.path.exists(out):
                with open(out, encoding='utf-8') as f:
                    results.append(json.load(f))
            else:
                with open(err.name, 'rb') as f:
                    tail = f.read()[-3000:].decode('utf-8', 'replace')
                problems.append('worker %d (exit %r) gave no result:\n%s' % (
                    shard, proc.returncode, tail))
        return results, problems
    finally:
        for proc, _, _ in procs:
            if proc.poll() is None:
                try:
                    os.killpg(proc.pid, 9)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)


def merge(results):
    total = {'evaluations': 0, 'counters': {}, 'distinct': {}, 'samples': [],
             'violations': [], 'rule': '', 'assumptions': [], 'require': {},
             'harness_errors': []}
    sets = {}
    for r in results:
        total['evaluations'] += r['evaluations']
        total['rule'] = r['rule']
        total['assumptions'] = r['assumptions']
        total['require'] = r['require']
        total['harness_errors'] += r.get('harness_errors', [])
        for k, v in r['counters'].items():
            total['counters'][k] = total['counters'].get(k, 0) + v
        for k, v in r['distinct'].items():
            sets.setdefault(k, set()).update(v)
        total['violations'] += r['violations']
    for i in range(5):
        for r in results:
            if len(r['samples']) > i and len(total['samples']) < 8:
                total['samples'].append(r['samples'][i])
    total['distinct'] = dict((k, len(v)) for k, v in sorted(sets.items()))
    total['violations'].sort(key=lambda v: v['case'])
    return total


def check(pid, tier, seed, case=None, scale=1.0):
    start = time.time()
    limit = QUICK_LIMIT if tier == 'quick' else THOROUGH_LIMIT
    results, problems = run_workers(pid, tier, seed, case, scale, limit)
    total = merge(results)

    evidence_dir = os.environ.get('FV_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(evidence_dir, exist_ok=True)
    known = dict((f['mechanism'], f) for f in load_known()
                 if f['property'] == pid and f.get('status') == 'known')
    new, seen_known = {}, {}
    for v in total['violations']:
        if v['mechanism'] in known:
            seen_known.setdefault(v['mechanism'], v)
        else:
            new.setdefault(v['mechanism'], v)

    if case is None:
        distinct = dict(total['distinct'])
        evidence = {
            'property': pid, 'tier': tier, 'seed': seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': total['evaluations'],
                'distinct_nontrivial': distinct.pop('nontrivial', 0),
                'rule': total['rule'],
                'samples': total['samples'],
                'observed': dict(sorted(total['counters'].items())),
                'distinct_by_category': distinct,
                'workers': len(results),
            },
            'assumptions': total['assumptions'],
            'wall_s': round(time.time() - start, 2),
            'violations': len(new),
        }
        with open(os.path.join(evidence_dir, pid + '.json'), 'w',
                  encoding='utf-8') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write('\n')

    for mechanism in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (
            pid, known[mechanism]['what']))
    if new:
        replay_dir = os.path.join(evidence_dir, 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        if case is None:
            for old in glob.glob(os.path.join(replay_dir, pid + '-*.json')):
                os.unlink(old)
        for n, mechanism in enumerate(sorted(new)[:8]):
            v = new[mechanism]
            path = os.path.join(replay_dir, '%s-%d.json' % (pid, n))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': pid, 'tier': tier, 'seed': seed,
                           'case': v['case'], 'mechanism': mechanism,
                           'message': v['message'], 'trace': v['trace']},
                          f, indent=1, ensure_ascii=False)
                f.write('\n')
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  case %s: %s: %s' % (
                v['case'], mechanism, v['message'][:600]))
        return 1
    if problems or total['harness_errors']:
        for p in (problems + total['harness_errors'])[:5]:
            print('ERROR: %s' % p)
        return 2
    if case is None:
        short = []
        for name, least in sorted(total['require'].items()):
            have = total['counters'].get(name, total['distinct'].get(name, 0))
            if have < least * min(scale, 1):
                short.append('%s: %d observed, %d needed' % (name, have, least))
        if short:
            print('INCONCLUSIVE: monitors saw too little: ' + '; '.join(short))
            return 2
    print('%s %s: held on %d cases (%d distinct), %.1fs' % (
        pid, tier, total['evaluations'],
        total['distinct'].get('nontrivial', 0), time.time() - start))
    return 0


def setup():
    """Nothing to compile: check that the tools the workers need are here."""
    probe = subprocess.run(worker_cmd(['--probe']), env=environment(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           cwd=ROOT)
    sys.stdout.write(probe.stdout.decode('utf-8', 'replace'))
    return 0 if probe.returncode == 0 else 2


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER')
                        or 'quick', choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--case', help='run only this case')
    parser.add_argument('--replay', help='run the case of a replay file')
    parser.add_argument('--scale', type=float, default=1.0)
    parser.add_argument('--setup', action='store_true')
    options = parser.parse_args()
    if options.setup:
        return setup()
    pid, tier, seed, case = (options.property, options.tier, options.seed,
                             options.case)
    if options.replay:
        with open(options.replay, encoding='utf-8') as f:
            replay = json.load(f)
        pid, tier, seed, case = (replay['property'], replay['tier'],
                                 replay['seed'], replay['case'])
    return check(pid, tier, seed, case, options.scale)


if __name__ == '__main__':
    sys.exit(main())
