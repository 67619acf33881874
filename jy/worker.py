# -*- coding: utf-8 -*-
"""Jython worker: run the cases of one shard of one check."""
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))


def main(argv):
    import flatland
    import fv.harness as harness
    repo = os.environ.get('FV_REPO', '/repo')
    origin = os.path.abspath(flatland.__file__)
    if not origin.startswith(os.path.abspath(repo) + '/'):
        sys.stderr.write('flatland comes from %s, not %s\n' % (origin, repo))
        return 2
    if argv[0] == '--probe':
        import blinker
        import genshi
        print 'flatland from %s, genshi %s, %s' % (
            origin, genshi.__version__, sys.version.split('\n')[0])
        return 0

    pid, options = argv[0], dict(zip(argv[1::2], argv[2::2]))
    module = __import__(pid.lower())
    tier = options['--tier']
    ctx = harness.Context(pid, tier, int(options['--seed']))
    only = options.get('--case')
    shard, shards = int(options['--shard']), int(options['--shards'])
    total = int(module.CASES[tier] * float(options['--scale'])) or 1
    out = options['--out']

    def report():
        tmp = out + '.tmp'
        with open(tmp, 'wb') as f:
            f.write(json.dumps(ctx.result(module), default=repr))
        os.rename(tmp, out)

    hang = threading.Thread(target=harness.watch, args=(ctx, report))
    hang.setDaemon(True)
    hang.start()

    # fixed cases first: named scenarios every run goes through
    fixed = sorted(getattr(module, 'FIXED', {}).items())
    for number, (name, fn) in enumerate(fixed):
        label = 'fixed:' + name
        if only is not None and only != label:
            continue
        if only is None and number % shards != shard:
            continue
        if ctx.enough():
            break
        ctx.run(label, fn)
    if only is None or not only.startswith('fixed:'):
        for index in xrange(total):
            if only is not None and str(index) != only:
                continue
            if only is None and index % shards != shard:
                continue
            if ctx.enough():
                break
            ctx.run(index, module.case)
    ctx.finished = True
    report()
    return 0


if __name__ == '__main__':
    try:
        status = main(sys.argv[1:])
    except:
        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(status)
