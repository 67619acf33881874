# -*- coding: utf-8 -*-
"""P29: what a process has one of - symbols, the path cache, lazily loaded
modules, the signal - used by many threads at once, each logging."""
import copy
import gc
import os
import pickle
import random
import shutil
import sys
import tempfile
import threading
import time
import types
import weakref

import flatland as fl
import flatland.schema.paths as paths
from flatland.signals import validator_validated
from flatland.util import symbol
from flatland.util.deferred import deferred_module
from flatland.validation import ValueBetween, Present
from fv import gen
from fv.threads import Crew

SHARDS = 3
CASES = {'quick': 330, 'thorough': 6500}
RULE = '''A case starts 2 to 8 threads that together use symbols, paths (the cache below, at and beyond its limit), a generated
package with lazily loaded modules or validation with permanent and passing receivers, in most cases with yields and sleeps injected at random lines
of flatland. What each thread got is compared with what the objects are by construction. Non-trivial: distinct kinds of work, thread counts
and data of runs in which threads interleaved.'''
ASSUMPTIONS = ['blinker, on which the signal rests, is trusted to register receivers of different threads that do not share a function or a sender.',
               'Jython threads run in parallel; what interleavings occur is up to the scheduler and the injected delays, and counted.']
REQUIRE = {'nontrivial': 150, 'threads run': 700, 'switches between threads': 15000, 'interleavings': 160, 'injected delays': 40000,
           'symbols made': 9000, 'paths evaluated': 12000, 'paths beyond the cache limit': 700, 'lazy loads': 1200, 'public names': 35, 'modules executed': 60,
           'signals': 8000, 'connections': 1800, 'runs that interleaved': 150}

SERIAL = [0]


def serial():
    SERIAL[0] += 1
    return '%d_%d' % (os.getpid() if hasattr(os, 'getpid') else 0, SERIAL[0])


def finish(ctx, rng, kind, works, files=('flatland',), density=None):
    crew = Crew(ctx, rng, files, density)
    ctx.log(kind, u'threads', len(works), u'density', crew.density)
    mates = crew.run(works)
    return [m.value(ctx, 'a thread raises') for m in mates]


# ---------------------------------------------------------------- symbols

def symbols(ctx, rng):
    n = rng.choice((2, 4, 6, 8))
    tag = serial()
    names = ['s%s_%d' % (tag, i) for i in range(rng.choice((1, 5, 40)))]

    def work(mate):
        got = {}
        for turn in xrange(3):
            order = list(names)
            mate.rng.shuffle(order)
            for name in order:
                mate.event('symbol')
                s = symbol(name)
                got.setdefault(name, []).append(s)
                k = mate.rng.randrange(6)
                if k == 0:
                    got[name].append(pickle.loads(pickle.dumps(s, mate.rng.randrange(3))))
                elif k == 1:
                    got[name].append(copy.deepcopy(s))
                elif k == 2:
                    try:
                        symbol(u'not a str')
                    except AssertionError:
                        pass
        return got
    results = finish(ctx, rng, 'symbols', [work] * n)
    for name in names:
        first = results[0][name][0]
        for r in results:
            for s in r[name]:
                ctx.count('symbols made')
                ctx.same(s, first, 'one name, two symbols', name)
        ctx.eq(first.name, name, 'a symbol has another name', name)
        ctx.eq(repr(first), name, 'a symbol has another name', name)
        ctx.same(symbol(name), first, 'one name, two symbols', name)
    ctx.nontrivial(('symbols', n, len(names), tag))


# ---------------------------------------------------------------- paths

WIDTH = 24


def tree():
    S = fl.Dict.of(fl.List.named(u'l').of(fl.Dict.of(fl.String.named(u'a'), fl.String.named(u'b.c'))), fl.Dict.named(u'd').of(
        fl.Integer.named(u'i'), fl.List.named(u'm').of(fl.String)))
    return S({u'l': [{u'a': u'a%d' % i, u'b.c': u'c%d' % i} for i in range(WIDTH)],
              u'd': {u'i': 1, u'm': [u'm%d' % i for i in range(WIDTH)]}})


def spelled(rng, n):
    """(path text, how to find what it means) of n random paths."""
    out = []
    for _ in xrange(n):
        k = rng.randrange(7)
        i, j = rng.randrange(WIDTH + 3), rng.randrange(WIDTH + 3)
        step = rng.choice((1, 2, 3))
        pre = rng.choice((u'', u'/', u'./', u'/d/../', u'/l/[%d]/../../' % i))
        if k == 0:
            out.append((pre + u'l[%d:%d:%d]/a' % (i, j, step), ('a', i, j, step)))
        elif k == 1:
            out.append((pre + u'l[%d:%d]/b.c' % (i, j), ('b.c', i, j, 1)))
        elif k == 2:
            out.append((pre + u'l/%d/a' % i, ('a', i, i + 1, 1)))
        elif k == 3:
            out.append((pre + u'd/m[%d:%d:%d]' % (i, j, step), ('m', i, j, step)))
        elif k == 4:
            out.append((pre + u'd/m/%d/../[%d:%d]' % (i, i, j), ('m', i, j, 1)))
        elif k == 5:
            out.append((pre + u'nope%d' % rng.randrange(10 ** 6), ('none', 0, 0, 1)))
        else:
            out.append((pre + u'd/i', ('i', 0, 1, 1)))
    return out


def meant(root, meaning):
    kind, i, j, step = meaning
    if kind == 'none':
        return []
    if kind == 'i':
        return [root[u'd'][u'i']]
    if kind == 'm':
        return list(root[u'd'][u'm'])[i:j:step]
    return [m[unicode(kind)] for m in list(root[u'l'])[i:j:step]]


EVALUATED = set()      # since the cache was emptied


def find_paths(ctx, rng):
    cache = getattr(paths, 'expression_cache', None)
    if isinstance(cache, dict) and rng.random() < .4:
        cache.clear()
        EVALUATED.clear()
    n = rng.choice((2, 4, 6))
    shared = spelled(rng, rng.choice((10, 60)))
    own = [spelled(rng, rng.choice((5, 60))) for _ in range(n)]
    far = rng.random() < .3
    if far:
        extra = spelled(rng, 400)

        def fill(mate):
            root = tree()
            for text, _ in extra:
                EVALUATED.add(text)
                root.find(text, strict=False)
    one = tree() if rng.random() < .3 else None     # reading one tree together

    def work(mate):
        root = one or tree()
        mine = shared * 2 + own[mate.index % n]
        mate.rng.shuffle(mine)
        wrong = []
        count = beyond = 0
        for text, meaning in mine:
            mate.event('find')
            got = root.find(text, strict=False)
            want = meant(root, meaning)
            count += 1
            beyond += len(EVALUATED) > 1024
            EVALUATED.add(text)
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                wrong.append((text, [e.u for e in got], [e.u for e in want]))
        return count, beyond, wrong
    works = [work] * n + ([fill] if far else [])
    for r in finish(ctx, rng, 'paths', works)[:n]:
        count, beyond, wrong = r
        ctx.count('paths evaluated', count)
        ctx.count('paths beyond the cache limit', beyond)
        if wrong:
            ctx.fail('a path selects something else', u'%r selects %r, not %r' % wrong[0])
    ctx.nontrivial(('paths', n, shared[:5]))


# ---------------------------------------------------------------- modules

def write_package(rng, base, name):
    """A package with submodules that import each other downwards; returns
    {submodule: members}."""
    os.mkdir(os.path.join(base, name))
    mods = ['m%d' % i for i in range(rng.choice((1, 2, 4)))]
    members = dict((m, ['%s_v%d' % (m, i) for i in range(rng.choice((1, 3)))]) for m in mods)
    nap = rng.choice((0, .001, .005))
    for i, m in enumerate(mods):
        lines = ['import time, sys', 'RUNS = sys.modules["fvlog_%s"].RUNS' % name, 'RUNS.append(%r)' % m]
        for other in mods[:i]:
            if rng.random() < .5:
                lines.append('from %s.%s import %s' % (name, other, members[other][0]))
            elif rng.random() < .5:
                lines.append('from %s import %s' % (name, members[other][0]))
        if nap:
            lines.append('time.sleep(%r)' % nap)
        for v in members[m]:
            lines.append('class %s(object): pass' % v)
            lines.append('%s.home = %r' % (v, m))
        lines.append('RUNS.append(%r)' % (m + ' done'))
        with open(os.path.join(base, name, m + '.py'), 'w') as f:
            f.write('\n'.join(lines) + '\n')
    with open(os.path.join(base, name, '__init__.py'), 'w') as f:
        f.write('from flatland.util.deferred import deferred_module\n'
                'deferred_module.shadow(%r, %r, __version__="1")\n' % (name, members))
    return members


def modules(ctx, rng):
    base = tempfile.mkdtemp(prefix='fv-p29-')
    name = 'fvpkg%s' % serial().replace('-', '_')
    log = types.ModuleType('fvlog_' + name)
    log.RUNS = []
    sys.modules['fvlog_' + name] = log
    sys.path.insert(0, base)
    try:
        members = write_package(rng, base, name)
        pkg = __import__(name)
        pkg = sys.modules[name]
        flat = [(m, v) for m in sorted(members) for v in members[m]]
        n = rng.choice((2, 4, 6, 8))

        def work(mate):
            got = {}
            order = list(flat)
            mate.rng.shuffle(order)
            for m, v in order * 2:
                mate.event('load')
                k = mate.rng.randrange(5)
                if k == 0:
                    x = getattr(getattr(pkg, m), v)
                elif k == 1:
                    x = getattr(__import__(name + '.' + m, None, None, [v]), v)
                elif k == 2:
                    space = {}
                    exec 'from %s import %s' % (name, v) in space
                    x = space[v]
                else:
                    x = getattr(pkg, v)
                got.setdefault(v, []).append(x)
                if mate.rng.random() < .2:
                    try:
                        pkg.missing
                    except AttributeError:
                        pass
                    else:
                        got['missing'] = ['found']
                if mate.rng.random() < .2:
                    got.setdefault('dir', []).append(set(dir(pkg)) >= set(pkg.__all__))
            return got
        results = finish(ctx, rng, 'modules', [work] * n, ('flatland', name))
        for m, v in flat:
            real = getattr(sys.modules[name + '.' + m], v)
            for r in results:
                for x in r[v]:
                    ctx.count('lazy loads')
                    ctx.same(x, real, 'a lazily loaded name has two values', v)
            ctx.eq(real.home, m, 'a lazily loaded name comes from another module', v)
        for r in results:
            ctx.check('missing' not in r, 'a missing name is found')
            ctx.check(all(r.get('dir', [True])), 'dir() lacks public names')
        ctx.eq(sorted(log.RUNS), sorted(sum(([m, m + ' done'] for m in members), [])), 'a module is executed other than once', u'executions')
        ctx.count('modules executed', len(members))
        ctx.nontrivial(('modules', n, members, name))
    finally:
        sys.path.remove(base)
        for key in [k for k in sys.modules if k == name or k.startswith(name + '.') or k == 'fvlog_' + name]:
            del sys.modules[key]
        shutil.rmtree(base, ignore_errors=True)


def flatland_itself(ctx, rng):
    """flatland loaded anew: threads resolve all its public names."""
    for round_ in range(3):
        kept = dict((k, v) for k, v in sys.modules.items() if k == 'flatland' or k.startswith('flatland.'))
        for k in kept:
            del sys.modules[k]
        try:
            import flatland as fresh
            fresh = sys.modules['flatland']
            ctx.check(fresh is not kept['flatland'], 'harness: flatland was not loaded anew')
            names = [x for x in fresh.__all__]

            def work(mate):
                order = list(names)
                mate.rng.shuffle(order)
                got = {}
                for x in order:
                    mate.event('load')
                    got[x] = getattr(fresh, x)
                util = getattr(fresh, 'util')
                for x in list(util.__all__):
                    got['util.' + x] = getattr(util, x)
                got['use'] = fresh.Dict.of(fresh.String.named(u'a'))({u'a': u'x'}).flatten()
                return got
            results = finish(ctx, rng, 'flatland itself', [work] * 6, density=(0, .0, .02)[round_])
            for x in names:
                owner = [x] if 'flatland.' + x in sys.modules else [m for m in ('schema', 'util', 'exc', 'signals', 'validation') if
                         x in getattr(sys.modules.get('flatland.' + m), '__dict__', {})]
                ctx.check(owner, 'a public name has no owner', x)
                real = sys.modules['flatland.' + owner[0]]
                real = real if x == owner[0] else getattr(real, x)
                for r in results:
                    ctx.count('lazy loads')
                    ctx.same(r[x], real, 'a lazily loaded name has two values', x)
            for r in results:
                ctx.eq(r['use'], [(u'a', u'x')], 'flatland loaded by several threads does not work', u'flatten')
                for x in sorted(r):
                    ctx.same(r[x], results[0][x], 'a lazily loaded name has two values', x) if x != 'use' else None
        finally:
            for k in [k for k in sys.modules if k == 'flatland' or k.startswith('flatland.')]:
                del sys.modules[k]
            sys.modules.update(kept)


# ---------------------------------------------------------------- signals

def signals(ctx, rng):
    """Each thread validates its own elements, told apart by the state."""
    n = rng.choice((2, 3, 4, 6))
    turns = rng.choice((5, 15))
    ANY_RECEIVED = []

    def permanent(sender, element, state, result):
        ANY_RECEIVED.append((sender, element, state, result))
    busy = rng.choice((0, 1, 2))

    def validators(i):
        def yes(element, state):
            return True

        def no(element, state):
            return False
        return [yes, Present(), no][:rng.choice((1, 2, 3))]
    sets = [validators(i) for i in range(n)]
    only = {}
    per_sender = []
    for i in range(n):
        v = sets[i][0]

        def sole(sender, element, state, result, i=i):
            only.setdefault(i, []).append((sender, element, state, result))
        per_sender.append(sole)
    validator_validated.connect(permanent, weak=False)
    for i in range(n):
        validator_validated.connect(per_sender[i], sender=sets[i][0], weak=False)

    def work(mate):
        i = mate.index
        S = fl.Dict.of(fl.String.named(u'a').using(validators=sets[i]), fl.Integer.named(u'b').using(optional=True),
                       fl.String.named(u'c'))
        want, problems, connections = [], [], 0
        for t in xrange(turns):
            el = S({u'a': u'x', u'c': u'' if t % 2 else u'y'})
            state = (i, t)
            heard = []

            def passing(sender, element, state, result):
                heard.append((sender, element, state, result))
            own = mate.rng.random() < .7
            if own:
                connections += 1
                mate.event('connect')
                validator_validated.connect(passing, weak=mate.rng.random() < .5)
            mate.event('validate')
            el.validate(state)
            if own:
                mate.event('disconnect')
                validator_validated.disconnect(passing)
                mine = [h for h in list(heard) if h[2] == state]
                got = [(h[0], h[1]) for h in mine if h[1] is el[u'a']]
                if len(got) != len(sets[i]) or any(a is not b for (a, _), b in zip(got, sets[i])):
                    problems.append(u'a receiver connected throughout heard %r of %r' % (mine, sets[i]))
            want.append((el, state))
        return want, problems, connections

    def churn(mate):
        for t in xrange(turns * 3):
            mate.event('churn')

            def f(sender, element, state, result):
                pass
            validator_validated.connect(f, weak=mate.rng.random() < .5)
            if mate.rng.random() < .8:
                validator_validated.disconnect(f)
            else:
                fs.append(f)
        return [], [], turns * 3
    fs = []
    try:
        results = finish(ctx, rng, 'signals', [work] * n + [churn] * busy)
    finally:
        validator_validated.disconnect(permanent)
        for f in per_sender + fs:
            validator_validated.disconnect(f)
    for want, problems, connections in results:
        ctx.count('connections', connections)
        if problems:
            ctx.fail('a receiver misses or repeats signals', problems[0])
    by_state = {}
    for sender, element, state, result in list(ANY_RECEIVED):
        by_state.setdefault(state, []).append((sender, element, result))
        ctx.count('signals')
    for i, (want, _, _) in enumerate(results[:n]):
        solo = list(only.get(i, ()))
        ctx.eq(len(solo), len(want), 'a receiver misses or repeats signals', u'signals of one sender')
        for (el, state), s in zip(want, solo):
            ctx.check(s[0] is sets[i][0] and s[1] is el[u'a'] and s[2] == state and s[3] is True,
                      'a signal is misattributed', u'%r' % (s,))
        for el, state in want:
            got = by_state.pop(state, [])
            c = el[u'c']
            expected = [(el[u'a'], v, r) for v, r in zip(sets[i], (True, True, False))]
            on_a = [g for g in got if g[1] is el[u'a']]
            ctx.eq(len(on_a), len(expected), 'a receiver misses or repeats signals', u'signals for a')
            for g, (e, v, r) in zip(on_a, expected):
                ctx.check(g[0] is v and g[2] is r, 'a signal is misattributed', u'%r instead of %r' % (g, (v, r)))
            on_c = [g for g in got if g[1] is c]
            ctx.eq([g[2] for g in on_c], [c.u != u''], 'a receiver misses or repeats signals', u'signals for c')
            ctx.check(all(any(g[1] is x for x in (el, el[u'a'], el[u'b'], c)) for g in got), 'a signal is misattributed', u'%r' % (got,))
            ctx.eq(len(got), len(expected) + 2, 'a receiver misses or repeats signals', u'signals in all')
    ctx.eq(list(by_state), [], 'a signal is misattributed', u'states nobody used')
    ctx.nontrivial(('signals', n, turns, busy, [len(v) for v in sets], rng.random()))


def everything(ctx, rng):
    """Threads of different trades at once."""
    tag = serial()
    texts = spelled(rng, 80)

    def a(mate):
        return [symbol('e%s_%d' % (tag, i % 20)) for i in range(200) if mate.event('symbol') is None]

    def b(mate):
        root = tree()
        bad = []
        for text, meaning in texts * 2:
            mate.event('find')
            got, want = root.find(text, strict=False), meant(root, meaning)
            if [id(e) for e in got] != [id(e) for e in want]:
                bad.append(text)
        return bad

    def c(mate):
        heard = []
        state = object()

        def f(sender, element, state, result):
            heard.append(state)
        S = fl.Integer.using(validators=[ValueBetween(minimum=1, maximum=2)])
        validator_validated.connect(f)
        for i in range(30):
            mate.event('validate')
            S(i).validate(state)
        validator_validated.disconnect(f)
        return len([h for h in heard if h is state])
    results = finish(ctx, rng, 'everything', [a, a, b, b, c, c])
    for x, y in zip(results[0], results[1]):
        ctx.same(x, y, 'one name, two symbols')
        ctx.count('symbols made', 2)
    ctx.eq(results[2] + results[3], [], 'a path selects something else', u'paths')
    ctx.count('paths evaluated', 2 * 2 * len(texts))
    ctx.eq(results[4:], [30, 30], 'a receiver misses or repeats signals', u'signals')
    ctx.count('signals', 60)
    ctx.nontrivial(('everything', tag))


def case(ctx, rng):
    rng.choice((symbols, find_paths, find_paths, modules, signals, signals, everything))(ctx, rng)


EXPORTED = {
    'flatland': """AdaptationError Array Boolean Compound Constrained Container Date DateTime DateYYYYMMDD Decimal Dict Element Enum Float Form
        Integer JoinedString List Long Mapping MultiValue Number Properties Ref Scalar Sequence Skip SkipAll SkipAllFalse SparseDict String
        Time Unevaluated Unset Unspecified class_cloner exc schema signals util validation""",
    'flatland.util': """Maybe Unspecified adict as_mapping assignable_class_property assignable_property autodocument_from_superclasses
        class_cloner keyslice_pairs lazy_property luhn10 named_int_factory re_ucompile re_uescape symbol to_pairs""",
}


def public(ctx, rng):
    """What the deferred modules show of themselves."""
    for name in ('flatland', 'flatland.util', None):
        base = None
        if name is None:
            base = tempfile.mkdtemp(prefix='fv-p29-')
            name = 'fvpkg%s' % serial().replace('-', '_')
            log = sys.modules['fvlog_' + name] = types.ModuleType('fvlog_' + name)
            log.RUNS = []
            sys.path.insert(0, base)
            members = write_package(rng, base, name)
            promised = members.keys() + sum((list(v) for v in members.values()), [])
        else:
            promised = EXPORTED[name].split()
        try:
            __import__(name)
            module = sys.modules[name]
            names = list(module.__all__)
            ctx.check(set(promised) <= set(names), 'a public name is missing', lambda: u'%s: %r' % (name, sorted(set(promised) - set(names))))
            ctx.check(isinstance(module, types.ModuleType) and isinstance(module, deferred_module), 'kind of module', name)
            ctx.eq(module.__name__, name, 'name of the module')
            ctx.check(len(set(names)) == len(names) and names, 'a public name occurs twice', name)
            listed = dir(module)
            ctx.check(set(names) <= set(listed) and listed == sorted(set(listed)), 'dir() lists all public names once, in order', name)
            ctx.check(all(hasattr(module, x) for x in listed), 'all names listed are there', name)
            for x in ('nope', '__nope__', '', 'a.b', 'os', 'sys'):
                try:
                    getattr(module, x)
                except AttributeError as exc:
                    ctx.check(x in str(exc) and name in str(exc), 'the error names the module and the attribute', str(exc))
                else:
                    ctx.fail('a missing name is found', x)
            ctx.check(getattr(module, 'nope', 5) == 5 and not hasattr(module, 'nope'), 'missing names have defaults', name)
            space = {}
            exec 'from %s import *' % name in space
            for x in names:
                ctx.count('public names')
                ctx.same(space.get(x), getattr(module, x), 'a public name imported by * is another object', x)
                ctx.same(getattr(module, x), getattr(module, x), 'a lazily loaded name has two values', x)
                if isinstance(space[x], types.ModuleType) and space[x].__name__ == name + '.' + x:
                    ctx.same(space[x], sys.modules[name + '.' + x], 'a submodule is not the one imported', x)
                ctx.check(x in dir(module), 'dir() lists all public names', x)
            try:
                exec 'from %s import nope' % name in {}
            except ImportError:
                pass
            else:
                ctx.fail('a missing name is imported', name)
            ctx.check(os.path.dirname(module.__file__) == module.__path__[0] and os.path.isdir(module.__path__[0]), 'file and path of the module', name)
            if base:
                ctx.eq(module.__version__, '1', 'attributes given to the module')
                ctx.check(module.__doc__ is None, 'doc of the module')
                doc, module.extra = module.__doc__, 7
                ctx.check(module.extra == 7 and 'extra' in dir(module), 'attributes set on the module')
                ctx.eq(sorted(r for r in log.RUNS if r.endswith('done')), sorted(m + ' done' for m in names if isinstance(getattr(module, m), types.ModuleType)), 'a module is executed other than once')
            else:
                ctx.check(bool(module.__doc__), 'doc of the module', name)
        finally:
            if base:
                sys.path.remove(base)
                for key in [k for k in sys.modules if k == name or k.startswith(name + '.') or k == 'fvlog_' + name]:
                    del sys.modules[key]
                shutil.rmtree(base, ignore_errors=True)
    import flatland
    ctx.check(isinstance(flatland.__version__, str) and flatland.__version__, 'flatland has a version')


def bounded(ctx, rng):
    """The memory kept for paths does not grow with every new path."""
    alive = []
    root = tree()
    for i in xrange(6000):
        text = u'l[%d:%d]' % (i % 77, i)
        try:
            alive.append(weakref.ref(paths.pathexpr(text)))
        except TypeError:       # no longer an object to watch
            return
        if i % 3 == 0:
            root.find(text, strict=False)
    for _ in range(4):
        gc.collect()
        time.sleep(.05)
    kept = sum(1 for r in alive if r() is not None)
    ctx.count('paths released', len(alive) - kept)
    ctx.check(kept < 3000, 'every path ever used is kept', u'%d of %d compiled paths are still there' % (kept, len(alive)))


FIXED = {'bounded': bounded, 'flatland itself': flatland_itself, 'public names': public}
