# -*- coding: utf-8 -*-
"""P10: validate() against a model, with scripted validators everywhere."""
import flatland as fl
from fv import gen
from fv.valid import World, Boom, V, Skip, SkipAll, SkipAllFalse, Unevaluated

CASES = {'quick': 2600, 'thorough': 80000}
RULE = '''A case draws a tree of depth up to 3 whose schemas (and some single elements) carry 0-3 scripted validators on the way down and
up, optional or not, and validates it 1-5 times from random elements, with and without recursion, random outcomes (true and false values of
several types, Skip, SkipAll, SkipAllFalse, None, exceptions) and random prior valid flags; the call log, states, result and every valid flag are
compared with a model. Non-trivial: distinct (shape, outcome sequence) runs with at least two validator calls.'''
ASSUMPTIONS = ['False results of validators are False, 0, None and SkipAllFalse; other false objects raise TypeError by design (test_base).',
               'Validators do not change the tree or values while it is being validated.']
REQUIRE = {'nontrivial': 2500, 'calls': 12000, 'exceptions': 150, 'skipped subtrees': 800, 'kept valid flags': 1500, 'runs': 5000,
           'not recursive': 500, 'outcome kinds': 12, 'optional and empty': 1500, 'ascents': 4000, 'shared elements': 150}


def same_flag(got, want):
    if want is Unevaluated:
        return got is Unevaluated
    return got is want


def case(ctx, rng):
    w = World(rng)
    ctx.log(w.s)
    if len(w.nodes) > 60:
        return
    for run in xrange(rng.randrange(1, 6)):
        w.schedule()
        if rng.random() < .4:
            for n in w.nodes:
                n.el.valid = w.valid[id(n.el)] = rng.choice((True, False, Unevaluated))
        if rng.random() < .1:
            flag = rng.choice((True, False, Unevaluated))
            w.root.all_valid = flag
            for n in w.nodes:
                w.valid[id(n.el)] = flag
                ctx.check(n.el.valid is flag, 'all_valid')
            if rng.random() < .5:
                n = rng.choice(w.nodes)
                n.el.valid = w.valid[id(n.el)] = rng.choice((True, False, Unevaluated))
        # all_valid of every element follows from the flags below it
        for n in w.nodes:
            below, stack = [], [n]
            while stack:
                below.append(stack[-1].el.valid)
                stack.extend(stack.pop().kids)
            got = n.el.all_valid
            ctx.check(got is all(f is not False for f in below), 'all_valid of every element', lambda: u'%r: %r, all_valid %r' % (n.el, below, got))
            ctx.count('flags of subtrees')
        n = w.top if rng.random() < .6 else rng.choice(w.nodes)
        recurse = rng.random() < .8
        state = rng.choice((None, {}, {u'k': 1}, object(), u'text', [1], 0))
        before = dict(w.valid)
        want_log, want = w.expect(n, recurse)
        del w.log[:], w.states[:]
        how = rng.randrange(3)
        try:
            if not recurse:
                ctx.count('not recursive')
                got = n.el.validate(state, False) if how else n.el.validate(state, recurse=False)
            elif state is None and how == 0:
                got = n.el.validate()
            elif how == 1:
                got = n.el.validate(state=state)
            else:
                got = n.el.validate(state)
        except Boom:
            got = Boom
        what = u'%r from %r recurse=%r' % (w.s, [c.key for c in n.chain], recurse)
        calls = [e[:3] for e in want_log if e[0] == 'call']
        ctx.check(w.log == calls, 'validators called', lambda: u'%s: called %r, expected %r' % (
            what, naming(w, w.log), naming(w, calls)))
        ctx.check(all(st is state for st in w.states), 'state given to a validator', what)
        if want is Boom:
            ctx.count('exceptions')
        ctx.check(got is want, 'result of validate()', lambda: u'%s: %r, expected %r; log %r' % (
            what, got, want, naming(w, want_log)))
        touched = set(e[2] for e in want_log)
        for x in w.nodes:
            flag = w.valid[id(x.el)]
            ctx.check(same_flag(x.el.valid, flag), 'valid flag', lambda: u'%s: %r is %r, expected %r; log %r' % (
                what, [c.key for c in x.chain], x.el.valid, flag, naming(w, want_log)))
            if id(x.el) not in touched and x is not n and before[id(x.el)] is not Unevaluated and flag is before[id(x.el)]:
                ctx.count('kept valid flags')
            if x.el.is_empty and x.el.optional:
                ctx.count('optional and empty')
        ctx.check(w.root.all_valid == all(bool(x.el.valid) for x in w.nodes), 'all_valid', what)
        ctx.count('runs')
        ctx.count('calls', len(calls))
        ctx.count('ascents', sum(1 for e in want_log if e[0] == 'call' and not by_id(w, e[2]).spec.scalar))
        for e in want_log:
            if len(e) > 3:
                ctx.seen('outcome kinds', (repr(e[3])[:12], by_id(w, e[2]).spec.scalar))
                if e[3] is SkipAll or e[3] is SkipAllFalse:
                    ctx.count('skipped subtrees')
        if len(calls) >= 2:
            ctx.nontrivial((repr(w.s), naming(w, want_log)))
    ctx.sample(u'%r: %r' % (w.s, naming(w, want_log)))


def shared(ctx, rng):
    """Elements that are members more than once are visited once."""
    for turn in range(400):
        log = []

        def named(tag, leaf=None):
            def validator(element, state):
                log.append((tag, id(element)))
                return not (leaf and element.value in bad)
            return validator
        bad = set(rng.sample(u'abcdef', rng.choice((0, 0, 1, 2))))
        String = fl.String.named(u's').validated_by(named('first', True), named('second'))
        made = [String(c) for c in rng.sample(u'abcdef', rng.randrange(1, 5))]
        kind = rng.choice((fl.Array, fl.List, fl.MultiValue, fl.List, fl.Array))
        Inner = kind.named(u'i').of(String).validated_by(named('up')).descent_validated_by(named('down'))
        if kind is fl.MultiValue and rng.random() < .5:
            Inner = fl.Array.named(u'i').of(String).validated_by(named('up')).descent_validated_by(named('down'))
        Outer = fl.List.named(u'o').of(Inner).validated_by(named('up')).descent_validated_by(named('down'))
        outer = Outer()
        inners = [Inner() for _ in range(rng.randrange(1, 4))]
        for i in inners:
            for _ in range(rng.randrange(1, 6)):
                i.append(rng.choice(made))
        for _ in range(rng.randrange(1, 5)):
            outer.append(rng.choice(inners))
        level1, level2 = [], []
        for i in outer:
            if not any(i is x for x in level1):
                level1.append(i)
        for i in level1:
            for m in i:
                if not any(m is x for x in level2):
                    level2.append(m)
        want = [('down', id(x)) for x in [outer] + level1]
        fine = lambda m: m.value not in bad  # noqa
        for m in level2:
            want.append(('first', id(m)))
            if fine(m):
                want.append(('second', id(m)))
        want += [('up', id(x)) for x in reversed([outer] + level1)]
        got = outer.validate()
        ctx.check(log == want, 'shared elements are visited once per phase', lambda: u'%r: %d calls, expected %d' % (outer, len(log), len(want)))
        ctx.check(got is all(fine(m) for m in level2), 'result with shared elements', lambda: repr(outer))
        ctx.check(all(m.valid is fine(m) for m in level2), 'flags of shared elements', lambda: repr(outer))
        if len(level2) < sum(len(i) for i in outer):
            ctx.count('shared elements')


def by_id(w, i):
    for n in w.nodes:
        if id(n.el) == i:
            return n


def naming(w, log):
    return [(e[0], e[1], u'/'.join(c.key or u'' for c in by_id(w, e[2]).chain)) + tuple(
        repr(x)[:12] for x in e[3:]) for e in log]


def defaults(ctx, rng):
    """Elements without validators; the documented examples."""
    S = fl.String
    ctx.same(S().validate(), False, 'an empty element without validators')
    ctx.same(S(u'x').validate(), True, 'an element without validators')
    ctx.same(S.using(optional=True)().validate(), True, 'an optional element')
    ctx.same(fl.List.of(S)().validate(), False, 'an empty list')
    ctx.same(fl.List.of(S)([u'a']).validate(), True, 'a list')
    ctx.same(fl.List.of(S)([u'']).validate(), False, 'a list with an empty member')
    ctx.same(fl.Dict.of(S.named(u's'))().validate(), False, 'a dict with an empty field')
    ctx.same(fl.SparseDict.of(S.named(u's'))().validate(), False, 'an empty sparse dict')
    ctx.same(fl.SparseDict.of(S.named(u's')).using(optional=True)().validate(), True, 'an empty optional sparse dict')
    ctx.same(fl.Integer(u'x').validate(), True, 'text that did not adapt is not empty')
    ctx.same(S().valid, Unevaluated, 'a new element')
    d = fl.Dict.of(fl.Integer.named(u'x'), fl.Integer.named(u'y'), fl.Integer.named(u'z').using(optional=True))(dict(x=1))
    ctx.same(d.validate(), False, 'documented')
    ctx.eq([d.valid, d[u'x'].valid, d[u'y'].valid, d[u'z'].valid], [True, True, False, True], 'documented')
    # set() and friends leave flags to validate()
    log = []

    def down(el, state):
        log.append(('down', el.name))
        return True

    def up(el, state):
        log.append(('up', el.name))
        return True
    T = fl.Dict.named(u'r').of(
        fl.Dict.named(u'a').of(S.named(u'x').validated_by(down), fl.Dict.named(u'b').of(S.named(u'y').validated_by(down)).
                               descent_validated_by(down).validated_by(up)).descent_validated_by(down).validated_by(up),
        ).descent_validated_by(down).validated_by(up)
    ctx.same(T().validate(), True, 'phases')
    flat = [n for _, n in log]
    ctx.eq(log[:2], [('down', u'r'), ('down', u'a')], 'phases')
    ctx.eq(sorted(log[2:4]), [('down', u'b'), ('down', u'x')], 'phases')
    ctx.eq(log[4:], [('down', u'y'), ('up', u'b'), ('up', u'a'), ('up', u'r')], 'phases')
    # any kind of callable is a validator
    class Obj(object):
        def meth(self, element, state):
            log.append(('meth', element, state))
            return True
    o = Obj()
    el = S.using(validators=[o.meth, lambda e, s: True, V.__call__.__get__(V(Fake(log), 0), V)])(u'x')
    st = object()
    ctx.same(el.validate(st), True, 'callables')
    ctx.check(log[-2][1] is el and log[-2][2] is st, 'callables')


class Fake(object):
    def __init__(self, log):
        self.log, self.states = log, []

    @property
    def plan(self):
        class Always(dict):
            def __getitem__(self, key):
                return True
        return Always()


def deep(ctx, rng):
    """Validation of trees of any depth and width visits each element twice."""
    for depth in (12, 33, 64, 65, 100, 129):
        root, line = gen.chain(rng, depth)
        line[-1][1].set(u'x')
        chain = [root] + [e for _, e in line]
        for bad in (None, 0, depth // 2, depth - 1, depth):
            log = []

            def down(element, state):
                log.append(('down', id(element)))
                return True

            def up(element, state):
                log.append(('up', id(element)))
                return not (bad is not None and element is chain[bad])
            for e in chain:
                e.validators = [up]
                if e is not chain[-1]:
                    e.descent_validators = [down]
            for e in root.all_children:
                e.optional = True
            got = root.validate()
            want = [('down', id(e)) for e in chain[:-1]] + [('up', id(e)) for e in reversed(chain)]
            ctx.check([c for c in log if c[1] in set(map(id, chain))] == want, 'visits of a deep tree', lambda: repr((depth, len(log), len(want))))
            ctx.check(got is (bad is None), 'result of a deep tree', repr((depth, bad, got)))
            ctx.check([e.valid for e in chain] == [i != bad for i in xrange(len(chain))], 'valid flags of a deep tree', repr((depth, bad)))
            ctx.count('deep trees')
    for n in (100, 1023, 1025, 3000):
        el = fl.List.of(fl.Integer).of(fl.Integer.validated_by(lambda e, s: s.append(e.value) or e.value != n - 1))(range(n))
        seen = []
        ctx.check(el.validate(seen) is False and sorted(seen) == range(n), 'validation of many members', n)
        ctx.check([m.valid for m in el] == [True] * (n - 1) + [False], 'valid flags of many members', n)


def phases(ctx, rng):
    """Schemas may say which of their validators run on the way down and up."""
    outcomes = (True, False, None, Skip, SkipAll, SkipAllFalse)
    for down in (None, 'first', 'nothing'):
        for up in (None, 'second', 'nothing', 'first'):
            for a in outcomes:
                for b in outcomes:
                    log = []

                    def note(which, out):
                        def fn(element, state):
                            log.append((which, element, state))
                            return out
                        return fn

                    class S(fl.String):
                        validates_down, validates_up = down, up
                        first, second = [note('first', a)], [note('second', b)]
                    for shape in (0, 1):
                        el = S(u'x') if shape == 0 else fl.List.of(S)([u'x']) if shape == 1 else None
                        target = el if shape == 0 else el[0]
                        del log[:]
                        state = object()
                        got = el.validate(state)
                        ran = [{'first': 'first', 'second': 'second'}[n] for n in (down, up) if n in ('first', 'second')]
                        ctx.check([w for w, e, s in log] == ran and all(e is target and s is state for _, e, s in log), 'validators of the phases',
                                  lambda: u'%r %r: %r' % (down, up, log))
                        good = (True, Skip, SkipAll)
                        result = {'first': a in good, 'second': b in good, 'nothing': True}
                        outs = [result[n] for n in (down, up) if n]
                        ctx.check(got is all(outs), 'result of the phases', lambda: repr((down, up, a, b, got)))
                        if outs:
                            ctx.check(target.valid is all(outs), 'valid flag of the phases', lambda: repr((down, up, a, b, target.valid)))
                        ctx.count('phases')


FIXED = {'phases': phases, 'deep': deep, 'defaults': defaults, 'shared': shared}
