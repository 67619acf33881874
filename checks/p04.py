# -*- coding: utf-8 -*-
"""P04: indexes named by flat data, list bounds, pruning and order."""
import sys

import flatland as fl
from fv import gen, flat

CASES = {'quick': 4500, 'thorough': 120000}
RULE = '''A case draws a list schema (nested up to three levels, both prune modes, any maximum), a multiset of indexes
(dense, sparse, huge, duplicated, leading zeros, shuffled, with blank values), loads it into a new or used list, and compares
members, order, names and construction counts with the model. Non-trivial: distinct (schema, pairs) with two indexes or more.'''
ASSUMPTIONS = ['Work is measured in traced lines and elements constructed.']
REQUIRE = {'loads': 3000, 'nontrivial': 2500, 'members checked': 6000, 'capped loads': 400, 'nested members': 1000, 'work measured': 20}


def member_spec(rng, depth):
    k = rng.randrange(6)
    if depth and k < 2:
        return list_spec(rng, depth - 1, rng.choice((None, u'in')))
    if k == 2:
        return gen.Spec('Dict', rng.choice((None, u'd')), [gen.Spec('String', u'a'), gen.Spec('Integer', u'b')] + (
            [list_spec(rng, depth - 1, u'c')] if depth else []))
    if k == 3:
        return gen.Spec('Array', rng.choice((None, u'arr')), [gen.Spec('String')])
    return gen.Spec(rng.choice(('String', 'Integer')), rng.choice((None, u'x')))


def list_spec(rng, depth, name):
    o = {'maximum_set_flat_members': rng.choice((0, 1, 2, 3, 5, 8, 20))}
    if rng.random() < .45:
        o['prune_empty'] = False
    elif rng.random() < .4:
        del o['maximum_set_flat_members']
    return gen.Spec('List', name, [member_spec(rng, depth)], **o)


def an_index(rng, base):
    k = rng.randrange(14)
    if k < 6:
        n = rng.randrange(0, 6)
    elif k < 9:
        n = rng.randrange(0, 30)
    elif k == 9:
        n = rng.choice((1023, 1024, 1025, 2 ** 31 - 1, 2 ** 31, 2 ** 63, 10 ** 30, 100, 99, 10, 11))
    else:
        n = base + rng.randrange(0, 4)
    t = unicode(n)
    if rng.random() < .06:
        t = u'0' * rng.randrange(1, 3) + t
    return t


def addresses(rng, s, prefix, sep):
    """A random scalar address below *s* (may be slightly wrong)."""
    path = prefix + ([s.name] if s.name is not None else [])
    if s.kind == 'List':
        return addresses(rng, s.member, path + [an_index(rng, s.base)], sep)
    if s.mapping:
        return addresses(rng, rng.choice(s.kids), path, sep)
    if s.kind == 'Array':
        return addresses(rng, s.member, path, sep)
    return sep.join(path)


class Budget(Exception):
    pass


def names(ctx, el, s, prefix, sep):
    """Flattened names follow the positions."""
    path = prefix + ([s.name] if s.name is not None else [])
    if s.kind == 'List':
        for i, m in enumerate(el):
            ctx.count('members checked')
            if prefix:
                ctx.count('nested members')
            names(ctx, m, s.member, path + [unicode(i)], sep)
    elif s.mapping:
        for kid in s.kids:
            names(ctx, el[kid.name], kid, path, sep)
    else:
        ctx.check(el.flattened_name(sep) == sep.join(path), 'name does not follow the position',
                  lambda: u'%r, expected %r' % (el.flattened_name(sep), sep.join(path)))


def case(ctx, rng):
    sep = rng.choice(gen.SEPARATORS)
    s = list_spec(rng, rng.choice((0, 0, 1, 1, 2)), rng.choice((None, u'l', u'l*')) if sep != u'*' else u'l')
    for sub in s.walk():
        sub.base = rng.choice((0, 3, 50, 500))
    if rng.random() < .15:
        s = gen.Spec('Form', None, [gen.Spec('String', u'z'), s]) if s.name else s
    el = s.cls()
    if rng.random() < .5:
        el.set(gen.good_value(rng, s))
        ctx.count('used elements')
    for _ in xrange(rng.choice((1, 1, 2))):
        pairs = []
        for _ in xrange(rng.choice((1, 3, 6, 12, 30))):
            pairs.append((addresses(rng, s, [], sep), rng.choice((u'', u'v%d' % len(pairs), unicode(len(pairs))))))
        ctx.log(s, sep, pairs)
        before = flat.capture(el, s)
        stats = {}
        want = flat.load(s, before, pairs, sep, stats)
        el.set_flat(pairs, sep)
        got = flat.capture(el, s)
        d = flat.diff(got, want)
        ctx.check(d is None, 'list state after set_flat()', lambda: u'%r sep %r, %r: got / expected %s' % (
            s, sep, pairs, d))
        for e, sp in gen.pairs_of(el, s):
            if sp.kind == 'List' and s.kind == 'List':
                most = sp.opts.get('maximum_set_flat_members', 1024)
                ctx.check(len(e) <= most, 'more members than the maximum',
                          lambda: u'%r: %d' % (sp, len(e)))
                if len(e) == most:
                    ctx.count('capped loads')
        names(ctx, el, s, [], sep)
        ctx.count('loads')
        if len(pairs) > 1:
            ctx.nontrivial((repr(s), tuple(pairs)))
        ctx.sample(u'%r sep %r: %s' % (s, sep, repr(pairs)[:300]))


def measured(fn, limit):
    """Lines executed by fn, at most limit."""
    count = [0]

    def trace(frame, event, arg):
        count[0] += 1
        if count[0] > limit:
            raise Budget(count[0])
        return trace
    sys.settrace(trace)
    try:
        fn()
    finally:
        sys.settrace(None)
    return count[0]


def bounded_work(ctx, rng):
    """Indexes of any size cost no more than small ones."""
    made = [0]

    class Counted(fl.String):
        def __init__(self, *a, **kw):
            made[0] += 1
            fl.String.__init__(self, *a, **kw)
    for most in (4, 64):
        for prune in (True, False):
            for nested in (False, True):
                L = fl.List.named(u'l').of(Counted).using(prune_empty=prune, maximum_set_flat_members=most)
                if nested:
                    L = fl.List.named(u'o').of(L).using(prune_empty=prune, maximum_set_flat_members=most)
                key = (u'o_%d_l_%d' if nested else u'l_%d')

                def load(high):
                    at = (high, high) if nested else (high,)
                    pairs = [(key % ((0, 0) if nested else 0), u'x'), (key % at, u'y')]
                    made[0] = 0
                    el = L()
                    try:
                        return measured(lambda: el.set_flat(pairs), 400000), made[0], el
                    except Budget:
                        ctx.fail('work grows with the index', u'prune %r, maximum %d, index %d' % (prune, most, high))
                small, made_small, _ = load(most)
                for high in (most * 100, 10 ** 6, 2 ** 31, 2 ** 40, 10 ** 30):
                    lines, elements, el = load(high)
                    ctx.count('work measured')
                    ctx.check(lines <= small * 2 + 500, 'work grows with the index',
                              u'%d lines against %d for index %d' % (lines, small, high))
                    ctx.check(elements <= 2 * most + 2 if not nested else elements <= 2 * most * most + 4,
                              'more elements constructed than the maximum allows', u'%d at %d' % (elements, high))
                    ctx.check(len(el) <= most, 'more members than the maximum')


def default_maximum(ctx, rng):
    L = fl.List.named(u'l').of(fl.String).using(prune_empty=False)
    for high in (1022, 1023, 1024, 1025, 5000, 10 ** 9):
        el = L.from_flat([(u'l_0', u'a'), (u'l_%d' % high, u'b'), (u'l_1023', u'c')])
        ctx.eq(len(el), 1024, 'default maximum')
        ctx.eq(el[0].value, u'a', 'default maximum')
        ctx.eq(el[1023].value, u'b' if high == 1023 else u'c', 'default maximum')
    P = fl.List.named(u'l').of(fl.String)
    indexes = range(0, 4000, 2)
    rng.shuffle(indexes)
    el = P.from_flat([(u'l_%d' % i, u'%d' % i) for i in indexes])
    ctx.eq([e.value for e in el], [u'%d' % i for i in range(0, 2048, 2)], 'lowest indexes of many')


FIXED = {'bounded work': bounded_work, 'default maximum': default_maximum}
