# -*- coding: utf-8 -*-
"""P03: from_flat() of genuine and hostile pairs against the flat model."""
import flatland as fl
from fv import gen, flat

CASES = {'quick': 4000, 'thorough': 110000}
RULE = '''A case draws a schema and one or two multisets of pairs: genuine addresses of a random tree, then duplicated,
truncated, extended, re-indexed and random keys, shuffled; loads them into a new or a used element and compares the whole state
with the model applied to the state before. Non-trivial: distinct (schema, pairs) in which both a genuine
and a bogus pair occur.'''
ASSUMPTIONS = ['Keys are unicode text; flattened names of the schema are unambiguous.']
REQUIRE = {'loads': 4000, 'nontrivial': 1000, 'bogus pairs': 15000, 'addressed': 3000, 'list members': 1200,
           'used elements': 1000, 'bogus only': 300, 'raw values': 120}

INDEXES = (u'', u'0', u'1', u'2', u'5', u'00', u'01', u'-1', u'+1', u'1.0', u'1e3', u' 1', u'1 ', u'0\n', u'x', u'0x1',
           u'\u0661', u'\xb2', u'\uff11', u'9' * 20, u'9' * 400, u'4294967296', u'1,0', u'None', u'*', u'\u2460', u'l')


def mutate(rng, key, sep, names):
    k = rng.randrange(13)
    if k == 0:
        return key + sep
    if k == 1:
        return key + sep + gen.text(rng)
    if k == 2:
        return key + rng.choice((u'x', u'0', u'\n', u' ', u'\x00'))
    if k == 3:
        parts = key.split(sep)
        return sep.join(parts[:rng.randrange(len(parts) + 1)])
    if k == 4:
        return key.replace(sep, u'', 1)
    if k == 5:
        return sep + key
    if k == 6:
        parts = key.split(sep)
        i = rng.randrange(len(parts))
        parts[i] = rng.choice(INDEXES)
        return sep.join(parts)
    if k == 7:
        parts = key.split(sep)
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(INDEXES + (u'x',)))
        return sep.join(parts)
    if k == 8:
        parts = key.split(sep)
        rng.shuffle(parts)
        return sep.join(parts)
    if k == 9:
        return key[:rng.randrange(len(key) + 1)]
    if k == 10:
        return gen.text(rng, control=True)
    if k == 11:
        return rng.choice(names)
    return key.replace(sep, sep + sep) if rng.random() < .5 else key.upper()


def draw(ctx, rng, s, sep):
    el = gen.build(rng, s, size=rng.choice((1, 3, 3)))
    genuine = [(n, u) for n, u, _ in gen.flat_pairs(el, s, sep)]
    names = [sep.join((s.name, k.name)) if s.name and k.name else k.name or s.name or u'0' for k in s.walk()]
    keep = rng.choice((0, .3, .7, 1))
    pairs = [p for p in genuine if rng.random() < keep]
    kept = len(pairs)
    bogus = 0
    for _ in xrange(rng.choice((0, 2, 6, 12))):
        key = rng.choice(genuine)[0] if genuine and rng.random() < .8 else rng.choice(names)
        for _ in xrange(rng.choice((1, 1, 2))):
            key = mutate(rng, key, sep, names)
        pairs.append((key, rng.choice((u'', u'x', u'bogus', u'1', gen.text(rng)))))
        bogus += 1
    for _ in xrange(rng.choice((0, 0, 1, 3))):
        if genuine:
            pairs.append((rng.choice(genuine)[0], rng.choice((u'', u'again', u'7', gen.text(rng)))))
    if rng.random() < .7:
        rng.shuffle(pairs)
    ctx.count('bogus pairs', bogus)
    if not kept and bogus:
        ctx.count('bogus only')
    if kept and bogus:
        ctx.nontrivial((repr(s), tuple(pairs)))
    return pairs


class Multi(object):
    """What web frameworks hold pairs in: no dict, but with items()."""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return iter(self.pairs)


def case(ctx, rng):
    sep = rng.choice(gen.SEPARATORS)
    s = gen.spec(rng, rng.choice((1, 2, 2, 3, 3)), sep, rng.choice((None, None, u'root', u'r.')) if sep != u'.' else None,
                 root=True, plain=False)
    if rng.random() < .04:
        s = gen.scalar_spec(rng, u'solo')
    for sub in s.walk():
        if sub.kind == 'List' and rng.random() < .4:
            sub.opts['maximum_set_flat_members'] = rng.choice((0, 1, 2, 5))
    deep_cap(s)
    ctx.log(s, sep)
    used = rng.random() < .5
    el = gen.build(rng, s) if used else s.cls()
    for _ in xrange(rng.choice((1, 1, 2))):
        pairs = draw(ctx, rng, s, sep)
        if used:
            ctx.count('used elements')
        ctx.log('set_flat', pairs)
        before = flat.capture(el, s)
        stats = {}
        form = rng.randrange(3)
        if form == 0:
            # a dict offers its pairs in its own order
            given = dict(pairs)
            pairs = list(given.items())
        elif form == 1 and rng.random() < .5:
            given = Multi(pairs)
        else:
            given = tuple(pairs) if form == 1 else list(pairs)
        want = flat.load(s, before, pairs, sep, stats)
        for k, v in stats.items():
            ctx.count(k, v)
        el.set_flat(given, sep)
        used = True
        got = flat.capture(el, s)
        ctx.count('loads')
        d = flat.diff(got, want)
        ctx.check(d is None, 'state after set_flat()',
                  lambda: u'%r sep %r, %r: got / expected %s' % (s, sep, pairs, d))
        ctx.sample(u'%r sep %r: %s' % (s, sep, repr(pairs)[:300]))


def deep_cap(s):
    """Unpruned lists build up to the maximum: keep that small."""
    for sub in s.walk():
        if sub.kind == 'List' and sub.opts.get('prune_empty') is False:
            sub.opts.setdefault('maximum_set_flat_members', 6)


def first_pair_wins(ctx, rng):
    for name, sep in ((u'a', u'_'), (u'a*', u'.')):
        S = fl.Dict.of(fl.String.named(name), fl.Array.named(u'm').of(fl.String),
                       fl.Dict.named(u'd').of(fl.Integer.named(u'i')))
        el = S.from_flat([(name, u'1'), (u'm', u'x'), (name, u'2'), (u'm', u''), (u'd_i', u'3'), (u'd_i', u'4'),
                          (u'm', u'y'), (name + u'x', u'5'), (u'd', u'6'), (u'd_', u'7'), (u'm_0', u'z'), (u'm_', u'z')])
        ctx.eq(el.value, {name: u'1', u'm': [u'x', u'y'], u'd': {u'i': 3}}, 'first pair wins')


def random_storm(ctx, rng):
    """A thousand random pairs do nothing to a form."""
    s = gen.Spec('Form', None, [gen.Spec('String', u'alpha'), gen.Spec('Dict', u'beta', [gen.Spec('Integer', u'gamma')]),
                                gen.Spec('List', u'delta', [gen.Spec('String')])])
    el = s.cls()
    el.set({u'alpha': u'x', u'beta': {u'gamma': 4}})
    pairs = [(gen.text(rng, 12, control=True), gen.text(rng)) for _ in xrange(1000)]
    el.set_flat(pairs)
    ctx.eq(el.value, {u'alpha': u'x', u'beta': {u'gamma': 4}, u'delta': []}, 'random pairs')


def raw_values(ctx, rng):
    """raw after set_flat(): the text of the pair, or nothing where none is."""
    for turn in range(150):
        T = rng.choice((fl.Dict, fl.SparseDict, fl.Form))
        Inner = rng.choice((fl.Dict, fl.SparseDict)).named(u'd').of(fl.String.named(u's'), fl.Boolean.named(u'b'))
        S = T.named(rng.choice((None, u'r'))).of(fl.String.named(u's'), fl.Integer.named(u'i'), fl.Array.named(u'a').of(fl.Integer),
                                                 fl.List.named(u'l').of(fl.Integer.named(u'i')), Inner)
        el = S()
        if gen.chance(rng, .7):
            el.set({u's': u'old', u'i': 3, u'a': [1], u'l': [2], u'd': {u's': u'old', u'b': True}})
        before = dict((k, el[k].raw) for k in (u's', u'i', u'a', u'l', u'd') if k in el)
        head = u'r_' if el.name else u''
        pairs = [(head + n, rng.choice((u'x', u' 7', u'7 ', u'', u'on'))) for n in (u's', u'i', u'a', u'l_0_i', u'd_s', u'd_b', u'i', u'a', u'zz')
                 if gen.chance(rng, .6)]
        what = lambda: u'%r set_flat(%r)' % (el, pairs)
        el.set_flat(pairs)
        ctx.check(el.raw is fl.Unset, 'raw of a container after set_flat()', what)
        first = {}
        for k, v in pairs:
            first.setdefault(k[len(head):], v)
        at = lambda m, k: m[k] if m is not None and k in m else None
        for n, e in ((u's', at(el, u's')), (u'i', at(el, u'i')), (u'd_s', at(at(el, u'd'), u's')), (u'd_b', at(at(el, u'd'), u'b'))):
            if n in first:
                ctx.check(e is not None, 'an addressed field', lambda: u'%s: %s' % (what(), n))
                ctx.check(e.raw == first[n] and isinstance(e.raw, unicode), 'raw of an addressed scalar', lambda: u'%s: %s %r' % (what(), n, e.raw))
                ctx.count('raw values')
            elif n in before:
                ctx.check(e.raw is before[n], 'raw of a scalar that no pair addresses', lambda: u'%s: %s %r' % (what(), n, e.raw))
        members = [v for k, v in pairs if k == head + u'a' and v]
        if members:
            ctx.check(el[u'a'].raw is fl.Unset and [m.raw for m in el[u'a']] == members, 'raw of an array', what)
        if first.get(u'l_0_i'):
            ctx.check(el[u'l'].raw is fl.Unset and [m.raw for m in el[u'l']] == [first[u'l_0_i']], 'raw of a list', what)
        if u'd_s' in first or u'd_b' in first:
            ctx.check(el[u'd'].raw is fl.Unset, 'raw of an inner mapping', what)
    for T in (fl.Integer, fl.String, fl.Boolean):
        el = T.named(u'n')(u'4')
        el.set_flat([(u'm', u'1')])
        ctx.check(el.raw is fl.Unset, 'raw of a scalar that no pair addresses', lambda: repr(el.raw))
        el.set_flat({u'n': u'5'})
        ctx.eq(el.raw, u'5', 'raw of an addressed scalar')


FIXED = {'raw values': raw_values, 'first pair wins': first_pair_wins, 'random storm': random_storm}
