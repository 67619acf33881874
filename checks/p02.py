# -*- coding: utf-8 -*-
"""P02: flatten() and from_flat() round trips over random schemas and trees."""
import flatland as fl
from fv import gen

CASES = {'quick': 3500, 'thorough': 80000}
RULE = '''A case draws a schema (up to depth 4, odd field names, any separator), a tree of it, computes the expected
pairs by its own walk, compares flatten(), and rebuilds from the pairs as list, shuffled list and dict. Non-trivial:
distinct (schema shape, pairs) with at least two pairs.'''
ASSUMPTIONS = ['Field names are drawn so that no two positions share a flattened name or prefix.']
REQUIRE = {'round trips': 3000, 'nontrivial': 1200, 'pairs': 8000, 'kinds': 18, 'dict round trips': 800,
           'nested lists': 120, 'separators': 8, 'empty names': 270, 'values compared': 3000}


def full(el):
    """Structure, u and lengths of the tree."""
    return gen.snap(el, value=False)


def compare(ctx, a, b, s, what):
    ctx.eq(type(b) is type(a), True, 'type after round trip', what)
    pa, pb = gen.pairs_of(a, s), gen.pairs_of(b, s)
    ctx.check(full(a) == full(b), 'tree differs after round trip',
              lambda: u'%s\n before %r\n after  %r' % (what, full(a), full(b)))
    ctx.check(len(pa) == len(pb), 'structure differs after round trip', what)
    for (x, sx), (y, _) in zip(pa, pb):
        if not sx.mapping:
            ctx.check(x.u == y.u, 'u differs after round trip', lambda: u'%s: %r %r' % (what, x.u, y.u))
        if (sx.scalar or sx.kind == 'DateYYYYMMDD') and x.u != u'':
            probe = sx.cls()
            probe.set(unicode(x.u))
            if gen.fz(probe.value) == gen.fz(x.value):
                ctx.count('values compared')
                ctx.check(gen.fz(x.value) == gen.fz(y.value), 'value differs after round trip',
                          lambda: u'%s: %r %r' % (what, x.value, y.value))


def case(ctx, rng):
    sep = rng.choice(gen.SEPARATORS)
    root = rng.choice((None, None, None, u'root', u'r\xe9', u'a*'))
    if root is not None and sep in root + sep[:-1]:
        root = u'r'
    if rng.random() < .04:
        s = gen.scalar_spec(rng, u'solo')
    else:
        s = gen.spec(rng, rng.choice((1, 2, 2, 3, 3, 4)), sep, root, root=True, plain=False)
    el = gen.build(rng, s)
    gen.normalise(el, s)
    ctx.log(s, sep)
    for sub in s.walk():
        ctx.seen('kinds', sub.kind)
    ctx.seen('separators', sep)

    expected = gen.flat_pairs(el, s, sep)
    want = [(n, u) for n, u, _ in expected]
    got = el.flatten(sep)
    what = u'%r sep %r' % (s, sep)
    ctx.log('pairs', want)
    ctx.check(sorted(got) == sorted(want), 'flatten() pairs',
              lambda: u'%s: %r, expected %r' % (what, sorted(got), sorted(want)))
    ctx.check(all(isinstance(k, unicode) and isinstance(v, unicode) for k, v in got),
              'flatten() gives other than unicode', what)
    ctx.count('pairs', len(got))
    by_name = lambda pairs: dict((k, [v for q, v in pairs if q == k]) for k, _ in pairs)  # noqa
    ctx.check(by_name(got) == by_name(want), 'order of repeated names', what)
    if sep == u'_':
        ctx.check(el.flatten() == got, 'default separator', what)
    # the value callable sees each flattenable element exactly once
    calls = []
    el.flatten(sep, value=calls.append)
    ctx.check(sorted(map(id, calls)) == sorted(id(e) for _, _, e in expected),
              'value callable is not called once per element', what)
    tagged = el.flatten(sep, value=lambda e: (id(e), e.u))
    ctx.check(sorted(tagged) == sorted((n, (id(e), u)) for n, u, e in expected), 'flatten(value=)', what)
    # any part of the tree flattens to its own pairs under its full names
    part, _ = rng.choice(gen.pairs_of(el, s))
    inner = set(id(e) for e in gen.elements(part))
    hidden = set(id(e) for j, sj in gen.pairs_of(el, s) if sj.kind == 'JoinedString' for e in j)
    ctx.check(id(part) in hidden or
              sorted(part.flatten(sep)) == sorted((n, u) for n, u, e in expected if id(e) in inner),
              'flatten() of a part', lambda: u'%s: %r' % (what, part.flatten(sep)))

    for how in ('list', 'shuffled', 'dict'):
        if how == 'dict':
            if len(set(n for n, _ in want)) != len(want):
                continue
            pairs = dict(got)
            ctx.count('dict round trips')
        elif how == 'shuffled':
            pairs = gen.shuffled(rng, got)
        else:
            pairs = list(got)
        kept = dict(pairs) if how == 'dict' else list(pairs)
        again = s.cls.from_flat(pairs) if sep == u'_' and rng.random() < .5 else None
        if again is None:
            again = s.cls()
            again.set_flat(pairs, sep)
        ctx.check(pairs == kept, 'from_flat() changes its input', what)
        compare(ctx, el, again, s, u'%s as %s %r' % (what, how, pairs))
        ctx.check(sorted(again.flatten(sep)) == sorted(got), 'flatten() differs after round trip',
                  lambda: u'%s as %s: %r, before %r' % (what, how, sorted(again.flatten(sep)), sorted(got)))
        ctx.check(by_name(again.flatten(sep)) == by_name(got), 'repeated names differ after round trip', what)
        ctx.count('round trips')
    lists = [sub for sub in s.walk() if sub.kind == 'List']
    if any(inner is not sub and inner.kind == 'List' for sub in lists for inner in sub.walk()):
        ctx.count('nested lists')
    if len(want) > 1:
        ctx.nontrivial((repr(s), tuple(sorted(want))))
        ctx.sample(u'%r -> %s' % (s, repr(sorted(want))[:300]))


def wide(ctx, rng):
    """Lists past ten and a hundred members keep their order."""
    for n in (9, 10, 11, 12, 99, 101, 130):
        for member in (fl.String, fl.String.named(u's'), fl.Dict.of(fl.Integer.named(u'a'), fl.String.named(u'b'))):
            for prune in (True, False):
                L = fl.List.named(u'l').of(member).using(prune_empty=prune)
                value = [dict(a=i, b=u'b%d' % i) if issubclass(member, fl.Dict) else u's%d' % i for i in range(n)]
                el = L(value)
                pairs = gen.shuffled(rng, el.flatten())
                again = L.from_flat(pairs)
                ctx.eq(again.value, el.value, 'long list after round trip')
                ctx.eq(again.flatten(), el.flatten(), 'long list after round trip')


def large(ctx, rng):
    for n in (900, 1024):
        L = fl.List.named(u'l').of(fl.Integer.named(u'i'))
        el = L(range(n))
        again = L.from_flat(gen.shuffled(rng, el.flatten()))
        ctx.eq(again.value, range(n), 'full list after round trip')


def empty_names(ctx, rng):
    """The empty string is a name, unlike None."""
    for root in (None, u'', u'r'):
        for inner in (u'', u'd', u'e'):
            for leaf in (u'', u'a'):
                for sep in (u'_', u'.', u'::'):
                    scalar = fl.String.named(leaf)
                    shapes = [fl.Dict.named(inner).of(scalar, fl.Integer.named(u'n')),
                              fl.List.named(inner).of(scalar), fl.List.named(inner).of(fl.Dict.of(scalar)),
                              fl.Array.named(inner).of(fl.String), fl.Dict.named(inner).of(fl.Dict.named(leaf).of(fl.String.named(u'z')))]
                    for k, shape in enumerate(shapes):
                        S = fl.Dict.named(root).of(shape, fl.String.named(u'last'))
                        value = ({leaf: u'x', u'n': 5}, [u'x', u'y'], [{leaf: u'x'}, {leaf: u'y'}], [u'x', u'y'], {leaf: {u'z': u'q'}})[k]
                        el = S({inner: value, u'last': u'l'})
                        tail = {0: [[leaf], [u'n']], 1: [[u'0', leaf], [u'1', leaf]], 2: [[u'0', leaf], [u'1', leaf]], 3: [[], []], 4: [[leaf, u'z']]}[k]
                        head = [] if root is None else [root]
                        names = sorted([sep.join(head + [inner] + t) for t in tail] + [sep.join(head + [u'last'])])
                        what = u'%r %r %r %r %d' % (root, inner, leaf, sep, k)
                        ctx.eq(sorted(n for n, _ in el.flatten(sep)), names, 'flattened names with empty names', what)
                        again = S()
                        again.set_flat(el.flatten(sep), sep)
                        ctx.check(full(again) == full(el) and again.flatten(sep) == el.flatten(sep), 'round trip with empty names',
                                  lambda: u'%s: %r, before %r' % (what, full(again), full(el)))
                        ctx.count('empty names')


def empty_members(ctx, rng):
    """Sequences at the root whose members have no name, or an empty one."""
    for T in (fl.List, fl.Array, fl.MultiValue):
        for root in (None, u'', u'r'):
            for leaf in (None, u'', u'a'):
                for sep in (u'_', u'.', u'::'):
                    S = T.named(root).of(fl.String.named(leaf))
                    el = S([u'x', u'y', u'x'])
                    pairs = el.flatten(sep)
                    what = u'%s %r %r %r: %r' % (T.__name__, root, leaf, sep, pairs)
                    again = S()
                    again.set_flat(pairs, sep)
                    ctx.eq([m.u for m in again], [u'x', u'y', u'x'], 'members of a root sequence', what)
                    ctx.eq(again.flatten(sep), pairs, 'pairs of a root sequence', what)
                    ctx.count('empty names')


def deep(ctx, rng):
    for depth in (12, 33, 64, 65, 100, 129):
        root, line = gen.chain(rng, depth)
        line[-1][1].set(u'deep %d' % depth)
        pairs = root.flatten()
        ctx.check(pairs[-1] == (line[-1][1].flattened_name(), u'deep %d' % depth), 'a deep element is flattened', repr(pairs[-1]))
        again = type(root).using(prune_empty=False).from_flat(pairs) if isinstance(root, fl.List) else type(root).from_flat(pairs)
        ctx.eq(again.flatten()[-1][1], u'deep %d' % depth, 'a deep element is restored')
        again.set(root.value)
        # (comparing nested lists of dicts takes Jython exponential time)
        ctx.eq(repr(again.value), repr(root.value), 'a deep value is set')
        ctx.eq(again.u, root.u, 'a deep value is set')


FIXED = {'members': empty_members, 'deep': deep, 'wide': wide, 'large': large, 'empty': empty_names}
