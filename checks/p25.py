# -*- coding: utf-8 -*-
"""P25: defaults and factories at every level of a schema, against a model that applies them by hand to a schema without any."""
import copy
import random

import flatland as fl
from flatland import Unspecified
from fv import gen, model

CASES = {'quick': 1000, 'thorough': 30000}
RULE = '''A case is a random schema with defaults or default factories (values good, unsuitable, partial, None, 0, empty, counts; factories
that look at their element) on its root, fields, members and compounds. The twin of the schema without defaults has them applied by the model: set() of
each declared default, recursion where there is none. from_defaults (with and without constructor overrides), set_default on fresh
and on used elements, on subtrees, twice, and default_value must agree with it; plain construction and set() must apply nothing; factories must
have seen only the element being set, in its tree; defaults handed in must not change. Non-trivial: distinct (schema, used) pairs with a default.'''
ASSUMPTIONS = ['Factories are deterministic functions of the element they are given.',
               'A sequence without a default of its own keeps its members under set_default; the statement speaks of fields only.']
REQUIRE = {'nontrivial': 900, 'defaults set': 1000, 'factory calls': 1200, 'trees compared': 4500, 'counts': 80, 'container defaults': 600,
           'used elements': 500, 'scalars modelled': 1000, 'sparse required': 30, 'overrides': 500, 'factories in place': 1200}


class Factory(object):
    """A default_factory with a log."""
    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def __call__(self, element):
        self.calls.append((element, [id(p) for p in element.parents], element.name))
        return self.fn(element)

    def __repr__(self):
        return 'Factory'


def decorate(rng, s, factories, p=.75):
    """Put defaults on the Spec and those below."""
    for kid in s.kids:
        decorate(rng, kid, factories, p)
    if not gen.chance(rng, p if s.scalar else p * .6):
        return
    value = default_for(rng, s)
    if gen.chance(rng, .35):
        if gen.chance(rng, .3) and s.kind in ('String', 'Integer', 'Long'):
            f = Factory((lambda el: el.name) if s.kind == 'String' else (lambda el: len(list(el.parents))))
        elif isinstance(value, list) and gen.chance(rng, .3):
            f = Factory(lambda el: iter(value))
        else:
            f = Factory(lambda el: value)
        s.opts['default_factory'] = f
        factories.append(f)
        if gen.chance(rng, .4):
            s.opts['default'] = default_for(rng, s)
    else:
        s.opts['default'] = value


def default_for(rng, s):
    r = rng.random()
    if r < .08:
        return None
    if r < .13:
        return Unspecified
    if s.kind == 'List' and r < .55:
        return rng.choice((0, 1, 2, 3, 5))
    if s.scalar and r < .3:
        return gen.text_for(rng, s)
    if s.scalar and r < .4:
        return rng.choice((0, u'', False, 0.0, u' ', u'0'))
    if s.sequence and r < .3:
        return rng.choice(([], ()))
    if s.kind in ('JoinedString',) and r < .6:
        return rng.choice((u'', u'a,b', u'1,2', u'x'))
    value = gen.good_value(rng, s, blank=.2)
    if s.mapping and isinstance(value, dict) and gen.chance(rng, .5):
        for k in list(value):
            if gen.chance(rng, .4):
                del value[k]
    return value


def bare(s):
    """The Spec without any default."""
    o = dict((k, v) for k, v in s.opts.items() if k not in ('default', 'default_factory'))
    return gen.Spec(s.kind, s.name, [bare(k) for k in s.kids], **o)


def declared(el, s):
    f = s.opts.get('default_factory')
    return s.opts.get('default') if f is None else f.fn(el)


class Refused(Exception):
    pass


def apply_defaults(ctx, el, s):
    """The model: el is of the bare schema."""
    value = declared(el, s)
    own = value is not None and value is not Unspecified
    if s.scalar:
        if value is not Unspecified:
            ctx.count('defaults set')
            el.set(value)
            if s.kind in gen.SCALARS:
                want, u = model.scalar(s, value)[1:]
                ctx.count('scalars modelled')
                ctx.check(gen.fz(el.value) == gen.fz(want) and el.u == u, 'scalar default as modelled', lambda: u'%r %r: %r %r' % (s, value, el.value, el.u))
    elif s.kind == 'List' and own and isinstance(value, int):
        ctx.count('counts')
        el.set([])
        for i in range(value):
            el.append(el.member_schema())
        for member in el:
            apply_defaults(ctx, member, s.member)
    elif own:
        ctx.count('container defaults')
        try:
            el.set(value)
        except Exception as exc:
            raise Refused(type(exc))
    elif s.kind == 'SparseDict':
        el.clear()
        if s.opts.get('minimum_fields') == 'required':
            for kid in s.kids:
                if not kid.opts.get('optional'):
                    ctx.count('sparse required')
                    apply_defaults(ctx, el[kid.name], kid)
    elif s.kind == 'DateYYYYMMDD':
        for part in (u'year', u'month', u'day'):
            el[part].set(None)
    elif s.mapping:
        for kid in s.kids:
            apply_defaults(ctx, el[kid.name], kid)


def attempt(fn):
    try:
        return None, fn()
    except Exception as exc:
        return type(exc), None


def compare(ctx, el, want, what):
    ctx.count('trees compared')
    ctx.check(gen.snap(el) == gen.snap(want), what, lambda: u'%s\n%s' % (gen.snap(el), gen.snap(want)))


def case(ctx, rng):
    scalars = gen.SCALARS
    s = gen.spec(rng, depth=rng.choice((0, 1, 2, 2, 3)), root=True, width=3, plain=False, scalars=scalars)
    if gen.chance(rng, .2):
        s = gen.scalar_spec(rng, u's')
    factories = []
    decorate(rng, s, factories)
    optional = [k for k in s.walk() if k is not s and gen.chance(rng, .1)]
    for k in optional:
        k.opts['optional'] = True
    b = bare(s)
    has = [k for k in s.walk() if 'default' in k.opts or 'default_factory' in k.opts]
    ctx.log(u'schema %r' % (s,), u' with ', [(k.name, k.opts.get('default'), 'default_factory' in k.opts) for k in has])
    kept = copy.deepcopy([k.opts.get('default') for k in s.walk() if k.opts.get('default') is not Unspecified])
    if has:
        ctx.nontrivial(repr(s))
        ctx.sample(u'%r' % s)

    # plain construction
    el = s.cls()
    compare(ctx, el, b.cls(), 'plain construction applies no defaults')
    for f in factories:
        ctx.check(not f.calls, 'plain construction calls no factory')
    value = gen.good_value(rng, s)
    used = s.cls()
    used_b = b.cls()
    ctx.check(attempt(lambda: used.set(value)) == attempt(lambda: used_b.set(value)), 'set() is not affected by defaults')
    compare(ctx, used, used_b, 'set() applies no defaults')
    for f in factories:
        ctx.check(not f.calls, 'set() calls no factory')

    # fresh
    want = b.cls()
    try:
        apply_defaults(ctx, want, s)
        refused = None
    except Refused as exc:
        refused = exc.args[0]
    got = attempt(s.cls.from_defaults)
    if refused:
        ctx.count('refused defaults')
        ctx.check(got[0] is refused, 'an unsuitable container default is refused by set_default as by set()', lambda: u'%r %r' % (got, refused))
        return
    ctx.check(got[0] is None, 'from_defaults does not raise', lambda: u'%r' % (got[0],))
    el = got[1]
    compare(ctx, el, want, 'from_defaults gives the declared defaults')
    watch_factories(ctx, factories, [el])
    fresh = s.cls()
    ctx.same(fresh.set_default(), None, 'set_default returns nothing')
    compare(ctx, fresh, want, 'set_default on a fresh element is from_defaults')
    watch_factories(ctx, factories, [fresh])
    before = gen.snap(fresh)
    fresh.set_default()
    ctx.check(gen.snap(fresh) == before, 'defaults applied twice are as once', lambda: u'%s\n%s' % (gen.snap(fresh), before))
    watch_factories(ctx, factories, [fresh])

    # default_value
    for e, k in gen.pairs_of(el, s):
        dv, d = e.default_value, declared(e, k)
        if hasattr(d, 'next'):
            dv, d = list(dv), list(d)
        ctx.check(dv is d or gen.fz(dv) == gen.fz(d), 'default_value is the declared default', lambda: u'%r %r' % (dv, d))
    watch_factories(ctx, factories, [el])

    # another value first
    if gen.chance(rng, .3):
        gen.spoil_scalars(random.Random(1), used, s)
        gen.spoil_scalars(random.Random(1), used_b, b)
    compare(ctx, used, used_b, 'the same history')
    ctx.count('used elements')
    ctx.seen('nontrivial', (repr(s), gen.snap(used)))
    used.set_default()
    apply_defaults(ctx, used_b, s)
    compare(ctx, used, used_b, 'set_default on a used element')
    watch_factories(ctx, factories, [used])
    before = gen.snap(used)
    used.set_default()
    ctx.check(gen.snap(used) == before, 'defaults applied twice to a used element are as once', lambda: u'%s\n%s' % (gen.snap(used), before))
    watch_factories(ctx, factories, [used])

    # a part of the tree
    again, again_b = s.cls(), b.cls()
    again.set(value), again_b.set(value)
    whole = gen.pairs_of(again, s)
    twin = gen.pairs_of(again_b, b)
    i = rng.randrange(len(whole))
    before = [gen.snap(e) for e, _ in whole]
    whole[i][0].set_default()
    apply_defaults(ctx, twin[i][0], whole[i][1])
    compare(ctx, again, again_b, 'set_default on a part changes that part as declared and nothing else')
    watch_factories(ctx, factories, [again])

    # overrides at construction
    ctx.count('overrides')
    other = default_for(rng, s)
    factory = Factory(lambda el: other) if gen.chance(rng, .5) else None
    kw = dict(default=other, default_factory=None)
    if factory:
        kw = dict(default_factory=factory)
    s2 = gen.Spec(s.kind, s.name, s.kids, **dict(s.opts, **kw))
    want = b.cls()
    try:
        apply_defaults(ctx, want, s2)
    except Refused:
        want = None
    got = attempt(lambda: s.cls.from_defaults(name=u'other', **kw))
    ctx.check((got[0] is not None) == (want is None), 'a default given at construction is used', lambda: u'%r %r' % (got, want))
    if want is not None:
        ctx.eq(got[1].name, u'other', 'from_defaults passes keywords to the constructor')
        want.name = u'other'
        if factory is None or not has:
            compare(ctx, got[1], want, 'a default given at construction is used for that element')
        else:
            compare(ctx, got[1], want, 'a factory given at construction is used for that element')
    watch_factories(ctx, factories + ([factory] if factory else []), [got[1]] if got[1] is not None else None)
    compare(ctx, attempt(s.cls.from_defaults)[1], el, 'and for no other')

    # nothing is shared, nothing handed in is altered
    another = s.cls.from_defaults()
    snap = gen.snap(another)
    for e in gen.elements(el):
        if isinstance(e, list):
            del e[:]
        elif not isinstance(e, dict):
            try:
                e.set(u'zz9')
            except Exception:
                pass
    ctx.check(gen.snap(another) == snap, 'elements do not share their defaults')
    ctx.check(gen.snap(s.cls.from_defaults()) == snap, 'an element does not alter the defaults of the schema')
    now = [k.opts.get('default') for k in s.walk() if k.opts.get('default') is not Unspecified]
    ctx.check(map(gen.fz, now) == map(gen.fz, kept), 'declared defaults are not altered', lambda: u'%r %r' % (now, kept))
    # and the defaults of a derived schema are its own
    d2 = default_for(rng, s)
    derived = s.cls.using(default=d2, default_factory=None)
    ctx.check(derived().default_value is d2, 'a derived default is the one in use')
    ctx.check(gen.snap(s.cls.from_defaults()) == snap, 'deriving a default leaves the original schema')


def watch_factories(ctx, factories, roots):
    """Each call was given an element of the tree, in its place."""
    inside = {}
    if roots is not None:
        for r in roots:
            for e in gen.elements(r):
                inside[id(e)] = e
    for f in factories:
        for e, parents, name in f.calls:
            ctx.count('factory calls')
            if roots is None:
                continue
            ctx.check(id(e) in inside, 'a factory is called with the element being set', lambda: u'%r' % (e,))
            ctx.check(parents == [id(p) for p in e.parents], 'a factory finds its element in its place', lambda: u'%r: %r parents, now %r' % (e, len(parents), len(list(e.parents))))
            ctx.count('factories in place')
        del f.calls[:]


def refs(ctx, rng):
    """A Ref has no default of its own."""
    for writable in ('ignore', True, False):
        for order in (0, 1):
            fields = [fl.Integer.named(u'x').using(default=7), fl.Ref.named(u'r').to(u'x').using(writable=writable)]
            if order:
                fields.reverse()
            schema = fl.Dict.of(*fields)
            el = schema.from_defaults()
            ctx.eq(el[u'x'].value, 7, 'the target of a Ref keeps its default')
            ctx.eq(el[u'r'].value, 7, 'a Ref shows the default of its target')
            el[u'x'].set(8)
            el.set_default()
            ctx.eq(el[u'x'].value, 7, 'the target of a Ref is reset')
    el = fl.Dict.of(fl.Integer.named(u'x'), fl.Ref.named(u'r').to(u'x').using(writable=True, default_factory=lambda el: 9))()
    el[u'r'].set_default()
    ctx.eq(el[u'x'].value, 9, 'a writable Ref with a default sets its target')


def compounds(ctx, rng):
    """Defaults of a compound and of its parts."""
    import datetime
    day = datetime.date(2004, 2, 29)
    el = fl.DateYYYYMMDD.using(default=day).from_defaults()
    ctx.eq((el.value, el.u, el[u'year'].value, el[u'month'].value, el[u'day'].value), (day, u'2004-02-29', 2004, 2, 29), 'the default of a compound explodes')
    Parts = fl.DateYYYYMMDD.using(field_schema=[fl.Integer.named(u'year').using(default=1999, format=u'%04i'),
                                                fl.Integer.named(u'month').using(default=12, format=u'%02i'),
                                                fl.Integer.named(u'day').using(default=31, format=u'%02i')])
    el = Parts.from_defaults()
    ctx.eq((el.value, el.u), (datetime.date(1999, 12, 31), u'1999-12-31'), 'the defaults of the parts of a compound compose')
    el = Parts()
    ctx.eq((el.value, el[u'year'].value), (None, None), 'plain construction of a compound applies no defaults')
    el = Parts.using(default=day).from_defaults()
    ctx.eq(el.value, day, "a compound's own default comes first")
    el = Parts(day)
    ctx.eq(el.value, day, 'defaults of parts do not get in the way of a value')
    el = fl.Dict.of(Parts.named(u'd')).from_defaults()
    ctx.eq(el.value, {u'd': datetime.date(1999, 12, 31)}, 'the defaults of parts within a Dict')


def numbers(ctx, rng):
    """Counts."""
    Member = fl.Dict.of(fl.Integer.named(u'x').using(default=1), fl.String.named(u'y'), fl.List.named(u'z').of(fl.String.using(default=u'q')).using(default=2))
    for n in (0, 1, 2, 7, 50, 1100):
        for schema in (fl.List.of(Member).using(default=n), fl.List.of(Member).using(default_factory=lambda el: n)):
            el = schema.from_defaults()
            ctx.eq(el.value, [{u'x': 1, u'y': None, u'z': [u'q', u'q']}] * n, 'as many members as the default says')
            ctx.eq([m.parent.parent is el for m in el], [True] * n, 'whose parent is the list')
            for i, m in enumerate(el):
                ctx.eq(m.flattened_name(), u'%d' % i, 'numbered in order')
                if i > 60:
                    break
            ctx.count('counts')
    el = fl.List.of(Member).using(default=3)([{u'x': 5}])
    ctx.eq(len(el), 1, 'a value at construction is not topped up')
    el.set_default()
    ctx.eq(el.value, [{u'x': 1, u'y': None, u'z': [u'q', u'q']}] * 3, 'members from before are replaced')
    el = fl.List.of(Member).using(default=[{u'y': u'k'}, {}]).from_defaults()
    ctx.eq(el.value, [{u'x': None, u'y': u'k', u'z': []}, {u'x': None, u'y': None, u'z': []}], 'the default of a list comes before those of its members')
    el = fl.List.of(Member).using(default=long(2)).from_defaults()
    ctx.eq(len(el), 2, 'a long is an integer')


FIXED = {'refs': refs, 'compounds': compounds, 'counts': numbers}
