# -*- coding: utf-8 -*-
"""P12: every built-in validator against its documented predicate."""
import datetime
import operator
import re

import flatland as fl
from flatland import validation as fv_
from fv import gen

CASES = {'quick': 2600, 'thorough': 90000}
RULE = '''A case builds a random element tree, configures each of 3-8 built-in validators (positionally, by keyword, by subclass attribute,
with and without messages of its own) around the boundary the element is at, and calls it directly, twice, and through element.validate();
the verdict must be the documented predicate evaluated on the Python values by the monitor, the errors of every element of the tree exactly
the formatted message on the one element, and the tree unchanged. Non-trivial: distinct (validator, configuration, verdict, message) tuples.'''
ASSUMPTIONS = ['Comparing validators use Python 2 ordering of the values (None sorts first); values that Python refuses to compare (a date '
               'with None) are outside of the property: Converted goes first.']
NAMES = ('Present', 'IsTrue', 'IsFalse', 'ValueIn', 'Converted', 'ShorterThan', 'NoLongerThan', 'LongerThan', 'LengthBetween',
         'ValueLessThan', 'ValueAtMost', 'ValueGreaterThan', 'ValueAtLeast', 'ValueBetween', 'MapEqual', 'ValuesEqual', 'UnisEqual',
         'NotDuplicated', 'HasAtLeast', 'HasAtMost', 'HasBetween')
REQUIRE = dict([('nontrivial', 5000), ('accepted', 4500), ('rejected', 4500), ('own messages', 1500), ('subclassed', 1500),
                ('by validate()', 1500), ('boundary', 1500)] +
               [(n + ' accepted', 40) for n in NAMES] + [(n + ' rejected', 40) for n in NAMES])

# the documented messages
TEXT = {
    'missing': u'%(label)s may not be blank.', 'false': u'%(label)s must be True.', 'true': u'%(label)s must be False.',
    'fail': u'%(value)s is not a valid value for %(label)s.', 'incorrect': u'%(label)s is not correct.',
    'exceeded': u'%(label)s may not exceed %(maxlength)s characters.', 'short': u'%(label)s must be at least %(minlength)s characters.',
    'breached': u'%(label)s must be between %(minlength)s and %(maxlength)s characters long.',
    'lt': u'%(label)s must be less than %(boundary)s.', 'le': u'%(label)s must be less than or equal to %(maximum)s.',
    'gt': u'%(label)s must be greater than %(boundary)s.', 'ge': u'%(label)s must be greater than or equal to %(minimum)s.',
    'failure_inclusive': u'%(label)s must be in the range %(minimum)s to %(maximum)s.',
    'failure_exclusive': u'%(label)s must be greater than %(minimum)s and less than %(maximum)s.',
    'unequal': u'%(labels)s and %(last_label)s do not match.',
    'dup': u'%(label)s may not be repeated within %(container_label)s.',
    'atleast1': u'%(label)s must contain at least one %(child_label)s',
    'atleast': u'%(label)s must contain at least %(minimum)s %(child_label)ss',
    'atmost1': u'%(label)s must contain at most one %(child_label)s',
    'atmost': u'%(label)s must contain at most %(maximum)s %(child_label)ss',
    'range1': u'%(label)s must contain at least %(minimum)s and at most %(maximum)s %(child_label)s',
    'range': u'%(label)s must contain at least %(minimum)s and at most %(maximum)s %(child_label)ss',
    'exact1': u'%(label)s must contain exactly one %(child_label)s',
    'exact': u'%(label)s must contain exactly %(minimum)s %(child_label)ss',
}


def expand(template, info):
    def one(match):
        v = info[match.group(1)]
        return v if isinstance(v, unicode) else unicode(v)
    return re.sub(u'%\\((\\w+)\\)s', one, template)


class Plan(object):
    """One configured validator: how to make it, what it must say."""

    def __init__(self, name, target, ok, config=(), positional=(), key=None, template=None, extra=(), boundary=False):
        self.name, self.target, self.ok = name, target, ok
        self.config, self.positional = dict(config), list(positional)
        self.key, self.template, self.extra = key, template, dict(extra)
        self.boundary = boundary


def make(ctx, rng, p):
    """The validator, and its message for the target."""
    cls = getattr(fv_, p.name)
    template, messages = p.template, {}
    if gen.chance(rng, .35):
        fields = ['label', 'value', 'u', 'name'] + sorted(p.extra) + sorted(p.config)
        if isinstance(p.target, dict):
            fields = sorted(p.extra)
        template = u'%s <%s>' % (gen.text(rng, 3).replace(u'%', u''), u'|'.join(u'%%(%s)s' % f for f in fields if f != 'field_paths'
                                                           and f != 'transform' and f != 'comparator'))
        messages = {p.key: template}
        ctx.count('own messages')
    config = dict(p.config)
    subclass = {}
    required = ('boundary', 'minimum', 'maximum') if p.name.startswith('Value') else ()
    if gen.chance(rng, .4):
        for k in list(config):
            if k not in required and gen.chance(rng, .7):
                v = config.pop(k)
                subclass[k] = staticmethod(v) if k in ('transform', 'comparator') else v
        if messages and gen.chance(rng, .5):
            subclass.update(messages)
            messages = {}
    args = []
    if gen.chance(rng, .5):
        for k in p.positional:
            if k not in config:
                break
            args.append(config.pop(k))
    if 'field_paths' in config:
        args = list(config.pop('field_paths'))
    if p.name == 'HasBetween' and subclass:
        # each alone may be nonsensical with the defaults
        subclass.update((k, config.pop(k)) for k in ('minimum', 'maximum') if k in config)
    if subclass:
        cls = type('Own' + p.name, (cls,), subclass)
        ctx.count('subclassed')
    config.update(messages)
    info = {'label': p.target.label, 'value': p.target.value, 'u': p.target.u, 'name': p.target.name}
    if isinstance(p.target, dict):
        info.update((k, p.target[k]) for k in info if k in p.target)
    info.update(p.config)
    info.update(p.extra)
    return cls(*args, **config), expand(template, info)


def value_near(rng, v):
    """Values around v: equal, just below, just above, or of another type."""
    r = rng.random()
    if v is None:
        return rng.choice((None, 0, -1, u'', u'a', datetime.date(2000, 1, 1)))
    if r < .4:
        return v
    try:
        if isinstance(v, bool):
            return rng.choice((True, False))
        if isinstance(v, (int, long)):
            return v + rng.choice((-1, 1, -10, 10, .5, -.5))
        if isinstance(v, datetime.datetime):
            return v + datetime.timedelta(seconds=rng.choice((1, -1)))
        if isinstance(v, datetime.date):
            return v + datetime.timedelta(rng.choice((1, -1)))
        if isinstance(v, datetime.time):
            return v.replace(second=rng.choice((0, 30, 59)))
        if isinstance(v, unicode):
            return rng.choice((v + u'a', v[:-1], v.upper(), u'', u'm'))
        return v + rng.choice((1, -1))
    except OverflowError:
        return v


def scalar_plans(rng, el):
    v, n = el.value, len(el.u)
    k = rng.choice(NAMES[:14])
    if k == 'Present':
        return Plan(k, el, el.u != u'', key='missing', template=TEXT['missing'])
    if k == 'IsTrue':
        return Plan(k, el, bool(v), key='false', template=TEXT['false'])
    if k == 'IsFalse':
        return Plan(k, el, not v, key='true', template=TEXT['true'])
    if k == 'Converted':
        return Plan(k, el, v is not None, key='incorrect', template=TEXT['incorrect'])
    if k == 'ValueIn':
        options = [value_near(rng, v) for _ in xrange(rng.randrange(0, 3))]
        wrap = rng.choice((list, tuple, set, dict.fromkeys))
        ok = any(o == v for o in options)
        if isinstance(v, datetime.datetime) or isinstance(v, float) and v != v:
            wrap = list
        options = wrap(options)
        return Plan(k, el, ok, {'valid_options': options}, ['valid_options'], 'fail', TEXT['fail'])
    if k in ('ShorterThan', 'NoLongerThan', 'LongerThan', 'LengthBetween'):
        near = [n, n, n + 1, max(n - 1, 0), 0, 1, n + 20]
        a, b = rng.choice(near), rng.choice(near)
        if k == 'LongerThan':
            return Plan(k, el, n >= a, {'minlength': a}, ['minlength'], 'short', TEXT['short'], boundary=n == a)
        if k == 'LengthBetween':
            return Plan(k, el, a <= n <= b, {'minlength': a, 'maxlength': b}, ['minlength', 'maxlength'], 'breached', TEXT['breached'],
                        boundary=n in (a, b))
        return Plan(k, el, n <= a, {'maxlength': a}, ['maxlength'], 'exceeded', TEXT['exceeded'], boundary=n == a)
    a, b = value_near(rng, v), value_near(rng, v)
    for x in (a, b):
        try:
            v < x, x < v
        except TypeError:
            return None
    if k == 'ValueBetween':
        inclusive = gen.chance(rng, .5)
        c = {'minimum': a, 'maximum': b}
        if inclusive:
            ok, key = operator.le(a, v) and operator.le(v, b), 'failure_inclusive'
        else:
            ok, key = operator.lt(a, v) and operator.lt(v, b), 'failure_exclusive'
        if not inclusive or gen.chance(rng, .5):
            c['inclusive'] = inclusive
        return Plan(k, el, ok, c, ['minimum', 'maximum'], key, TEXT[key], boundary=v in (a, b))
    op, c = {'ValueLessThan': ('lt', 'boundary'), 'ValueAtMost': ('le', 'maximum'), 'ValueGreaterThan': ('gt', 'boundary'),
             'ValueAtLeast': ('ge', 'minimum')}[k]
    return Plan(k, el, getattr(operator, op)(v, a), {c: a}, [c], 'failure', TEXT[op], boundary=v == a)


def comparable(v):
    """Values that compare with others without raising."""
    return not isinstance(v, (float, gen.decimal.Decimal)) or v == v


def equal_plan(ctx, rng):
    """Paths to elements of a tree, from the element that holds the validator."""
    kind = rng.choice((fl.Integer, fl.String, fl.Float, fl.String))
    other = rng.choice((kind, fl.String, fl.Integer))
    root = fl.Dict.named(u'root').of(
        kind.named(u'a'), other.named(u'b').using(label=rng.choice((u'B!', u'caf\xe9', None)) or u'b'), kind.named(u'c.d'),
        fl.Dict.named(u'sub').of(kind.named(u'a'), other.named(u'x'), fl.List.named(u'l').of(kind)))()
    leaves = [(root[u'a'], [u'a']), (root[u'b'], [u'b']), (root[u'c.d'], [u'c.d']), (root[u'sub'][u'a'], [u'sub', u'a']),
              (root[u'sub'][u'x'], [u'sub', u'x'])]
    root[u'sub'][u'l'].set([None, None])
    leaves += [(m, [u'sub', u'l', unicode(i)]) for i, m in enumerate(root[u'sub'][u'l'])]
    pool = rng.choice(((u'1', u' 1', u'01'), (u'x', u'y'), (u'1', u'1.0', u'x'), (u'', u'x'), (u'7', u'7', u'7', u'7', u'8')))
    for el, _ in leaves:
        el.set(rng.choice(pool))
    if gen.chance(rng, .5):
        same = rng.choice(pool)
        for el, _ in leaves:
            el.set(same)
        if gen.chance(rng, .4):
            rng.choice(leaves)[0].set(rng.choice(pool))
    holder, chain = rng.choice(((root, []), (root[u'sub'], [u'sub']), (root[u'sub'][u'l'], [u'sub', u'l']),
                                (root[u'a'], [u'a'])))
    chosen = [rng.choice(leaves) for _ in xrange(rng.randrange(2, 6))]
    paths = []
    for _, path in chosen:
        if gen.chance(rng, .3):
            paths.append(u'/' + u'/'.join(path))
        else:
            common = 0
            while common < min(len(chain), len(path)) and chain[common] == path[common]:
                common += 1
            if common == len(path):
                paths.append(u'/' + u'/'.join(path))
                continue
            up = [u'..'] * (len(chain) - common)
            paths.append(u'/'.join(up + path[common:]))
    els = [el for el, _ in chosen]
    k = rng.choice(('MapEqual', 'ValuesEqual', 'UnisEqual'))
    c = {'field_paths': tuple(paths)}
    if k == 'MapEqual':
        fns = [lambda e: (e.value, e.u)]
        if gen.chance(rng, .6):
            fn = rng.choice((lambda e: e.u.strip(), lambda e: len(e.u), lambda e: e.value is None, lambda e: e.u == u'1'))
            c['transform'], fns = fn, [fn]
    else:
        fns = [operator.attrgetter('value' if k == 'ValuesEqual' else 'u')]
    shown = [fns[0](e) for e in els]
    ok = not any(s != shown[0] for s in shown)
    return root, Plan(k, holder, ok, c, (), 'unequal', TEXT['unequal'],
                      {'labels': u', '.join(unicode(e.label) for e in els[:-1]), 'last_label': els[-1].label})


def sequence(rng):
    member = rng.choice((fl.String, fl.Integer, fl.Dict.of(fl.Integer.named(u'n'), fl.Boolean.named(u'off'))))
    kind = fl.List if member.__name__ == 'Dict' else rng.choice((fl.List, fl.List, fl.Array, fl.MultiValue))
    if gen.chance(rng, .5):
        member = member.named(u'm').using(label=rng.choice((u'm', u'Memb\xe9r')))
    cls = kind.named(u'seq').of(member)
    if gen.chance(rng, .5):
        cls = cls.using(label=u'My S\xe9q')
    if issubclass(kind, fl.Array):
        cls = cls.using(prune_empty=False)
    el = cls()
    n = rng.randrange(0, 6)
    if member.__name__ == 'Dict':
        el.set([{u'n': rng.choice((1, 1, 2, 3, u'x')), u'off': rng.choice((True, False, False))} for _ in xrange(n)])
    else:
        el.set([rng.choice((u'1', u'1', u'2', u'02', u'3', u'x', u'')) for _ in xrange(n)])
    return el


def by_value(element, sibling):
    return element.value == sibling.value


def descending(element, sibling):
    return element.u < sibling.u


def live(element, sibling):
    return element.u == sibling.u and element.u != u'1'


def length_plan(rng, el):
    n = len(list(el))
    near = [n, n, n + 1, max(n - 1, 0), 0, 1, 2, n + 5]
    a, b = rng.choice(near), rng.choice(near)
    child = {'child_label': el.member_schema.label}
    k = rng.choice(NAMES[-3:])
    if k == 'HasAtLeast':
        c = {'minimum': a} if gen.chance(rng, .8) else {}
        a = c.get('minimum', 1)
        p = Plan(k, el, n >= a, c, (), 'failure', TEXT['atleast1' if a == 1 else 'atleast'], child, n == a)
    elif k == 'HasAtMost':
        c = {'maximum': a} if gen.chance(rng, .8) else {}
        a = c.get('maximum', 1)
        p = Plan(k, el, n <= a, c, (), 'failure', TEXT['atmost1' if a == 1 else 'atmost'], child, n == a)
    else:
        if gen.chance(rng, .4):
            b = a
        a, b = min(a, b), max(a, b)
        c = {'minimum': a, 'maximum': b}
        if gen.chance(rng, .1):
            c, a, b = {}, 1, 1
        if a == b:
            key, template = 'exact', TEXT['exact1' if a == 1 else 'exact']
        else:
            key, template = 'range', TEXT['range1' if b == 1 else 'range']
        p = Plan(k, el, a <= n <= b, c, (), key, template, child, n in (a, b))
    p.extra.update((x, p.config.get(x, 1)) for x in ('minimum', 'maximum')
                   if x in p.config or k == 'HasBetween' or (x == 'minimum') == (k == 'HasAtLeast'))
    return p


def duplicate_plan(rng, seq):
    members = list(seq)
    i = rng.randrange(len(members))
    comparator = rng.choice((None, None, by_value, descending, live))
    if isinstance(members[0], dict):
        comparator = rng.choice((None, by_value))
    fn = comparator or (lambda a, b: (a.value, a.u) == (b.value, b.u))
    ok = not any(fn(members[i], s) for s in members[:i])
    return Plan('NotDuplicated', members[i], ok, {'comparator': comparator} if comparator else {}, (), 'failure', TEXT['dup'],
                {'container_label': seq.label, 'position': i + 1})


def case(ctx, rng):
    for _ in xrange(rng.randrange(3, 9)):
        r = rng.random()
        if r < .45:
            s = gen.scalar_spec(rng, gen.name(rng))
            root = el = gen.build(rng, s, spoil=.5)
            if not comparable(el.value):
                continue
            p = scalar_plans(rng, el)
            if p is None:
                continue
        elif r < .65:
            root, p = equal_plan(ctx, rng)
        else:
            root = sequence(rng)
            if r < .8 and len(root):
                p = duplicate_plan(rng, root)
            else:
                p = length_plan(rng, root)
        judge(ctx, rng, root, p)


def judge(ctx, rng, root, p):
    v, message = make(ctx, rng, p)
    what = u'%s(%r) on %r' % (type(v).__name__, p.config, p.target)
    before = gen.snap(root)
    everything = gen.elements(root)
    state = rng.choice((None, None, {}, {u'x': u'y'}, 7, object()))
    for again in (0, 1):
        got = v(p.target, state) if gen.chance(rng, .5) else v.validate(p.target, state)
        ctx.check((got is True) if p.ok else (got is False), 'verdict', lambda: u'%s: %r, expected %r' % (what, got, p.ok))
        for el in everything:
            want = [message] if el is p.target and not p.ok else []
            ctx.check(el.errors == want and el.warnings == [], 'errors recorded',
                      lambda: u'%s: errors of %r: %r, expected %r' % (what, el, el.errors, want))
        ctx.check(gen.snap(root) == before, 'the tree changed', what)
    del p.target.errors[:]
    ctx.count('accepted' if p.ok else 'rejected')
    ctx.count('%s %s' % (p.name, 'accepted' if p.ok else 'rejected'))
    if p.boundary:
        ctx.count('boundary')
    ctx.nontrivial((p.name, sorted(map(repr, p.config.items())), p.ok, None if p.ok else message))
    ctx.sample(u'%s %r %r: %r %r' % (p.name, p.config, p.target, p.ok, None if p.ok else message))
    # through the element
    if not p.target.is_empty:
        p.target.validators = [v]
        p.target.descent_validators = []
        if p.target.optional is None:
            return
        got = p.target.validate(state, recurse=False)
        ctx.check(bool(got) == p.ok and p.target.valid == p.ok, 'verdict of the element', lambda: u'%s: %r' % (what, got))
        ctx.check(p.target.errors == ([] if p.ok else [message]), 'errors of the element', what)
        del p.target.errors[:]
        ctx.count('by validate()')


def arguments(ctx, rng):
    """Unusable configurations raise, and validators stay independent."""
    for name in NAMES:
        cls = getattr(fv_, name)
        req = {'ValueLessThan': dict(boundary=1), 'ValueAtMost': dict(maximum=1), 'ValueGreaterThan': dict(boundary=1),
               'ValueAtLeast': dict(minimum=1), 'ValueBetween': dict(minimum=1, maximum=2)}.get(name, {})
        args = (u'a', u'b') if name in ('MapEqual', 'ValuesEqual', 'UnisEqual') else ()
        ctx.raises(TypeError, lambda: cls(*args, bogus=1, **req), 'unknown option', name)
        ctx.raises(TypeError, lambda: cls(*args, _bogus=1, **req), 'unknown option', name)
        for missing in req:
            ctx.raises(TypeError, lambda: cls(**dict((k, v) for k, v in req.items() if k != missing)), 'missing option', name)
        a, b = cls(*args, **req), cls(*args, **req)
        a.some = 1
        ctx.check(not hasattr(b, 'some') and not hasattr(cls, 'some'), 'validators share state', name)
    ctx.same(fv_.NoLongerThan, fv_.ShorterThan, 'alias')
    for cls in (fv_.MapEqual, fv_.ValuesEqual, fv_.UnisEqual):
        ctx.raises(AssertionError, lambda: cls(), 'no paths')
        ctx.raises(AssertionError, lambda: cls(u'a'), 'one path')
    for c in ({'minimum': 2}, {'minimum': 3, 'maximum': 2}, {'minimum': -1}, {'maximum': 0}, {'minimum': -2, 'maximum': -1}):
        ctx.raises(TypeError, lambda: fv_.HasBetween(**c), 'nonsensical range', c)
    fv_.HasBetween(minimum=0), fv_.HasBetween(minimum=0, maximum=0)
    for v in (fv_.HasAtLeast(), fv_.HasAtMost(), fv_.HasBetween()):
        ctx.raises(AssertionError, lambda: v(fl.String(u'abc'), None), 'length of a scalar')
    ctx.raises(TypeError, lambda: fv_.NotDuplicated()(fl.String(u'x'), None), 'NotDuplicated without a parent')
    for n in (0, 1, 5):
        ctx.same(fv_.HasAtLeast(minimum=0)(fl.List.of(fl.String)([u'a'] * n), None), True, 'minimum 0')
    ctx.same(fv_.ValueIn()(fl.String(u'x'), None), False, 'no options')
    ctx.same(fv_.ValueIn(())(fl.String(u'x'), None), False, 'no options')
    ctx.same(fv_.ShorterThan()(fl.String(u''), None), True, 'default maxlength')
    ctx.same(fv_.ShorterThan()(fl.String(u'x'), None), False, 'default maxlength')
    ctx.same(fv_.LongerThan()(fl.String(u''), None), True, 'default minlength')
    for cls, u, kept in ((fl.String, u' ', u''), (fl.String.using(strip=False), u' ', u' '), (fl.String.using(strip=False), u'\t\n', u'\t\n'),
                         (fl.Integer, u' ', u' '), (fl.Integer, u' x', u' x'), (fl.Boolean, u' ', u' '), (fl.Date.using(strip=False), u'\n', u'\n')):
        el = cls(u)
        ctx.eq(el.u, kept, 'text')
        ctx.same(fv_.Present()(el, None), kept != u'', 'white space is present', repr((cls, u)))
    nan = fl.Float(u'nan')
    for v in (fv_.ValueLessThan(1), fv_.ValueAtMost(1), fv_.ValueGreaterThan(1), fv_.ValueAtLeast(1), fv_.ValueBetween(0, 2),
              fv_.ValueBetween(0, 2, inclusive=False), fv_.ValueIn([1.0])):
        ctx.same(v(nan, None), False, 'no number is within bounds', repr(v))
    # a falsy message silences but does not accept
    el = fl.String(u'')
    ctx.same(fv_.Present(missing=None)(el, None), False, 'silenced')
    ctx.eq(el.errors, [], 'silenced')
    # missing elements
    el = fl.Dict.of(fl.String.named(u'a'), fl.String.named(u'b'))()
    ctx.raises(LookupError, lambda: fv_.ValuesEqual(u'a', u'nope')(el, None), 'missing path')


def whole_lists(ctx, rng):
    """NotDuplicated and the others validate the members of one list."""
    for _ in xrange(150):
        values = [rng.choice((u'a', u'b', u'c', u'd', u' a', u'')) for _ in xrange(rng.randrange(0, 8))]
        lo, hi = sorted((rng.randrange(0, 8), rng.randrange(0, 8)))
        kind = rng.choice((fl.List, fl.Array))
        el = kind.named(u'l').using(validators=[fv_.HasBetween(minimum=lo, maximum=hi)], prune_empty=False, optional=False).of(
            fl.String.using(validators=[fv_.NotDuplicated(failure=u'%(position)s'), fv_.ShorterThan(1)], optional=False))(values)
        texts = [v.strip() for v in values]
        bad = [t in texts[:i] for i, t in enumerate(texts)]
        got = el.validate()
        for i, m in enumerate(el):
            want = [unicode(i + 1)] if bad[i] else []
            ctx.eq(m.errors, want, 'errors of members', repr(values))
            ctx.eq(bool(m.valid), not bad[i], 'validity of members', repr(values))
        ctx.check(len(el.errors) == (0 if lo <= len(el) <= hi else 1), 'errors of the list', (repr(values), lo, hi))
        ctx.eq(bool(got), bool(not any(bad) and lo <= len(el) <= hi), 'verdict', repr((values, lo, hi)))


def base(ctx, rng):
    """A validator that does not say how accepts nothing."""
    class Unfinished(fv_.Validator):
        label = u'x'
    for cls in (fv_.Validator, Unfinished):
        for el in (fl.String(u'x'), fl.String(), fl.Integer(5), fl.List.of(fl.String)([u'a'])):
            got = cls().validate(el, None)
            ctx.check(got is False and not el.errors, 'a validator without validate()', repr(got))
            ctx.check(cls()(el, None) is False, 'a validator is called as validate()')
            el = type(el).using(validators=[cls()])(el.value or u'x')
            ctx.check(el.validate() is False, 'a validator without validate()')


def nested_lists(ctx, rng):
    """The siblings of a member are those of its own sequence, wherever that is."""
    for _ in xrange(120):
        name = rng.choice((None, None, u'inner'))
        kind = rng.choice((fl.List, fl.Array, fl.JoinedString, fl.MultiValue))
        member = fl.String.named(rng.choice((None, u'm'))).using(validators=[fv_.NotDuplicated(failure=u'%(position)s of %(container_label)s')])
        inner = kind.named(name).using(prune_empty=False).of(member)
        outer = rng.choice(('list', 'list of dicts', 'slots'))
        if outer == 'list':
            schema = fl.List.named(rng.choice((None, u'outer'))).of(inner)
        elif outer == 'slots':
            schema = fl.List.of(fl.List.of(inner))
        else:
            inner = inner.named(name or u'k')
            schema = fl.List.of(fl.Dict.of(inner, fl.String.named(u'other')))
        rows = [[rng.choice((u'a', u'b', u'c')) for _ in xrange(rng.randrange(0, 4))] for _ in xrange(rng.randrange(1, 4))]
        if outer == 'list':
            el = schema(rows)
            inners = list(el)
        elif outer == 'slots':
            el = schema([rows[:1], rows[1:]])
            inners = list(el[0]) + list(el[1])
        else:
            el = schema([{inner.name: row, u'other': u'a'} for row in rows])
            inners = [d[inner.name] for d in el]
        el.validate()
        for row, got in zip(rows, inners):
            want = [[u'%d of %s' % (i + 1, inner.name)] if v in row[:i] else [] for i, v in enumerate(row)]
            ctx.eq([m.errors for m in got], want, 'errors of members of inner sequences', repr((schema, outer, kind, rows)))
            ctx.count('inner members', len(row))


FIXED = {'nested lists': nested_lists, 'base': base, 'arguments': arguments, 'whole_lists': whole_lists}
