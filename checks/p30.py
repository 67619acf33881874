# -*- coding: utf-8 -*-
"""P30: equality, emptiness, truth, escapes and aggregates from the data of the leaves."""
import datetime
import decimal

import flatland as fl
from fv import gen
from javax.xml.parsers import DocumentBuilderFactory
from java.io import StringReader
from org.xml.sax import InputSource

CASES = {'quick': 700, 'thorough': 26000}
RULE = '''A case draws a schema with values, some unsuitable or assigned to value or u alone, and pairs it with equal, nearly equal and unrelated elements:
of the same schema with the same or one altered leaf, of a schema with a kind swapped (List, Array; Integer, Long; Dict, SparseDict; formats), of any other schema,
itself, validated, with errors, renamed and reparented; and with native values and other objects. ==, !=, in, hash, bool, is_empty, value and u are
compared with a model on the leaves, x and xa with what Java's XML parser makes of them. Non-trivial: distinct (element, element) pairs.'''
ASSUMPTIONS = ['NaN is unequal to itself, and elements with it may be so too.', 'Values are comparable: datetimes with and without time zones are not mixed.',
               'Within lists and dicts, Jython compares dict subclasses as dicts, so that is observed for other elements only.']
REQUIRE = {'nontrivial': 1400, 'pairs': 3800, 'equal pairs': 2000, 'unequal pairs': 1500, 'equal values, other text': 300, 'other objects': 8000, 'parsed': 8000, 'aggregates': 1500,
           'empty': 500, 'true': 700, 'false': 800, 'unhashable': 1500, 'validated': 330}


# ---------------------------------------------------------------- the model

def data(el):
    """(value, u) from the leaves."""
    if isinstance(el, fl.JoinedString):
        t = el.separator.join(data(m)[1] for m in el)
        return t, t
    if isinstance(el, fl.MultiValue):
        return data(el[0]) if len(el) else (None, u'')
    if isinstance(el, fl.DateYYYYMMDD):
        return el.value, el.u
    if isinstance(el, list):
        both = [data(m) for m in el]
        return [v for v, _ in both], u'[%s]' % u', '.join(shown(m, u) for m, (_, u) in zip(el, both))
    if isinstance(el, dict):
        both = dict((k, data(m)) for k, m in el.items())
        return (dict((k, v) for k, (v, _) in both.items()),
                u'{%s}' % u', '.join(sorted(literal(k) + u': ' + shown(el[k], u) for k, (_, u) in both.items())))
    return el.value, el.u


def shown(el, u):
    return u if isinstance(el, fl.Container) else literal(u)


def literal(t):
    """As in u'...', characters that a byte does not hold as they are."""
    return repr(t).decode('raw_unicode_escape')


def has_nan(v):
    if isinstance(v, dict):
        return any(has_nan(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(has_nan(x) for x in v)
    return v != v


def blank(el):
    """Whether the element is empty."""
    if isinstance(el, fl.DateYYYYMMDD):
        return all(blank(el[k]) for k in el)
    if isinstance(el, list):
        return len(el) == 0
    if isinstance(el, fl.SparseDict):
        return len(el) == 0
    if isinstance(el, dict):
        return False
    if isinstance(el, fl.String):
        return el.value in (None, u'') and el.u == u''
    return el.value is None and el.u == u''


# ---------------------------------------------------------------- pairs

SWAP = {'List': 'Array', 'Array': 'List', 'Integer': 'Long', 'Long': 'Integer', 'Dict': 'SparseDict', 'SparseDict': 'Dict', 'Form': 'Dict', 'Float': 'Decimal', 'MultiValue': 'Array'}


def swapped(rng, s):
    kids = [swapped(rng, k) for k in s.kids]
    kind, opts = s.kind, dict(s.opts)
    if kind in SWAP and gen.chance(rng, .6):
        new = SWAP[kind]
        if not (new == 'Array' and not kids[0].scalar):
            kind = new
            if kind not in ('SparseDict',):
                opts.pop('minimum_fields', None)
    if kind in ('Float', 'Decimal') and gen.chance(rng, .5):
        opts['format'] = rng.choice((u'%0.2f', u'%f'))
    return gen.Spec(kind, s.name if gen.chance(rng, .8) or s.name is None else s.name, kids, **opts)


def disturb(rng, el):
    """Assign to value or u of a leaf alone."""
    leaves = [e for e in gen.elements(el) if not isinstance(e, (list, dict))]
    if leaves:
        e = rng.choice(leaves)
        if gen.chance(rng, .5):
            e.u = rng.choice((u'', u'x', u'0', e.u + u' ', u'1'))
        else:
            e.value = rng.choice((None, u'', u'x', e.value) if isinstance(e, fl.String) else (None, 0, u'', 1, u'x', e.value, 2.5))


def make(rng, s, value):
    el = s.cls()
    try:
        el.set(value)
    except Exception:
        pass
    return el


def compare(ctx, a, b):
    ctx.count('pairs')
    (va, ua), (vb, ub) = data(a), data(b)
    try:
        want = bool(va == vb) and ua == ub
    except Exception:
        return
    what = lambda: u'%r %r and %r %r' % (va, ua, vb, ub)
    if has_nan(va) or has_nan(vb):
        ctx.check((a == b) is not (a != b), 'never both equal and unequal', what)
        return
    ctx.seen('nontrivial', (type(a).__name__, type(b).__name__, repr(va), ua, repr(vb), ub))
    ctx.count('equal pairs' if want else 'unequal pairs')
    if va == vb and not want:
        ctx.count('equal values, other text')
    ctx.check((a == b) is want, 'equal exactly if value and u are', what)
    ctx.check((a != b) is (not want), 'unequal exactly if not equal', what)
    ctx.check((b == a) is want and (b != a) is (not want), 'equality is symmetric', what)
    # Jython compares dicts within containers as dicts
    if isinstance(a, dict) or isinstance(b, dict):
        return
    ctx.check((a in [b]) is want and (b in [a]) is want and ([a] == [b]) is want, 'equality within lists', what)
    ctx.check(({1: a} == {1: b}) is want and ((a,) != (b,)) is (not want), 'equality within containers', what)


class Other(object):
    value = None


class Duck(object):
    def __init__(self, value, u):
        self.value, self.u = value, u


class Half(object):
    def __init__(self, u):
        self.u = u


def others(ctx, rng, el):
    """Objects that are no elements."""
    v, u = data(el)
    objects = [v, u, None, 0, 1, True, False, u'', '', [], (), {}, Other(), Half(u), object(), type(el), fl.String, Duck(v, u), el.u.encode('utf-8'), 5.5, el.__class__, set(), len]
    if isinstance(el, list):
        objects += [list(el), tuple(el), [m.value for m in el], [m.u for m in el]]
    if isinstance(el, dict):
        objects += [dict(el), dict((k, m.value) for k, m in el.items())]
    for o in objects:
        ctx.count('other objects')
        got = (el == o, el != o, o == el, o != el)
        ctx.check(got == (False, True, False, True), 'never equal to what is no element', lambda: u'%r and %r: %r' % (el, o, got))


def single(ctx, rng, el):
    for e in gen.elements(el):
        v, u = data(e)
        ctx.count('aggregates')
        ctx.check(gen.fz(e.value) == gen.fz(v), 'value is the aggregate of the members', lambda: u'%r: %r, expected %r' % (type(e), e.value, v))
        ctx.check(e.u == u and isinstance(e.u, unicode), 'u is the aggregate of the members', lambda: u'%r: %r, expected %r' % (type(e), e.u, u))
        want = blank(e)
        ctx.count('empty' if want else 'not empty')
        ctx.check(e.is_empty is want, 'is_empty follows from the data', lambda: u'%r %r %r: %r' % (type(e), v, u, e.is_empty))
        if isinstance(e, (fl.JoinedString, fl.DateYYYYMMDD)) or not isinstance(e, (list, dict)):
            want = bool(v) and u != u''
        else:
            want = len(e) > 0
        ctx.count('true' if want else 'false')
        ctx.check(bool(e) is want, 'the truth of an element', lambda: u'%r %r %r: %r' % (type(e), v, u, bool(e)))
        ctx.count('unhashable')
        ctx.raises(TypeError, lambda: hash(e), 'elements are unhashable')
        if not has_nan(v):
            ctx.check((e == e) is True and (e != e) is False, 'equality is reflexive', lambda: u'%r' % (v,))
        escapes(ctx, e, u)


def xml_able(t):
    return all(c in u'\t\n\r' or u' ' <= c < u'\ud7ff' or u'\ue000' <= c <= u'\ufffd' or ord(c) > 0xffff for c in t)


FACTORY = DocumentBuilderFactory.newInstance()


def parse(doc):
    return FACTORY.newDocumentBuilder().parse(InputSource(StringReader(doc))).getDocumentElement()


def escapes(ctx, e, u):
    x, xa = e.x, e.xa
    ctx.check(isinstance(x, unicode) and isinstance(xa, unicode), 'x and xa are text')
    if not xml_able(u):
        return
    ctx.count('parsed')
    ctx.seen('texts parsed', u)
    try:
        root = parse(u'<a b="%s">%s</a>' % (xa, x))
    except:
        ctx.fail('x and xa are well-formed', u'%r: %r %r' % (u, x, xa))
    ctx.check(root.getTextContent() == u, 'an XML parser restores x', lambda: u'%r from %r: %r' % (u, x, root.getTextContent()))
    ctx.check(root.getAttribute(u'b') == u, 'an XML parser restores xa', lambda: u'%r from %r: %r' % (u, xa, root.getAttribute(u'b')))
    ctx.check(root.getChildNodes().getLength() <= 1 and root.getAttributes().getLength() == 1, 'x and xa introduce no markup', lambda: u'%r' % x)


# ---------------------------------------------------------------- cases

def case(ctx, rng):
    s = gen.spec(rng, depth=rng.choice((0, 1, 2, 2, 3)), root=True, width=3, plain=False) if gen.chance(rng, .75) else gen.scalar_spec(rng, u's')
    value = gen.good_value(rng, s, blank=rng.choice((.1, .5, 1)))
    a = make(rng, s, value)
    if gen.chance(rng, .3):
        gen.spoil_scalars(rng, a, s)
    if gen.chance(rng, .25):
        disturb(rng, a)
    ctx.log(u'%r' % s, a)
    ctx.sample(u'%r' % (data(a),))
    single(ctx, rng, a)
    others(ctx, rng, a)
    compare(ctx, a, a)
    for _ in range(2):
        b = make(rng, s, value)
        compare(ctx, a, b)
        compare(ctx, b, a)
        k = rng.randrange(4)
        if k == 0:
            gen.spoil_scalars(rng, b, s, .2)
        elif k == 1:
            disturb(rng, b)
        elif k == 2:
            b = make(rng, s, gen.good_value(rng, s))
        compare(ctx, a, b)
    t = swapped(rng, s)
    compare(ctx, a, make(rng, t, value))
    other = gen.spec(rng, depth=1, root=True, width=2)
    compare(ctx, a, make(rng, other, gen.good_value(rng, other)))
    kind = gen.scalar_spec(rng, u'x')
    c = make(rng, kind, rng.choice((a.u, a.value, u'', None, 0)))
    compare(ctx, a, c)
    single(ctx, rng, c)

    # the same data in other circumstances
    b = make(rng, s, value)
    same = make(rng, s, value)
    ctx.count('validated')
    for e in gen.elements(b):
        k = rng.randrange(6)
        if k == 0:
            e.add_error(u'wrong')
        elif k == 1:
            e.add_warning(u'careful')
        elif k == 2:
            e.valid = rng.choice((True, False))
        elif k == 3 and e is b:
            e.name = u'renamed'
        elif k == 4:
            e.label = u'other'
        elif k == 5:
            e.optional = True
    try:
        b.validate()
    except Exception:
        pass
    if b.parent is None:
        b.parent = fl.Dict.of(fl.String.named(u'q'))()
    va = data(b)[0]
    if not has_nan(va):
        ctx.check(b == same and same == b and not (b != same), 'validation, errors, names and parents do not matter', lambda: u'%r %r' % (data(b), data(same)))
    compare(ctx, a, b)


def known(ctx, rng):
    """Pairs on the edge."""
    I, S, F, B = fl.Integer, fl.String, fl.Float, fl.Boolean
    day = datetime.date(2004, 2, 29)
    for a, b, want in ((I(5), fl.Long(5), True), (I(5), S(u'5'), False), (I(u'x'), I(u'y'), False), (I(u'x'), I(u'x'), True), (I(), I(None), True), (I(), S(), True),
                       (I(), I(u''), True), (B(True), I(1), True), (B(False), B(), False), (F(5), I(5), False), (F.using(format=u'%i')(5), I(5), True),
                       (I.using(format=u'%02i')(5), I(5), False), (fl.List.of(I)([1]), fl.Array.of(I)([1]), True), (fl.List.of(I)(), fl.Array.of(S)(), True),
                       (fl.MultiValue.of(I)([1, 2]), I(1), True), (fl.MultiValue.of(I)([1, 2]), fl.MultiValue.of(I)([1, 3]), True), (fl.MultiValue.of(I)(), I(), True),
                       (fl.Date(day), fl.DateYYYYMMDD(day), True), (fl.DateYYYYMMDD(), fl.Date(), True), (fl.JoinedString([u'a', u'b']), S(u'a,b'), True),
                       (fl.Dict.of(I.named(u'a'))({u'a': 1}), fl.SparseDict.of(I.named(u'a'), I.named(u'b'))({u'a': 1}), True),
                       (fl.Dict.of(I.named(u'a'))(), fl.SparseDict.of(I.named(u'a'))(), False), (fl.Dict.of(I.named(u'a'))(), fl.Dict.of(I.named(u'b'))(), False),
                       (S.using(strip=False)(u' a'), S(u'a'), False), (S(u'a'), S(u'A'), False), (S(u''), S(None), False), (S(u'\xe9'), S(u'e\u0301'), False),
                       (F(0.0), F(-0.0), False), (I(0), I(), False)):
        ctx.check((a == b) is want and (b == a) is want and (a != b) is (not want) and (b != a) is (not want), 'equality of known pairs', lambda: u'%r and %r' % (a, b))
        ctx.count('pairs')
    for e, want in ((I(), True), (I(0), False), (I(u'x'), False), (S(), True), (S(u''), True), (S(u' '), True), (S.using(strip=False)(u' '), False), (B(False), False), (B(), True),
                    (B(u'x'), False), (fl.List.of(S)(), True), (fl.List.of(S)([u'']), False), (fl.List.of(S)([None]), False), (fl.MultiValue.of(S)([None]), False), (fl.Array.of(S)(), True),
                    (fl.Dict.of(S.named(u'a'))(), False), (fl.SparseDict.of(S.named(u'a'))(), True), (fl.SparseDict.of(S.named(u'a'))({u'a': None}), False),
                    (fl.SparseDict.of(S.named(u'a')).using(minimum_fields='required')(), False), (fl.DateYYYYMMDD(), True), (fl.DateYYYYMMDD(day), False), (fl.JoinedString(), True),
                    (fl.JoinedString(u'a'), False), (fl.Date(u''), True), (F(0), False), (fl.Enum.valued(u'a')(u'b'), False), (fl.Enum.valued(u'a')(), True)):
        ctx.check(e.is_empty is want, 'emptiness of known elements', lambda: u'%r: %r' % (e, e.is_empty))
        ctx.count('empty' if want else 'not empty')
    d = fl.DateYYYYMMDD()
    d[u'month'].set(u'x')
    ctx.check(d.is_empty is False, 'a compound with one part that is not empty is not')
    for e, want in ((I(), False), (I(0), False), (I(5), True), (I(u'x'), False), (S(u'a'), True), (S(u''), False), (B(True), True), (B(False), False), (F(0.0), False), (fl.DateYYYYMMDD(), False),
                    (fl.DateYYYYMMDD(day), True), (fl.Time(datetime.time(0, 0, 1)), True), (fl.MultiValue.of(I)([0]), True), (fl.MultiValue.of(I)(), False), (B.using(true=u'')(True), False)):
        ctx.check(bool(e) is want, 'truth of known elements', lambda: u'%r: %r' % (e, bool(e)))
    n = fl.Float(float('nan'))
    ctx.check((n == n) is not (n != n), 'NaN is one or the other')
    n = fl.Dict.of(S.named(u'a'), fl.List.named(u'b').of(I))({u'a': u'\xe9"\u4e2d', u'b': [1, None]})
    ctx.eq(n.u, u'{u\'a\': u\'\\xe9"\u4e2d\', u\'b\': [u\'1\', u\'\']}', 'the text of a Dict')
    ctx.eq(n.value, {u'a': u'\xe9"\u4e2d', u'b': [1, None]}, 'the value of a Dict')


def every_character(ctx, rng):
    """Each character of XML, alone and between others."""
    el = fl.String.using(strip=False)()
    chars = [unichr(c) for c in [9, 10, 13] + list(range(32, 0x600)) + list(range(0x2000, 0x2070)) + [0xd7fe, 0xe000, 0xfffd, 0x1f600]]
    for c in chars:
        for t in (c, u'a' + c + u'b', c + c, u'&' + c + u';', u'"' + c, u"'" + c, u'\r' + c, c + u'\n', u'  ' + c + u' '):
            el.set(t)
            escapes(ctx, el, t)


FIXED = {'known': known, 'characters': every_character}
