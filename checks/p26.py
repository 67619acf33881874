# -*- coding: utf-8 -*-
"""P26: the shared utilities against independent models."""
import cPickle
import collections
import copy
import itertools
import pickle
import re

from flatland import util
from flatland.util import (adict, as_mapping, assignable_class_property, assignable_property, autodocument_from_superclasses, keyslice_pairs, lazy_property, luhn10,
                           Maybe, named_int_factory, re_ucompile, re_uescape, symbol, to_pairs)
from fv import gen

CASES = {'quick': 900, 'thorough': 60000}
RULE = '''A case draws inputs for every utility: pairs in each dict-like form (dict subclasses, keys() with indexing, iteritems() of duplicates,
namedtuples, iterators of pairs), include/omit/rename/key combinations of hashable keys, integers of up to 400 digits with their check digits and
single-digit errors, texts of any characters alone and inside other texts, nested symbol structures through pickle, cPickle and copy, ternary
expressions of up to 6 operands and histories of get, assign and delete on several instances of classes with assignable properties; each result
is compared with a model. Non-trivial: distinct (utility, input).'''
ASSUMPTIONS = ['An empty include or omit counts as not supplied, as the test suite pins down.', 'Symbol names are byte strings.']
REQUIRE = {'nontrivial': 5000, 'pairs': 1300, 'slices': 1300, 'numbers': 15000, 'numbers passing': 500, 'texts': 1300, 'other texts': 10000,
           'ternary': 4000, 'symbols': 14000, 'property steps': 10000, 'computed': 4000, 'assigned': 2500, 'deleted': 400, 'exhaustive characters': 60000}

KEYS = (u'a', u'b', u'c', 'a', u'\xe9', u'', u'_', 1, 2, None, (1, u'x'), True, u'ab', u'A', -1, 1.5)


# ---------------------------------------------------------------- to_pairs

class Keyed(object):
    def __init__(self, pairs, iterator):
        self.d, self.iterator = collections.OrderedDict(pairs), iterator

    def keys(self):
        return iter(list(self.d)) if self.iterator else list(self.d)

    def __getitem__(self, key):
        return self.d[key]


class Multi(object):
    """Items may repeat, and indexing finds one of them."""
    def __init__(self, pairs):
        self.pairs = list(pairs)

    def iteritems(self):
        return iter(self.pairs)

    def items(self):
        return list(self.pairs)

    def keys(self):
        return [k for k, _ in self.pairs]

    def __getitem__(self, key):
        return dict(self.pairs)[key]

    def __iter__(self):
        return iter(self.keys())


class Sub(dict):
    pass


class Renamer(dict):
    """An override of indexing that only keys() users would see."""


def dictlike(rng, pairs):
    """(what, the dict-like, expected pairs, order significant)"""
    unique = list(collections.OrderedDict(pairs).items())
    k = rng.randrange(11)
    if k == 0:
        return 'dict', dict(pairs), unique, False
    if k == 1:
        return 'OrderedDict', collections.OrderedDict(pairs), unique, True
    if k == 2:
        return 'subclass', Sub(pairs), unique, False
    if k == 3:
        return 'keys', Keyed(pairs, False), unique, True
    if k == 4:
        return 'iterating keys', Keyed(pairs, True), unique, True
    if k == 5:
        return 'items', Multi(pairs), pairs, True
    if k == 6:
        n = rng.randrange(1, 5)
        values = [v for _, v in pairs][:n] or [0]
        names = ['f%d' % i for i in range(len(values))]
        return 'namedtuple', collections.namedtuple('N', names)(*values), list(zip(names, values)), True
    if k == 7:
        return 'list', list(pairs), pairs, True
    if k == 8:
        return 'tuple of lists', tuple([a, b] for a, b in pairs), pairs, True
    if k == 9:
        return 'generator', (p for p in list(pairs)), pairs, True
    return 'defaultdict', collections.defaultdict(int, pairs), unique, False


def pairs(ctx, rng):
    data = [(rng.choice(KEYS), rng.randrange(9)) for _ in range(rng.choice((0, 1, 2, 3, 5, 9)))]
    what, source, want, ordered = dictlike(rng, data)
    ctx.count('pairs')
    ctx.nontrivial((what, repr(data)))
    got = [tuple(p) for p in to_pairs(source)]
    if ordered:
        ctx.check(got == want and map(type, got) == map(type, want), 'to_pairs yields the items in order', lambda: u'%s: %r, expected %r' % (what, got, want))
    else:
        ctx.check(len(got) == len(want) and dict(got) == dict(want), 'to_pairs yields the items', lambda: u'%s: %r, expected %r' % (what, got, want))
    if what in ('list', 'tuple of lists', 'generator') and data:
        bad = [data[0][:1]], [data[0] + (1,)], [5]
        ctx.raises((ValueError, TypeError), lambda: list(to_pairs(rng.choice(bad))), 'what is not a pair is refused')


# ---------------------------------------------------------------- keyslice

KEYFUNCS = (None, None, lambda k: k, lambda k: u'%s' % (k,), lambda k: (k, 1), lambda k: u'pre_%s' % (k,),
            lambda k: k.upper() if isinstance(k, basestring) else k, lambda k: repr(k)[-1:])


def model_slice(data, include, omit, rename, key):
    out = []
    for k, v in data:
        if key is not None:
            k = key(k)
        target = [b for a, b in rename if a == k]
        if target:
            out.append((target[-1], v))
        elif include:
            if any(k == i for i in include):
                out.append((k, v))
        elif not any(k == o for o in omit or ()):
            out.append((k, v))
    return out


def slices(ctx, rng):
    data = [(rng.choice(KEYS), object() if gen.chance(rng, .7) else rng.choice((None, False, 0, u'', u'a', [], {}, Maybe)))
            for _ in range(rng.choice((0, 1, 2, 4, 8, 12)))]
    key = rng.choice(KEYFUNCS)
    pool = [k if key is None or gen.chance(rng, .3) else key(k) for k in KEYS]
    kw, include, omit, rename = {}, None, None, []
    if gen.chance(rng, .4):
        include = [rng.choice(pool) for _ in range(rng.randrange(4))]
        kw['include'] = rng.choice((list, tuple, set, iter))(include) if include else []
    elif gen.chance(rng, .6):
        omit = [rng.choice(pool) for _ in range(rng.randrange(4))]
        kw['omit'] = rng.choice((list, tuple, set, iter))(omit) if omit else ()
    if gen.chance(rng, .5):
        rename = [(rng.choice(pool), rng.choice(KEYS + (u'new',))) for _ in range(rng.randrange(4))]
        kw['rename'] = (dict if gen.chance(rng, .5) else list if gen.chance(rng, .5) else collections.OrderedDict)(rename)
    if key is not None or gen.chance(rng, .2):
        kw['key'] = key
    want = model_slice(data, include, omit, rename, key)
    source = (p for p in data) if gen.chance(rng, .4) else data if gen.chance(rng, .5) else tuple(data)
    ctx.count('slices')
    ctx.nontrivial(('slice', [k for k, _ in data], include, omit, rename, KEYFUNCS.index(key)))
    got = list(keyslice_pairs(source, **kw))
    ctx.check([(gen.fz(k), id(v)) for k, v in got] == [(gen.fz(k), id(v)) for k, v in want], 'keyslice_pairs filters, renames and maps in order',
              lambda: u'%r of %r: %r, expected %r' % (kw, [k for k, _ in data], [k for k, _ in got], [k for k, _ in want]))
    if include and data:
        ctx.raises(TypeError, lambda: list(keyslice_pairs(data, include=[1], omit=[2])), 'include and omit together are refused')
    if not rename:
        for kw in (dict(include=[], omit=[pool[0]]), dict(include=None, omit=(pool[0],)), dict(include=(), omit={pool[0]})):
            got = list(keyslice_pairs(data, **kw))
            ctx.check([id(v) for _, v in got] == [id(v) for k, v in data if k != pool[0]], 'an empty include selects nothing special',
                      lambda: u'%r of %r: %r' % (kw, data, got))


# ---------------------------------------------------------------- luhn

def luhn(n):
    """By the digits of the decimal form, from the right."""
    total = 0
    for i, c in enumerate(reversed(str(abs(n)).rstrip('L'))):
        d = ord(c) - 48
        if i % 2:
            d = (0, 2, 4, 6, 8, 1, 3, 5, 7, 9)[d]
        total += d
    return total % 10 == 0


def numbers(ctx, rng):
    n = rng.choice((rng.randrange(100), rng.randrange(10 ** 16), rng.randrange(10 ** rng.randrange(1, 30)), rng.randrange(10 ** 400),
                    4111111111111111, 10 ** rng.randrange(20), 2 ** 31, 2 ** 63 - 1))
    if gen.chance(rng, .25):
        n = -n
    if gen.chance(rng, .3):
        n = long(n)
    ctx.nontrivial(('luhn', n))

    def one(n):
        ctx.count('numbers')
        got, want = luhn10(n), luhn(n)
        ctx.check(got is want, 'luhn10 is the Luhn checksum', lambda: u'%d: %r' % (n, got))
        if got:
            ctx.count('numbers passing')
        return got
    one(n)
    base = abs(n) // 10 * 10
    passing = [d for d in range(10) if one(base + d)]
    ctx.eq(len(passing), 1, 'exactly one check digit passes', u'%d' % base)
    good = base + passing[0]
    digits = list(str(good).rstrip('L'))
    i = rng.randrange(len(digits))
    digits[i] = str((int(digits[i]) + rng.randrange(1, 10)) % 10)
    ctx.check(not luhn10(int(''.join(digits))), 'a single wrong digit fails', lambda: u'%d %d' % (good, i))


# ---------------------------------------------------------------- texts

def texts(ctx, rng):
    t = gen.text(rng, 12, True)
    if gen.chance(rng, .2):
        t = rng.choice((u'', u'\x00', u'\x001', u'\\', u'\\d', u'(?x)', u'[a-z]', u'\\\\', u'a{2}', u'^$', u'\U0001F600', u'#c', u'\n ',
                        u'\u0130', u'\\1', u'\\u0041', u'\\x41'))
    e = re_uescape(t)
    ctx.count('texts')
    ctx.nontrivial(('text', t))
    ctx.check(type(e) is unicode, 're_uescape returns text')
    for flags in (0, re.UNICODE, re.VERBOSE, re.DOTALL | re.MULTILINE | re.UNICODE):
        pattern = re.compile(u'(?:%s)\\Z' % e, flags)
        ctx.check(pattern.match(t) is not None, 're_uescape matches its text', lambda: u'%r as %r' % (t, e))
        for _ in range(2):
            other = mutated(rng, t)
            ctx.count('other texts')
            ctx.check((pattern.match(other) is not None) == (other == t), 're_uescape matches no other text', lambda: u'%r as %r: %r' % (t, e, other))
    pre, post = gen.text(rng, 5), gen.text(rng, 5)
    found = re_ucompile(e).search(pre + t + post)
    ctx.check(found is not None and found.group() == t and found.start() == (pre + t + post).find(t), 're_uescape finds its text within others',
              lambda: u'%r in %r' % (t, pre + t + post))
    two = gen.text(rng, 5)
    ctx.check(re.match(u'(?:%s)(?:%s)\\Z' % (e, re_uescape(two)), t + two, re.UNICODE) is not None, 'escaped texts can be joined')
    ctx.check(re_ucompile(u'\\w\\Z').match(u'\xe9') is not None, 're_ucompile compiles for unicode')


def mutated(rng, t):
    if not t or gen.chance(rng, .3):
        return rng.choice((t + rng.choice((u'a', u'\n', u'\x00')), u'', u'x' + t, t * 2, t.upper(), t[1:], t[:-1], t.strip()))
    i = rng.randrange(len(t))
    return t[:i] + rng.choice((u'a', u'.', u'\\', u'0', u'', u'\x00', unichr((ord(t[i]) + 1) % 0xd800), gen.text(rng, 2))) + t[i + 1:]


def characters(ctx, rng):
    """Every character of the basic plane, and pairs around it."""
    for i in list(range(0, 0xd800)) + list(range(0xe000, 0x11000)):
        c = unichr(i)
        ctx.count('exhaustive characters')
        if not re.match(re_uescape(c) + u'\\Z', c, re.UNICODE):
            ctx.fail('re_uescape matches its text', u'%r' % c)
        if i < 0x300:
            for t in (c + u'1', u'1' + c, c + c, u'\\' + c, c + u'\\', c + u'{2}', u'[' + c + u']'):
                ctx.check(re.match(re_uescape(t) + u'\\Z', t, re.UNICODE) is not None, 're_uescape matches its text', u'%r' % t)
                ctx.check(re.match(re_uescape(t) + u'\\Z', t + c, re.UNICODE) is None, 're_uescape matches no other text', u'%r' % t)


def small_numbers(ctx, rng):
    """Every number below 20000, and near powers of ten and of two."""
    for n in itertools.chain(range(-300, 20000), (10 ** k + d for k in range(5, 60) for d in (-2, -1, 0, 1, 2)),
                             (2 ** k + d for k in range(15, 130) for d in (-2, -1, 0, 1, 2))):
        ctx.count('numbers')
        if luhn10(n) is not luhn(n):
            ctx.fail('luhn10 is the Luhn checksum', u'%d' % n)
    ctx.eq((luhn10(True), luhn10(False), luhn10(0)), (False, True, True), 'booleans and zero')


# ---------------------------------------------------------------- Maybe

RANK = {False: 0, None: 1, True: 2}


def code(x):
    return 1 if x is Maybe else RANK[x]


def decode(r):
    return (False, Maybe, True)[r]


def ternary(ctx, rng):
    values = [rng.choice((True, False, Maybe, Maybe)) for _ in range(rng.randrange(2, 7))]
    ops = [rng.choice('&|') for _ in values[1:]]
    ctx.nontrivial(('ternary', map(code, values), ops))
    acc, want = values[0], code(values[0])
    back = values[0]
    for op, v in zip(ops, values[1:]):
        ctx.count('ternary')
        acc = acc & v if op == '&' else acc | v
        back = v & back if op == '&' else v | back
        want = min(want, code(v)) if op == '&' else max(want, code(v))
        ctx.same(acc, decode(want), 'three-valued logic', u'%r %r' % (values, ops))
        ctx.same(back, decode(want), 'three-valued logic, operands reversed', u'%r %r' % (values, ops))
    a, b = values[:2]
    ctx.same(Maybe.not_(a), decode(2 - code(a)), 'not_')
    ctx.same(Maybe.truth(a), code(a) > 0, 'truth')
    # De Morgan
    ctx.same(Maybe.not_(a & b), Maybe.not_(a) | Maybe.not_(b), 'De Morgan')
    x = rng.choice((a & b, a | b))
    acc = x
    acc &= a
    ctx.same(acc, decode(min(code(x), code(a))), 'in-place and')
    acc = x
    acc |= a
    ctx.same(acc, decode(max(code(x), code(a))), 'in-place or')
    foreign = rng.choice((1, 0, None, u'x', 2.0, [], object(), -1, ()))
    for fn in (lambda: Maybe & foreign, lambda: foreign & Maybe, lambda: Maybe | foreign, lambda: foreign | Maybe,
               lambda: Maybe.not_(foreign), lambda: Maybe.truth(foreign)):
        ctx.raises(TypeError, fn, 'what is no truth value is refused', u'%r' % (foreign,))
    ctx.raises(NotImplementedError, lambda: bool(Maybe), 'Maybe has no boolean value')
    ctx.eq((str(Maybe), repr(Maybe)), ('Maybe', 'Maybe'), 'the name of Maybe')


# ---------------------------------------------------------------- symbols

def sym_name(rng):
    return rng.choice(('foo', 'Unspecified', 'Unset', 'Skip', '', 'a b', 'x' * 40, '\xff\x00', 'name', '__class__', 'None')) \
        if gen.chance(rng, .5) else ''.join(rng.choice('abc_%\\\'" \n\xe9') for _ in range(rng.randrange(1, 6)))


def symbols(ctx, rng):
    names = [sym_name(rng) for _ in range(3)]
    # ... and one that differs in little
    n = rng.choice(names)
    names.append(rng.choice((n.upper, n.lower, n.swapcase, n.strip, lambda: n + ' ', lambda: ' ' + n, lambda: n + '\x00', lambda: n[:-1], lambda: n + n[-1:],
                             lambda: n.replace('_', ' '), lambda: n[::-1]))())
    for n in names:
        ctx.nontrivial(('symbol', n))
        s = symbol(n)
        ctx.same(symbol(''.join(list(n))), s, 'one name is one symbol', repr(n).decode('latin-1'))
        ctx.eq((s.name, repr(s), str(s)), (n, n, n), 'a symbol shows its name')
        made = [('copy', copy.copy), ('deepcopy', copy.deepcopy)]
        for module in (pickle, cPickle):
            for protocol in (0, 1, 2):
                made.append(('%s %d' % (module.__name__, protocol), lambda o, m=module, p=protocol: m.loads(m.dumps(o, p))))
        for what, fn in made:
            ctx.count('symbols')
            ctx.same(fn(s), s, 'a symbol survives %s' % what, repr(n).decode('latin-1'))
            deep = {u'k': [s, (s, {s: s})], 1: s}
            if what != 'copy':
                got = fn(deep)
                ctx.check(got == deep and got[u'k'][0] is s and got[u'k'][1][1][s] is s and got[1] is s, 'symbols survive %s within containers' % what)
        ctx.eq(s == symbol(n), True, 'equality')
        ctx.eq(hash(s), hash(symbol(n)), 'hash')
    for a in names:
        for b in names:
            ctx.check((symbol(a) is symbol(b)) == (a == b), 'different names are different symbols', repr((a, b)).decode('latin-1'))
    ctx.same(symbol('Unspecified'), util.Unspecified, 'Unspecified')


# ---------------------------------------------------------------- properties

def properties(ctx, rng):
    calls = []

    class Base(object):
        def __init__(self, seed):
            self.seed = seed

        @assignable_property
        def plain(self):
            """plain doc"""
            calls.append(('plain', self))
            return ('plain', self.seed)

        @assignable_property
        def loud(self):
            calls.append(('loud', self))
            return (self.plain, 'loud')

        def _other(self):
            calls.append(('renamed', self))
            return ('renamed', self.seed)
        renamed = assignable_property(_other, name='renamed', doc='renamed doc')

        @assignable_class_property
        def both(self, cls):
            calls.append(('both', self))
            return ('both', None if self is None else self.seed, cls.__name__)

        @lazy_property
        def lazy(self):
            calls.append(('lazy', self))
            return None if self.seed % 3 == 0 else ('lazy', self.seed)

    class Derived(Base):
        @assignable_property
        def plain(self):
            calls.append(('plain', self))
            return ('derived', self.seed)

    objects = [Base(1), Base(2), Derived(3), Derived(4)]
    assigned = [{} for _ in objects]
    history = []
    for _ in range(rng.randrange(10, 35)):
        i = rng.randrange(4)
        o, own = objects[i], assigned[i]
        name = rng.choice(('plain', 'loud', 'renamed', 'both', 'lazy'))
        act = rng.choice(('get', 'get', 'set', 'del'))
        history.append((i, name, act))
        ctx.count('property steps')
        del calls[:]
        if act == 'set':
            v = rng.choice((None, False, 0, u'', u'x', ('plain', 9), object()))
            setattr(o, name, v)
            own[name] = v
            ctx.count('assigned')
            ctx.check(not calls, 'assignment computes nothing')
            continue
        if act == 'del':
            if name in own:
                ctx.count('deleted')
                delattr(o, name)
                del own[name]
            elif name != 'lazy':
                ctx.raises(AttributeError, lambda: delattr(o, name), 'deleting what is not assigned is refused', u'%r' % history)
            continue
        got = getattr(o, name)
        if name in own:
            ctx.check(got is own[name] and not calls, 'an assigned property has that value', lambda: u'%r: %r' % (history, got))
            continue
        seed, plain = o.seed, ('derived' if isinstance(o, Derived) else 'plain', o.seed)
        want = {'plain': plain, 'loud': None, 'renamed': ('renamed', seed), 'both': ('both', seed, type(o).__name__), 'lazy': None if seed % 3 == 0 else ('lazy', seed)}[name]
        if name == 'loud':
            base = own['plain'] if 'plain' in own else plain
            want = (base, 'loud')
        ctx.count('computed')
        ctx.eq(got, want, 'a property is computed until assigned', u'%r' % history)
        ctx.check(calls and calls[0] == (name, o), 'for the instance asked', lambda: u'%r: %r' % (history, calls))
        if name == 'lazy':
            own[name] = got
        else:
            del calls[:]
            o.seed += 10
            if name in ('plain', 'renamed'):
                ctx.eq(getattr(o, name), (want[0], o.seed), 'every time anew')
    ctx.nontrivial(('history', history))
    # at the class
    for cls in (Base, Derived):
        del calls[:]
        ctx.eq(cls.both, ('both', None, cls.__name__), 'a class property on the class')
        ctx.same(calls[0][1], None, 'is not given an instance')
        ctx.same(cls.plain, None, 'an assignable property on the class is None')
    ctx.eq(Base.__dict__['plain'].__doc__, 'plain doc', 'documentation is kept')
    ctx.eq(Base.__dict__['renamed'].__doc__, 'renamed doc', 'documentation can be given')


def views(ctx, rng):
    """as_mapping, adict, named integers."""
    class Thing(object):
        c = 1

        @property
        def computed(self):
            return self.x + 1

        @property
        def broken(self):
            raise AttributeError('no')
    t = Thing()
    t.x = 5
    m = as_mapping(t)
    ctx.eq((m['x'], m['computed'], m['c']), (5, 6, 1), 'as_mapping reads attributes')
    ctx.eq(('x' in m, 'computed' in m, 'zz' in m, 'broken' in m), (True, True, False, False), 'as_mapping membership')
    for k in ('zz', 'broken'):
        ctx.raises(KeyError, lambda: m[k], 'as_mapping misses raise KeyError')
    ctx.check(set(('x', 'computed', 'c')) <= set(m), 'as_mapping iterates over the names')
    t.y = 1
    ctx.eq('y' in m, True, 'as_mapping is a live view')
    ctx.eq(u'%(x)s-%(computed)s' % m, u'5-6', 'as_mapping formats')
    d = adict(a=1)
    d['b'] = 2
    ctx.eq((d.a, d.b, d['a']), (1, 2, 1), 'adict')
    ctx.raises(AttributeError, lambda: d.c, 'adict misses raise AttributeError')
    for name, value in (('Foo', 1), ('Bar', 0), ('Skip', -7), ('a b', 10 ** 6)):
        n = named_int_factory(name, value, doc='d')
        ctx.eq((n == value, int(n), str(n), repr(n), n + 1, bool(n), n.__doc__), (True, value, name, name, value + 1, bool(value), 'd'), 'named integers')
    for name in util.__all__:
        ctx.check(getattr(util, name, None) is not None, 'every public name of flatland.util is there', name.decode('ascii'))


def documents(ctx, rng):
    """Undocumented methods get the text of the first base that has one, and
    nothing else changes."""
    def bare(self):
        return 1

    def own(self):
        "own"

    class First(object):
        def a(self):
            pass

        def b(self):
            "first b"

        def own(self):
            "first own"
        value = 3

    class Second(object):
        def a(self):
            "second a"

        def b(self):
            "second b"

        def bare(self):
            "second bare"
        bare.__module__ = 'elsewhere'

    class C(First, Second):
        def a(self):
            return 'a'

        def b(self):
            return 'b'

        def nowhere(self):
            return 'n'
        value = 4
    bare.__module__ = 'elsewhere'
    C.bare, C.own = bare, own
    before = dict(C.__dict__)
    ctx.same(autodocument_from_superclasses(C), C, 'the class itself')
    ctx.eq([C.a.__doc__, C.b.__doc__, C.bare.__doc__, C.own.__doc__, C.nowhere.__doc__],
           ['second a', 'first b', 'second bare', 'own', None], 'text of the first base that has one')
    ctx.eq([First.a.__doc__, First.own.__doc__, Second.b.__doc__], [None, 'first own', 'second b'], 'the bases stay as they are')
    ctx.check(sorted(before) == sorted(C.__dict__) and all(C.__dict__[k] is before[k] for k in before), 'nothing else changes')
    ctx.eq((C().a(), C().b(), C().bare(), C.value), ('a', 'b', 1, 4), 'nothing else changes')
    ctx.count('documented classes')


def case(ctx, rng):
    for _ in range(3):
        pairs(ctx, rng)
        slices(ctx, rng)
        ternary(ctx, rng)
        texts(ctx, rng)
    numbers(ctx, rng)
    symbols(ctx, rng)
    properties(ctx, rng)


FIXED = {'documents': documents, 'characters': characters, 'small numbers': small_numbers, 'views': views}
