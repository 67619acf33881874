# -*- coding: utf-8 -*-
"""P13: expansion of messages against a declared world of names and translators."""
import __builtin__
import re

import flatland as fl
from flatland.validation import Validator
from flatland.validation.base import as_format_mapping
from fv import gen

CASES = {'quick': 5000, 'thorough': 150000}
RULE = '''A case places names at random sources (extra arguments, state item, state attribute, validator, element item, element attribute)
and translators at random places (state attribute or item, element or ancestor instance or class, builtins), then notes 1-6 errors and
warnings with random templates, plural triples, callables and counts; messages recorded, return values and the calls every translator and
callable received must be those of the declared precedence. Non-trivial: distinct (sources, places of translators, message form) worlds.'''
REQUIRE = {'nontrivial': 4000, 'notes': 12000, 'plural': 3000, 'singular forms': 250, 'plural forms': 1500, 'callables': 2500,
           'duplicates': 1500, 'translated': 5000, 'ungettext': 1500, 'names overridden': 4000, 'from ancestors': 800, 'from builtins': 400,
           'warnings': 4000, 'found by item': 800, 'found by attribute': 800}

KEYS = (u'alpha', u'beta', u'gamma', u'label', u'u', u'num')


class Template(unicode):
    pass


class Translator(object):
    """Records what it is asked and marks what it translates."""
    def __init__(self, name, plural):
        self.name, self.plural, self.calls = name, plural, []

    def __call__(self, *args):
        self.calls.append(args)
        return self.answer(*args)

    def answer(self, *args):
        if self.plural:
            single, plural, n = args
            return u'<%s %s>' % (self.name, plural if n in (1, 3) else single)
        text = args[0]
        if isinstance(text, basestring) and not text.isdigit():
            return u'<%s %s>' % (self.name, text)
        return text


class Plain(object):
    pass


class Indexed(object):
    """A state with items, and attributes."""
    def __init__(self, items):
        self.items_ = items

    def __getitem__(self, key):
        return self.items_[key]


class OldIndexed:
    """An old-style class."""
    def __init__(self, items):
        self.items_ = items

    def __getitem__(self, key):
        return self.items_[key]


class Silly(object):
    """Items by position only."""
    def __getitem__(self, key):
        raise TypeError('positions only')


class World(object):

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.where = {}
        self.tree()
        self.state_()
        self.validator_()
        self.translators()

    def put(self, source, key, value=None):
        if value is None:
            value = self.rng.choice((u'%s of %s' % (key, source), u'%s!%d' % (source, self.rng.randrange(100)), self.rng.choice((0, 1, 2, 1L, 7))))
            if isinstance(value, unicode) and gen.chance(self.rng, .2):
                value += gen.text(self.rng, 3)
        self.where.setdefault(key, {})[source] = value
        return value

    def tree(self):
        """root > (dict | list) > element"""
        rng = self.rng
        shape = rng.randrange(6)
        self.classes = []

        def cls(base):
            c = base.using()
            self.classes.append(c)
            return c
        if shape == 0:
            e = cls(fl.String).named(u'x')()
        elif shape == 1:
            e = cls(fl.Dict).of(cls(fl.String).named(u'x'))()[u'x']
        elif shape == 2:
            e = cls(fl.List).named(u'l').of(cls(fl.Dict).of(cls(fl.Integer).named(u'x')))([{}])[0][u'x']
        elif shape == 3:
            items = [k for k in KEYS if gen.chance(rng, .4)] or [u'alpha']
            e = cls(fl.Dict).named(u'd').of(fl.Dict.named(u'e').of(*[fl.String.named(k) for k in items]))()[u'e']
            for k in items:
                e[k].set(self.put('element item', k, u'item %s' % k))
                self.where[k]['element item'] = e[k]
        elif shape == 4:
            e = cls(fl.List).named(u'outer').of(fl.List.named(u'in').of(fl.String))([[u'a', u'b']])[0]
        else:
            e = cls(fl.Array).named(u'arr').of(fl.String)([u'a', u'b'])
        if not isinstance(e, (dict, list)):
            e.set(rng.choice((u'1', u'2', u'text', u'')))
        self.el = e
        for k in (u'alpha', u'beta', u'gamma', u'num'):
            if gen.chance(rng, .25):
                setattr(e, str(k), self.put('element attribute', k))
        if gen.chance(rng, .3):
            e.label = u'A l\xe4bel'
        self.where.setdefault(u'label', {})['element attribute'] = e.label
        self.where.setdefault(u'u', {})['element attribute'] = e.u
        self.chain = [e] + list(e.parents)

    def state_(self):
        rng = self.rng
        kind = rng.choice(('none', 'none', 'dict', 'object', 'indexed', 'old', 'list', 'string', 'bytes', 'silly', 'number', 'tuple',
                           'empty'))
        items = dict((k, self.put('state item', k)) for k in KEYS if gen.chance(rng, .3)) if kind in ('dict', 'indexed', 'old') else {}
        self.items = items
        self.state = {'none': None, 'dict': items, 'object': Plain(), 'list': [u'a', u'b'], 'string': u'state',
                      'bytes': 'state', 'number': 7, 'tuple': (1, 2, 3), 'empty': {}}.get(kind)
        if kind in ('indexed', 'old'):
            self.state = (Indexed if kind == 'indexed' else OldIndexed)(items)
        elif kind == 'silly':
            self.state = Silly()
        self.settable = kind in ('object', 'indexed', 'old', 'silly')
        if self.settable:
            for k in KEYS:
                if gen.chance(rng, .3):
                    setattr(self.state, str(k), self.put('state attribute', k))
        self.ctx.seen('states', kind)

    def validator_(self):
        rng = self.rng
        attrs = dict((str(k), self.put('validator', k)) for k in KEYS if gen.chance(rng, .25))
        attrs.update(one=None, two=None)
        cls = type('V', (Validator,), attrs)
        self.v = cls()
        for k in attrs:
            if k in KEYS and gen.chance(rng, .4):
                setattr(self.v, k, self.put('validator', unicode(k)))

    def translators(self):
        """Which translator applies, of those placed."""
        rng = self.rng
        self.all, self.use = [], {'ugettext': None, 'ungettext': None}
        self.builtins = []
        for kind in ('ugettext', 'ungettext'):
            def new(place):
                t = Translator(u'%s%d' % (kind[1], len(self.all)), kind == 'ungettext')
                t.place = place
                self.all.append(t)
                return t
            chosen = []
            if self.settable and gen.chance(rng, .25):
                t = new('state attribute')
                setattr(self.state, kind, t)
                chosen.append((0, t))
            if isinstance(self.state, (dict, Indexed, OldIndexed)) and gen.chance(rng, .25):
                t = new('state item')
                self.items[kind] = t
                if isinstance(self.state, dict):
                    self.state[kind] = t
                chosen.append((1, t))
            for i, el in enumerate(self.chain):
                if gen.chance(rng, .2):
                    t = new('element' if not i else 'ancestor')
                    if gen.chance(rng, .5) or not any(type(el) is c or issubclass(type(el), c) for c in self.classes):
                        setattr(el, kind, t)
                    else:
                        cls = type(el)
                        if cls.__dict__.get(kind):
                            continue
                        setattr(cls, kind, staticmethod(t))
                    chosen.append((2 + i, t))
            if gen.chance(rng, .2):
                t = new('builtins')
                setattr(__builtin__, kind, t)
                self.builtins.append(kind)
                chosen.append((99, t))
            if chosen:
                self.use[kind] = min(chosen, key=lambda c: c[0])[1]
                if len(chosen) > 1:
                    self.ctx.count('translators overridden')

    def close(self):
        for kind in self.builtins:
            delattr(__builtin__, kind)

    ORDER = ('extra', 'state item', 'state attribute', 'validator', 'element item', 'element attribute')

    def find(self, key, extra):
        """(found, value)"""
        places = dict(self.where.get(key, {}))
        if key in extra:
            places['extra'] = extra[key]
        for i, source in enumerate(self.ORDER):
            if source in places:
                if len(places) > 1:
                    self.ctx.count('names overridden')
                self.ctx.seen('sources', source)
                return True, places[source]
        return False, None


def case(ctx, rng):
    w = World(ctx, rng)
    try:
        errors, warnings = [], []
        for _ in xrange(rng.randrange(1, 7)):
            note(ctx, rng, w, errors, warnings)
    finally:
        w.close()
    ctx.sample(u'%r %r: %r' % (type(w.state).__name__, w.el, w.el.errors))


def template(rng, w, extra, ug):
    """(raw template, function expanding a translation of it)"""
    keys = [k for k in KEYS + tuple(unicode(k) for k in extra) if w.find(k, extra)[0]]
    raw = u''
    for _ in xrange(rng.randrange(0, 4)):
        raw += gen.text(rng, 3).replace(u'%', u'')
        if keys and gen.chance(rng, .8):
            raw += u'%%(%s)s' % rng.choice(keys)
    if gen.chance(rng, .1):
        raw += u' 100%%'
    return raw or u'plain'


def substitute(w, extra, ug, text):
    def one(match):
        if not match.group(1):
            return u'%'
        ok, v = w.find(match.group(1), extra)
        if ug is not None:
            v = ug.answer(v)
        return v if isinstance(v, unicode) else unicode(v)
    return re.sub(u'%(?:\\((\\w+)\\)s|%)', one, text)


def note(ctx, rng, w, errors, warnings):
    extra = dict((str(k), w.rng.choice((u'extra %s' % k, 1, 2, u'%', u'%(beta)s'))) for k in KEYS + (u'more',) if gen.chance(rng, .25))
    for k in ('state', 'element', 'key', 'message'):
        extra.pop(k, None)
    ug, ung = w.use['ugettext'], w.use['ungettext']
    form = 'text'
    single = template(rng, w, extra, ug)
    if gen.chance(rng, .4):
        plural = u'p' + template(rng, w, extra, ug)
        r = rng.random()
        if r < .25:
            n_key = rng.choice((0, 1, 2, 3, 1L, 11))
            n, form = n_key, 'given count'
        else:
            key = rng.choice([k for k in (u'num', u'alpha', u'gamma', u'beta', 'more', u'bogus')])
            ok, n = w.find(unicode(key), extra)
            if not ok:
                n, form = key, 'unknown count'
            else:
                form = 'count by key'
                if callable(n):
                    return
                if isinstance(n, fl.Element) and ug is None:
                    form = 'element as count'
                if ug is not None:
                    n = ug.answer(n)
                try:
                    n = int(n)
                except (TypeError, ValueError):
                    pass
            n_key = key
        message = (single, plural, n_key)
    else:
        message = single
    # what must come out
    for t in w.all:
        del t.calls[:]
    if isinstance(message, tuple):
        ctx.count('plural')
        if ung is not None:
            ctx.count('ungettext')
            out = ung.answer(single, plural, n)
        else:
            ctx.count('singular forms' if n == 1 else 'plural forms')
            out = single if n == 1 else plural
            if ug is not None:
                out = ug.answer(out)
    else:
        out = ug.answer(message) if ug is not None else message
    want = substitute(w, extra, ug, out)
    calls = []
    shown = message
    if gen.chance(rng, .35):
        ctx.count('callables')

        def shown(element, state):
            calls.append((element, state))
            return message
        form += ' from callable'
    how = rng.randrange(3)
    warn = gen.chance(rng, .4)
    fn = w.v.note_warning if warn else w.v.note_error
    store, other = (warnings, errors) if warn else (errors, warnings)
    times = rng.choice((1, 1, 2, 3))
    for _ in xrange(times):
        if how == 0:
            w.v.one = shown
            got = fn(w.el, w.state, 'one', **extra)
        elif how == 1:
            setattr(type(w.v), 'two', staticmethod(shown) if callable(shown) else shown)
            got = fn(w.el, w.state, key='two', **extra)
        else:
            w.v.one = u'not this'
            got = fn(w.el, w.state, rng.choice((None, 'one')), message=shown, **extra)
        ctx.same(got, False, 'result of noting')
        if want not in store:
            store.append(want)
        else:
            ctx.count('duplicates')
        what = u'%r with extra %r, state %r, sources %r, translators %r' % (
            message, extra, w.state, w.where, [(t.name, t.place) for t in w.all])
        ctx.check(w.el.errors == errors, 'errors', lambda: u'%s: %r, expected %r' % (what, w.el.errors, errors))
        ctx.check(w.el.warnings == warnings, 'warnings', lambda: u'%s: %r, expected %r' % (what, w.el.warnings, warnings))
    if callable(shown):
        ctx.check(len(calls) == times and all(a is w.el and b is w.state for a, b in calls), 'calls of the callable', repr(calls))
    for t in w.all:
        if t is not ug and t is not ung:
            ctx.check(not t.calls, 'a translator out of turn was called', lambda: u'%s: %r %r' % (what, t.name, t.calls))
    if ung is not None and isinstance(message, tuple):
        ctx.check(ung.calls == [(single, plural, n)] * times, 'arguments of ungettext', lambda: u'%s: %r' % (what, ung.calls))
    if ug is not None:
        asked = [c for c in ug.calls]
        ctx.check(all(len(c) == 1 for c in asked), 'arguments of ugettext', what)
        ctx.count('translated')
    for t in (ug, ung):
        if t is not None and t.calls:
            ctx.count({'ancestor': 'from ancestors', 'builtins': 'from builtins', 'state item': 'found by item',
                       'state attribute': 'found by attribute'}.get(t.place, 'from the element'))
    # expand_message alone records nothing
    if gen.chance(rng, .2):
        ctx.eq(w.v.expand_message(w.el, w.state, shown, **extra), want, 'expand_message')
        ctx.check(w.el.errors == errors and w.el.warnings == warnings, 'expand_message recorded', what)
    ctx.count('notes')
    if warn:
        ctx.count('warnings')
    ctx.nontrivial((form, warn, how, type(w.state).__name__, sorted((k, sorted(v)) for k, v in w.where.items()), sorted(extra),
                    [t.place for t in w.all]))


def corners(ctx, rng):
    v = Validator()
    el = fl.String(u'x', name=u'n')
    for fn, store in ((v.note_error, el.errors), (v.note_warning, el.warnings)):
        for silent in (u'', None, ()):
            v2 = type('V', (Validator,), {'key': silent})()
            ctx.same(getattr(v2, fn.__name__)(el, None, 'key'), False, 'silenced')
            ctx.eq(store, [], 'silenced')
        ctx.same(fn(el, None, message=u'%(label)s %(u)s %(name)s %(value)s'), False, 'noted')
        ctx.eq(store, [u'n x n x'], 'noted')
    ctx.raises(AttributeError, lambda: v.note_error(el, None, 'nokey'), 'missing message')
    ctx.raises(KeyError, lambda: v.note_error(el, None, message=u'%(bogus)s'), 'unknown name')
    # a message set on the class, the instance, by keyword
    class M(Validator):
        msg = u'class'
        fn = staticmethod(lambda element, state: (u'one', u'%(num)s', u'num'))
    for want, m in ((u'class', M()), (u'kw', M(msg=u'kw')), (u'sub', type('S', (M,), {'msg': u'sub'})())):
        e = fl.String()
        m.note_error(e, None, 'msg')
        ctx.eq(e.errors, [want], 'message by key')
    for n, want in ((0, u'0'), (1, u'one'), (2, u'2'), (u'1', u'one'), (u'3', u'3'), (-1, u'-1'), (1L, u'one'), (11, u'11')):
        e = fl.String()
        M().note_error(e, None, 'fn', num=n)
        ctx.eq(e.errors, [want], 'plural from a callable')
    # a method of the validator as the message
    class Method(Validator):
        def msg(self, element, state):
            return u'%s %s' % (element.name, state)
    e = fl.String(name=u'q')
    Method().note_error(e, u'st', 'msg')
    ctx.eq(e.errors, [u'q st'], 'method as message')
    # find_transformer can be overridden
    class Loud(Validator):
        def find_transformer(self, type, element, state, message):
            seen.append((type, element, state, message))
            if type == 'ugettext':
                return lambda t: t.upper()
    seen = []
    e = fl.String(name=u'q')
    Loud().note_error(e, 3, message=u'abc')
    ctx.eq(e.errors, [u'ABC'], 'own transformer')
    ctx.eq(seen, [('ugettext', e, 3, u'abc')], 'arguments of find_transformer')
    # order of messages, and duplicates across validators
    e = fl.String()
    for m in (u'b', u'a', u'b', u'c', u'a'):
        v.note_error(e, None, message=m)
        v.note_warning(e, None, message=m)
    ctx.eq((e.errors, e.warnings), ([u'b', u'a', u'c'],) * 2, 'order of messages')
    ctx.eq(fl.String().errors, [], 'errors are shared')


def views(ctx, rng):
    """The mapping a message is expanded with finds exactly the names of its sources."""
    class Obj(object):
        attr, both = u'attribute', u'late'
    for translate in (None, lambda t: u'<%s>' % t):
        kw = {} if translate is None else {'transform': translate}
        m = as_format_mapping({u'item': u'one', u'both': u'early'}, None, Obj(), **kw)
        for name, want in ((u'item', u'one'), (u'both', u'early'), (u'attr', u'attribute')):
            ctx.check(name in m, 'a name is missing', name)
            ctx.eq(m[name], want if translate is None else translate(want), 'name found')
            ctx.eq(u'%%(%s)s' % name % m, m[name], 'expansion')
        for name in (u'nope', u'Item', u'', u'bot'):
            ctx.check(name not in m, 'a name of no source', name)
            ctx.raises(KeyError, lambda: m[name], 'a name of no source')
        ctx.check(u'attr' in set(m), 'names')
    ctx.raises(TypeError, lambda: as_format_mapping({}, bogus=1), 'unknown argument')


FIXED = {'views': views, 'corners': corners}
