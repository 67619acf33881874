# -*- coding: utf-8 -*-
"""P19: transfers to and from objects and slices against a model of selection."""
import collections
import datetime

import flatland as fl
from fv import gen, flat

CASES = {'quick': 8000, 'thorough': 200000}
RULE = '''A case draws a Dict, SparseDict or Form with 1-5 fields (nested containers included), an object of one of several types with some of
the attributes, an include, omit or neither, a rename mapping (to fields, from extra attributes, from fields to nothing) in any of the accepted
forms and a key function, and performs set_by_object, from_object, slice, update_object and a round trip. The object logs what is assigned to
it; fields, keys and attributes are compared with the selection the monitor makes on its own. Non-trivial: distinct (operation, type, fields,
attributes, include, omit, rename).'''
ASSUMPTIONS = ['Names are ASCII (no other name can be an attribute in this Python), rename mappings do not bring two attributes to one field '
               'that are both selected, strict Dicts get all of their fields.']
REQUIRE = {'nontrivial': 5000, 'set_by_object': 1000, 'from_object': 500, 'slice': 900, 'update_object': 900, 'round trips': 900,
           'both': 300, 'included': 1200, 'omitted': 1200, 'renamed': 2000, 'assigned': 1500, 'fields set': 2500, 'fields reset': 1800,
           'sparse': 900, 'key functions': 900, 'object types': 6}

NAMES = (u'a', u'b', u'name', u'a_b', u'x1', u'year', u'B', u'items', u'some words', u'_p')
EXTRA = ('other', 'zz', 'a2', 'renamed', 'Name')


class Plain(object):
    pass


class Logged(object):
    """Logs what is assigned and deleted."""

    def __init__(self):
        self.__dict__['log'] = []

    def __setattr__(self, name, value):
        self.log.append((name, value))
        self.__dict__[name] = value

    def __delattr__(self, name):
        self.log.append((name,))
        del self.__dict__[name]


class AsGood(object):
    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Old:
    pass


class Dynamic(object):
    """Attributes by __getattr__."""

    def __init__(self, attrs):
        self.__dict__['_d'] = attrs

    def __getattr__(self, name):
        try:
            return self._d[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        self._d[name] = value


class Computed(object):
    """Attributes of the class, and a property that is not there."""
    def __init__(self, attrs):
        self.__class__ = type('Computed_', (Computed,), dict((str(k), property(lambda self, v=v: v)) for k, v in attrs.items()))


def make(rng, attrs):
    r = rng.randrange(7)
    if r == 0 and all(k.replace('_', 'a').isalnum() and not k.startswith('_') for k in attrs):
        return collections.namedtuple('Row', sorted(attrs))(**attrs)
    if r == 1:
        return Dynamic(dict(attrs))
    if r == 2:
        return Computed(attrs)
    if r == 3:
        obj = Old()
    elif r == 4:
        return type('Holder', (object,), dict(attrs))
    elif r == 5:
        obj = Logged()
    else:
        obj = Plain()
    for k, v in attrs.items():
        setattr(obj, k, v)
    return obj


def wrapped(rng, items):
    """A sequence in one of the accepted forms."""
    r = rng.randrange(5)
    if r == 0:
        return list(items)
    if r == 1:
        return tuple(items)
    if r == 2:
        return set(items)
    if r == 3:
        return iter(list(items))
    return [str(i) for i in items]


class HasKeys(object):
    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, key):
        return self.d[key]


def wrapped_map(rng, mapping):
    r = rng.randrange(5)
    if r == 0:
        return dict(mapping)
    if r == 1:
        return mapping.items()
    if r == 2:
        return iter(mapping.items())
    if r == 3:
        return HasKeys(mapping)
    return tuple((str(k), v) for k, v in mapping.items())


def selection(rng, keys, targets):
    """include, omit, rename over keys, renaming to targets."""
    include = omit = None
    r = rng.random()
    some = lambda: [k for k in list(keys) + list(EXTRA) if gen.chance(rng, .4)]
    if r < .33:
        include = some()
    elif r < .66:
        omit = some()
    rename = {}
    if gen.chance(rng, .6):
        frm = rng.sample(list(keys) + list(EXTRA), rng.randrange(1, 4))
        to = rng.sample(list(targets), min(len(frm), len(targets)))
        rename = dict(zip(frm, to))
    return include, omit, rename


def model_slice(pairs, include, omit, rename, key):
    """The selected pairs, or None if two come to one key."""
    out = {}
    for k, v in pairs:
        if key:
            k = key(k)
        if k in rename:
            k = rename[k]
        elif include:
            if not any(k == i for i in include):
                continue
        elif omit and any(k == o for o in omit):
            continue
        if k in out:
            return None
        out[k] = v
    return out


def schema(rng):
    kind = rng.choice(('Dict', 'Dict', 'SparseDict', 'Form'))
    kids, o = [], {}
    for name in rng.sample(NAMES, rng.randrange(1, 6)):
        kid = gen.spec(rng, depth=rng.choice((0, 0, 0, 1, 2)), name_=name, width=2, compounds=False, multi=False,
                       scalars=('String', 'Integer', 'Boolean', 'Date', 'Float', 'Enum', 'Time'))
        kids.append(kid)
    if kind == 'SparseDict' and gen.chance(rng, .5):
        o['minimum_fields'] = 'required'
        for kid in kids:
            if gen.chance(rng, .5):
                kid.opts['optional'] = True
    elif kind == 'Dict' and gen.chance(rng, .2):
        o['policy'] = 'duck'
    return gen.Spec(kind, rng.choice((None, u'd')), kids, **o)


def kwargs(rng, include, omit, rename):
    """Arguments, fresh on every call: iterators are used up."""
    kw = {}
    if include is not None or gen.chance(rng, .1):
        kw['include'] = None if include is None else wrapped(rng, include)
    if omit is not None or gen.chance(rng, .1):
        kw['omit'] = None if omit is None else wrapped(rng, omit)
    if rename or gen.chance(rng, .1):
        kw['rename'] = wrapped_map(rng, rename)
    # an iterator is true however many it gives
    if include == [] and not isinstance(kw['include'], (list, tuple, set)):
        kw['include'] = []
    if omit == [] and not isinstance(kw['omit'], (list, tuple, set)):
        kw['omit'] = []
    if not rename and 'rename' in kw and not isinstance(kw['rename'], (dict, list, tuple)):
        kw['rename'] = None
    return kw


def account(ctx, op, s, include, omit, rename, extra=None):
    ctx.count(op)
    if include:
        ctx.count('included')
    if omit:
        ctx.count('omitted')
    if rename:
        ctx.count('renamed')
    if s.kind == 'SparseDict':
        ctx.count('sparse')
    ctx.nontrivial((op, s.kind, sorted(k.name for k in s.kids), sorted(include or ()), sorted(omit or ()), sorted(rename.items()), extra))


def value_of(rng, s):
    """Mostly good, sometimes not, only data the schema can be given."""
    if s.scalar and gen.chance(rng, .3):
        return rng.choice((u'x', 5, None, u'', object))
    return gen.good_value(rng, s)


def case(ctx, rng):
    s = schema(rng)
    fields = [k.name for k in s.kids]
    for op in xrange(rng.randrange(1, 4)):
        rng.choice((from_obj, from_obj, to_slice, to_object, round_trip, refuse))(ctx, rng, s, fields)


def from_obj(ctx, rng, s, fields):
    include, omit, rename = selection(rng, fields, fields + [u'nowhere'])
    attrs = {}
    for kid in s.kids:
        if gen.chance(rng, .7):
            attrs[str(kid.name)] = value_of(rng, kid)
    for extra in EXTRA:
        if gen.chance(rng, .5):
            to = rename.get(extra)
            kid = s.field(to)
            attrs[extra] = value_of(rng, kid) if kid else rng.choice((u'stray', 5, None))
    for frm, to in rename.items():
        if frm in fields and s.field(to) and str(frm) in attrs:
            attrs[str(frm)] = value_of(rng, s.field(to))
    want = model_slice([(k, v) for k, v in attrs.items() if k in fields or k in rename], include, omit, rename, None)
    if want is None:
        return
    want = dict((k, v) for k, v in want.items() if k in fields)
    obj = make(rng, attrs)
    ctx.seen('object types', type(obj).__name__)
    kw = kwargs(rng, include, omit, rename)
    what = u'%r %r %r' % (s, attrs, (include, omit, rename))
    fresh = gen.chance(rng, .35)
    if fresh:
        el = s.cls.from_object(obj, **kw)
        account(ctx, 'from_object', s, include, omit, rename, sorted(attrs))
        ctx.check(type(el) is s.cls, 'type of from_object', what)
    else:
        el = s.cls(gen.good_value(rng, s))
        if kw and gen.chance(rng, .2):
            got = el.set_by_object(obj, kw.get('include'), kw.get('omit'), kw.get('rename'))
        else:
            el.set_by_object(obj, **kw)
        account(ctx, 'set_by_object', s, include, omit, rename, sorted(attrs))
    blank = flat.blank(s)[1]
    state = {}
    for kid in s.kids:
        if kid.name in want:
            twin = kid.cls()
            twin.set(want[kid.name])
            state[kid.name] = flat.capture(twin, kid)
            ctx.count('fields set')
        elif kid.name in blank:
            state[kid.name] = blank[kid.name]
            ctx.count('fields reset')
    got = flat.capture(el, s)[1]
    ctx.check(got == state, 'fields set from the object', lambda: u'%s: got %r, expected %r' % (what, got, state))
    if isinstance(obj, Logged):
        ctx.check([e[0] for e in obj.log] == attrs.keys(), 'the object was changed', what)
    ctx.sample(what)


def rendered(el, kid):
    """The value as plain data, by walking the tree."""
    if isinstance(el, dict):
        return dict((k, rendered(el[k], None)) for k in el)
    if isinstance(el, list):
        return [rendered(m, None) for m in el]
    return el.value


KEYS = (None, None, str, lambda k: u'pre_' + k, lambda k: k.upper() + u'!', lambda k: (k,))


def to_slice(ctx, rng, s, fields):
    el = gen.build(rng, s)
    key = rng.choice(KEYS)
    mapped = [key(f) if key else f for f in fields]
    include, omit, rename = selection(rng, mapped, [u'renamed', 'zz', u'a', 5, u'new'])
    pairs = [(k, rendered(el[k], None)) for k in el]
    want = model_slice(pairs, include, omit, rename, key)
    if want is None:
        return
    before = gen.snap(el)
    kw = {}
    if include is not None:
        kw['include'] = rng.choice((list, tuple, set))(include)
    if omit is not None:
        kw['omit'] = rng.choice((list, tuple, set))(omit)
    if rename:
        kw['rename'] = rng.choice((dict, lambda r: r.items(), lambda r: iter(r.items())))(rename)
    if key:
        kw['key'] = key
        ctx.count('key functions')
    got = el.slice(**kw)
    what = u'%r %r: %r' % (s, kw, got)
    ctx.check(type(got) is dict, 'type of slice()', what)
    ctx.check(gen.fz(got) == gen.fz(want), 'selected pairs', lambda: u'%s, expected %r' % (what, want))
    if key is str:
        ctx.check(all(type(k) is str for k in got if k not in rename.values()), 'keys passed through key', what)
    account(ctx, 'slice', s, include, omit, rename, (KEYS.index(key), sorted(el.keys())))
    ctx.check(gen.snap(el) == before, 'slice() changed the element', what)


def to_object(ctx, rng, s, fields):
    el = gen.build(rng, s)
    include, omit, rename = selection(rng, fields, ['renamed', 'zz', u'a', 'attr'])
    key = rng.choice((str, str, str, lambda k: str(k).upper() + '_'))
    if key is not str:
        include = include and [key(k) for k in include]
        omit = omit and [key(k) for k in omit]
        rename = dict((key(k), v) for k, v in rename.items())
        ctx.count('key functions')
    pairs = [(k, rendered(el[k], None)) for k in el]
    want = model_slice(pairs, include, omit, rename, key)
    if want is None:
        return
    obj = Logged()
    for n in EXTRA + ('a', 'b'):
        if gen.chance(rng, .5):
            setattr(obj, n, u'was here')
    for n, v in want.items():
        # a value that equals the new one but is not the same is replaced too
        if gen.chance(rng, .4):
            setattr(obj, str(n), AsGood(v))
    held = dict(obj.__dict__)
    del obj.log[:]
    before = gen.snap(el)
    kw = kwargs(rng, include, omit, rename)
    if key is not str:
        kw['key'] = key
    got = el.update_object(obj, **kw)
    what = u'%r %r: %r' % (s, (include, omit, rename), obj.log)
    ctx.check(got is None, 'result of update_object()', what)
    made = dict((e[0], e[1]) for e in obj.log)
    ctx.check(len(made) == len(obj.log) and gen.fz(made) == gen.fz(dict((str(k), v) for k, v in want.items())), 'assigned attributes', lambda: (
        u'%s, expected %r' % (what, want)))
    held.update((str(k), v) for k, v in want.items())
    held.pop('log')
    now = dict(obj.__dict__)
    now.pop('log')
    ctx.check(gen.fz(now) == gen.fz(held), 'attributes of the object', what)
    ctx.check(gen.snap(el) == before, 'update_object() changed the element', what)
    ctx.count('assigned', len(made))
    account(ctx, 'update_object', s, include, omit, rename, sorted(made))


def round_trip(ctx, rng, s, fields):
    """Taken from an object and put back with the inverse mapping."""
    attrs, rename = {}, {}
    for kid in s.kids:
        name = str(kid.name)
        if gen.chance(rng, .4):
            name = rng.choice(EXTRA)
            if name in rename:
                continue
            rename[name] = kid.name
        v = gen.good_value(rng, kid)
        twin = kid.cls()
        if not twin.set(v) or gen.fz(twin.value) != gen.fz(v):
            continue
        attrs[name] = v
    obj = Plain()
    obj.untouched = u'yes'
    for k, v in attrs.items():
        setattr(obj, k, v)
    include = [k for k in attrs if k not in rename]
    omit = [n for n in fields if n not in attrs]
    style = rng.randrange(3)
    el = s.cls.from_object(obj, rename=rename, **({'include': include} if style == 1 and include else {'omit': omit} if style == 2 else {}))
    held = dict(obj.__dict__)
    inverse = dict((v, k) for k, v in rename.items())
    # the fields with no attribute stay out
    missing = [f for f in fields if f not in include and f not in inverse]
    fresh = gen.chance(rng, .5)
    target = obj
    if fresh:
        target = Plain()
        target.untouched = u'yes'
    keep = [f for f in fields if not (f in missing) and not (f in inverse and inverse[f] not in attrs)]
    sub = dict((f, n) for f, n in inverse.items() if n in attrs)
    if [f for f in keep if f not in sub]:
        el.update_object(target, include=[f for f in keep if f not in sub], rename=sub)
    else:
        el.update_object(target, omit=fields, rename=sub)
    ctx.check(gen.fz(target.__dict__) == gen.fz(held), 'round trip', lambda: u'%r %r %r: %r, expected %r' % (
        s, attrs, rename, target.__dict__, held))
    account(ctx, 'round trips', s, include, omit, rename, sorted(attrs))


def refuse(ctx, rng, s, fields):
    """include and omit together: nothing happens but TypeError."""
    el = gen.build(rng, s)
    before = gen.snap(el)
    obj = Logged()
    for n in fields:
        setattr(obj, n, gen.good_value(rng, s.field(n)))
    held = dict(obj.__dict__)
    del obj.log[:]
    kw = {'include': [rng.choice(fields)], 'omit': [rng.choice(fields + ['zz'])]}
    if gen.chance(rng, .3):
        kw['rename'] = {'zz': fields[0]}
    ctx.raises(TypeError, lambda: el.set_by_object(obj, **kw), 'include together with omit', repr(kw))
    ctx.raises(TypeError, lambda: s.cls.from_object(obj, **kw), 'include together with omit', repr(kw))
    ctx.raises(TypeError, lambda: el.slice(**kw), 'include together with omit', repr(kw))
    ctx.raises(TypeError, lambda: el.update_object(obj, **kw), 'include together with omit', repr(kw))
    ctx.check(gen.snap(el) == before and not obj.log, 'a refused transfer changed something', repr(kw))
    ctx.count('both')


def documented(ctx, rng):
    class UserForm(fl.Form):
        login = fl.String
        password = fl.String
        verify_password = fl.String

    class User(object):
        def __init__(self, login=None, password=None):
            self.login = login
            self.password = password
    user = User('biff', 'secret')
    form = UserForm()
    form.set_by_object(user)
    ctx.eq((form['login'].value, form['verify_password'].value), (u'biff', None), 'documented')
    form['password'] = u'new-password'
    form.update_object(user, omit=['verify_password'])
    ctx.eq(user.__dict__, {'login': u'biff', 'password': u'new-password'}, 'documented')
    kw = form.slice(omit=['verify_password'], key=str)
    ctx.eq(sorted(kw), ['login', 'password'], 'documented')
    ctx.check(all(type(k) is str for k in kw), 'documented')
    day = fl.Dict.of(fl.Integer.named(u'year'), fl.Integer.named(u'month'), fl.String.named(u'tag')).from_object(datetime.date(2004, 2, 29))
    ctx.eq(day.value, {u'year': 2004, u'month': 2, u'tag': None}, 'builtin object')
    el = fl.Dict.of(fl.Integer.named(u'x')).from_object(datetime.date(2004, 2, 29), rename=[('year', u'x')], name=u'n', optional=True)
    ctx.eq((el.value, el.name, el.optional), ({u'x': 2004}, u'n', True), 'keyword arguments')


FIXED = {'documented': documented}
