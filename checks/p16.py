# -*- coding: utf-8 -*-
"""P16: families of Forms against the fields their declarations give."""
import flatland as fl
from fv import gen

CASES = {'quick': 1800, 'thorough': 60000}
RULE = '''A case declares a family of 3-9 Forms: class bodies with fields under matching, other and no names, field_schema entries, other
attributes, one to three bases (Forms, Dicts, mixins, derived copies). The monitor computes each one's fields from its declaration; after
every declaration all Forms, Dicts and declared schemas must still be as computed. Elements of each Form are then driven side by side with a
Dict of the same fields. Non-trivial: distinct (bases, body, field_schema) declarations.'''
REQUIRE = {'nontrivial': 3000, 'forms': 4500, 'rechecks': 25000, 'renamed': 4000, 'kept': 2500, 'field_schema': 1500, 'multiple bases': 1200,
           'overridden': 1500, 'conflicts of bases': 500, 'compared with a Dict': 4000, 'attributes kept': 3000}

NAMES = ('a', 'b', 'c', 'd', 'name', 'value', 'label', 'errors', 'x1', 'validators')


class Known(object):
    def __init__(self, cls, fields, attrs=()):
        self.cls, self.fields, self.attrs = cls, dict(fields), dict(attrs)


def field(rng, pool):
    r = rng.random()
    base = (fl.String if r < .4 else fl.Integer if r < .6 else fl.List.of(fl.String) if r < .7 else
            fl.Dict.of(fl.String.named(u'a')) if r < .8 else fl.Boolean.using(optional=True))
    if r > .9:
        known = [k for k in pool if isinstance(k.cls, type(fl.Form)) and k.fields]
        if known:
            base = rng.choice(known).cls
    return base


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.pool, self.declared, self.log = [], [], []
        if gen.chance(rng, .5):
            cls = fl.Dict.of(fl.String.named(u'a'), fl.Integer.named(u'dict'))
            self.pool.append(Known(cls, dict((f.name, f) for f in cls.field_schema)))

    def declare(self):
        rng, ctx = self.rng, self.ctx
        bases = [fl.Form]
        known = []
        if self.pool and gen.chance(rng, .75):
            known = rng.sample(self.pool, min(len(self.pool), rng.choice((1, 1, 1, 2, 2, 3))))
            bases = [k.cls for k in known]
            if not any(isinstance(b, type(fl.Form)) and issubclass(b, fl.Form) for b in bases):
                bases.insert(rng.randrange(len(bases) + 1), fl.Form)
        if gen.chance(rng, .15):
            bases.insert(0, type('Mixin', (object,), {'mixed': 1, 'method': lambda self: 7}))
        members, attrs, body = {}, {}, {}
        for _ in xrange(rng.choice((0, 1, 1, 2, 3, 5))):
            n = rng.choice(NAMES)
            f = field(rng, self.pool)
            r = rng.random()
            if r < .35:
                f = f.named(unicode(n))
                ctx.count('kept')
            elif r < .6:
                f = f.named(rng.choice((u'other', u'b', u'q', u'a')))
            else:
                f = f.named(None)
            members[n] = body[n] = f
            self.declared.append((f, f.name))
        for _ in xrange(rng.randrange(0, 3)):
            n, v = rng.choice((('plain', 5), ('text', u'x'), ('none', None), ('fn', len), ('inst', fl.String(u'x')), ('cls', object),
                               ('optional', True), ('policy', 'strict'), ('prop', property(lambda self: 3))))
            members[n] = attrs[n] = v
        schema = []
        if gen.chance(rng, .3):
            for _ in xrange(rng.randrange(0, 4)):
                schema.append(field(rng, self.pool).named(unicode(rng.choice(NAMES + ('fs',)))))
            members['field_schema'] = schema if gen.chance(rng, .5) else tuple(schema)
            ctx.count('field_schema')
        given = list(schema)
        try:
            cls = type(fl.Form)('F%d' % len(self.pool), tuple(bases), dict(members))
        except TypeError:
            # no method resolution order: not because of the fields
            ctx.raises(TypeError, lambda: type('T', tuple(skeleton(b) for b in bases), {}), 'a declaration is rejected', repr(bases))
            return
        ctx.check(schema == given, 'the field_schema given is altered')
        # what it must have
        fields = {}
        for b in bases:
            for k in known:
                if k.cls is b:
                    for n, f in k.fields.items():
                        if n in fields and fields[n] is not f:
                            ctx.count('conflicts of bases')
                        fields.setdefault(n, f)
        for f in schema:
            fields[f.name] = f
        for n, f in body.items():
            if unicode(n) in fields:
                ctx.count('overridden')
            if f.name == n:
                fields[unicode(n)] = f
            else:
                ctx.count('renamed')
                got = dict((x.name, x) for x in cls.field_schema).get(unicode(n))
                ctx.check(got is not None and issubclass(got, f) and got is not f and got.name == n and isinstance(got.name, unicode),
                          'a renamed field', lambda: u'%r: %r' % (n, got))
                ctx.check(got not in [k.fields.get(unicode(n)) for k in self.pool], 'a renamed field of another form', n)
                fields[unicode(n)] = got
        for n in body:
            ctx.check(n not in cls.__dict__, 'a field remains an attribute', n)
            if not hasattr(fl.Dict, n) and not any(hasattr(b, n) for b in bases):
                ctx.check(not hasattr(cls, n), 'a field remains an attribute', n)
        ctx.check(issubclass(cls, fl.Form) and issubclass(cls, fl.Dict) and isinstance(cls, type(fl.Form)), 'kind of the class')
        if len(bases) > 1:
            ctx.count('multiple bases')
        ctx.count('forms')
        entry = Known(cls, fields, attrs)
        self.pool.append(entry)
        self.log.append((len(known), sorted((n, f.name) for n, f in body.items()), [f.name for f in schema], sorted(attrs)))
        ctx.nontrivial((self.log[-1], [sorted(k.fields) for k in known]))
        return entry

    def copy(self):
        rng = self.rng
        k = rng.choice(self.pool)
        how = rng.randrange(5)
        if how == 0:
            new = Known(k.cls.named(u'copy'), k.fields, k.attrs)
        elif how == 1:
            new = Known(k.cls.using(label=u'L'), k.fields, k.attrs)
        elif how == 2:
            new = Known(k.cls.with_properties(a=1), k.fields, k.attrs)
        elif how == 3:
            fields = [fl.String.named(u'of1'), fl.Integer.named(u'a')]
            new = Known(k.cls.of(*fields), dict((f.name, f) for f in fields), k.attrs)
        else:
            new = Known(k.cls.validated_by(lambda e, s: True), k.fields, k.attrs)
        self.pool.append(new)
        self.log.append(('copy', how))

    def recheck(self):
        ctx = self.ctx
        for k in self.pool:
            got = list(k.cls.field_schema)
            ctx.check(len(got) == len(k.fields) and all(k.fields.get(f.name) is f for f in got), 'fields of a form', lambda: u'%r %r: %r, expected %r' % (
                k.cls, self.log, [(f.name, f) for f in got], k.fields))
            ctx.check(dict(k.cls.field_schema_mapping) == k.fields, 'field_schema_mapping', repr(self.log))
            ctx.count('rechecks')
            for n, v in k.attrs.items():
                if isinstance(v, property):
                    continue
                got = getattr(k.cls, n)
                ctx.check(got is v or got == v, 'another attribute is lost', lambda: u'%s: %r' % (n, got))
                ctx.count('attributes kept')
        for f, n in self.declared:
            ctx.check(f.name == n, 'a declared schema is renamed', repr(n))


def skeleton(b, memo={}):
    """A plain class with the inheritance of b."""
    if b is object or b is dict:
        return b
    if b not in memo:
        if len(memo) > 5000:
            memo.clear()
        memo[b] = type('S', tuple(skeleton(x) for x in b.__bases__), {})
    return memo[b]


def case(ctx, rng):
    w = World(ctx, rng)
    for _ in xrange(rng.randrange(3, 10)):
        if w.pool and gen.chance(rng, .2):
            w.copy()
        else:
            w.declare()
        w.recheck()
    for k in w.pool:
        if k.fields and gen.chance(rng, .7):
            beside(ctx, rng, k)
    w.recheck()
    ctx.sample(u'%r' % (w.log,))


def value_for(rng, f):
    if issubclass(f, fl.Dict):
        return dict((n, value_for(rng, x)) for n, x in f.field_schema_mapping.items() if gen.chance(rng, .8) or True)
    if issubclass(f, fl.List):
        return [rng.choice((u'p', u'q')) for _ in xrange(rng.randrange(3))]
    if issubclass(f, fl.Boolean):
        return rng.choice((True, False, u'x'))
    return rng.choice((u'1', u'2', 3, u'x', u' s ', None, u''))


def beside(ctx, rng, k):
    """A Form does what a Dict of the same fields does."""
    cls = k.cls
    o = dict((n, k.attrs[n]) for n in ('optional', 'policy') if n in k.attrs)
    other = fl.Dict.of(*[k.fields[n] for n in sorted(k.fields)]).using(policy=cls.policy, optional=cls.optional, label=cls.label)
    other = other.named(cls.name)
    if cls.validators:
        other = other.validated_by(*cls.validators)
    what = u'%r with %r' % (cls, sorted(k.fields))
    a, b = cls(), other()
    same(ctx, a, b, what)
    for _ in xrange(rng.randrange(1, 4)):
        r = rng.random()
        if r < .4:
            v = dict((n, value_for(rng, f)) for n, f in k.fields.items() if gen.chance(rng, .8))
            if gen.chance(rng, .1):
                v[u'unknown'] = 1

            def fn(e):
                return e.set(v)
        elif r < .7:
            pairs = []
            for n in list(k.fields) + [u'unknown']:
                for key in (n, n + u'_0', n + u'_a', n + u'_1'):
                    if gen.chance(rng, .5):
                        pairs.append((key if cls.name is None else cls.name + u'_' + key, rng.choice((u'1', u'x', u''))))

            def fn(e):
                return e.set_flat(pairs)
        elif r < .85:
            n = rng.choice(sorted(k.fields))
            v = value_for(rng, k.fields[n])

            def fn(e):
                return e[n].set(v)
        else:
            def fn(e):
                return e.set_default()
        out = []
        for e in (a, b):
            try:
                out.append(fn(e))
            except (KeyError, TypeError) as exc:
                out.append(type(exc).__name__)
        ctx.check(out[0] == out[1], 'a form and a dict disagree', lambda: u'%s: %r' % (what, out))
        same(ctx, a, b, what)
    ctx.check(a.validate() == b.validate(), 'validation of form and dict', what)
    same(ctx, a, b, what)
    ctx.check([e.valid for e in walk(a)] == [e.valid for e in walk(b)] and [e.errors for e in walk(a)] == [e.errors for e in walk(b)],
              'validity of form and dict', what)
    ctx.count('compared with a Dict')


def walk(e):
    return gen.elements(e)


def same(ctx, a, b, what):
    ctx.check(sorted(a.keys()) == sorted(b.keys()), 'keys of form and dict', what)
    ctx.check(gen.snap(a)[1:] == gen.snap(b)[1:], 'contents of form and dict', lambda: u'%s: %r / %r' % (what, gen.snap(a), gen.snap(b)))
    ctx.check(gen.fz(a.value) == gen.fz(b.value), 'value of form and dict', what)
    ctx.check(sorted(a.flatten()) == sorted(b.flatten()), 'flat data of form and dict', what)
    ctx.check(a == b and not a != b, 'form and dict are not equal', what)


def by_statement(ctx, rng):
    class Base(fl.Form):
        name = fl.String
        age = fl.Integer.named(u'years')
        kept = 7

        def method(self):
            return self[u'age'].value

    class Other(fl.Form):
        name = fl.Boolean
        extra = fl.String

    class Both(Base, Other):
        age = fl.String

    class Reversed(Other, Base):
        field_schema = [fl.Integer.named(u'extra'), fl.Integer.named(u'own')]
        own = fl.String
    kinds = lambda cls: sorted((f.name, [b.__name__ for b in f.__mro__][0]) for f in cls.field_schema)
    ctx.eq(kinds(Base), [(u'age', 'Integer'), (u'name', 'String')], 'fields')
    ctx.eq(kinds(Both), [(u'age', 'String'), (u'extra', 'String'), (u'name', 'String')], 'fields')
    ctx.eq(kinds(Reversed), [(u'age', 'Integer'), (u'extra', 'Integer'), (u'name', 'Boolean'), (u'own', 'String')], 'fields')
    ctx.eq((Base.kept, Base.name, Base({u'age': u'4'}).method(), hasattr(Base, 'age')), (7, None, 4, False), 'attributes')
    ctx.eq(Base.named(u'n')().flattened_name(), u'n', 'name of the form')

    class Outer(fl.Form):
        base = Base
        many = fl.List.of(Base)
    el = Outer({u'base': {u'name': u'x', u'age': 3}, u'many': [{u'name': u'y', u'age': u'z'}]})
    ctx.eq(sorted(el.flatten()), [(u'base_age', u'3'), (u'base_name', u'x'), (u'many_0_age', u'z'), (u'many_0_name', u'y')], 'flat')
    ctx.check(Outer.from_flat(el.flatten()) == el, 'round trip')
    ctx.eq(Base.name, None, 'an embedded form was renamed')


FIXED = {'by_statement': by_statement}
