# -*- coding: utf-8 -*-
"""P14: derivation histories; everything not asked for must stay as it was."""
import re

import flatland as fl
from flatland.schema.properties import Properties
from fv import gen

CASES = {'quick': 420, 'thorough': 14000}
RULE = '''A case is a history of 8-20 steps over a growing pool of schema classes and elements: deriving a class from a random one (named, using,
of, valued, to, validated_by, including_validators, descent variants, with_properties, subclassing), instantiating with constructor
overrides, assigning to elements and mutating arguments handed in earlier. After each step every earlier class and element is re-read:
its public attributes, and the outcome of constructing, setting, defaulting, flattening and validating a new element, must be as recorded.
The derived class must differ from its original in the requested attributes alone. Non-trivial: distinct (operation, kind, arguments).'''
ASSUMPTIONS = ['Sequences handed to using() for attributes other than validators are not altered by the caller afterwards.']
REQUIRE = {'nontrivial': 900, 'derivations': 2000, 'classes re-read': 15000, 'elements re-read': 4500, 'constructor overrides': 400,
           'rejected': 150, 'arguments altered': 200, 'assignments': 200, 'validator positions': 250}

PROBES = {'String': u' ab ', 'Integer': u'12', 'Long': u'-3', 'Float': u'1.5', 'Decimal': u'2.50', 'Boolean': u'yes', 'Enum': u'b',
          'Constrained': u'b', 'Date': u'2004-02-29', 'DateTime': u'2004-02-29 10:00:00', 'Time': u'10:00:01',
          'DateYYYYMMDD': u'2004-02-29', 'JoinedString': u'a, b;c,,', 'Ref': u'x'}


class Checker(object):
    """A validator with an identity, and a log of its calls."""
    def __init__(self, i, result):
        self.i, self.result = i, result

    def __call__(self, element, state):
        state.append((self.i, element.name))
        if not self.result:
            element.add_error(u'error %d' % self.i)
        return self.result

    def __repr__(self):
        return 'C%d' % self.i


def show(v):
    """A comparable description of an attribute."""
    if isinstance(v, type):
        return ('class', id(v))
    if isinstance(v, (list, tuple)):
        return ('sequence',) + tuple(show(x) for x in v)
    if isinstance(v, (basestring, int, long, float, bool, type(None))):
        return gen.fz(v)
    if isinstance(v, (Checker, Chosen)):
        return ('object', id(v))
    if isinstance(v, fl.Element):
        return ('element', id(v))
    return ('object', type(v).__name__)


def diff(a, b):
    return sorted((k, a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k))


HIDDEN = set(['child_schema', 'is_empty', 'value', 'u', 'x', 'xa', 'raw', 'parents', 'path', 'children', 'all_children', 'root', 'properties', 'field_schema_mapping', 'target', 'all_valid'])


def attributes(obj, hidden=HIDDEN):
    out = {}
    for a in dir(obj):
        if a.startswith('_') or a in hidden:
            continue
        try:
            v = getattr(obj, a)
        except AttributeError:
            continue
        if callable(v) and not isinstance(v, (type, Checker, Chosen)):
            continue
        if isinstance(v, property) or type(v).__name__ in ('getset_descriptor', 'member_descriptor'):
            continue
        out[a] = show(v)
    if isinstance(obj, type):
        out['class properties'] = tuple(sorted((k, v) for k, v in obj.properties.items()))
        if hasattr(obj, 'field_schema'):
            out['fields'] = tuple((k, id(obj.field_schema_mapping[k])) for k in sorted(obj.field_schema_mapping))
    return out


class Chosen(object):
    """A valid_value for Constrained."""
    def __init__(self, *values):
        self.values = values

    def __call__(self, element, value):
        return value in self.values


def outcome(cls):
    """What elements of the class do."""
    out = []
    if issubclass(cls, fl.Ref):
        holder = fl.Dict.of(fl.Integer.named(u'x'), fl.Integer.named(u'y'), cls.named(u'r'))({u'x': 1, u'y': 2})
        el = holder[u'r']
        for fn in (lambda: el.target.name, lambda: el.set(5), lambda: holder.value):
            try:
                out.append(fn())
            except Exception as exc:
                out.append(type(exc).__name__)
        return repr(out)
    el = cls()
    out.append(gen.snap(el))
    value = probe(cls)
    try:
        out.append(el.set(value))
    except Exception as exc:
        out.append(type(exc).__name__)
    out.append(gen.snap(el))
    log = []
    try:
        out.append(el.validate(log))
    except Exception as exc:
        out.append(type(exc).__name__)
    out.append(tuple(log))
    out.append([(e.name, e.label, tuple(e.errors), tuple(e.warnings), str(e.valid)) for e in gen.elements(el)])
    out.append(sorted(el.properties.items()))
    try:
        out.append(el.flatten())
    except Exception as exc:
        out.append(type(exc).__name__)
    try:
        out.append(gen.snap(cls.from_defaults()))
    except Exception as exc:
        out.append(type(exc).__name__)
    try:
        out.append(gen.snap(cls.from_flat([(u'x', u'1'), (u'n', u'2'), (u'n_x', u'3'), (u'n_0_x', u'4'), (u'x_0', u'5'), (u'a', u'6')])))
    except Exception as exc:
        out.append(type(exc).__name__)
    return repr(out)


def probe(cls):
    if issubclass(cls, fl.DateYYYYMMDD):
        return PROBES['DateYYYYMMDD']
    if issubclass(cls, fl.JoinedString):
        return PROBES['JoinedString']
    if issubclass(cls, fl.Dict):
        return dict((k, probe(v)) for k, v in cls.field_schema_mapping.items())
    if issubclass(cls, fl.List):
        return [probe(cls.member_schema)] * 2 + [u'']
    if issubclass(cls, fl.Array):
        return [probe(cls.member_schema), u'']
    for k, v in PROBES.items():
        if issubclass(cls, gen.getattr_kind(k)):
            return v
    return u'zz'


def kind_of(cls):
    for k in ('DateYYYYMMDD', 'JoinedString', 'MultiValue', 'Array', 'List', 'SparseDict', 'Form', 'Dict', 'Ref', 'Enum', 'Constrained',
              'Long', 'Integer', 'Float', 'Decimal', 'Boolean', 'DateTime', 'Date', 'Time', 'String'):
        if issubclass(cls, gen.getattr_kind(k)):
            return k
    raise AssertionError(cls)


def holds_ref(cls):
    return issubclass(cls, fl.Ref) or any(map(holds_ref, getattr(cls, 'field_schema', ()))) or (
        isinstance(getattr(cls, 'member_schema', None), type) and holds_ref(cls.member_schema))


class History(object):

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.classes, self.elements = [], []
        self.handed = []
        self.n = 0
        self.log = []

    def checker(self):
        self.n += 1
        return Checker(self.n, self.rng.random() < .8)

    def add(self, cls):
        out = outcome(cls)
        self.classes.append([cls, attributes(cls), out])
        if len(self.classes) > 9:
            self.classes.pop(self.rng.randrange(len(self.classes)))

    def add_element(self, el):
        self.elements.append([el, self.read(el)])
        if len(self.elements) > 8:
            self.elements.pop(self.rng.randrange(len(self.elements)))

    def read(self, el):
        if isinstance(el, fl.Ref):
            return attributes(el)
        return [(attributes(e), repr(sorted(e.properties.items())), str(e.valid)) for e in gen.elements(el)], gen.snap(el)

    def recheck(self):
        ctx = self.ctx
        for cls, attrs, out in self.classes:
            now = attributes(cls)
            ctx.check(now == attrs, 'an existing class changed', lambda: u'%r: after %r: %r' % (
                cls, self.log[-3:], diff(attrs, now)))
            ctx.check(outcome(cls) == out, 'elements of an existing class changed', lambda: u'%r: after %r: %s / %s' % (
                cls, self.log[-3:], out, outcome(cls)))
            ctx.count('classes re-read')
        for el, seen in self.elements:
            ctx.check(self.read(el) == seen, 'an existing element changed', lambda: u'%r: after %r: %r / %r' % (
                el, self.log[-3:], seen, self.read(el)))
            ctx.count('elements re-read')

    # -- the steps

    def derive(self, cls):
        rng, ctx = self.rng, self.ctx
        kind = kind_of(cls)
        ops = ['named', 'using', 'using', 'using', 'validated_by', 'including_validators', 'with_properties', 'subclass', 'bogus']
        if hasattr(cls, 'descent_validated_by'):
            ops += ['descent_validated_by', 'including_descent_validators']
        if kind in ('Dict', 'SparseDict', 'Form', 'List', 'Array', 'MultiValue', 'JoinedString'):
            ops += ['of', 'of']
        if kind == 'Enum':
            ops += ['valued', 'valued']
        if kind == 'Ref':
            ops += ['to', 'to']
        op = rng.choice(ops)
        want, arg, position = {}, None, None
        cls()
        before = attributes(cls)
        if op == 'named':
            arg = rng.choice((u'n', u'other', 'bytes', 7, None))
            new = cls.named(arg)
            name = arg if arg is None else unicode(arg)
            want['name'] = gen.fz(name)
            if 'label' not in self.labelled(cls):
                want['label'] = gen.fz(name)
            ctx.check(new.name is None or isinstance(new.name, unicode), 'type of a name', repr(arg))
        elif op in ('using', 'subclass'):
            attrs = self.overrides(kind)
            if op == 'using':
                given = dict(attrs)
                new = cls.using(**given)
            else:
                new = type('Own' + cls.__name__, (cls,), dict(
                    (k, staticmethod(v) if isinstance(v, Chosen) else Properties(v) if k == 'properties' else v)
                    for k, v in attrs.items()))
            for k, v in attrs.items():
                if k == 'properties':
                    want['class properties'] = tuple(sorted(v.items()))
                    continue
                if k == 'validators' and op == 'using':
                    v = list(v)
                want[k] = show(v)
            if 'name' in attrs and 'label' not in attrs and 'label' not in self.labelled(cls):
                want['label'] = show(attrs['name'])
            for k in ('validators', 'properties'):
                if k in attrs and op == 'using':
                    self.handed.append(attrs[k])
            if 'label' in attrs:
                new._labelled = True
            arg = sorted(attrs)
        elif op in ('validated_by', 'descent_validated_by'):
            vs = [self.checker() for _ in xrange(rng.randrange(0, 4))]
            new = getattr(cls, op)(*vs)
            arg = len(vs)
            want['validators' if op[0] == 'v' else 'descent_validators'] = show(vs)
            got = new.validators if op[0] == 'v' else new.descent_validators
            ctx.check(list(got) == vs, 'validators in order', repr(got))
            ctx.raises(TypeError, lambda: getattr(cls, op)(fl.validation.Present), 'a validator class is accepted')
        elif op in ('including_validators', 'including_descent_validators'):
            attr = 'validators' if op == 'including_validators' else 'descent_validators'
            old = list(getattr(cls, attr))
            vs = [self.checker() for _ in xrange(rng.randrange(0, 3))]
            position = rng.choice((None, -1, 0, 1, len(old), len(old) + 3, -1 - len(old), -1 - rng.randrange(len(old) + 1)))
            new = getattr(cls, op)(*vs) if position is None else getattr(cls, op)(*vs, position=position)
            at = len(old) if position is None else position if position >= 0 else len(old) + 1 + position
            expected = old[:at] + vs + old[at:]
            want[attr] = show(expected)
            arg = (len(old), len(vs), position)
            ctx.count('validator positions')
            ctx.raises(TypeError, lambda: getattr(cls, op)(vs, bogus=1), 'unknown option')
        elif op == 'with_properties':
            given = dict((rng.choice((u'p', u'q', u'r')), rng.randrange(99)) for _ in xrange(rng.randrange(0, 3)))
            how = rng.randrange(3)
            extra = {'s': rng.randrange(99)} if rng.random() < .3 else {}
            new = (cls.with_properties(given, **extra) if how == 0 else cls.with_properties(given.items(), **extra) if how == 1
                   else cls.with_properties(**dict((str(k), v) for k, v in given.items() + extra.items())))
            merged = dict(before['class properties'])
            merged.update(given)
            merged.update(extra)
            want['class properties'] = tuple(sorted(merged.items()))
            self.handed.append(given)
            arg = how, sorted(given), sorted(extra)
        elif op == 'of':
            kids = [rng.choice((fl.String, fl.Integer, fl.List.of(fl.String), rng.choice(self.classes)[0])) for _ in xrange(rng.randrange(1, 4))]
            kids = [k.named(u'xyz'[i]) for i, k in enumerate(kids)]
            if any(holds_ref(k) for k in kids):
                return None
            if kind in ('Array', 'MultiValue', 'JoinedString'):
                kids = [fl.String.named(u'm')] if rng.random() < .5 else [fl.Integer]
            new = cls.of(*kids)
            if kind in ('Dict', 'SparseDict', 'Form'):
                want['fields'] = tuple(sorted((k.name, id(k)) for k in kids))
                want['field_schema'] = None
            elif len(kids) == 1:
                want['member_schema'] = show(kids[0])
            else:
                want['member_schema'] = None
                ctx.check(issubclass(new.member_schema, fl.Dict) and sorted(new.member_schema.field_schema_mapping.items()) == sorted(
                    (k.name, k) for k in kids), 'of() several', repr(kids))
            arg = [kind_of(k) for k in kids]
        elif op == 'valued':
            values = [rng.choice((u'a', u'b', u'c', u'd')) for _ in xrange(rng.randrange(0, 4))]
            new = cls.valued(*values)
            want['valid_values'] = None
            ctx.check(list(new.valid_values) == values, 'values of valued()', repr(values))
            arg = values
        elif op == 'to':
            arg = rng.choice((u'x', u'../x', u'/y'))
            new = cls.to(arg)
            want['target_path'] = None
        else:
            ctx.raises(TypeError, lambda: cls.using(bogus=1), 'unknown attribute of using()')
            ctx.raises(TypeError, lambda: cls.using(optional=not cls.optional, label=u'L', bogus=1), 'unknown attribute of using()')
            ctx.raises(TypeError, lambda: cls(bogus=1), 'unknown attribute of the constructor')
            ctx.count('rejected')
            self.log.append((op, kind))
            return None
        self.log.append((op, kind, arg))
        ctx.count('derivations')
        ctx.nontrivial((op, kind, arg, sorted(want)))
        ctx.check(new is not cls and issubclass(new, cls) and type(new) is type(cls), 'the derived class is no subclass', repr(self.log[-1]))
        if op != 'subclass':
            ctx.check(new.__name__ == cls.__name__, 'name of the derived class', repr(self.log[-1]))
        new()
        after = attributes(new)
        for k in set(before) | set(after):
            if k in want:
                ctx.check(want[k] is None or after.get(k) == want[k], 'a requested change is missing', lambda: u'%r: %s is %r, expected %r' % (
                    self.log[-1], k, after.get(k), want[k]))
            elif k == 'default_value' and 'default' in want or kind == 'DateYYYYMMDD' and k in ('fields', 'field_schema') and 'optional' in want:
                pass
            else:
                ctx.check(before.get(k) == after.get(k), 'a change nobody asked for', lambda: u'%r: %s was %r, is %r' % (
                    self.log[-1], k, before.get(k), after.get(k)))
        ctx.check(set(want) <= set(after), 'a requested change is missing', lambda: u'%r: %r' % (self.log[-1], want))
        return new

    def labelled(self, cls):
        return ('label',) if getattr(cls, '_labelled', False) else ()

    def overrides(self, kind):
        rng = self.rng
        o = {}
        common = [('name', lambda: rng.choice((u'n', u'm'))), ('label', lambda: rng.choice((u'L', u'M'))),
                  ('optional', lambda: rng.random() < .5), ('default', lambda: self.default(kind)),
                  ('validators', lambda: [self.checker() for _ in xrange(rng.randrange(0, 3))]),
                  ('properties', lambda: {u'p': rng.randrange(99)})]
        special = {
            'String': [('strip', bool)], 'Integer': [('signed', bool), ('format', lambda: rng.choice((u'%05i', u'%i')))],
            'Float': [('signed', bool), ('format', lambda: u'%0.2f')], 'Decimal': [('signed', bool)], 'Long': [('signed', bool)],
            'Boolean': [('true', lambda: u'yes'), ('false', lambda: u'no'), ('true_synonyms', lambda: (u'y',))],
            'Date': [('strip', bool)], 'DateTime': [('strip', bool)], 'Time': [('strip', bool)],
            'Enum': [('valid_values', lambda: (u'b', u'q'))],
            'Constrained': [('valid_value', lambda: Chosen(rng.choice((u'a', u'b'))))],
            'List': [('prune_empty', lambda: False), ('maximum_set_flat_members', lambda: 3)],
            'Array': [('prune_empty', lambda: False)], 'MultiValue': [('prune_empty', lambda: False)],
            'JoinedString': [('separator', lambda: rng.choice((u',', u';'))), ('prune_empty', lambda: False), ('strip', lambda: False)],
            'Dict': [('policy', lambda: rng.choice((None, 'strict', 'subset')))],
            'SparseDict': [('minimum_fields', lambda: rng.choice((None, 'required')))],
            'Ref': [('writable', lambda: rng.choice((True, False, 'ignore')))],
        }.get(kind, [])
        for _ in xrange(rng.randrange(1, 4)):
            k, fn = rng.choice(common + special * 2)
            o[k] = rng.random() < .5 if fn is bool else fn()
        return o

    def default(self, kind):
        rng = self.rng
        if kind in ('Dict', 'SparseDict', 'Form'):
            return None
        if kind == 'List':
            return rng.choice((0, 2))
        if kind in ('Array', 'MultiValue', 'JoinedString'):
            return [u'1']
        return rng.choice((u'1', u'b', None))

    def instance(self, cls):
        rng, ctx = self.rng, self.ctx
        kind = kind_of(cls)
        o = self.overrides(kind) if rng.random() < .7 else {}
        if kind == 'Constrained':
            o.pop('valid_value', None)
        given = dict(o)
        el = cls(**given)
        other = cls()
        for k, v in o.items():
            if k == 'properties':
                ctx.eq(dict(el.properties.items()), v, 'properties given to a constructor')
            else:
                got = getattr(el, k)
                ctx.check(show(got) == show(v), 'an override is missing', lambda: u'%s: %r' % (k, got))
        if 'validators' in o:
            ctx.check(el.validators is not o['validators'], 'the constructor keeps the list of validators')
            self.handed.append(o['validators'])
        if o:
            ctx.count('constructor overrides')
        a, b = attributes(el), attributes(other)
        for k in set(a) | set(b):
            if k in o or k in ('label', 'default_value') or kind == 'DateYYYYMMDD' and k in ('fields', 'field_schema') and 'optional' in o:
                continue
            ctx.check(a.get(k) == b.get(k), 'an override changes more', lambda: u'%r: %s: %r %r' % (o, k, a.get(k), b.get(k)))
        for k in ('errors', 'warnings'):
            ctx.check(getattr(el, k) is not getattr(other, k) and getattr(el, k) == [] == getattr(other, k), 'lists are shared')
        mine = set(id(e) for e in gen.elements(el))
        ctx.check(not any(id(e) in mine for e in gen.elements(other)), 'children are shared')
        if rng.random() < .6 and kind != 'Ref':
            try:
                el.set(probe(cls))
            except (KeyError, TypeError):
                pass
        self.log.append(('instance', kind, sorted(o)))
        return el

    def assign(self):
        """Something to one element, which concerns that element only."""
        rng = self.rng
        entry = rng.choice(self.elements)
        el = rng.choice(gen.elements(entry[0]))
        k = rng.choice(('label', 'optional', 'errors', 'validators', 'set', 'clear', 'valid', 'properties', 'name', 'default'))
        if k == 'label':
            el.label = rng.choice((u'own', u'mine'))
        elif k == 'optional':
            el.optional = not el.optional
        elif k == 'errors':
            el.add_error(u'e%d' % rng.randrange(9))
            el.add_warning(u'w')
        elif k == 'validators':
            el.validators = [self.checker()]
        elif k == 'valid':
            el.valid = rng.choice((True, False))
        elif k == 'properties':
            el.properties[u'own'] = rng.randrange(99)
        elif k == 'name':
            if el.parent is None:
                el.name = u'renamed'
        elif k == 'default':
            el.default = u'0'
        elif kind_of(type(el)) != 'Ref':
            try:
                el.set(probe(type(el)) if k == 'set' else None)
            except (TypeError, KeyError):
                pass
        self.log.append(('assign', k))
        self.ctx.count('assignments')
        for e in self.elements:
            if e is entry:
                e[1] = self.read(e[0])


def case(ctx, rng):
    h = History(ctx, rng)
    for k in (fl.String, fl.Integer, fl.Enum.valued(u'a', u'b'), fl.Ref, fl.DateYYYYMMDD, fl.JoinedString, fl.Boolean, fl.Date,
              fl.Constrained.using(valid_value=Chosen(u'b')), fl.Float, fl.Long, fl.DateTime, fl.Time):
        if gen.chance(rng, .12):
            h.add(k)
    kinds = [(fl.Dict, 3), (fl.SparseDict, 2), (fl.Form, 2), (fl.List, 1), (fl.Array, 1), (fl.MultiValue, 1)]
    for cls, n in kinds:
        if gen.chance(rng, .35) or not h.classes:
            h.add(cls.of(*[fl.String.named(u'xab'[i]) for i in xrange(n)]))
    for _ in xrange(rng.randrange(8, 21)):
        r = rng.random()
        if r < .6:
            new = h.derive(rng.choice(h.classes)[0])
            h.recheck()
            if new is not None:
                h.add(new)
        elif r < .8:
            el = h.instance(rng.choice(h.classes)[0])
            h.recheck()
            h.add_element(el)
        elif r < .9 and h.elements:
            h.assign()
            h.recheck()
        elif h.handed:
            arg = rng.choice(h.handed)
            if isinstance(arg, dict):
                arg[rng.choice((u'p', u'late'))] = 100
            else:
                arg.append(h.checker())
            h.log.append(('argument altered', type(arg).__name__))
            ctx.count('arguments altered')
            h.recheck()
    ctx.sample(u'%r' % (h.log,))


def builtins_unchanged(ctx, rng):
    """The types of the package themselves stay as imported."""
    fl.DateYYYYMMDD()
    base = dict((n, (attributes(getattr(fl, n)))) for n in ('String', 'Integer', 'Boolean', 'Date', 'List', 'Array', 'JoinedString', 'DateYYYYMMDD'))
    for n in base:
        cls = getattr(fl, n)
        cls.named(u'x'), cls.using(optional=True, label=u'y'), cls.validated_by(len), cls.with_properties(a=1)
        cls.including_validators(len)
        if issubclass(cls, (fl.List, fl.Array)):
            cls = cls.of(fl.String)
        el = cls(name=u'q', label=u'z', optional=True, validators=[len])
        ctx.eq((el.name, el.label, el.optional, el.validators), (u'q', u'z', True, [len]), 'overrides')
        el.errors.append(u'x')
        el.properties[u'k'] = 1
        ctx.check(attributes(getattr(fl, n)) == base[n], 'a type of the package changed', n)
        ctx.eq(cls().errors, [], 'errors are shared', n)
    ctx.raises(TypeError, lambda: fl.Dict.of(fl.String.named(u'a'), fl.Integer.named(u'a')), 'fields of the same name')
    ctx.raises(TypeError, lambda: fl.Dict.of(fl.String(name=u'a')), 'an element as a field')
    ctx.raises(TypeError, lambda: fl.List.of(fl.String(name=u'a')), 'an element as a member')
    ctx.raises(AttributeError, lambda: fl.String().named, 'constructors on instances')
    # keyword overrides are the only arguments
    for o in ({'parent': None}, {'value': u'3'}):
        el = fl.Integer(**o)
        ctx.eq(el.value, 3 if 'value' in o else None, 'constructor')


def parts(ctx, rng):
    """Dates that declare some of their parts and derive the rest, used in any order."""
    for _ in xrange(40):
        declared = [fl.Integer.named(u'%s%d' % (n, rng.randrange(9))).using(optional=rng.random() < .5)
                    for n in (u'y', u'm', u'd')[:rng.randrange(0, 4)]]
        keep = list(declared)
        given = rng.choice((list, tuple))(declared)
        names = [f.name for f in keep] + [u'year', u'month', u'day'][len(keep):]
        root = fl.DateYYYYMMDD.using(field_schema=given) if keep or rng.random() < .5 else fl.DateYYYYMMDD
        pool, used = [root], []
        for _ in xrange(rng.randrange(3, 12)):
            cls = rng.choice(pool)
            r = rng.randrange(6)
            if r < 2:
                pool.append(cls.using(optional=rng.random() < .5))
            elif r == 2:
                pool.append(rng.choice((lambda: cls.named(u'n'), lambda: cls.validated_by(), lambda: cls.using(label=u'l'),
                                        lambda: type('Own', (cls,), {'optional': rng.random() < .5})))())
            else:
                optional = cls.optional
                el = cls()
                if r == 3:
                    optional = rng.random() < .5
                    el = cls(optional=optional)
                used.append((el, optional))
            ctx.check(list(given) == keep, 'a sequence given to using() changed', repr(given))
            for el, optional in used:
                ctx.eq([f.name for f in el.field_schema], names, 'parts of a date', repr(keep))
                ctx.check(list(el.field_schema[:len(keep)]) == keep, 'declared parts of a date')
                ctx.eq([f.optional for f in el.field_schema], [f.optional for f in keep] + [optional] * (3 - len(keep)),
                       'derived parts follow their date', len(keep))
                ctx.eq(sorted(c.name for c in el.children), sorted(names), 'children of a date')
                ctx.count('parts of dates')
        for el, optional in used:
            ctx.eq(el.validate(), optional and all(f.optional for f in keep), 'an empty date is valid when it is optional', len(keep))
            el.set_flat([(u'_'.join(filter(None, (el.name, n))), v) for n, v in zip(names, (u'2004', u'2', u'29'))])
            ctx.eq((el.u, el.validate()), (u'2004-02-29', True), 'a full date')


def positions(ctx, rng):
    """Every position of both kinds of validators."""
    for op, attr in (('including_validators', 'validators'), ('including_descent_validators', 'descent_validators')):
        for n in xrange(5):
            base = fl.Dict.of(fl.String.named(u'x'))
            old = [Checker(i, True) for i in xrange(n)]
            base = getattr(base, attr[:-10] + 'validated_by')(*old)
            for m in xrange(3):
                new = [Checker(10 + i, True) for i in xrange(m)]
                for position in range(-n - 1, n + 3) + [None]:
                    derived = getattr(base, op)(*new) if position is None else getattr(base, op)(*new, position=position)
                    at = n if position is None else position if position >= 0 else n + 1 + position
                    ctx.eq(list(getattr(derived, attr)), old[:at] + new + old[at:], 'validators at their position', (op, position))
                    ctx.eq(list(getattr(base, attr)), old, 'validators of the original')
                    again = getattr(derived, op)(*(new + old))
                    ctx.eq(list(getattr(again, attr)), list(getattr(derived, attr)) + new + old, 'validators included once more')
                    ctx.count('exhaustive positions')


def forms_of_arguments(ctx, rng):
    """Arguments of other types."""
    pairs = [(u'a', 1), (u'b', None)]
    own = type('Own', (dict,), {})
    for T in (fl.String, fl.List.of(fl.String), fl.Dict.of(fl.String.named(u'a'))):
        Base = T.with_properties(z=9)
        for given in (pairs, tuple(pairs), iter(pairs), dict(pairs), own(pairs), fl.Properties(pairs), fl.Properties(dict(pairs))):
            New = Base.using(properties=given)
            Sub = New.with_properties(c=2)
            el = New()
            el.properties[u'd'] = 3
            ctx.eq(dict(New.properties.items()), dict(pairs), 'properties of a class given to using()', repr(given))
            ctx.eq(dict(el.properties.items()), dict(pairs, d=3), 'properties of an element', repr(given))
            ctx.eq(dict(Sub.properties.items()), dict(pairs, c=2), 'properties of a class derived', repr(given))
            ctx.eq(dict(Base.properties.items()), {u'z': 9}, 'properties of the original')
        for name, want in ((u'', u''), ('', u''), (None, None), ('n', u'n'), (5, u'5'), (0, u'0'), (False, u'False')):
            ctx.eq(T.named(name).name, want, 'name given to named()', repr(name))
            ctx.check(T.named(name).name is None or isinstance(T.named(name).name, unicode), 'type of a name', repr(name))


def on_instances(ctx, rng):
    """Constructors of schemas are none of elements, and names set on elements are their own."""
    for T in (fl.String, fl.Integer, fl.List.of(fl.String), fl.Dict.of(fl.String.named(u'a')), fl.DateYYYYMMDD):
        for name in ('using', 'named', 'with_properties', 'validated_by', 'including_validators'):
            one, two = T(), T()
            ctx.raises(AttributeError, lambda: getattr(one, name), 'constructor of an element')
            setattr(one, name, 5)
            ctx.eq(getattr(one, name), 5, 'name set on an element')
            ctx.raises(AttributeError, lambda: getattr(two, name), 'constructor of an element')
            ctx.check(callable(getattr(T, name)), 'constructor lost', name)
            delattr(one, name)
            ctx.raises(AttributeError, lambda: getattr(one, name), 'constructor of an element')
            ctx.raises(AttributeError, lambda: delattr(one, name), 'constructor of an element')
            ctx.check(issubclass(T.named(u'again'), T), 'constructor lost', name)
            ctx.count('instance names')


FIXED = {'forms of arguments': forms_of_arguments, 'instances': on_instances, 'positions': positions, 'builtins_unchanged': builtins_unchanged, 'parts': parts}
