# -*- coding: utf-8 -*-
"""P07: mappings in lockstep with a model of their keys and values."""
import collections

import flatland as fl
from fv import gen, flat

CASES = {'quick': 2400, 'thorough': 60000}
RULE = '''A case draws a Dict, Form or SparseDict (with both minimum_fields modes and some optional fields) of scalars, lists and
nested mappings and runs 5-30 random operations with known and unknown keys, dict-likes of ten kinds and every policy on it and
on a model, comparing results, exceptions, keys, states and values after every step. Where an operation raises half-way only the keys are
compared, and the model takes over the state. Non-trivial: distinct (schema, operation, keys) steps.'''
ASSUMPTIONS = ['Element arguments are given to SparseDicts only; a Dict takes plain values.']
REQUIRE = {'steps': 15000, 'nontrivial': 4000, 'exceptions matched': 3000, 'failed adaptations': 800, 'sets': 3000,
           'operation kinds': 40, 'dict-likes': 30, 'unknown keys': 2500, 'moved elements': 60}

UNKNOWN = (u'nope', u'', None, 3, 'x\xff', (1,), u'a b_', True)


class Keyed(object):
    def __init__(self, items):
        self.items_ = items

    def keys(self):
        return [k for k, _ in self.items_]

    def __getitem__(self, key):
        return dict(self.items_)[key]


class Iter(object):
    def __init__(self, items):
        self.items_ = items

    def iteritems(self):
        return iter(self.items_)


def dictlike(ctx, rng, items):
    """items as one of many dict-likes."""
    kind = rng.choice(('dict', 'list', 'tuple', 'generator', 'iter', 'Keyed', 'Iter', 'OrderedDict', 'namedtuple', 'lists',
                       'UserDict', 'defaultdict'))
    ctx.seen('dict-likes', (kind, len(items) > 0, len(items) > 2))
    unique = len(set(map(repr, dict(items)))) == len(items)
    if kind == 'list' or not unique:
        return list(items)
    if kind == 'tuple':
        return tuple(items)
    if kind == 'generator':
        return ((k, v) for k, v in items)
    if kind == 'iter':
        return iter(items)
    if kind == 'lists':
        return [[k, v] for k, v in items]
    if kind == 'Keyed':
        return Keyed(items)
    if kind == 'Iter':
        return Iter(items)
    if kind == 'OrderedDict':
        return collections.OrderedDict(items)
    if kind == 'defaultdict':
        return collections.defaultdict(int, items)
    if kind == 'UserDict':
        import UserDict
        return UserDict.UserDict(dict(items))
    if kind == 'namedtuple' and items and all(
            isinstance(k, unicode) and k and k[0] in u'abcdefghn' and k.isalnum() and k.encode('ascii', 'ignore') == k
            and k not in (u'as', u'if') for k, _ in items):
        return collections.namedtuple('N', [str(k) for k, _ in items])(*[v for _, v in items])
    return dict(items)


def schema(rng, kind=None, name=None, depth=1):
    kind = kind or rng.choice(('Dict', 'Form', 'SparseDict', 'SparseDict'))
    kids, used = [], []
    for _ in xrange(rng.randrange(1, 5)):
        n = gen.name(rng, u'_', odd=.2, used=used)
        used.append(n)
        r = rng.random()
        if depth and r < .15:
            kids.append(schema(rng, rng.choice(('Dict', 'SparseDict')), n, depth - 1))
        elif depth and r < .3:
            kids.append(gen.Spec(rng.choice(('List', 'Array')), n, [gen.scalar_spec(rng, None)]))
        else:
            kids.append(gen.scalar_spec(rng, n))
    o = {}
    if kind == 'SparseDict' and rng.random() < .6:
        o['minimum_fields'] = 'required'
    for kid in kids:
        if rng.random() < .5:
            kid.opts['optional'] = True
    if rng.random() < .4:
        o['policy'] = rng.choice(('strict', 'duck', 'subset'))
    return gen.Spec(kind, name, kids, **o)


def value_for(rng, s):
    if s.scalar:
        return rng.choice((gen.good_value(rng, s), gen.good_value(rng, s), gen.text_for(rng, s), gen.any_input(rng)))
    if s.mapping:
        return dict((kid.name, value_for(rng, kid)) for kid in s.kids
                    if s.opts.get('policy') == 'strict' or rng.random() < .7)
    return [value_for(rng, s.member) for _ in xrange(rng.randrange(3))]


class Model(object):
    def __init__(self, s):
        self.s = s
        self.fields = dict(flat.blank(s)[1])

    def required(self, key):
        return (self.s.kind != 'SparseDict' or
                (self.s.opts.get('minimum_fields') == 'required' and not self.s.field(key).opts.get('optional')))


def invariants(ctx, el, m, what, exact=True):
    s = m.s
    declared = [kid.name for kid in s.kids]
    keys = list(el)
    ctx.check(len(keys) == len(set(keys)) == len(el), 'keys are not unique', lambda: u'%s: %r' % (what, keys))
    ctx.check(all(k in declared for k in keys), 'undeclared field', lambda: u'%s: %r of %r' % (what, keys, declared))
    for kid in s.kids:
        present = kid.name in keys
        ctx.check(present or not m.required(kid.name), 'required field is missing', lambda: u'%s: %r' % (what, kid.name))
        ctx.check((kid.name in el) == present, 'in', what)
        ctx.check(el.may_contain(kid.name) is True or el.may_contain(kid.name) == present or s.kind == 'SparseDict',
                  'may_contain', what)
        if s.kind == 'SparseDict':
            ctx.check(bool(el.may_contain(kid.name)), 'may_contain', what)
        if present:
            ctx.check(isinstance(el[kid.name], kid.cls), 'field is not of its schema', lambda: u'%s: %r' % (what, kid.name))
    ctx.check(sorted(map(id, el.values())) == sorted(id(el[k]) for k in keys) == sorted(id(e) for e in el.children)
              == sorted(id(v) for _, v in el.items()), 'values, items and children', what)
    ctx.check(sorted(el.keys()) == sorted(keys) == sorted(el.iterkeys()), 'keys()', what)
    if not exact:
        return
    got = flat.capture(el, s)
    ctx.check(got == ('m', m.fields), 'state', lambda: u'%s: %s' % (what, flat.diff(got, ('m', m.fields))))
    value = dict((unicode(k), v) for k, v in el.value.items())  # namedtuple fields are byte strings
    ctx.check(gen.fz(value) == flat.native(s, ('m', m.fields)), 'value', lambda: u'%s: %r' % (what, el.value))
    ctx.check(el.is_empty == (s.kind == 'SparseDict' and not m.fields), 'is_empty', what)


class Some(object):
    """Any exception of these kinds."""
    def __init__(self, *kinds):
        self.kinds = kinds

    def __repr__(self):
        return 'raising %s' % '/'.join(k.__name__ for k in self.kinds)


def attempt(fn):
    try:
        return fn()
    except (KeyError, TypeError, ValueError, AttributeError, NotImplementedError, AssertionError) as exc:
        return Some(type(exc))


def case(ctx, rng):
    s = schema(rng)
    el, m = s.cls(), Model(s)
    declared = [kid.name for kid in s.kids]
    ctx.log(s)
    invariants(ctx, el, m, u'%r new' % s)
    sparse = s.kind == 'SparseDict'
    for step in xrange(rng.randrange(5, 31)):
        op = rng.choice(('set', 'set', 'set', 'update', 'update', 'item', 'item', 'get', 'del', 'pop', 'popitem', 'clear', 'setdefault',
                         'setdefault', 'setbad', 'child', 'element', 'construct', 'set_flat', 'default'))
        known = rng.random() < .7
        key = rng.choice(declared) if known else rng.choice(UNKNOWN)
        known = any(key == d and isinstance(key, basestring) for d in declared)
        kid = s.field(key) if known else None
        value = value_for(rng, kid) if known else rng.choice((1, u'x', None, []))
        exact = True
        if not known and op in ('item', 'get', 'del', 'pop', 'setdefault'):
            ctx.count('unknown keys')
        if op in ('set', 'construct'):
            items = [(k.name, value_for(rng, k)) for k in s.kids if rng.random() < .75]
            if rng.random() < .1:
                items = [(k.name, value_for(rng, k)) for k in s.kids]
            if items and rng.random() < .1:
                k = rng.choice(items)[0]
                items.append((k, value_for(rng, s.field(k))))
            foreign = rng.random() < .25
            if foreign:
                items.append((rng.choice(UNKNOWN[:4]), 1))
                foreign = not any(items[-1][0] == d for d in declared)
            rng.shuffle(items)
            policy = rng.choice((None, None, None, 'strict', 'subset', 'duck')) if op == 'set' else None
            effective = policy or s.opts.get('policy', 'subset')
            given = dictlike(ctx, rng, items)
            desc = u'%s(%s %r, %r)' % (op, type(given).__name__, items, policy)
            if op == 'construct':
                got = attempt(lambda: s.cls(given))
            else:
                got = attempt(lambda: el.set(given, policy=policy) if policy else el.set(given))
                ctx.check(el.raw is given, 'raw', desc)
            if foreign and effective != 'duck':
                ctx.count('unknown keys')
                want, exact = Some(KeyError, TypeError), False
            elif effective == 'strict' and len(set(k for k, _ in items)) < len(declared):
                want, exact = Some(TypeError), False
            else:
                ctx.count('sets')
                want, fields = True, dict(flat.blank(s)[1])
                for k, v in items:
                    if any(k == d for d in declared):
                        ok, fields[k] = flat.assign(s.field(k), v)
                        want = want and ok
                if not want:
                    ctx.count('failed adaptations')
                if op == 'set':
                    m.fields = fields
                elif not isinstance(got, Some):
                    el, m.fields, want = got, fields, got
                    ctx.check(el.raw is given, 'raw', desc)
            if op == 'construct':
                exact = True
        elif op == 'update':
            items = [(k.name, value_for(rng, k)) for k in s.kids if rng.random() < .5]
            foreign = rng.random() < .2
            if foreign:
                items.insert(rng.randrange(len(items) + 1), (rng.choice(UNKNOWN), 1))
                ctx.count('unknown keys')
            elif items and rng.random() < .3:
                # the last value of a key counts, and keywords come last
                key = rng.choice(items)[0]
                items.append((key, value_for(rng, s.field(key))))
            asname = (items and rng.random() < .3 and
                      all(isinstance(k, unicode) and k.encode('ascii', 'ignore') == k and k.isalnum() for k, _ in items))
            desc = u'update(%s%r)' % (u'**' if asname else u'', items)
            if asname:
                split = rng.randrange(len(items) + 1)
                if len(set(k for k, _ in items)) < len(items):
                    split = len(items) - 1
                    ctx.count('keys given twice')
                args = (dictlike(ctx, rng, items[:split]),) if split else ()
                kw = dict((str(k), v) for k, v in items[split:])
                got = attempt(lambda: el.update(*args, **kw))
            elif rng.random() < .05:
                got, items, foreign = attempt(lambda: el.update({}, {})), [], True
            elif rng.random() < .05:
                got, items, foreign = attempt(el.update), [], False
            else:
                if len(set(k for k, _ in items)) < len(items):
                    got = attempt(lambda: el.update(rng.choice((list, tuple, iter))(items)))
                    ctx.count('keys given twice')
                else:
                    got = attempt(lambda: el.update(dictlike(ctx, rng, items)))
            if foreign:
                want, exact = Some(TypeError, KeyError), False
            else:
                want = None
                for k, v in items:
                    m.fields[k] = flat.assign(s.field(k), v)[1]
        elif op == 'item':
            desc = u'[%r] = %r' % (key, value)
            got = attempt(lambda: el.__setitem__(key, value))
            if known:
                want = None
                ok, m.fields[key] = flat.assign(kid, value)
                if not ok:
                    ctx.count('failed adaptations')
            else:
                want = Some(TypeError, KeyError)
        elif op == 'element':
            if not sparse or not known:
                continue
            sub = kid.cls()
            if gen.chance(rng, .4):
                sub = type('Own', (kid.cls,), {})()
            if gen.chance(rng, .3):
                fl.SparseDict.of(kid.cls)()[key] = sub
                ctx.count('moved elements')
            sub.set(value)
            desc = u'[%r] = element of %r' % (key, value)
            got, want = attempt(lambda: el.__setitem__(key, sub)), None
            ctx.check(el[key] is sub and sub.parent is el, 'element is not stored', desc)
            m.fields[key] = flat.assign(kid, value)[1]
        elif op == 'get':
            desc = u'get [%r]' % (key,)
            got = attempt(lambda: (el[key], el.get(key), el.get(key, 5)))
            if known and key in m.fields:
                want = got
                ctx.check(not isinstance(got, Some) and got[0] is got[1] is got[2], 'get', desc)
            else:
                want = Some(KeyError, TypeError)
                for fn in (lambda: el[key], lambda: el.get(key), lambda: el.get(key, 5)):
                    ctx.raises((KeyError, TypeError), fn, 'reading an unknown key', desc)
                ctx.check(key not in el and (sparse and known or not el.may_contain(key)), 'unknown key in', desc)
        elif op in ('del', 'pop'):
            desc = u'%s [%r]' % (op, key)
            there = el[key] if known and key in el else None
            got = attempt((lambda: el.__delitem__(key)) if op == 'del' else (lambda: el.pop(key)))
            if not known or key not in m.fields:
                want = Some(KeyError, TypeError)
            elif m.required(key):
                want = Some(TypeError)
            else:
                want = None if op == 'del' else there
                ctx.check(op == 'del' or got is there, 'pop() gives something else', desc)
                del m.fields[key]
        elif op == 'popitem':
            desc, got = u'popitem()', attempt(el.popitem)
            want = Some(TypeError, NotImplementedError)
        elif op == 'clear':
            desc, got = u'clear()', attempt(el.clear)
            if sparse:
                want = None
                m.fields = dict(flat.blank(s)[1])
            else:
                want = Some(TypeError)
        elif op == 'setdefault':
            desc = u'setdefault(%r, %r)' % (key, value)
            got = attempt(lambda: el.setdefault(key, value))
            if not sparse or not known:
                want = Some(TypeError, KeyError)
            elif key in m.fields and not flat.is_blank(kid, m.fields[key]):
                want = got
                ctx.check(gen.fz(got) == flat.native(kid, m.fields[key]), 'setdefault() result',
                          lambda: u'%s: %r' % (desc, got))
            else:
                want = got
                ctx.check(got is value, 'setdefault() result', lambda: u'%s: %r' % (desc, got))
                m.fields[key] = flat.assign(kid, value)[1]
        elif op == 'setbad':
            given = rng.choice((None, 5, True, object(), [1], [(1, 2, 3)], u'abc', 1.5))
            desc = u'set(%r)' % (given,)
            got = attempt(lambda: el.set(given))
            want, exact = Some(TypeError, ValueError), False
        elif op == 'child':
            if not known or key not in m.fields:
                continue
            desc = u'[%r].set(%r)' % (key, value)
            got = want = el[key].set(value)
            m.fields[key] = flat.assign(kid, value)[1]
        elif op == 'set_flat':
            sub = s.cls()
            sub.update(dict((k.name, value_for(rng, k)) for k in s.kids if rng.random() < .6))
            pairs = list(sub.flatten()) + [(u'nope', u'1'), ((s.name or u'') + u'_nope', u'1')]
            desc, got = u'set_flat(%r)' % pairs, attempt(lambda: el.set_flat(pairs))
            want, exact = None, False
        else:
            desc, got = u'set_default()', attempt(el.set_default)
            want, exact = None, False
        ctx.log(desc)
        what = u'%r after %s' % (s, desc)
        if isinstance(want, Some):
            ctx.check(isinstance(got, Some) and issubclass(got.kinds[0], want.kinds), 'exception of %s' % op,
                      lambda: u'%s: %r, expected %r' % (what, got, want))
            ctx.count('exceptions matched')
        else:
            ctx.check(not isinstance(got, Some) and (got is want or got == want), 'result of %s' % op,
                      lambda: u'%s: %r, expected %r' % (what, got, want))
        invariants(ctx, el, m, what, exact)
        if not exact:
            m.fields = flat.capture(el, s)[1]
        ctx.count('steps')
        ctx.seen('operation kinds', (op, s.kind, known))
        ctx.nontrivial((repr(s), op, sorted(m.fields), known))
    ctx.sample(u'%r: %s' % (s, u' ; '.join(ctx.trace[1:10])))


def declarations(ctx, rng):
    """Field declarations."""
    A, B = fl.Integer.named(u'a'), fl.String.named(u'b')
    for T in (fl.Dict, fl.SparseDict, fl.Form):
        ctx.raises(TypeError, lambda: T.of(A, B, fl.String.named(u'a')), 'duplicate names')
        ctx.raises(TypeError, lambda: T.of(A, B()), 'element as schema')
        ctx.raises(TypeError, lambda: T(), 'no fields')
        S = T.of(A, B)
        ctx.eq(dict(S.field_schema_mapping), {u'a': A, u'b': B}, 'field_schema_mapping')
        ctx.eq([f.name for f in S.field_schema], [u'a', u'b'], 'field_schema')
        ctx.raises(AssertionError, lambda: S().set({u'a': 1}, policy='other'), 'unknown policy')
        ctx.raises(TypeError, lambda: S({u'a': 1}).set({u'a': 1}, policy='strict'), 'strict')
        el = S({'a': '3', 'b': 'x'})
        ctx.eq(el.value, {u'a': 3, u'b': u'x'}, 'byte string keys')
        # what set() does not give is reset
        ctx.eq(el.set({u'b': u'y'}), True, 'set')
        ctx.eq(el.value, {u'b': u'y'} if T is fl.SparseDict else {u'a': None, u'b': u'y'}, 'reset')
        ctx.eq(el.set({}), True, 'set')
        ctx.eq(el.value, {} if T is fl.SparseDict else {u'a': None, u'b': None}, 'reset')


def own_fields(ctx, rng):
    """Fields given to a class later or to a single element."""
    A, B, C = fl.Integer.named(u'a'), fl.String.named(u'b'), fl.Boolean.named(u'c')
    for T in (fl.Dict, fl.SparseDict, fl.Form):
        for first in (False, True):
            S = T.of(A, B)
            if first:
                S({u'a': 1}).set({u'b': u'x'})
                S.field_schema_mapping
            own = S(field_schema=[B, C])
            for el, names, how in ((own, (u'b', u'c'), 'element'), (S(), (u'a', u'b'), 'class')):
                for spin in (0, 1):
                    ctx.eq(sorted(el.field_schema_mapping), list(names), 'mapping of %s' % how)
                    data = dict((n, {u'a': 3, u'b': u'y', u'c': True}[n]) for n in names)
                    ctx.eq(el.set(data), True, 'set() with the fields of the %s' % how)
                    ctx.eq(el.value, data, 'value with the fields of the %s' % how)
                    ctx.eq(sorted(el.keys()), list(names), 'keys with the fields of the %s' % how)
                    for foreign in set((u'a', u'b', u'c')) - set(names):
                        ctx.raises(KeyError, lambda: el.set({foreign: 1}), 'a key of another element')
                        ctx.eq(el.may_contain(foreign), False, 'may_contain() of another element')
                    ctx.raises(TypeError, lambda: el.set({names[0]: 1}, policy='strict'), 'strict')
                    ctx.eq(el.set(data, policy='strict'), True, 'strict')
                    el.set_flat([(n, u'1') for n in (u'a', u'b', u'c')])
                    ctx.eq(sorted(el.keys()), list(names), 'keys from flat data')
            # a class that gets other fields later
            S.field_schema = [C, A]
            el = S({u'c': True, u'a': u'4'})
            ctx.eq((el.value, sorted(S.field_schema_mapping)), ({u'a': 4, u'c': True}, [u'a', u'c']), 'fields assigned to the class')
            ctx.raises(KeyError, lambda: el.set({u'b': 1}), 'a field the class had before')
            ctx.count('own fields')

            class Sub(S):
                field_schema = [B]
            ctx.eq((Sub({u'b': u'z'}).value, sorted(Sub.field_schema_mapping)), ({u'b': u'z'}, [u'b']) if T is not fl.Form else
                   (Sub({u'b': u'z'}).value, [u'a', u'b', u'c']), 'fields of a subclass')


FIXED = {'own fields': own_fields, 'declarations': declarations}
