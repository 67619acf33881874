# -*- coding: utf-8 -*-
"""P06: sequences in lockstep with a Python list."""
import flatland as fl
from fv import gen, model, ops

CASES = {'quick': 2600, 'thorough': 70000}
RULE = '''A case draws a List, Array or MultiValue of a member schema and runs 6-40 random list operations with random
indexes, slices, values and elements on it and on a Python list of (element, state) entries, comparing results, exceptions,
members, their identity and .value after every step. Non-trivial: distinct (schema, operation, index, length) steps.'''
ASSUMPTIONS = ['Member equality is equality of both value and text, as P30 states.',
               'Jython slices of plain list subclasses that start before the first member are left out.']
REQUIRE = {'steps': 20000, 'nontrivial': 4000, 'exceptions matched': 1000, 'identities checked': 30000,
           'failed adaptations': 500, 'operation kinds': 24}

MEMBERS = ('String', 'Integer', 'Boolean', 'Date', 'Enum', 'String', 'Integer', 'Time')


def wrap(s, value):
    """(adapted, state) of a plain value given to a member schema."""
    if s.scalar:
        ok, v, u = model.scalar(s, value)
        return ok, (gen.fz(v), u)
    if s.sequence:
        try:
            values = list(value)
        except TypeError:
            return False, ()
        parts = [wrap(s.member, v) for v in values]
        return all(ok for ok, _ in parts), tuple(state for _, state in parts)
    raise AssertionError(s)


def state(el, s):
    if s.scalar:
        return (gen.fz(el.value), unicode(el.u))
    return tuple(state(m, s.member) for m in el)


def native(st, s):
    if s.scalar:
        return st[0]
    return ('list', tuple(native(x, s.member) for x in st))


def again(entry, s):
    """The state of a new member made of the value of an entry."""
    return wrap(s, entry.el.value)[1]


class Entry(object):
    __slots__ = ('el', 'state')

    def __init__(self, el, st):
        self.el, self.state = el, st

    def __repr__(self):
        return repr(self.state)


def value_for(rng, s):
    if s.scalar:
        return rng.choice((gen.good_value(rng, s), gen.text_for(rng, s), rng.choice((u'a', u'b', 1, 2, None, u'1'))))
    return [value_for(rng, s.member) for _ in xrange(rng.randrange(3))]


def argument(rng, s, pool):
    """(argument, Entry) of a plain value or a fresh element."""
    if pool and rng.random() < .4:
        v = rng.choice(pool)
    else:
        v = value_for(rng, s)
    pool.append(v)
    if rng.random() < .25:
        el = s.cls()
        el.set(v)
        return el, Entry(el, state(el, s))
    return v, Entry(None, wrap(s, v)[1])


def same(ctx, el, mirror, s, what):
    ctx.check(len(el) == len(mirror), 'length', lambda: u'%s: %d, expected %d' % (what, len(el), len(mirror)))
    got = list(el)
    for i, (m, entry) in enumerate(zip(got, mirror)):
        ctx.check(isinstance(m, s.member.cls), 'member is not of the member schema', lambda: u'%s: %r' % (what, m))
        ctx.check(state(m, s.member) == entry.state, 'member state',
                  lambda: u'%s: [%d] %r, expected %r' % (what, i, state(m, s.member), entry.state))
        if entry.el is not None:
            ctx.count('identities checked')
            ctx.check(m is entry.el, 'member is not the same element', lambda: u'%s: [%d]' % (what, i))
        entry.el = m
    if s.kind in ('List', 'Array'):
        ctx.check(gen.fz(el.value) == ('list', tuple(native(e.state, s.member) for e in mirror)), 'value',
                  lambda: u'%s: %r' % (what, el.value))
    ctx.check(list(el.children) == got and all(a is b for a, b in zip(el.children, got)), 'children', what)
    ctx.check(bool(el) == bool(mirror), 'truth', what)


def attempt(fn):
    try:
        return 'returned', fn()
    except (IndexError, ValueError) as exc:
        return 'raised', type(exc).__name__


def index_in(mirror, st):
    for i, e in enumerate(mirror):
        if e.state == st:
            return i
    raise ValueError(st)


def case(ctx, rng):
    kind = rng.choice(('List', 'List', 'Array', 'MultiValue'))
    member = gen.scalar_spec(rng, rng.choice((None, u'm')), MEMBERS)
    if kind == 'List' and rng.random() < .2:
        member = gen.Spec(rng.choice(('List', 'Array')), rng.choice((None, u'm')), [member])
    s = gen.Spec(kind, rng.choice((None, u'seq')), [member])
    el = s.cls()
    mirror, pool = [], []
    ctx.log(s)
    for step in xrange(rng.randrange(6, 41)):
        n = len(mirror)
        op = rng.choice(('set', 'append', 'append', 'append', 'extend', 'iadd', 'imul', 'plus', 'insert', 'setitem', 'setslice', 'setslice2',
                         'delitem', 'delslice', 'delslice2', 'pop', 'pop0', 'remove', 'remove', 'index', 'count', 'in', 'getitem',
                         'getslice', 'sort', 'reverse', 'iterate', 'setbad', 'own'))
        i = ops.an_index(rng, n)
        sl = ops.a_slice(rng, n)
        plain_slice = slice(rng.choice((None, i)), rng.choice((None, ops.an_index(rng, n))))
        if kind != 'List' and op != 'setslice':
            # Jython's own list subclasses get these wrong
            plain_slice = slice(*[e if e is None or e >= -n else -n for e in (plain_slice.start, plain_slice.stop)])
            if op == 'getslice' and sl.step is None:
                sl = slice(sl.start, sl.stop, 1)
        arg, entry = argument(rng, member, pool)
        compare_result = True
        desc = op
        if op in ('set', 'setbad'):
            if op == 'set':
                values = [value_for(rng, member) for _ in xrange(rng.randrange(5))]
                given = rng.choice((list, tuple, iter))(values)
                parts = [wrap(member, v) for v in values]
                got = attempt(lambda: el.set(given))
                ok = all(p[0] for p in parts)
                mirror[:] = [Entry(None, p[1]) for p in parts]
                if not ok:
                    ctx.count('failed adaptations')
            else:
                given = rng.choice((None, 5, object(), 1.5, True))
                got, ok = attempt(lambda: el.set(given)), False
                mirror[:] = []
                ctx.check(el.raw is given, 'raw', repr(given))
            desc = u'set(%r)' % (given,)
            ctx.check(got == ('returned', ok), 'set() result', lambda: u'%r %s: %r, expected %r' % (s, desc, got, ok))
            compare_result = False
        elif op == 'append':
            desc = u'append(%r)' % (arg,)
            got, want = attempt(lambda: el.append(arg)), attempt(lambda: mirror.append(entry))
        elif op in ('extend', 'iadd'):
            args = [argument(rng, member, pool) for _ in xrange(rng.randrange(4))]
            source = [a for a, _ in args]
            if rng.random() < .3:
                source = iter(source)
            desc = u'%s(%r)' % (op, source)
            if op == 'extend':
                got = attempt(lambda: el.extend(source))
            else:
                same_el = el
                same_el += source
                ctx.check(same_el is el, '+= gives another object')
                got = ('returned', None)
            want = attempt(lambda: mirror.extend([e for _, e in args]))
        elif op == 'imul':
            times = rng.choice((-1, 0, 1, 2, 2, 3, 5, 8) if n < 4 else (-1, 0, 1, 2, 2, 3)) if n < 12 else 1
            same_el = el
            desc = u'*= %d' % times
            repeated = [Entry(None, again(e, member)) for e in mirror * (times - 1)]
            if rng.random() < .3 and n < 12:
                desc, repeated, times = u'extends itself', [Entry(None, again(e, member)) for e in mirror], 2
                if rng.random() < .5:
                    el.extend(el)
                else:
                    same_el += el
            else:
                same_el *= times
            ctx.check(same_el is el, '*= gives another object', desc)
            mirror[:] = mirror + repeated if times > 0 else []
            compare_result = False
        elif op == 'plus':
            other = rng.choice(([], [1, u'x'], [u'a'] * 3))
            desc = u'+ and *'
            own = [e.el for e in mirror]
            for text, got, want in (('x + list', el + other, own + other), ('x * 2', el * 2, own * 2), ('2 * x', 2 * el, own * 2),
                                    ('list + x', other + el, other + own), ('x + x', el + el, own + own), ('x * 0', el * 0, [])):
                ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'result of + or *',
                          lambda: u'%r: %s: %r' % (s, text, got))
            compare_result = False
        elif op == 'insert':
            desc = u'insert(%r, %r)' % (i, arg)
            got, want = attempt(lambda: el.insert(i, arg)), attempt(lambda: mirror.insert(i, entry))
        elif op == 'setitem':
            desc = u'[%r] = %r' % (i, arg)
            got = attempt(lambda: el.__setitem__(i, arg))
            want = attempt(lambda: mirror.__setitem__(i, entry))
        elif op in ('setslice', 'setslice2'):
            args = [argument(rng, member, pool) for _ in xrange(rng.randrange(4))]
            source = [a for a, _ in args]
            where = plain_slice if op == 'setslice' else sl
            desc = u'[%r] = %r' % (where, source)

            def assign(target, values):
                if op == 'setslice':
                    target[where.start:where.stop] = values
                else:
                    target[where] = values
            got = attempt(lambda: assign(el, source))
            want = attempt(lambda: assign(mirror, [e for _, e in args]))
        elif op == 'delitem':
            desc = u'del [%r]' % i
            got, want = attempt(lambda: el.__delitem__(i)), attempt(lambda: mirror.__delitem__(i))
        elif op in ('delslice', 'delslice2'):
            where = plain_slice if op == 'delslice' else sl
            desc = u'del [%r]' % where

            def remove(target):
                if op == 'delslice':
                    del target[where.start:where.stop]
                else:
                    del target[where]
            got, want = attempt(lambda: remove(el)), attempt(lambda: remove(mirror))
        elif op in ('pop', 'pop0'):
            desc = op + repr(i)
            a = () if op == 'pop0' else (i,)
            got, want = attempt(lambda: el.pop(*a)), attempt(lambda: mirror.pop(*a))
            if got[0] == want[0] == 'returned':
                ctx.check(want[1].el is None or got[1] is want[1].el, 'pop() gives another element',
                          lambda: u'%r %s: %r' % (s, desc, got[1]))
                ctx.check(state(got[1], member) == want[1].state, 'popped state', desc)
                compare_result = False
        elif op == 'remove':
            if n and rng.random() < .4:
                arg = el[rng.randrange(n)]
                entry = Entry(arg, state(arg, member))
            desc = u'remove(%r)' % (arg,)
            got = attempt(lambda: el.remove(arg))

            def take_out():
                del mirror[index_in(mirror, entry.state)]
            want = attempt(take_out)
        elif op == 'index':
            desc = u'index(%r)' % (arg,)
            got, want = attempt(lambda: el.index(arg)), attempt(lambda: index_in(mirror, entry.state))
            if rng.random() < .5:
                bounds = (i,) if rng.random() < .5 else (i, ops.an_index(rng, n))
                desc = u'index(%r, %r)' % (arg, bounds)
                states = [e.state for e in mirror]
                got, want = attempt(lambda: el.index(arg, *bounds)), attempt(lambda: states.index(entry.state, *bounds))
        elif op == 'count':
            desc = u'count(%r)' % (arg,)
            got, want = attempt(lambda: el.count(arg)), ('returned', len([e for e in mirror if e.state == entry.state]))
        elif op == 'in':
            desc = u'%r in' % (arg,)
            got, want = attempt(lambda: arg in el), ('returned', any(e.state == entry.state for e in mirror))
        elif op == 'getitem':
            desc = u'[%r]' % i
            got, want = attempt(lambda: el[i]), attempt(lambda: mirror[i].el)
        elif op == 'getslice':
            desc = u'[%r] and [%r]' % (sl, plain_slice)
            got = attempt(lambda: [m for m in el[sl]] + [m for m in el[plain_slice.start:plain_slice.stop]])
            want = attempt(lambda: [e.el for e in mirror[sl] + mirror[plain_slice]])
            ctx.check(map(id, got[1]) == map(id, want[1]), 'slice', lambda: u'%r %s: %r, expected %r' % (
                s, desc, got[1], want[1]))
            compare_result = False
        elif op == 'sort':
            rev = rng.random() < .5
            desc = u'sort(key, reverse=%r)' % rev
            fed = []

            def key(m):
                fed.append(m)
                return unicode(m.u)
            got = attempt(lambda: el.sort(key=key, reverse=rev))
            ctx.check(all(isinstance(m, member.cls) for m in fed), 'sort key is given no element', desc)
            want = attempt(lambda: mirror.sort(key=lambda e: unicode(e.el.u), reverse=rev))
        elif op == 'reverse':
            got, want = attempt(el.reverse), attempt(mirror.reverse)
        elif op == 'iterate':
            got = ('returned', [id(m) for m in el] + [id(m) for m in reversed(el)] + [id(el[j]) for j in range(-len(el), len(el))])
            want = ('returned', [id(e.el) for e in mirror] + [id(e.el) for e in reversed(mirror)] +
                    [id(mirror[j].el) for j in range(-n, n)])
        elif op == 'own':
            # members are live: setting one changes the sequence
            compare_result = False
            if n:
                j = rng.randrange(n)
                v = value_for(rng, member)
                el[j].set(v)
                mirror[j].state = wrap(member, v)[1]
                desc = u'[%d].set(%r)' % (j, v)
        ctx.log(desc)
        what = u'%r after %s' % (s, desc)
        if compare_result:
            ctx.check(got[0] == want[0] and (got[1] is want[1] or got[1] == want[1]), 'result of %s' % op,
                      lambda: u'%s on %r: %r, expected %r' % (what, mirror, got, want))
            if got[0] == 'raised':
                ctx.count('exceptions matched')
        if op == 'setitem' and got[0] == 'returned' and entry.el is None:
            pass
        if not isinstance(arg, fl.Element) and op in ('append', 'insert', 'setitem') and not wrap(member, arg)[0]:
            ctx.count('failed adaptations')
        same(ctx, el, mirror, s, what)
        ctx.count('steps')
        ctx.seen('operation kinds', (op, kind))
        ctx.nontrivial((repr(s), op, i, n, repr(sl)))
    ctx.sample(u'%r: %s' % (s, u' ; '.join(ctx.trace[1:12])))


def texts(ctx, rng):
    """A text is an iterable of characters; a dict of its keys."""
    for T in (fl.List, fl.Array):
        el = T.of(fl.String)()
        ctx.eq(el.set(u'abc'), True, 'set() of a text')
        ctx.eq(el.value, [u'a', u'b', u'c'], 'set() of a text')
        ctx.eq(el.set({u'k': 1}), True, 'set() of a dict')
        ctx.eq(el.value, [u'k'], 'set() of a dict')
        ints = T.of(fl.Integer)()
        ctx.eq(ints.set(u'1x2'), False, 'set() of a text')
        ctx.eq(ints.value, [1, None, 2], 'set() of a text')
        ctx.eq([m.u for m in ints], [u'1', u'x', u'2'], 'set() of a text')
        ctx.raises(TypeError, lambda: T(), 'sequence without member schema')


def several(ctx, rng):
    """of() with several schemas makes Dict members."""
    for T in (fl.List,):
        L = T.of(fl.Integer.named(u'x'), fl.String.named(u'y'))
        el = L([dict(x=1, y=u'a')])
        el.append(dict(x=u'2'))
        el.insert(0, {})
        el[0] = dict(y=u'z')
        ctx.eq(el.value, [{u'x': None, u'y': u'z'}, {u'x': 1, u'y': u'a'}, {u'x': 2, u'y': None}], 'Dict members')
        ctx.eq(el.index(dict(x=1, y=u'a')), 1, 'Dict members')
        ctx.eq(el.count({u'x': 2}), 1, 'Dict members')
        el.remove(dict(x=1, y=u'a'))
        ctx.eq([m[u'x'].value for m in el], [None, 2], 'Dict members')
        ctx.eq(el.pop(0).value, {u'x': None, u'y': u'z'}, 'Dict members')


def long_ones(ctx, rng):
    """Nothing changes with length."""
    for T in (fl.List, fl.Array, fl.MultiValue):
        for n in (63, 64, 65, 255, 257, 1023, 1024, 1025, 1026, 3000):
            mirror = [(k * 7919) % 1000 for k in xrange(n)]
            el = T.of(fl.Integer)()

            def agree(what):
                ctx.check([m.value for m in el] == mirror and len(el) == len(mirror) and [m.u for m in el.children] == map(unicode, mirror),
                          'a long sequence: ' + what, lambda: u'%s of %d' % (T.__name__, n))
                if T is fl.List:
                    ctx.check([next(m.parents).name for m in el] == [unicode(k) for k in xrange(len(el))], 'slots of a long list', what)
                ctx.count('long sequences')
            ctx.check(el.set(iter(mirror)) is True, 'set() of many')
            agree('set')
            for j in (0, 1, n // 2, n - 1, -1, -n):
                ctx.eq((el[j].value, el.index(mirror[j]), el.count(mirror[j]), mirror[j] in el),
                       (mirror[j], mirror.index(mirror[j]), mirror.count(mirror[j]), True), 'reads of a long sequence', (n, j))
            more = range(n)
            el.extend(more), mirror.extend(more)
            agree('extend')
            el += more
            mirror += more
            agree('+=')
            el.insert(n, 5), mirror.insert(n, 5)
            el.insert(1, 6), mirror.insert(1, 6)
            agree('insert')
            ctx.eq(el.pop(n - 1).value, mirror.pop(n - 1), 'pop()')
            agree('pop')
            del el[3::2], mirror[3::2]
            agree('del')
            el[5:n] = more
            mirror[5:n] = more
            agree('slice assignment')
            el[n - 1] = 77
            mirror[n - 1] = 77
            el.remove(n - 2), mirror.remove(n - 2)
            agree('remove')
            el.sort(key=lambda m: m.value % 10, reverse=True), mirror.sort(key=lambda v: v % 10, reverse=True)
            agree('sort')
            el.reverse(), mirror.reverse()
            agree('reverse')
            if T is not fl.MultiValue:
                ctx.eq(el.value, mirror, 'value of a long sequence')
            ctx.check(el.set(mirror[:-1] + [u'x']) is False and len(el) == len(mirror), 'set() of many')


FIXED = {'texts': texts, 'several': several, 'long': long_ones}
