# -*- coding: utf-8 -*-
"""P15: histories over class trees against frames kept by the monitor."""
import flatland as fl
from flatland.schema.properties import Properties
from fv import gen

CASES = {'quick': 1500, 'thorough': 50000}
RULE = '''A case is a history of 12-40 steps over a growing tree of classes (subclass statements, single and multiple inheritance, named, using,
with_properties, re-declarations, Properties objects shared by classes, flatland and plain classes) and instances: properties are set,
deleted, updated, popped, defaulted, cleared or assigned. The monitor keeps one frame per class and instance; after every step the items of
every class and instance must be those the frames give in method resolution order, results and exceptions those of a dict.
Non-trivial: distinct (operation, depth, what it met) transitions.'''
ASSUMPTIONS = ['clear() on an element hides the keys inherited at the time and forgets earlier deletions (pinned by the test suite).',
               'No class inherits from classes that have different declarations of properties unless they follow each other in one line.']
REQUIRE = {'nontrivial': 120, 'changes': 12000, 'lookups compared': 150000, 'classes': 6000, 'instances': 2500, 'multiple inheritance': 500,
           'declarations': 1500, 'KeyError': 1500, 'hidden keys': 500, 'replaced': 400, 'shared declarations': 150, 'collected': 200}

KEYS = (u'a', 'b', u'c', u'd', 1, (2, 3), None, u'e')
GONE = object()


def alike(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and set(a) == set(b)


class Cls(object):
    def __init__(self, cls, declares):
        self.cls, self.declares, self.frame = cls, declares, {}


class Inst(object):
    def __init__(self, obj, of):
        self.obj, self.of, self.frame, self.replaced = obj, of, {}, None


class World(object):

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.classes, self.instances = [], []
        self.by = {}
        self.last = None
        if gen.chance(rng, .6):
            initial = self.pairs()
            self.add(fl.String.using(properties=dict(initial)), initial)
            if gen.chance(rng, .4):
                initial = self.pairs()
                self.add(type('D', (fl.Dict.of(fl.String.named(u'x')),), {'properties': Properties(initial)}), initial)
        else:
            initial = self.pairs()
            self.add(type('Plain', (object,), {'properties': Properties(initial.items())}), initial)

    def pairs(self):
        return dict((self.rng.choice(KEYS), self.rng.randrange(100)) for _ in xrange(self.rng.randrange(0, 4)))

    def add(self, cls, initial=None):
        c = Cls(cls, initial is not None)
        c.frame.update(initial or {})
        self.classes.append(c)
        self.by[cls] = c
        self.ctx.count('classes')
        if initial is not None:
            self.ctx.count('declarations')
        return c

    def line(self, c):
        """The classes a lookup on c passes, nearest first."""
        out = []
        for cls in c.cls.__mro__:
            if cls in self.by:
                out.append(self.by[cls])
                if self.by[cls].declares:
                    break
        return out

    def view(self, x):
        if isinstance(x, Inst):
            if x.replaced is not None:
                return dict(x.replaced)
            frames = [x.frame] + [c.frame for c in self.line(x.of)]
        else:
            frames = [c.frame for c in self.line(x)]
        out = {}
        for f in reversed(frames):
            out.update(f)
        return dict((k, v) for k, v in out.items() if v is not GONE)

    def mixable(self, bases):
        """The ways up from each base end at the same declaration."""
        try:
            mro = type('T', tuple(b.cls for b in bases), {}).__mro__
        except TypeError:
            return False
        known = [self.by[c] for c in mro if c in self.by]
        for i, c in enumerate(known):
            if c.declares:
                top = c
                break
        return all(self.line(c)[-1] is top for c in known[:i + 1])

    # -- steps

    def new_class(self):
        rng = self.rng
        base = rng.choice(self.classes)
        r = rng.random()
        element = issubclass(base.cls, fl.Element)
        if r < .25 and len(self.classes) > 2:
            bases = rng.sample(self.classes, rng.choice((2, 2, 3)))
            if self.mixable(bases):
                self.add(type('M', tuple(b.cls for b in bases), {}))
                self.ctx.count('multiple inheritance')
                return 'multiple'
        if r < .4:
            initial = self.pairs()
            self.add(type('R', (base.cls,), {'properties': Properties(**dict((str(k), v) for k, v in initial.items()))}),
                     dict((str(k), v) for k, v in initial.items()))
            return 'redeclared'
        if r < .5 and element:
            initial = self.pairs()
            shared = Properties(initial)
            self.add(base.cls.using(properties=shared), initial)
            self.add(rng.choice((base.cls, fl.Integer)).using(properties=shared), initial)
            self.ctx.count('shared declarations')
            return 'shared'
        if element and r < .6:
            self.add(base.cls.named(rng.choice((u'n', None))))
            return 'named'
        if element and r < .7:
            self.add(base.cls.using(optional=True))
            return 'using'
        if element and r < .85:
            new = self.pairs()
            self.add(base.cls.with_properties(new)).frame.update(new)
            return 'with_properties'
        if element and r < .9:
            initial = self.pairs()
            self.add(base.cls.using(properties=initial.items() if gen.chance(rng, .5) else initial), initial)
            return 'using properties'
        self.add(type('S', (base.cls,), {}))
        return 'subclass'

    def new_instance(self):
        c = self.rng.choice(self.classes)
        i = Inst(c.cls(), c)
        if issubclass(c.cls, fl.Element) and gen.chance(self.rng, .15):
            given = self.pairs()
            i = Inst(c.cls(properties=given), c)
            i.replaced = given
        self.instances.append(i)
        self.ctx.count('instances')

    def change(self):
        rng, ctx = self.rng, self.ctx
        x = rng.choice(self.classes + self.instances * 2)
        props = (x.obj if isinstance(x, Inst) else x.cls).properties
        want = self.view(x)
        frame = x.frame
        if isinstance(x, Inst) and x.replaced is not None:
            frame = None
        k, v = rng.choice(KEYS), rng.randrange(100)
        op = rng.choice(('set', 'set', 'del', 'del', 'update', 'update', 'pop', 'pop', 'pop default', 'setdefault', 'clear', 'assign'))
        known = 'present' if k in want else 'hidden' if frame and frame.get(k) is GONE else 'absent'
        if known == 'hidden':
            ctx.count('hidden keys')
        ctx.nontrivial((op, isinstance(x, Inst), known, k in (frame or ()), frame is None,
                        0 if isinstance(x, Inst) else min(len(self.line(x)), 4)))
        self.last = op, k, x

        def outcome(fn):
            try:
                return 'returned', fn()
            except KeyError:
                ctx.count('KeyError')
                return 'KeyError', None
        ref = dict(want)
        if op == 'assign':
            if not isinstance(x, Inst):
                return
            new = self.pairs()
            x.obj.properties = new
            x.replaced = new
            ctx.check(x.obj.properties is new, 'the assigned mapping is not used')
            ctx.count('replaced')
            return
        if op == 'set':
            def fn(p):
                p[k] = v
        elif op == 'del':
            def fn(p):
                del p[k]
        elif op == 'update':
            new = self.pairs()
            how = rng.randrange(4)
            kw = dict((rng.choice(('k1', 'k2')), rng.randrange(9)) for _ in xrange(2))

            def fn(p):
                return (p.update(new) if how == 0 else p.update(new.items()) if how == 1 else p.update(**kw) if how == 2
                        else p.update(new, **kw))
        elif op == 'pop':
            def fn(p):
                return p.pop(k)
        elif op == 'pop default':
            d = rng.choice((None, u'x', v))

            def fn(p):
                return p.pop(k, d)
        elif op == 'setdefault':
            def fn(p):
                return p.setdefault(k, v)
        else:
            def fn(p):
                return p.clear()
        if frame is None:
            ref = x.replaced
            a = outcome(lambda: fn(dict(ref)))
            before = dict(ref)
            b = outcome(lambda: fn(props))
            check = dict(before)
            outcome(lambda: fn(check))
            ctx.check(dict(x.replaced) == check, 'a replaced mapping', repr(self.last))
        else:
            a, b = outcome(lambda: fn(ref)), outcome(lambda: fn(props))
            for key in set(ref) | set(want):
                if key not in ref:
                    frame[key] = GONE
                elif key not in want or ref[key] is not want[key] or op in ('set', 'update') and key in ref:
                    if key not in want or ref[key] != want[key]:
                        frame[key] = ref[key]
            if op == 'clear' and isinstance(x, Inst):
                # forgets the element's own, hides what it inherits now
                frame.clear()
                frame.update((key, GONE) for key in self.view(x))
            # setting what is inherited makes it one's own
            if op == 'set':
                frame[k] = v
            if op == 'update':
                probe = {}
                fn(probe)
                frame.update(probe)
        ctx.check(a == b, 'result of %s' % op, lambda: u'%r: %r, a dict %r' % (self.last, b, a))
        ctx.count('changes')

    def recheck(self):
        ctx, rng = self.ctx, self.rng
        for x in self.classes + self.instances:
            obj = x.obj if isinstance(x, Inst) else x.cls
            props, want = obj.properties, self.view(x)
            got = props.items()
            ctx.count('lookups compared')
            ctx.check(len(got) == len(want) and dict(got) == want, 'items', lambda: u'%r after %r: %r, expected %r' % (
                x, self.last, got, want))
            r = rng.random()
            if r < .1:
                for k in KEYS + ('k1', 'k2', 'nope'):
                    ctx.check((k in props) == (k in want), 'membership', repr(k))
                    ctx.check(props.get(k, GONE) == want.get(k, GONE) and props.get(k) == want.get(k), 'get', repr(k))
                    try:
                        v = props[k]
                    except KeyError:
                        v = GONE
                    ctx.check(v == want.get(k, GONE), 'item', repr(k))
                ctx.check(alike(props.keys(), want.keys()) and alike(props.values(), want.values()), 'keys or values')
                ctx.check(alike(props.iterkeys(), want.keys()) and dict(props.iteritems()) == want and
                          alike(props.itervalues(), want.values()), 'iterators')
                copy = props.copy()
                ctx.check(copy == want and bool(props) == bool(want) and (props == want) is True and
                          (props != want) is False and (props != {u'other': 0}) is True, 'comparison')
                ctx.check([type(f()) for f in (props.keys, props.values, props.items)] == [list] * 3 and not [
                    f for f in (props.iterkeys, props.itervalues, props.iteritems) if isinstance(f(), list)], 'lists and iterators')
                ctx.eq(eval(repr(props)), want, 'repr')
                ctx.check(not want or not props == {}, 'comparison')
                for other in (None, 5, u'', [], list(want.items())):
                    ctx.check((props == other) is False and (props != other) is True, 'comparison to something else', repr(other))
                copy[u'a'] = u'leak'
                copy[u'new'] = 1
                ctx.check(dict(props.items()) == want, 'a copy is connected')


def case(ctx, rng):
    w = World(ctx, rng)
    log = []
    for _ in xrange(rng.randrange(12, 41)):
        r = rng.random()
        if r < .22 and len(w.classes) < 14:
            log.append(w.new_class())
        elif r < .32 and len(w.instances) < 10:
            w.new_instance()
        else:
            w.change()
            log.append(w.last and w.last[:2])
        w.recheck()
    ctx.sample(u'%r' % (log,))


def examples(ctx, rng):
    base = fl.String.with_properties(a=1, b=2)
    sub = base.named(u'x')
    el = sub()
    del sub.properties['a']
    base.properties['a'] = 5
    ctx.check('a' not in sub.properties and 'a' not in el.properties, 'a deletion does not hide')
    ctx.raises(KeyError, lambda: sub.properties.pop('a'), 'pop of a hidden key')
    el.properties['a'] = 9
    ctx.eq((el.properties['a'], sub.properties.get('a'), base.properties['a']), (9, None, 5), 'levels')
    sub.properties['a'] = 7
    del el.properties['a']
    ctx.eq((el.properties.get('a'), sub.properties.get('a')), (None, 7), 'levels')
    ctx.check(dict(fl.String.properties.items()) == {} and dict(fl.Element.properties.items()) == {}, 'properties leak to the package')
    # late changes of superclasses are seen below
    base.properties['late'] = 1
    ctx.eq((sub.properties['late'], el.properties['late'], sub().properties['late']), (1, 1, 1), 'late')
    # members of a tree have their own
    field = fl.String.named(u'f').with_properties(w=1)
    form = fl.Dict.of(field, fl.List.named(u'l').of(field))({u'f': u'x', u'l': [u'a', u'b']})
    form[u'l'][0].properties['w'] = 2
    ctx.eq([e.properties['w'] for e in (form[u'f'], form[u'l'][0], form[u'l'][1], field)], [1, 2, 1, 1], 'members')
    form[u'l'].append(u'c')
    ctx.eq(form[u'l'][2].properties['w'], 1, 'members')
    # slots have no place for them
    cls = type('Slotted', (object,), {'__slots__': (), 'properties': Properties(a=1)})
    ctx.eq(cls.properties['a'], 1, 'slots')
    ctx.raises(AttributeError, lambda: cls().properties, 'slots')


def collected(ctx, rng):
    """What a class keeps goes away with it."""
    import time
    import weakref
    from java.lang import System
    # (the values go later: the weak dictionaries of Jython clean up when used)
    refs = {'scalar': [], 'container': [], 'override': [], 'element': []}

    class Thing(object):
        pass

    def use(i):
        thing = Thing()
        C = fl.String.named(u'a').using(default=u'x').with_properties(a=thing)
        C.properties[u'b'] = thing
        el = C(u'x')
        el.properties[u'c'] = thing
        el.properties.get(u'b')
        D = fl.Dict.of(C)
        D.properties.update({u'k': thing})
        d = D({u'a': u'1'})
        d.validate()
        d.find(u'a')
        dict(d[u'a'].properties.items())
        day = fl.DateYYYYMMDD(name=u'x', optional=bool(i % 2))
        day.properties[u'k'] = thing
        for kind, obj in (('scalar', C), ('container', D), ('override', type(day)), ('element', d), ('element', el)):
            refs[kind].append(weakref.ref(obj))
    for i in range(60):
        use(i)
    alive = None
    for _ in range(40):
        System.gc()
        time.sleep(.1)
        alive = dict((k, sum(r() is not None for r in rs)) for k, rs in refs.items())
        if not any(alive.values()):
            break
    for kind, rs in sorted(refs.items()):
        ctx.count('collected', len(rs) - alive[kind])
        ctx.check(alive[kind] < len(rs) / 2, 'classes and elements that are not used any more are kept', lambda: repr(alive))


FIXED = {'examples': examples, 'collected': collected}
