# -*- coding: utf-8 -*-
"""P05: tree invariants after every operation of random histories."""
import flatland as fl
from flatland.schema.base import Slot
from fv import gen, ops

CASES = {'quick': 1300, 'thorough': 40000}
RULE = '''A case draws a schema (depth up to 4) and applies 4-25 random public mutations to random elements of its tree,
with good and bad arguments, plain values and elements; a monitor walks the whole tree after each, raising or not.
Non-trivial: distinct (schema, operation names) histories of at least four operations.'''
ASSUMPTIONS = ['Elements passed to an operation are fresh: the same element is not put in two places by the caller.']
REQUIRE = {'operations': 8000, 'nontrivial': 1000, 'operations raising': 800, 'elements walked': 60000, 'popped': 110,
           'operation kinds': 24, 'element operations': 300}


def owner(el):
    p = el.parent
    while isinstance(p, Slot):
        p = p.parent
    return p


def audit(ctx, root, s, what):
    """The invariant, for the whole tree."""
    ctx.check(root.parent is None and root.root is root, 'root has a parent', what)
    seen = set()

    def walk(el, sp, prefix):
        ctx.count('elements walked')
        ctx.check(id(el) not in seen, 'an element is reached twice', lambda: u'%s: %r' % (what, el))
        seen.add(id(el))
        ctx.check(isinstance(el, sp.cls), 'element is not of the declared schema',
                  lambda: u'%s: %r is a %r, declared %r' % (what, el, type(el), sp))
        ctx.check(el.root is root, 'element has another root', lambda: u'%s: %r' % (what, el))
        path = prefix + ([sp.name] if sp.name is not None else [])
        ctx.check(el.flattened_name() == u'_'.join(path), 'flattened name does not follow the position',
                  lambda: u'%s: %r at %r' % (what, el.flattened_name(), path))
        kids = list(el.children)
        if sp.mapping:
            ctx.check(sorted(map(id, kids)) == sorted(id(v) for v in el.values()) and len(kids) == len(el),
                      'children are not the fields', what)
            for key in el:
                kid = sp.field(key)
                ctx.check(kid is not None, 'undeclared key', lambda: u'%s: %r' % (what, key))
                below = [(el[key], kid, path)]
                for child, k, p in below:
                    ctx.check(owner(child) is el and child.parent is el, 'field has another parent',
                              lambda: u'%s: %r of %r' % (what, child, el))
                    walk(child, k, p)
        elif sp.kind == 'DateYYYYMMDD':
            ctx.check(sorted(el.keys()) == [u'day', u'month', u'year'], 'date parts', what)
            for child in el.values():
                ctx.check(child.parent is el and child.root is root, 'field has another parent', what)
        elif sp.sequence:
            members = [el[i] for i in range(len(el))]
            ctx.check(map(id, kids) == map(id, members) == map(id, iter(el)) == map(id, el[:]),
                      'children, items and iteration differ', lambda: u'%s: %r' % (what, el))
            for i, child in enumerate(members):
                ctx.check(owner(child) is el, 'member has another parent', lambda: u'%s: %r' % (what, child))
                if sp.kind == 'List':
                    ctx.check(list(child.parents)[0].name == unicode(i), 'slot name is not the index',
                              lambda: u'%s: %r at %d' % (what, list(child.parents)[0], i))
                    walk(child, sp.member, path + [unicode(i)])
                else:
                    walk(child, sp.member, path)
        else:
            ctx.check(kids == [], 'scalar with children', what)
    walk(root, s, [])
    parts = sum(3 for e, sp in gen.pairs_of(root, s) if sp.kind == 'DateYYYYMMDD')
    every = list(root.all_children)
    ctx.check(len(every) == len(seen) - 1 + parts and len(set(map(id, every))) == len(every), 'all_children differs from the walk',
              lambda: u'%s: %d / %d' % (what, len(every), len(seen) - 1 + parts))


def ids(root, s):
    return [(id(e), gen.fz(e.value) if sp.scalar else None, unicode(e.u) if sp.scalar else None)
            for e, sp in gen.pairs_of(root, s)]


def reads(rng, root, s):
    """A few reads of anything in the tree."""
    el, sp = rng.choice(gen.pairs_of(root, s))
    el.value, el.u, el.is_empty, repr(el), el.x, el.xa, el.all_valid, el.label, el.default_value
    el.flatten(), el.flattened_name(), el.fq_name(), list(el.path), list(el.parents), el.root, list(el.all_children)
    el == root, el != root, bool(el), el.properties.get('x') if hasattr(el.properties, 'get') else None
    for path in (u'.', u'..', u'/', u'[:]', u'nope', u'/nope/x', u'0', u'[::2]'):
        for strict in (True, False):
            try:
                el.find(path, strict=strict)
            except LookupError:
                pass
    for key in (u'nope', 0, u'year', None):
        try:
            el.el([key])
        except (KeyError, AttributeError, TypeError):
            pass
    if sp.sequence:
        for probe in (u'x', 1, None):
            try:
                probe in el, el.count(probe), el.index(probe)
            except (ValueError, TypeError, KeyError, AttributeError):
                pass
        el[:], el[1:], el[::2], el[:-1]
    if sp.mapping:
        for key in list(el.keys()) + [u'nope']:
            try:
                el[key], el.get(key), el.may_contain(key), key in el
            except (KeyError, TypeError):
                pass
        el.slice(), el.keys(), el.values(), el.items()


def case(ctx, rng):
    s = gen.spec(rng, rng.choice((2, 2, 3, 3, 4)), root=True, width=3)
    for sub in s.walk():
        if sub.kind == 'List' and rng.random() < .3:
            sub.opts['default'] = rng.choice((0, 1, 3))
        if sub.kind == 'String' and rng.random() < .2:
            sub.opts['default'] = u'dflt'
    ctx.log(s)
    root = gen.build(rng, s)
    audit(ctx, root, s, u'new %r' % s)
    names = []
    for step in xrange(rng.randrange(4, 26)):
        pairs = gen.pairs_of(root, s)
        containers = [p for p in pairs if not p[1].scalar]
        el, sp = rng.choice(containers if rng.random() < .85 else pairs)
        name, result = ops.apply(ctx, rng, el, sp)
        names.append(name[:60])
        kind = name.split('(')[0].split('[')[0].split('=')[0][:12] + sp.kind
        ctx.seen('operation kinds', kind)
        ctx.count('operations')
        if '<' in name:
            ctx.count('element operations')
        what = u'after %s on %s' % (name.decode('ascii', 'replace')[:200], sp.kind)
        audit(ctx, root, s, what)
        if sp.kind == 'List' and name.startswith('pop') and not isinstance(result, Exception):
            ctx.count('popped')
            ctx.check(isinstance(result, sp.member.cls), 'pop() gives no element', what)
            ctx.check(result.parent is None and result.root is result, 'popped member is still attached', what)
        if sp.kind == 'List' and isinstance(result, fl.Element):
            ctx.check(all(result is not m for m in el), 'popped member is still in the list', what)
        if step % 3 == 0:
            before = ids(root, s)
            reads(rng, root, s)
            ctx.check(before == ids(root, s), 'a read changed the tree', what)
            audit(ctx, root, s, u'after reads')
    ctx.nontrivial((repr(s), tuple(names)))
    ctx.sample(u'%r: %s' % (s, u' ; '.join(n.decode('ascii', 'replace') for n in names)))


def stored(ctx, rng):
    """Elements handed to a sequence are stored themselves."""
    for T in (fl.List, fl.Array):
        L = T.named(u'l').of(fl.String.named(u's'))
        for how in ('append', 'insert', 'extend', 'iadd', 'setitem', 'setslice', 'slice'):
            el = L([u'a', u'b', u'c'])
            new = fl.String.named(u's')(u'new')
            new = L.member_schema(u'new')
            if how == 'append':
                el.append(new)
            elif how == 'insert':
                el.insert(1, new)
            elif how == 'extend':
                el.extend([new])
            elif how == 'iadd':
                el += [new]
            elif how == 'setitem':
                el[1] = new
            elif how == 'setslice':
                el[1:2] = [new]
            else:
                el[::2] = [new, u'z']
            ctx.check(any(m is new for m in el), 'element argument is not stored', u'%s %s' % (T.__name__, how))
            ctx.check(owner(new) is el, 'stored element has another parent', u'%s %s' % (T.__name__, how))
            spec = gen.Spec(T.__name__, u'l', [gen.Spec('String', u's')])
            spec._cls, spec.member._cls = L, L.member_schema
            audit(ctx, el, spec, how)


def moved(ctx, rng):
    """Elements taken out of one container and put into another belong to that."""
    S = fl.String.named(u's')
    kinds = {'List': (fl.List.named(u'l').of(S), gen.Spec('List', u'l', [gen.Spec('String', u's')])),
             'Array': (fl.Array.named(u's').of(S), gen.Spec('Array', u's', [gen.Spec('String', u's')])),
             'MultiValue': (fl.MultiValue.named(u's').of(S), gen.Spec('MultiValue', u's', [gen.Spec('String', u's')])),
             'SparseDict': (fl.SparseDict.named(u'd').of(S), gen.Spec('SparseDict', u'd', [gen.Spec('String', u's')]))}
    for cls, spec in kinds.values():
        spec._cls, spec.kids[0]._cls = cls, S
    for _ in xrange(150):
        pool = []
        for k in sorted(kinds):
            cls, spec = kinds[k]
            if k == 'SparseDict':
                pool.append((cls({u's': u'x'}), spec))
            else:
                pool.append((cls([u'a', u'b', u'c'][:rng.randrange(4)]), spec))
        log = []
        for _ in xrange(12):
            (a, sa), (b, sb) = rng.choice(pool), rng.choice(pool)
            if not len(a):
                continue
            if sa.mapping:
                m = a.pop(u's') if rng.random() < .5 else a[u's']
                if u's' in a:
                    del a[u's']
            else:
                i = rng.randrange(len(a))
                m = a[i]
                how = rng.randrange(4)
                if how == 0:
                    ctx.check(a.pop(i) is m, 'pop()')
                elif how == 1:
                    del a[i]
                elif how == 2:
                    a[i:i + 1] = []
                else:
                    a[:] = [x for x in a if x is not m]
            if sb.mapping:
                b[u's'] = m
            else:
                i = rng.randrange(len(b) + 1)
                how = rng.randrange(5)
                if how == 0:
                    b.append(m)
                elif how == 1:
                    b.insert(i, m)
                elif how == 2:
                    b[i:i] = [m]
                elif how == 3:
                    b += [m]
                elif i < len(b):
                    b[i] = m
                else:
                    b.extend([m])
            log.append((sa.kind, sb.kind))
            ctx.count('moved elements')
            ctx.check(owner(m) is b and m.root is b, 'a moved element has another parent', repr(log[-1]))
            ctx.check(b[u's'] is m if sb.mapping else any(m is x for x in b), 'a moved element is elsewhere', repr(log[-1]))
            for el, spec in pool:
                audit(ctx, el, spec, u'moved %r' % log[-1:])


FIXED = {'stored': stored, 'moved': moved}
