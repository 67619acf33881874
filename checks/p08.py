# -*- coding: utf-8 -*-
"""P08: names, paths and traversal against an independent walk of the tree."""
import flatland as fl
from flatland.schema.base import Slot
from fv import gen, ops
from fv.walk import walk, nodes_of

CASES = {'quick': 1500, 'thorough': 25000}
RULE = '''A case draws a schema of depth up to 5, builds a tree, possibly mutates it with up to 12 random operations, and walks it by
list and dict access alone; fq_name, el, find, path, parents, root, flattened_name, children and all_children of every element
(and el() from up to 12 other elements to each) are compared with the walk. Non-trivial: distinct trees of at least 4 elements.'''
ASSUMPTIONS = ['Names and separators do not contain each other where an absolute name is parsed back; iterables of names have no such limit.',
               'No field is unnamed or has an empty name.']
REQUIRE = {'shared elements': 200, 'nontrivial': 500, 'elements': 9000, 'resolutions': 60000, 'missing names': 4000, 'separators': 8, 'deepest': 1,
           'mutated trees': 250, 'find resolutions': 2500}
SEPS = (u'.', u'.', u'/', u'_', u'::', u'|', u' ', u'\xb7', u'*', u'\\', u'-', u'$')


def escaped(name):
    for c in u'/[.':
        name = name.replace(c, u'\\' + c)
    return name


def case(ctx, rng):
    s = gen.spec(rng, rng.choice((2, 3, 3, 4, 5)), root=True, width=4)
    root = gen.build(rng, s)
    mutated = rng.random() < .5
    if mutated:
        ctx.count('mutated trees')
        for _ in xrange(rng.randrange(1, 13)):
            el, sp = rng.choice([p for p in gen.pairs_of(root, s) if not p[1].scalar])
            ops.apply(ctx, rng, el, sp)
    top = walk(root, s)
    nodes = nodes_of(top)
    if len(nodes) > 160:
        return
    by = {}
    # traversal
    every = [n.el for n in nodes[1:]]
    got = list(root.all_children)
    ctx.check(map(id, got) == map(id, every), 'all_children is not breadth-first and complete',
              lambda: u'%r: %r / %r' % (s, got, every))
    for n in nodes:
        ctx.count('elements')
        what = u'%r: %r' % (s, [c.key for c in n.chain])
        el = n.el
        ctx.check(id(el) not in by, 'an element is reached twice', what)
        by[id(el)] = n
        ctx.check(map(id, el.children) == [id(k.el) for k in n.kids], 'children are not the immediate ones', what)
        below = nodes_of(n)[1:]
        ctx.check(map(id, el.all_children) == [id(k.el) for k in below], 'all_children of an inner element', what)
        chain = [c.el for c in n.chain]
        path = [e for e in el.path if not isinstance(e, Slot)]
        ctx.check(map(id, path) == map(id, chain), 'path does not run from the root', lambda: u'%s: %r' % (what, path))
        parents = [e for e in el.parents if not isinstance(e, Slot)]
        ctx.check(map(id, parents) == map(id, reversed(chain[:-1])), 'parents', lambda: u'%s: %r' % (what, parents))
        ctx.check(el.root is root, 'root', what)
        slots = [e for e in el.path if isinstance(e, Slot)]
        ctx.check([e.name for e in slots] == [c.key for c in n.chain if c.parent is not None and c.parent.spec is not None
                                              and c.parent.spec.kind == 'List'], 'list slots in path', what)
        for sep in (u'_', rng.choice(SEPS)):
            flat = []
            for c in n.chain:
                if c.parent is not None and c.parent.spec is not None and c.parent.spec.kind == 'List':
                    flat.append(c.key)
                if c.el.name is not None:
                    flat.append(c.el.name)
            args = (sep,) if sep != u'_' or rng.random() < .5 else ()
            ctx.eq(el.flattened_name(*args), sep.join(flat), 'flattened_name', what)
    # names
    keys = set(n.key for n in nodes if n.key)
    seps = [sp for sp in SEPS if not any(sp in k or k.startswith(sp[-1]) or k.endswith(sp[0]) for k in keys)] or [u'\x01']
    sep = rng.choice(seps)
    ctx.seen('separators', sep)
    names = {}
    for n in nodes:
        want = sep + sep.join(c.key for c in n.chain[1:])
        name = n.el.fq_name(sep) if sep != u'.' or rng.random() < .5 else n.el.fq_name()
        ctx.eq(name, want, 'fq_name', repr(s))
        ctx.check(name not in names, 'two elements share a fq_name', lambda: u'%r: %r' % (s, name))
        names[name] = n
    starts = nodes if len(nodes) <= 12 else rng.sample(nodes, 12)
    for name in names:
        n = names[name]
        for start in starts:
            ctx.count('resolutions')
            found = start.el.el(name, sep) if sep != u'.' or rng.random() < .5 else start.el.el(name)
            ctx.check(found is n.el, 'fq_name resolves to another element', lambda: u'%r: %r from %r gives %r' % (
                s, name, start.key, found))
            if start in n.chain:
                rest = [c.key for c in n.chain[n.chain.index(start) + 1:]]
                if rest:
                    ctx.check(start.el.el(sep.join(rest), sep) is n.el, 'relative name resolves to another element',
                              lambda: u'%r: %r' % (s, rest))
                    given = rng.choice((list, tuple, iter))(rest)
                    ctx.check(start.el.el(given) is n.el, 'iterable of names resolves to another element',
                              lambda: u'%r: %r' % (s, rest))
        if all(not (c.key.endswith(u'\\') or u'\\[' in c.key or u'\\/' in c.key or u'\\.' in c.key or u'\\]' in c.key)
               for c in n.chain[1:]):
            ctx.count('find resolutions')
            path = u'/' + u'/'.join(escaped(c.key) for c in n.chain[1:])
            found = rng.choice(starts).el.find(path)
            ctx.check(len(found) == 1 and found[0] is n.el, 'find() of an absolute path', lambda: u'%r: %r gives %r' % (
                s, path, found))
    # names that do not exist
    for _ in xrange(6):
        n = rng.choice(nodes)
        inner = rng.choice(nodes)
        absent = [u'nope', u'no pe', u'99', u'\xe9x', u'x' * 40]
        if isinstance(n.el, list):
            absent += [unicode(len(n.el)), unicode(len(n.el) + 7), unicode(-len(n.el) - 1), u'9' * 30, u'0x0', u'0.5', u'', u'1e0']
        if isinstance(n.el, dict):
            absent += [k[:-1] for k in n.el if len(k) > 1] + [k + u'x' for k in n.el] + [k.upper() for k in n.el] + \
                [k + u' ' for k in n.el] + [u'0', u'-1', u'']
            absent += [k.name for k in n.spec.kids if k.name not in n.el] if n.spec is not None and n.spec.mapping else []
            absent = [a for a in absent if a not in n.el]
        a = rng.choice(absent)
        prefix = [c.key for c in n.chain[1:]]
        ctx.count('missing names')
        ctx.raises(KeyError, lambda: n.el.el([a]), 'el() of a missing name', u'%r %r' % (prefix, a))
        ctx.raises(KeyError, lambda: n.el.el([a, u'x']), 'el() of a missing name', u'%r %r' % (prefix, a))
        if sep not in a and a:
            full = sep + sep.join(prefix + [a])
            ctx.raises(KeyError, lambda: inner.el.el(full, sep), 'el() of a missing name', repr(full))
            ctx.raises(KeyError, lambda: n.el.el(a, sep), 'el() of a missing name', repr(a))
        if len(prefix) > 1:
            for path in (sep + sep.join(prefix) + sep, sep + prefix[0] + sep + sep + sep.join(prefix[1:]), sep + sep + sep.join(prefix), sep + sep):
                ctx.raises(KeyError, lambda: inner.el.el(path, sep), 'el() of an empty name', repr(path))
        if not any(c in a for c in u'/[].\\') and a:
            ctx.raises(LookupError, lambda: n.el.find(a), 'find() of a missing name', u'%r %r' % (prefix, a))
            ctx.eq(n.el.find(a, strict=False), [], 'find() of a missing name', u'%r %r' % (prefix, a))
    depth = max(len(n.chain) for n in nodes)
    if depth >= 5:
        ctx.seen('deepest', depth)
    if len(nodes) >= 4:
        ctx.nontrivial((repr(s), sorted(names)))
    ctx.sample(u'%r: %s' % (s, sorted(names)[:12]))


def solo(ctx, rng):
    """Elements without parents."""
    for el in (fl.String(u'x'), fl.Integer.named(u'n')(3), fl.List.of(fl.String)([u'a'])):
        ctx.eq(el.fq_name(), u'.', 'fq_name of a root')
        ctx.check(el.el(u'.') is el, 'el(.)')
        ctx.eq(list(el.parents), [], 'parents of a root')
        ctx.check(el.root is el and el.parent is None, 'root of a root')
        ctx.check(list(el.path)[0] is el, 'path of a root')
        ctx.raises(KeyError, lambda: el.el(u'nope'), 'el() of a missing name')
    for T in (fl.String, fl.Integer, fl.List.of(fl.String), fl.Dict.of(fl.String.named(u'a')), fl.DateYYYYMMDD):
        ctx.check(T.label is None and T.named(u'n').label == u'n' and T.named(u'n')().label == u'n', 'label is the name', repr(T))
        ctx.check(T.named(u'n')(name=u'm').label == u'm' and T.named(u'n').using(label=u'L').named(u'm')().label == u'L' and
                  T.named(u'n')(label=u'M').label == u'M', 'label of an element', repr(T))


def shared(ctx, rng):
    """Elements that are members more than once are yielded once."""
    for turn in range(300):
        String = fl.String.named(rng.choice((u's', u's', None)))
        made = [String(c) for c in u'abcd'[:rng.randrange(1, 5)]]
        Inner = rng.choice((fl.Array, fl.List)).named(u'i').of(String)
        outer = fl.List.named(u'o').of(Inner)()
        inners = [Inner() for _ in range(rng.randrange(1, 4))]
        for i in inners:
            for _ in range(rng.randrange(0, 6)):
                i.append(rng.choice(made))
        for _ in range(rng.randrange(1, 5)):
            outer.append(rng.choice(inners))
        want = []
        for e in list(outer) + [m for i in outer for m in i]:
            if not any(e is x for x in want):
                want.append(e)
        ctx.check(map(id, outer.all_children) == map(id, want), 'an element is yielded other than once', lambda: u'%r: %r' % (outer, list(outer.all_children)))
        ctx.check(map(id, outer.children) == [id(outer[i]) for i in range(len(outer))], 'children are the members', lambda: repr(outer))
        names = outer.flatten(value=id)
        flat = [m for m in want if isinstance(m, fl.String) or m.flattenable]
        ctx.check(sorted(i for _, i in names) == sorted(map(id, flat)), 'a shared element is flattened other than once', lambda: u'%r: %r' % (outer, names))
        ctx.count('shared elements')


def deep(ctx, rng):
    """Trees of any depth."""
    for depth in (12, 31, 33, 63, 64, 65, 100, 129, 150):
        root, line = gen.chain(rng, depth)
        chain = [root] + [e for _, e in line]
        for i in sorted(set([0, 1, depth // 2, depth - 1, depth])):
            el, keys = chain[i], [k for k, _ in line[:i]]
            ctx.check(el.root is root, 'root of a deep element', i)
            ctx.check(map(id, [p for p in el.path if not isinstance(p, Slot)]) == map(id, chain[:i + 1]), 'path of a deep element', i)
            ctx.check(map(id, [p for p in el.parents if not isinstance(p, Slot)]) == map(id, chain[:i][::-1]), 'parents of a deep element', i)
            ctx.eq(el.fq_name(), u'.' + u'.'.join(keys), 'fq_name of a deep element')
            ctx.check(root.el(u'.' + u'.'.join(keys)) is el and chain[-1].el(u'.' + u'.'.join(keys)) is el, 'el() of a deep element', i)
            ctx.check(root.find(u'/' + u'/'.join(keys), single=True) is el, 'find() of a deep element', i)
            ctx.check(chain[-1].find(u'/'.join([u'..'] * (depth - i)) or u'.', single=True) is el, 'find() upwards', i)
            ctx.check(chain[-1].find(u'/'.join([u'..'] * (depth + 5)), single=True) is root, 'find() upwards', i)
            flat = []
            for parent, (key, e) in zip([None] + chain, [(None, root)] + line[:i]):
                flat += [key] if isinstance(parent, list) else []
                flat += [e.name] if e.name is not None else []
            ctx.eq(el.flattened_name(), u'_'.join(flat), 'flattened_name of a deep element')
            below, queue = [], list(el.children)
            while queue:
                below.append(queue.pop(0))
                queue += list(below[-1].children)
            ctx.check(map(id, below) == map(id, el.all_children), 'all_children of a deep element', i)
        for flag in (False, True):
            root.all_valid = True
            ctx.check(root.all_valid is True and chain[-1].valid is True, 'all_valid of a deep tree')
            chain[-1].valid = flag
            ctx.check(root.all_valid is flag, 'all_valid of a deep tree')
        ctx.count('deep trees')


FIXED = {'deep': deep, 'shared': shared, 'solo': solo}
