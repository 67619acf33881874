# -*- coding: utf-8 -*-
"""Random public operations on the elements of a tree."""
from fv import gen


def plain(rng, s):
    """A plain value for a schema: mostly good, sometimes not."""
    r = rng.random()
    if r < .75:
        return gen.good_value(rng, s, size=2)
    if r < .9:
        return rng.choice((u'x', u'12', u'', None, 3, u'a,b'))
    return rng.choice(([], {}, [u'q'], {u'nope': 1}, object(), 'bytes\xff', 5, u'\xe9'))


def member_arg(rng, s, elements=True):
    """A plain value or a fresh element for a schema."""
    if elements and rng.random() < .3:
        el = s.cls()
        try:
            el.set(gen.good_value(rng, s, size=2))
        except Exception:
            pass
        return el
    return plain(rng, s)


def an_index(rng, n):
    return rng.randrange(-n - 1, n + 2)


def a_slice(rng, n):
    def edge():
        return rng.choice((None, rng.randrange(-n - 1, n + 2)))
    step = rng.choice((None, None, None, 1, 2, -1, -2))
    return slice(edge(), edge(), step)


def key_of(element):
    return unicode(element.u)


def operation(rng, el, s):
    """(name, callable) of one random mutation of *el*."""
    n = len(el) if isinstance(el, list) else 0
    kinds = ['set', 'set', 'set_default', 'set_flat']
    if s.kind in ('List', 'Array', 'MultiValue'):
        kinds += ['append', 'append', 'extend', 'iadd', 'imul', 'insert', 'setitem', 'setitem', 'setslice', 'delitem', 'delslice',
                  'pop', 'pop', 'remove', 'sort', 'sort', 'reverse', 'clear', 'member']
    elif s.kind == 'JoinedString':
        kinds += ['append', 'insert', 'pop', 'reverse', 'delitem']
    elif s.mapping:
        kinds += ['setkey', 'setkey', 'setkey', 'update', 'update', 'delkey', 'popkey', 'popitem', 'clearkeys', 'setdefault',
                  'policy', 'byobject']
    elif s.kind == 'DateYYYYMMDD':
        kinds += ['part']
    k = rng.choice(kinds)

    if k == 'set':
        v = plain(rng, s)
        return 'set(%r)' % (v,), lambda: el.set(v)
    if k == 'set_default':
        return 'set_default()', el.set_default
    if k == 'set_flat':
        sub = s.cls()
        try:
            sub.set(gen.good_value(rng, s, size=2))
        except Exception:
            pass
        pairs = [p for p in sub.flatten() if rng.random() < .8]
        if rng.random() < .5:
            pairs.append((gen.text(rng), u'x'))
        return 'set_flat(%r)' % (pairs,), lambda: el.set_flat(pairs)
    if k == 'append':
        v = member_arg(rng, s.member)
        return 'append(%r)' % (v,), lambda: el.append(v)
    if k in ('extend', 'iadd'):
        vs = [member_arg(rng, s.member) for _ in xrange(rng.randrange(4))]
        if k == 'extend':
            return 'extend(%r)' % (vs,), lambda: el.extend(vs)

        def iadd():
            x = el
            x += vs
            assert x is el
        if rng.random() < .1:
            vs = el if n < 9 else []
        return '+=(%r)' % (vs,), iadd
    if k == 'imul':
        times = rng.choice((2, 2, 1, 0, -1, 3)) if n < 9 else rng.choice((1, 1, 0))

        def imul():
            x = el
            x *= times
            assert x is el
        return '*=%r' % times, imul
    if k == 'insert':
        i, v = an_index(rng, n), member_arg(rng, s.member)
        return 'insert(%r, %r)' % (i, v), lambda: el.insert(i, v)
    if k == 'setitem':
        i, v = an_index(rng, n), member_arg(rng, s.member)
        return '[%r]=%r' % (i, v), lambda: el.__setitem__(i, v)
    if k == 'setslice':
        sl, vs = a_slice(rng, n), [member_arg(rng, s.member) for _ in xrange(rng.randrange(4))]
        if sl.step in (None, 1) and rng.random() < .5:
            def setslice():
                el[sl.start:sl.stop] = vs
        else:
            def setslice():
                el[sl] = vs
        return '[%r]=%r' % (sl, vs), setslice
    if k == 'delitem':
        i = an_index(rng, n)
        return 'del [%r]' % i, lambda: el.__delitem__(i)
    if k == 'delslice':
        sl = a_slice(rng, n)
        if sl.step in (None, 1) and rng.random() < .5:
            def delslice():
                del el[sl.start:sl.stop]
        else:
            def delslice():
                del el[sl]
        return 'del [%r]' % sl, delslice
    if k == 'pop':
        if rng.random() < .4:
            return 'pop()', lambda: el.pop()
        i = an_index(rng, n)
        return 'pop(%r)' % i, lambda: el.pop(i)
    if k == 'remove':
        if n and rng.random() < .7:
            v = el[rng.randrange(n)].value if rng.random() < .6 else el[rng.randrange(n)]
        else:
            v = plain(rng, s.member)
        return 'remove(%r)' % (v,), lambda: el.remove(v)
    if k == 'sort':
        rev = rng.random() < .5
        return 'sort(key, %r)' % rev, lambda: el.sort(key=key_of, reverse=rev)
    if k == 'reverse':
        return 'reverse()', el.reverse
    if k == 'clear':
        def clear():
            del el[:]
        return 'del [:]', clear
    if k == 'member':
        v = plain(rng, s.member)
        return 'member.set(%r)' % (v,), lambda: [m.set(v) for m in list(el)[:2]]
    keys = [kid.name for kid in s.kids]
    if k == 'part':
        p, v = rng.choice((u'year', u'month', u'day')), rng.choice((u'', u'1', 2, 2004, None, u'x'))
        return '[%r]=%r' % (p, v), lambda: el.__setitem__(p, v)
    key = rng.choice(keys + keys + [u'nope', None, 3])
    kid = s.field(key) if isinstance(key, unicode) and s.field(key) else s.kids[0]
    if k == 'setkey':
        v = member_arg(rng, kid, elements=s.kind == 'SparseDict')
        return '[%r]=%r' % (key, v), lambda: el.__setitem__(key, v)
    if k == 'update':
        d = dict((kid.name, plain(rng, kid)) for kid in s.kids if rng.random() < .5)
        if rng.random() < .2:
            d[u'nope'] = 1
        form = rng.randrange(3)
        if form == 0:
            return 'update(%r)' % d, lambda: el.update(d)
        if form == 1:
            return 'update(pairs %r)' % d, lambda: el.update(list(d.items()))
        d = dict((str(q), v) for q, v in d.items() if all(c.isalnum() and ord(c) < 128 for c in q))
        return 'update(**%r)' % d, lambda: el.update(**d)
    if k == 'delkey':
        return 'del [%r]' % (key,), lambda: el.__delitem__(key)
    if k == 'popkey':
        return 'pop(%r)' % (key,), lambda: el.pop(key)
    if k == 'popitem':
        return 'popitem()', el.popitem
    if k == 'clearkeys':
        return 'clear()', el.clear
    if k == 'setdefault':
        v = plain(rng, kid)
        return 'setdefault(%r, %r)' % (key, v), lambda: el.setdefault(key, v)
    if k == 'policy':
        d = dict((kid.name, plain(rng, kid)) for kid in s.kids if rng.random() < .8)
        if rng.random() < .4:
            d[u'nope'] = 1
        p = rng.choice(('strict', 'subset', 'duck'))
        return 'set(%r, %r)' % (d, p), lambda: el.set(d, policy=p)
    if k == 'byobject':
        class Thing(object):
            pass
        t = Thing()
        for kid in s.kids:
            if rng.random() < .7:
                try:
                    setattr(t, kid.name, plain(rng, kid))
                except Exception:
                    pass
        return 'set_by_object', lambda: el.set_by_object(t)
    raise AssertionError(k)


def apply(ctx, rng, el, s):
    """Run one random operation; returns its name and what came of it."""
    name, fn = operation(rng, el, s)
    try:
        result = fn()
    except Exception as exc:
        ctx.log(name, u'raised', type(exc).__name__)
        ctx.count('operations raising')
        return name, exc
    ctx.log(name, u'->', result)
    return name, result
