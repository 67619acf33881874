# -*- coding: utf-8 -*-
"""P09: find() against an evaluator of parsed paths, which is written apart
from flatland's tokenizer and works on an independent walk of the tree."""
import fv.gen as gen
import flatland as fl
from fv import ops
from fv.walk import walk, nodes_of

CASES = {'quick': 1300, 'thorough': 40000}
RULE = '''A case draws a tree and evaluates about 24 paths generated as step lists (names, indexes, slices, ., .., /; mostly leading to
elements, some not) and written out with random but equivalent spelling, from random elements, in every strict/single mode, plus
8 random texts; paths of earlier cases are evaluated again on the new tree. Non-trivial: distinct path texts that select something.'''
ASSUMPTIONS = ['A negative index is a slice of one: it selects nothing if there is no such child, in strict mode too.',
               'A step and a following .. cancel each other, whether or not the step selects something, as the tests of tokenize() have it.',
               'Backslashes in names stand before ordinary characters only: the syntax can not spell others.']
REQUIRE = {'nontrivial': 4000, 'paths': 20000, 'strict errors': 2000, 'slices': 6000, 'random texts': 8000,
           'distinct paths per worker': 4500, 'single errors': 1000, 'old paths': 8000, 'escapes': 600, 'up steps': 3000}

POOL = []          # (steps, text) of earlier cases
TEXTS = set()


class Missing(Exception):
    pass


def child(n, name):
    if isinstance(n.el, dict):
        for k in n.kids:
            if k.key == name:
                return k
        raise Missing(name)
    if isinstance(n.el, list):
        if name.lstrip(u'-').isdigit() and (u'0' <= name[-1] <= u'9') and name.count(u'-') == name.startswith(u'-'):
            i = int(name)
            if -len(n.kids) <= i < len(n.kids):
                return n.kids[i]
    raise Missing(name)


def cancelled(steps):
    """Any step and a following .. cancel each other."""
    out = []
    for kind, data in steps:
        if kind == 'here':
            continue
        if kind == 'up' and out and out[-1][0] != 'up':
            if out[-1][0] != 'top':
                out.pop()
            continue
        out.append((kind, data))
    return out


def evaluate(top, n, steps, strict):
    found = [n]
    steps = cancelled(steps)
    for kind, data in steps:
        after = []
        for x in found:
            if kind == 'top':
                after.append(top)
            elif kind == 'up':
                after.append(x.parent or x)
            elif kind == 'here':
                after.append(x)
            elif kind in ('name', 'index'):
                try:
                    after.append(child(x, data))
                except Missing:
                    if strict:
                        raise
            elif kind == 'neg':
                if -data <= len(x.kids):
                    after.append(x.kids[data])
            else:
                after.extend(x.kids[data])
        found = after
    return found


def spellable(name):
    return bool(name) and not (name.endswith(u'\\') or any(
        u'\\' + c in name for c in u'/[].')) and u'\n' not in name


def spell_name(ctx, rng, name):
    out = u''
    for c in name:
        if c in u'/[' or (c in u'].' and (name in (u'.', u'..') or rng.random() < .3)):
            ctx.count('escapes')
            out += u'\\'
        out += c
    return out


def spell_slice(rng, sl):
    a = u'' if sl.start is None else unicode(sl.start)
    b = u'' if sl.stop is None else unicode(sl.stop)
    t = a + u':' + b
    if sl.step is not None:
        t += u':' + unicode(sl.step)
    elif rng.random() < .15:
        t += u':'
    return u'[%s]' % t


def spell(ctx, rng, steps):
    """Path text of the steps."""
    text = u''
    for i, (kind, data) in enumerate(steps):
        if kind == 'top':
            text = u'/'
            continue
        bracket = kind in ('slice', 'index', 'neg')
        if kind == 'index' and rng.random() < .4:
            bracket = False
        if bracket:
            t = spell_slice(rng, data) if kind == 'slice' else u'[%s]' % (data,)
            if text and not text.endswith(u'/') and rng.random() < .25:
                text += u'/'
            elif (not text or text.endswith(u'/')) and rng.random() < .2:
                text += u'.'
            text += t
            continue
        if text and not text.endswith(u'/'):
            text += u'/'
        elif text.endswith(u'/') and i and steps[i - 1][0] == 'name' and steps[i - 1][1].endswith(u'/'):
            text += u'/'
        if kind == 'up':
            text += u'..'
        elif kind == 'here':
            text += u'.'
        elif kind == 'index':
            text += data
        else:
            text += spell_name(ctx, rng, data)
        if rng.random() < .05:
            text += u'/.'
    if text and not text.endswith(u'/') and rng.random() < .08:
        text += u'/'
    return text or u'.'


def a_slice(rng, n):
    def edge():
        return rng.choice((None, 0, 1, 2, n, n - 1, -1, -2, -n, n + 3, -n - 2))
    step = rng.choice((None, None, None, None, 1, 2, 3, -1, -2))
    return rng.choice((slice(None), slice(edge(), edge(), step)))


def steps_from(rng, top, n):
    """Random steps, followed on the tree to stay mostly meaningful."""
    steps = []
    if rng.random() < .3:
        steps.append(('top', None))
        n = top
    for _ in xrange(rng.randrange(0, 6)):
        r = rng.random()
        if r < .12:
            steps.append(('up', None))
            n = n.parent or n
        elif r < .17:
            steps.append(('here', None))
        elif r < .25:
            bad = rng.choice((u'nope', u'99', u'x y', u'-99', u'\xe9', u'9' * 25, u'a.b'))
            steps.append(('name', bad))
            break
        elif n.kids:
            kid = rng.choice(n.kids)
            if isinstance(n.el, list) and rng.random() < .5 or rng.random() < .12:
                steps.append(('slice', a_slice(rng, len(n.kids))))
                n = kid
                continue
            if isinstance(n.el, list):
                i = n.kids.index(kid)
                if rng.random() < .25:
                    steps.append(('neg', i - len(n.kids)))
                    n = kid
                    continue
                steps.append(('index', unicode(i)))
            elif spellable(kid.key):
                steps.append(('name', kid.key))
            else:
                break
            n = kid
        else:
            break
    return steps


def compare(ctx, top, n, steps, text, what):
    el = n.el
    TEXTS.add(text)
    try:
        want = evaluate(top, n, steps, True)
    except Missing:
        want = None
    loose = evaluate(top, n, steps, False)
    got = el.find(text, strict=False)
    ctx.check(isinstance(got, list) and map(id, got) == [id(x.el) for x in loose], 'find(strict=False)',
              lambda: u'%s: %r, expected %r' % (what, got, [x.el for x in loose]))
    if want is None:
        ctx.count('strict errors')
        ctx.raises(LookupError, lambda: el.find(text), 'find() of a missing child', what)
        ctx.raises(LookupError, lambda: el.find(text, single=True), 'find(single) of a missing child', what)
    else:
        got = el.find(text)
        ctx.check(map(id, got) == [id(x.el) for x in want], 'find()', lambda: u'%s: %r, expected %r' % (
            what, got, [x.el for x in want]))
        if len(want) > 1:
            ctx.count('single errors')
            ctx.raises(LookupError, lambda: el.find(text, single=True), 'find(single) of several', what)
        else:
            one = el.find(text, single=True)
            ctx.check(one is (want[0].el if want else None), 'find(single)', lambda: u'%s: %r' % (what, one))
    one = el.find(text, single=True, strict=False)
    ctx.check(one is None if not loose else any(one is x.el for x in loose), 'find(single, strict=False)',
              lambda: u'%s: %r' % (what, one))
    return len(loose)


BITS = (u'/', u'/', u'.', u'..', u'[', u']', u'[:]', u'[0]', u'[1:', u':', u'-', u'[-', u'[-1]', u'[::-1]', u'[:0]', u'\\', u'\\/',
        u'\\[', u'a', u'b', u'0', u'9', u'[9999999999999999999999]', u'[99999999999999999999:]', u'[::0]', u'[:::]', u'[-]', u'[1:-]', u'\n', u' ',
        u'\x00', u'\xe9', u'\u0661', u'[\u0661]', u'[:\u0662]', u'[a:b]', u'*', u'(', u'%s', u'[]', u'//')


def case(ctx, rng):
    s = gen.spec(rng, rng.choice((2, 3, 3, 4)), root=True, width=4)
    root = gen.build(rng, s, size=4)
    if rng.random() < .3:
        for _ in xrange(4):
            el, sp = rng.choice([p for p in gen.pairs_of(root, s) if not p[1].scalar])
            ops.apply(ctx, rng, el, sp)
    top = walk(root, s)
    nodes = nodes_of(top)
    seen = []
    for _ in xrange(24):
        n = rng.choice(nodes) if rng.random() < .6 else top
        steps = steps_from(rng, top, n)
        text = spell(ctx, rng, steps)
        given = text
        if rng.random() < .1 and all(ord(c) < 128 for c in text):
            given = str(text)
        what = u'%r from %r: find(%r)' % (s, [c.key for c in n.chain], text)
        ctx.count('paths')
        ctx.count('slices', sum(k in ('slice', 'neg') for k, _ in steps))
        ctx.count('up steps', sum(k == 'up' for k, _ in steps))
        if compare(ctx, top, n, steps, given, what):
            ctx.nontrivial(text)
        ctx.sample(u'%s' % text, 40)
        seen.append((n, steps, text))
        if len(POOL) < 4000:
            POOL.append((steps, text))
    # earlier paths, on this tree
    for _ in xrange(10):
        if POOL:
            steps, text = rng.choice(POOL)
            n = rng.choice(nodes)
            ctx.count('old paths')
            compare(ctx, top, n, steps, text, u'%r from %r: find(%r) again' % (s, [c.key for c in n.chain], text))
    # any text: no exception but LookupError, the same result every time
    hostile = []
    for _ in xrange(8):
        r = rng.random()
        if r < .6:
            text = u''.join(rng.choice(BITS) for _ in xrange(rng.randrange(0, 7)))
        elif r < .8:
            base = rng.choice(seen)[2]
            i = rng.randrange(len(base) + 1)
            text = base[:i] + rng.choice(BITS) + base[i + rng.randrange(2):]
        else:
            text = gen.text(rng, 12, control=True)
        n = rng.choice(nodes)
        ctx.count('random texts')
        TEXTS.add(text)
        hostile.append((n, text, outcome(ctx, nodes, n, text)))
    copy_ = None
    for n, text, first in hostile:
        ctx.eq(outcome(ctx, nodes, n, text), first, 'find() gives another result the second time', repr(text))
    # ... and leaves the tree alone
    ctx.check([id(x.el) for x in nodes_of(walk(root, s))] == [id(x.el) for x in nodes], 'find() changed the tree')
    for t in TEXTS:
        ctx.seen('distinct paths per worker', t)
    TEXTS.clear()


def outcome(ctx, nodes, n, text):
    index = dict((id(x.el), i) for i, x in enumerate(nodes))
    out = []
    for strict in (True, False):
        for single in (False, True):
            try:
                found = n.el.find(text, single=single, strict=strict)
            except LookupError as exc:
                ctx.check(strict, 'find(strict=False) raises', lambda: u'%r: %r' % (text, exc))
                out.append('LookupError')
            except Exception as exc:
                ctx.fail('find() raises %s' % type(exc).__name__, u'%r: %r' % (text, exc))
            else:
                if not single:
                    ctx.check(isinstance(found, list), 'find() gives no list', repr(text))
                out.append([index.get(id(e), -1) for e in (found if isinstance(found, list) and not single else [found])])
                if not single:
                    ctx.check(-1 not in out[-1], 'find() gives something outside of the tree', repr(text))
    return out


def documented(ctx, rng):
    """The examples of the documentation, before and after the path cache has
    filled up."""
    import flatland as fl
    P = fl.List.of(fl.List.of(fl.Dict.of(fl.Integer.named(u'x'), fl.Integer.named(u'y'))))
    p = P([[dict(x=1, y=1), dict(x=2, y=2)], [dict(x=3, y=3)]])
    D = fl.Dict.of(fl.Integer.named(u'.'), fl.Integer.named(u'..'), fl.Integer.named(u'a/b'), fl.Integer.named(u'a[0]'),
                   fl.Integer.named(u'/'), fl.List.named(u'l').of(fl.Integer), fl.Integer.named(u'q[x]'))
    d = D({u'.': 1, u'..': 2, u'a/b': 3, u'a[0]': 4, u'/': 5, u'l': range(10), u'q[x]': 6})
    for spin in xrange(3):
        ctx.eq([e.value for e in p.find(u'[:][:]/x')], [1, 2, 3], 'documented')
        ctx.eq([e.value for e in p.find(u'/[1:]/0/y')], [3], 'documented')
        for path, want in ((u'\\.', [1]), (u'\\.\\.', [2]), (u'\\..', [2]), (u'a\\/b', [3]), (u'a\\[0]', [4]), (u'a\\[0\\]', [4]),
                           (u'\\/', [5]), (u'l[0]', [0]), (u'l/0', [0]), (u'l[:0]', []), (u'l[0:0]', []), (u'l[-1]', [9]),
                           (u'l[-2]', [8]), (u'l[-2:]', [8, 9]), (u'l[:-8]', [0, 1]), (u'l[::-4]', [9, 5, 1]),
                           (u'l[1:8:3]', [1, 4, 7]), (u'l[8:1:-3]', [8, 5, 2]), (u'l[20:]', []), (u'l[5:5]', []), (u'l[:3]', [0, 1, 2]),
                           (u'l/[3]', [3]), (u'l/.[3]', [3]), (u'./l/./[3]/.', [3]), (u'l/', [range(10)]), (u'/l', [range(10)]),
                           (u'l/../l/2', [2]), (u'l/2/../3', [3]), (u'/../l[2]', [2]), (u'q[x]', [6]), (u'q\\[x]', [6]),
                           (u'l[10]', None), (u'l[a]', None), (u'l[1:-]', None), (u'l[-]', None), (u'nope', None), (u'l/x', None),
                           (u'l/2/3', None), (u'//', None)):
            if want is None:
                ctx.raises(LookupError, lambda: d.find(path), 'documented', path)
                ctx.eq(d.find(path, strict=False), [], 'documented', path)
            else:
                ctx.eq([e.value for e in d.find(path)], want, 'documented', path)
        for i in xrange(1500):
            ctx.eq(d.find(u'l[%d:%d]' % (i, spin), strict=False), list(d[u'l'])[i:spin], 'filling the cache')
            TEXTS.add(u'l[%d:%d]' % (i, spin))
    # empty containers
    e = fl.List.of(fl.Integer)()
    ctx.eq(e.find(u'[:]'), [], 'empty')
    ctx.same(e.find(u'..', single=True), e, 'the parent of the root is the root')
    b = fl.Dict.of(fl.String.named(u's'))({u's': u''})
    ctx.same(b[u's'].find(u'..', single=True), b, 'parent')


def backslashes(ctx, rng):
    """Backslashes that escape nothing stand for themselves."""
    names = [n for n in (u'a\\b', u'a\\\\b', u'\\x', u'\\\\', u'a\\\\\\b', u'\\n', u'a\\:b', u'\\0') if spellable(n)]
    ctx.check(len(names) > 5, 'names', repr(names))
    d = fl.Dict.of(*[fl.Dict.named(n).of(*[fl.String.named(m) for m in names]) for n in names])()
    for n in names:
        ctx.check(d.find(n) == [d[n]] and d.find(n)[0] is d[n] and d.find(u'/' + n, single=True) is d[n], 'a name with backslashes', repr(n))
        for m in names:
            for text in (n + u'/' + m, u'/' + n + u'/' + m, n + u'/./' + m, n + u'/../' + n + u'/' + m):
                got = d.find(text)
                ctx.check(len(got) == 1 and got[0] is d[n][m], 'a name with backslashes', repr(text))
                ctx.count('backslashes')


def look_alikes(ctx, rng):
    """Texts that differ in little are paths of their own, whichever came
    first."""
    names = [u'a', u'A', u' a', u'a ', u'\xe9', u'e\u0301', u'\xc9', u'1', u'01', u'1.0', u'+1', u' 1', u'\uff11', u'\u0661', u'True', u'None', u'-1', u'a\x00', u'a.', u'.a',
             u'a%', u'\xa0a', u'ss', u'\xdf', u'\ufeffa', u'I', u'i', u'\u0131', u'a\n', u'a\t', u'_', u'__class__', u'value']
    D = fl.Dict.of(*[fl.Dict.named(n).of(*[fl.String.named(m) for m in names]) for n in names])
    d = D()
    for _ in xrange(3):
        rng.shuffle(names)
        for n in names:
            for text in (n, u'/' + n, u'./' + n, n + u'/.', n + u'/', str(n) if all(ord(c) < 128 for c in n) else n):
                ctx.count('look-alikes')
                got = d.find(text)
                ctx.check(len(got) == 1 and got[0] is d[n], 'one of similar names', lambda: u'%r: %r' % (text, got))
            m = rng.choice(names)
            got = d.find(n + u'/' + m)
            ctx.check(len(got) == 1 and got[0] is d[n][m], 'one of similar names', lambda: u'%r/%r: %r' % (n, m, got))
    for given, name in ((1, u'1'), (True, u'True'), (1.0, u'1.0'), (None, u'None'), (1L, u'1'), (-1, u'-1')):
        # what equals or hashes the same is no other path
        got = d.find(given)
        ctx.check(len(got) == 1 and got[0] is d[name], 'a path that is no text', lambda: u'%r: %r' % (given, got))


FIXED = {'look-alikes': look_alikes, 'backslashes': backslashes, 'documented': documented}
