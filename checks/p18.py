# -*- coding: utf-8 -*-
"""P18: every Ref against the element its path names, after every step."""
import datetime

import flatland as fl
from fv import gen, model

CASES = {'quick': 2600, 'thorough': 90000}
RULE = '''A case builds a tree of nested Dicts and Lists with 1-5 Refs (in the root, nested dicts and list members; relative, absolute and other
separator paths, paths given as lists; to scalars, compounds, containers and other Refs; every writable mode) and performs 4-16 steps: sets of
targets and containers, replacement of targets and of containers above them, list edits, flat loads, defaults, and assignments through the
Refs. After each step the monitor follows the paths on its own and compares every Ref with what it found; an assignment must have changed the
target as a twin of it says, or nothing. Non-trivial: distinct (target kind, mode, step, value after).'''
REQUIRE = {'nontrivial': 4000, 'steps': 12000, 'mirrors': 25000, 'writes through': 900, 'ignored': 1200, 'refused': 900, 'replaced': 600,
           'list edits': 300, 'chained': 1200, 'missing': 400, 'compound targets': 700, 'container targets': 500, 'in members': 1500,
           'same object': 20000, 'flat pairs': 8000}

MODES = (True, 'ignore', None, False)      # None: what Ref declares
KINDS = ('String', 'Integer', 'Boolean', 'Date', 'Float', 'Time', 'Long', 'Enum')


class T(object):
    """A node of the schema."""

    def __init__(self, kind, name, kids=(), spec=None, path=None, mode=None):
        self.kind, self.name, self.kids, self.spec, self.path, self.mode = kind, name, list(kids), spec, path, mode


def leaf(rng, name):
    r = rng.random()
    if r < .12:
        return T('date', name)
    if r < .2:
        return T('joined', name)
    spec = gen.scalar_spec(rng, name, KINDS)
    if gen.chance(rng, .3):
        ok, native, _ = model.scalar(spec, gen.good_value(rng, spec))
        if ok and native is not None:
            spec.opts['default'] = native
    return T('scalar', name, spec=spec)


def tree(rng, depth, name):
    kids = [leaf(rng, u's%d' % i) for i in xrange(rng.randrange(1, 4))]
    if depth:
        for i in xrange(rng.randrange(0, 3)):
            if gen.chance(rng, .5):
                kids.append(tree(rng, depth - 1, u'd%d' % i))
            else:
                n = u'l%d' % i
                member = tree(rng, depth - 1, rng.choice((None, u'm'))) if gen.chance(rng, .6) else leaf(rng, rng.choice((None, u'm')))
                kids.append(T('list', n, [member]))
    return T('dict', name, kids)


def places(t, path=(), out=None):
    """Every path of the schema, and the dicts Refs can be put in."""
    if out is None:
        out = []
    for kid in t.kids:
        if t.kind == 'list':
            for i in (0, 1, 2):
                out.append((path + (unicode(i),), kid))
                places(kid, path + (unicode(i),), out)
        else:
            out.append((path + (kid.name,), kid))
            places(kid, path + (kid.name,), out)
    return out


def schema(t):
    if t.kind == 'scalar':
        return t.spec.cls
    if t.kind == 'date':
        return fl.DateYYYYMMDD.named(t.name)
    if t.kind == 'joined':
        return fl.JoinedString.named(t.name)
    if t.kind == 'list':
        return fl.List.named(t.name).of(schema(t.kids[0]))
    if t.kind == 'ref':
        ref = fl.Ref.named(t.name)
        if t.mode is not None:
            ref = ref.using(writable=t.mode)
        return ref.to(*t.how)
    return fl.Dict.named(t.name).of(*[schema(k) for k in t.kids])


def follow(el, path):
    """The element at path, by list and dict access alone."""
    for step in path:
        if isinstance(el, list):
            if not step.isdigit() or int(step) >= len(el):
                return None
            el = el[int(step)]
        elif isinstance(el, dict) and not isinstance(el, fl.DateYYYYMMDD):
            el = el[step]
        else:
            return None
    return el


def walk(el, t, path=(), member=False, out=None):
    """(path, element, node, within a list member) of the whole tree."""
    if out is None:
        out = []
    out.append((path, el, t, member))
    if t.kind == 'dict':
        for kid in t.kids:
            walk(el[kid.name], kid, path + (kid.name,), member, out)
    elif t.kind == 'list':
        for i in xrange(len(el)):
            walk(el[i], t.kids[0], path + (unicode(i),), True, out)
    return out


def leaves(nodes):
    out = {}
    for path, el, t, _ in nodes:
        if t.kind in ('scalar', 'date', 'joined'):
            out[path] = (id(el), gen.fz(el.value), el.u, el.valid, list(el.errors))
    return out


def final(nodes_by_path, ref):
    """The node a Ref comes down to and the first mode that is not plainly writable."""
    mode, t, path, el = True, ref, None, None
    while t.kind == 'ref':
        if mode is True:
            mode = 'ignore' if t.mode in (None, 'ignore') else t.mode
        path = t.path
        if path not in nodes_by_path:
            return None, None, None, mode
        el, t = nodes_by_path[path]
    return path, el, t, mode


def pairs_of(nodes, sep=u'_'):
    out = []
    for path, el, t, _ in nodes:
        if t.kind in ('scalar', 'joined', 'date'):
            named = []
            at = None
            for name in NAMED[0](path):
                named.append(name)
            key = sep.join(named)
            if t.kind == 'date':
                out.append((key, el.u))
                for part in (u'year', u'month', u'day'):
                    out.append((sep.join(named + [part]), el[part].u))
            else:
                out.append((key, el.u))
    return sorted(out)


NAMED = [None]


def value_for(rng, t):
    r = rng.random()
    if t is None or r < .2 and t.kind not in ('dict', 'list'):
        return gen.any_input(rng)
    if t.kind == 'scalar':
        return gen.text_for(rng, t.spec) if r < .6 else gen.good_value(rng, t.spec)
    if t.kind == 'date':
        return rng.choice((gen.date(rng), u'2004-02-29', u'x', None))
    if t.kind == 'joined':
        return rng.choice((u'a,b', u'', [u'x', u'y'], None))
    if t.kind == 'list':
        return [value_for(rng, t.kids[0]) for _ in xrange(rng.randrange(0, 4))]
    if t.kind == 'dict':
        return dict((k.name, value_for(rng, k)) for k in t.kids if gen.chance(rng, .7) and (k.kind != 'ref' or gen.chance(rng, .3)
                    and writable_free(k)))
    return rng.choice((u'x', 1, None))


def writable_free(ref):
    """Within data for containers only Refs that ignore what is assigned."""
    return ref.mode in (None, 'ignore')


def case(ctx, rng):
    top = tree(rng, rng.randrange(0, 3), rng.choice((None, None, u'root', u't')))
    refs = []
    for i in xrange(rng.randrange(1, 6)):
        spots = [((), top)] + [(p, t) for p, t in places(top) if t.kind == 'dict']
        holder = rng.choice(spots)[1] if gen.chance(rng, .6) else top
        r = rng.random()
        known = [(p, t) for p, t in places(top) if t.kind != 'ref' and (t.kind not in ('dict', 'list') or r < .25)]
        chained = [(p, t) for p, t in places(top) if t.kind == 'ref' and u'0' not in p]
        if chained and gen.chance(rng, .25):
            path, target = rng.choice(chained)
        else:
            path, target = rng.choice(known)
        ref = T('ref', u'r%d' % i, path=path, mode=rng.choice(MODES))
        style = rng.randrange(5)
        if style == 0:
            ref.how = (u'.'.join(path),)
        elif style == 1:
            ref.how = (u'.' + u'.'.join(path),)
        elif style == 2:
            ref.how = (u'/'.join(path), u'/')
        elif style == 3:
            ref.how = (rng.choice((list, tuple))(path),)
        else:
            ref.how = (u'::' + u'::'.join(path), u'::')
        if holder.kind == 'dict':
            holder.kids.insert(rng.randrange(len(holder.kids) + 1), ref)
            refs.append(ref)
    by_path = dict(places(top))
    if not refs or any(x.kind == 'ref' for r in refs for _, x in places(by_path[r.path])):
        return      # a container that is a target holds no Ref
    cls = schema(top)

    def named(path):
        """The names on the way, list members in the manner of flatten()."""
        out, t = ([top.name] if top.name is not None else []), top
        for step in path:
            if t.kind == 'list':
                out.append(step)
                t = t.kids[0]
                if t.name is not None:
                    out.append(t.name)
            else:
                t = [k for k in t.kids if k.name == step][0]
                out.append(t.name)
        return out
    NAMED[0] = named
    el = cls() if gen.chance(rng, .6) else cls.from_defaults()
    log = []

    def look(step):
        nodes = walk(el, top)
        by_path = dict((p, (e, t)) for p, e, t, _ in nodes)
        for path, ref, t, member in nodes:
            if t.kind != 'ref':
                continue
            target = follow(el, t.path)
            if target is None:
                ctx.count('missing')
                ctx.raises(LookupError, lambda: ref.value, 'Ref without a target', repr(t.how))
                continue
            end_path, end, end_t, mode = final(by_path, t)
            if end is None:
                continue
            what = lambda: u'%r at %r: %r' % (t.how, path, log[-4:])
            ctx.same(ref.target, target, 'target of the Ref', u'%r' % (t.how,))
            ctx.count('same object')
            value, u = end.value, end.u
            ctx.check(gen.fz(ref.value) == gen.fz(value) and ref.u == u and type(ref.value) is type(value), 'value and u of the Ref', lambda: (
                u'%s: %r %r, expected %r %r' % (what(), ref.value, ref.u, value, u)))
            ctx.count('mirrors')
            if end is not target:
                ctx.count('chained')
            if member:
                ctx.count('in members')
            if end_t.kind in ('date', 'joined'):
                ctx.count('compound targets')
            elif end_t.kind in ('dict', 'list'):
                ctx.count('container targets')
            else:
                ctx.check(bool(ref) == bool(end) and ref.is_empty == (value is None and u == u''), 'truth and emptiness of the Ref', lambda: (
                    u'%s: %r %r' % (what(), ref, end)))
                if value == value:
                    ctx.check(ref == end and not ref != end, 'equality of the Ref', what)
            ctx.nontrivial((end_t.kind, end_t.spec.kind if end_t.spec else None, t.mode, step, gen.fz(value), u))
        flat = sorted(el.flatten())
        want = pairs_of(nodes)
        ctx.check(flat == want, 'pairs of a tree with Refs', lambda: u'%r: %r, expected %r' % (log[-3:], flat, want))
        ctx.count('flat pairs', len(flat))
        return nodes, by_path

    nodes, by_path = look('new')
    for step in xrange(rng.randrange(4, 17)):
        r = rng.random()
        ctx.count('steps')
        mine = [(p, e, t) for p, e, t, _ in nodes if t.kind == 'ref']
        if r < .45 and mine:
            path, ref, t = rng.choice(mine)
            end_path, end, end_t, mode = final(by_path, t)
            if end is None:
                if t.mode in (None, 'ignore'):
                    # ignored, target or not
                    before = leaves(nodes)
                    ref.set(u'x')
                    ctx.check(leaves(nodes) == before, 'ignored assignment without a target')
                nodes, by_path = look('missing')
                continue
            v = value_for(rng, end_t)
            how = rng.choice(('set', 'set', 'value', 'u', 'item'))
            if how == 'item' and (isinstance(v, fl.Element) or not path):
                how = 'set'
            before = leaves(nodes)
            twin = None
            if end_t.kind == 'scalar':
                if how == 'u':
                    v = gen.text(rng, 4)
                elif how == 'value':
                    ok, v, _ = model.scalar(end_t.spec, v)
            elif how in ('u', 'value') and end_t.kind != 'date':
                how = 'set'
            log.append((t.how, t.mode, how, v))

            def assign():
                if how == 'set':
                    return ref.set(v)
                elif how == 'item':
                    follow(el, path[:-1])[path[-1]] = v
                else:
                    setattr(ref, how, v)
            if mode is False:
                ctx.raises(TypeError, assign, 'a Ref that is not writable', repr(log[-1]))
                ctx.count('refused')
                after = leaves(walk(el, top))
                ctx.check(after == before, 'refused assignment changed the tree', lambda: u'%r' % (log[-1],))
            elif mode == 'ignore':
                assign()
                ctx.count('ignored')
                after = leaves(walk(el, top))
                ctx.check(after == before, 'ignored assignment changed the tree', lambda: u'%r' % (log[-1],))
            else:
                twin = schema(end_t)()
                if end_t.kind in ('dict', 'list') and not (isinstance(v, dict) if end_t.kind == 'dict' else isinstance(v, list)):
                    v = {} if end_t.kind == 'dict' else []
                if how in ('u', 'value'):
                    if end_t.kind == 'scalar':
                        twin.value, twin.u = end.value, end.u
                    setattr(twin, how, v)
                    got = want = None
                    assign()
                else:
                    want = twin.set(v)
                    got = assign()
                    if how == 'item':
                        got = want
                ctx.count('writes through')
                ctx.check(got == want, 'result of set()', lambda: u'%r: %r, expected %r' % (log[-1], got, want))
                ctx.check(gen.fz(end.value) == gen.fz(twin.value) and end.u == twin.u, 'target after an assignment', lambda: (
                    u'%r: %r %r, expected %r %r' % (log[-1], end.value, end.u, twin.value, twin.u)))
                after = leaves(walk(el, top))
                n = len(end_path)
                others = lambda d: dict((p, x) for p, x in d.items() if p[:n] != end_path)
                ctx.check(others(after) == others(before), 'an assignment changed more than the target', lambda: u'%r' % (log[-1],))
            ctx.check(follow(el, end_path) is end, 'the target is another element', repr(log[-1]))
            kind = 'assign ' + how
        else:
            choices = [(p, e, t) for p, e, t, _ in nodes if t.kind != 'ref']
            path, node, t = rng.choice(choices)
            if gen.chance(rng, .5):
                # somewhere on the way to a target
                want = rng.choice(refs).path
                above = [(p, e, x) for p, e, x in choices if want[:len(p)] == p]
                path, node, t = rng.choice(above)
            if t.kind == 'list' and gen.chance(rng, .7):
                ctx.count('list edits')
                kind = 'list'
                what = rng.randrange(6)
                if what == 0:
                    node.append(value_for(rng, t.kids[0]))
                elif what == 1:
                    node.insert(0, value_for(rng, t.kids[0]))
                elif what == 2 and len(node):
                    del node[rng.randrange(len(node))]
                elif what == 3:
                    node.reverse()
                elif what == 4 and len(node):
                    node[0] = schema(t.kids[0])()
                else:
                    node.extend([value_for(rng, t.kids[0]) for _ in range(2)])
            elif path and gen.chance(rng, .3) and t.kind in ('dict', 'list', 'scalar') and isinstance(follow(el, path[:-1]), list):
                # a new element in the place of the target or what holds it
                ctx.count('replaced')
                kind = 'replace'
                new = schema(t)()
                new.set(value_for(rng, t))
                follow(el, path[:-1])[int(path[-1])] = new
            elif path and gen.chance(rng, .3) and isinstance(follow(el, path[:-1]), dict):
                ctx.count('replaced')
                kind = 'reset'
                # setting a Dict makes its fields anew
                holder = follow(el, path[:-1])
                holder.set({path[-1]: value_for(rng, t)})
            elif gen.chance(rng, .2):
                kind = 'flat'
                pairs = [(k, rng.choice((u, u'1', u'2004-02-29', u''))) for k, u in el.flatten() if gen.chance(rng, .7)]
                rng.shuffle(pairs)
                if gen.chance(rng, .5):
                    el.set_flat(pairs)
                else:
                    el = cls.from_flat(pairs)
            elif gen.chance(rng, .1):
                kind = 'default'
                (el if gen.chance(rng, .5) else node).set_default()
            else:
                kind = 'set'
                node.set(value_for(rng, t))
            log.append((kind, path))
        nodes, by_path = look(kind)
    ctx.sample(u'%r' % (log,))


def defaults(ctx, rng):
    """Refs take part in no defaults, whatever their mode and order."""
    for mode in (True, 'ignore', False):
        ref = fl.Ref.named(u'r').to(u'm').using(writable=mode)
        m = fl.Integer.named(u'm').using(default=3)
        for fields in ((m, ref), (ref, m)):
            el = fl.Dict.of(*fields).from_defaults()
            ctx.eq((el[u'm'].value, el[u'r'].value, el[u'r'].u), (3, 3, u'3'), 'defaults')
            el.set_default()
            ctx.eq((el[u'm'].value, el[u'r'].value), (3, 3), 'defaults')


def in_forms(ctx, rng):
    class Sign(fl.Form):
        email = fl.String
        again = fl.Ref.to(u'email')
        mine = fl.Ref.to(u'profile.nick').using(writable=True)
        profile = fl.Dict.of(fl.String.named(u'nick'), fl.Ref.named(u'mail').to(u'.email').using(writable=True))
    form = Sign({u'email': u'a@b', u'again': u'x'})
    ctx.eq((form[u'again'].value, form[u'profile'][u'mail'].u), (u'a@b', u'a@b'), 'form')
    form[u'profile'][u'mail'] = u'c@d'
    ctx.eq((form[u'email'].value, form[u'again'].value), (u'c@d', u'c@d'), 'form')
    form[u'mine'] = u'nn'
    ctx.eq(form[u'profile'][u'nick'].u, u'nn', 'form')
    other = Sign(form.value)
    ctx.eq(other.value, form.value, 'round trip')
    ctx.eq(sorted(form.flatten()), [(u'email', u'c@d'), (u'profile_nick', u'nn')], 'pairs')
    one, two = Sign({u'email': u'1'}), Sign({u'email': u'2'})
    ctx.eq((one[u'again'].value, two[u'again'].value, one[u'again'].value), (u'1', u'2', u'1'), 'two forms')
    one[u'mine'] = u'only one'
    ctx.eq((one[u'profile'][u'nick'].value, two[u'profile'][u'nick'].value), (u'only one', None), 'two forms')


def input_(ctx, rng):
    """A Ref takes part in adaption as its target does, and keeps what it was given."""
    for mode in (True, 'ignore'):
        ref = fl.Ref.named(u'r').to(u'm').using(writable=mode)
        for M in (fl.Integer, fl.String, fl.Boolean, fl.Date):
            el = fl.Dict.of(M.named(u'm'), ref)()
            for value in (u'1', 1, u'x', None, u'2004-02-29', 'bytes', True, [], u' 7 '):
                plain, before = M(), el[u'm'].u
                want = plain.set(value)
                got = el[u'r'].set(value)
                ctx.check(el[u'r'].raw is value, 'raw of a Ref', repr((mode, M, value)))
                if mode is True:
                    ctx.eq((got, el[u'm'].value, el[u'm'].u, el[u'm'].raw), (want, plain.value, plain.u, value), 'set() of a Ref', repr((M, value)))
                else:
                    ctx.eq((got, el[u'm'].u), (True, before), 'set() of a Ref', repr((M, value)))
                if want:
                    ctx.eq(el[u'r'].adapt(value), plain.adapt(value), 'adapt() of a Ref')
                    if plain.value is not None:
                        ctx.eq(el[u'r'].serialize(plain.value), plain.u, 'serialize() of a Ref')
                ctx.count('refs given')


def separators(ctx, rng):
    """A separator counts for the path it is given with."""
    fields = [fl.Dict.named(u'a').of(fl.String.named(u'b'), fl.String.named(u'x.y'), fl.String.named(u'x/y')), fl.String.named(u'a.b'), fl.String.named(u'a/b')]

    def target(ref):
        el = fl.Dict.of(*(fields + [ref]))({u'a': {u'b': u'1', u'x.y': u'2', u'x/y': u'3'}, u'a.b': u'4', u'a/b': u'5'})
        return el[u'r'].u
    R = fl.Ref.named(u'r')
    one = R.to(u'a/b', u'/')
    two = one.to(u'a.b')
    three = two.using(sep=u'/').to(u'a/x.y')
    four = three.to(u'a/x.y')
    five = four.to(u'a:x/y', sep=u':')
    six = five.to(u'a/b')
    for turn in xrange(2):
        ctx.eq([target(c) for c in (one, two, three, four, five, six)], [u'1', u'1', u'2', u'2', u'3', u'1'], 'targets by separators')
        ctx.eq([c.sep for c in (fl.Ref, R, one, two, three, four, five, six)], [u'.'] * 4 + [u'/'] * 4, 'separators')
        ctx.eq(target(R.to(u'a/b')), u'5', 'the separator is the dot')
        ctx.eq(target(R.to(u'a.b', sep=u'/')), u'4', 'another separator')
    ctx.count('separators')


FIXED = {'separators': separators, 'input': input_, 'defaults': defaults, 'in_forms': in_forms}
