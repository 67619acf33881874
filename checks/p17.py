# -*- coding: utf-8 -*-
"""P17: compound elements re-composed from their parts after every step."""
import datetime
import re

import flatland as fl
from fv import gen, model

CASES = {'quick': 3600, 'thorough': 130000}
RULE = '''A case drives a DateYYYYMMDD (own part names, optional settings), a JoinedString (separators, regular expressions, member types,
pruning) or a MultiValue through 3-14 random settings of the whole, the parts, single characters of them and flat data, hostile values
included. The monitor keeps the state of each part; after every step parts, value and u must be those it composes on its own, and an element
brought to the same parts another way must be equal. Non-trivial: distinct (kind, operation, parts after it).'''
REQUIRE = {'nontrivial': 8000, 'steps': 15000, 'dates': 5000, 'joined': 5000, 'multi': 5000, 'valid dates': 1500, 'incomplete dates': 1500,
           'refused wholes': 1500, 'pruned': 500, 'parts set': 3000, 'flat': 2500, 'twins': 900, 'regex splits': 400, 'long wholes': 5}


def case(ctx, rng):
    rng.choice((date_case, joined_case, multi_case))(ctx, rng)


# ---------------------------------------------------------------- dates

def date_value(parts):
    """(u, value) of the parts' native values."""
    y, m, d = parts
    if y is None or m is None or d is None:
        return u'', None
    try:
        value = datetime.date(y, m, d)
    except (ValueError, OverflowError):
        return u'', None
    return u'%04d-%02d-%02d' % (y, m, d), value


def date_case(ctx, rng):
    names = [u'year', u'month', u'day']
    cls = fl.DateYYYYMMDD
    if gen.chance(rng, .3):
        n = rng.randrange(1, 4)
        names = [rng.choice((u'y', u'J\xe4hr', u'a b')), rng.choice((u'm', u'mo')), rng.choice((u'd', u'tag'))][:n] + names[n:]
        formats = (u'%04i', u'%02i', u'%02i')
        cls = cls.using(field_schema=[fl.Integer.named(x).using(format=f) for x, f in zip(names[:n], formats)])
    o = {}
    if gen.chance(rng, .2):
        o['optional'] = True
        cls = cls.using(optional=True)
    if gen.chance(rng, .25):
        o['strip'] = False
        cls = cls.using(strip=False)
    name = rng.choice((None, u'when', u'd'))
    part = lambda n: gen.Spec('Integer', n, format=u'%04i' if n == names[0] else u'%02i')
    specs = [part(n) for n in names]
    if gen.chance(rng, .5):
        el = cls.named(name)()
    else:
        el = cls(name=name, label=u'on the fly')
    state = [(None, u'')] * 3
    log = []
    for step in xrange(rng.randrange(3, 12)):
        r = rng.random()
        if r < .35:
            v = gen.any_input(rng) if gen.chance(rng, .35) else rng.choice((gen.date(rng), gen.temporal_text(rng),
                unicode(gen.date(rng).isoformat()), gen.datetime_(rng), None, u' 2004-02-29 ', u'2003-02-29'))
            native = model.adapt('Date', o, v)
            how = rng.choice(('set', 'set', 'set', 'u', 'value'))
            if how == 'set':
                got = el.set(v)
                ctx.check((got is True) if native is not model.FAIL else (got is False), 'result of set()', lambda: u'%r: %r' % (v, got))
            else:
                setattr(el, how, v)
            if native is model.FAIL or native is None:
                state = [(None, u'')] * 3
            else:
                state = [model.scalar(s, x)[1:] for s, x in zip(specs, (native.year, native.month, native.day))]
            if native is model.FAIL:
                ctx.count('refused wholes')
            log.append((how, v))
        elif r < .75:
            i = rng.randrange(3)
            v = rng.choice((u'2004', u'1', u'02', u'29', u'30', u'31', u'13', u'0', u'-1', u'x', u'', None, 4, 2004, 12, 99999, u' 7 ', 1.5,
                            u'\u0662', 2 ** 40))
            if gen.chance(rng, .5):
                v = ((1, 1999, 2000, 2004, 9999, u'0001')[rng.randrange(6)] if i == 0 else rng.randrange(0, 14) if i == 1
                     else rng.randrange(0, 33))
            if gen.chance(rng, .5):
                el[names[i]].set(v)
            else:
                el[names[i]] = v
            state[i] = model.scalar(specs[i], v)[1:]
            ctx.count('parts set')
            log.append((i, v))
        elif r < .95:
            prefix = [name] if name else []
            sep = rng.choice((u'_', u'.'))
            pairs, fresh = [], list(state)
            for i in range(3):
                if gen.chance(rng, .75):
                    v = rng.choice((u'2004', u'02', u'2', u'29', u'12', u'x', u''))
                    pairs.append((sep.join(prefix + [names[i]]), v))
                    fresh[i] = model.scalar(specs[i], v)[1:]
            if gen.chance(rng, .3):
                pairs.append((name or u'', u'1999-01-01'))
            rng.shuffle(pairs)
            el.set_flat(pairs, sep)
            state = fresh
            ctx.count('flat')
            log.append(('flat', pairs))
        else:
            el = cls.named(name)(gen.date(rng))
            state = [model.scalar(s, x)[1:] for s, x in zip(specs, (el.value.year, el.value.month, el.value.day))]
            log.append('new')
        what = u'%r %r' % (names, log)
        got = [(el[n].value, el[n].u) for n in names]
        ctx.check(got == state, 'parts of the date', lambda: u'%s: %r, expected %r' % (what, got, state))
        u, value = date_value([s[0] for s in state])
        ctx.check((el.u, el.value) == (u, value) and type(el.value) is type(value) and isinstance(el.u, unicode), 'value and u of the date',
                  lambda: u'%s: %r %r, expected %r %r' % (what, el.u, el.value, u, value))
        ctx.count('valid dates' if value else 'incomplete dates')
        ctx.count('steps')
        ctx.count('dates')
        ctx.nontrivial(('date', len(names), log[-1][0] if isinstance(log[-1], tuple) else 'new', state))
    ctx.check(set(el.keys()) == set(names), 'fields of the date', repr(el.keys()))
    flat = dict(el.flatten())
    pre = [name] if name else []
    ctx.check(all(flat.get(u'_'.join(pre + [n])) == s[1] for n, s in zip(names, state)), 'flat parts', lambda: u'%r %r' % (flat, state))
    twin = cls.named(name)()
    for i in rng.sample(range(3), 3):
        twin[names[i]].set(state[i][0] if state[i][0] is not None else state[i][1])
    ctx.check([twin[n].value for n in names] == [s[0] for s in state] and twin.value == el.value and twin.u == el.u and twin == el,
              'equal parts, unequal dates', lambda: u'%r %r' % (twin, el))
    ctx.count('twins')
    ctx.sample(u'%r' % (log,))


# ---------------------------------------------------------------- joined

REGEX = (u'\\s*,\\s*', u'[,;]', u';+', u'\\d', u'', u'\\|')


def split(text, sep, regex):
    """The pieces of text, without str.split."""
    if regex:
        if regex == u'':
            return [text]
        out, at = [], 0
        for m in re.compile(regex).finditer(text):
            out.append(text[at:m.start()])
            at = m.end()
        return out + [text[at:]]
    out, at = [], 0
    while True:
        i = text.find(sep, at)
        if i < 0:
            return out + [text[at:]]
        out.append(text[at:i])
        at = i + len(sep)


def joined_case(ctx, rng):
    kind = rng.choice(('String', 'String', 'Integer', 'Boolean', 'Date', 'Float'))
    member = gen.Spec(kind, rng.choice((None, u'm')))
    if kind == 'String' and gen.chance(rng, .3):
        member.opts['strip'] = False
    if kind == 'Integer' and gen.chance(rng, .3):
        member.opts['format'] = u'%03i'
    o = {}
    sep = u','
    if gen.chance(rng, .6):
        sep = o['separator'] = rng.choice((u', ', u';', u'|', u'::', u'\n', u' ', u'.', u'\u2028', u'aa', u','))
    regex = None
    if gen.chance(rng, .3):
        regex = rng.choice(REGEX)
        if regex:
            o['separator_regex'] = re.compile(regex)
        else:
            regex = None
    prune = True
    if gen.chance(rng, .35):
        prune = o['prune_empty'] = False
    if gen.chance(rng, .2):
        o['strip'] = False
    name = rng.choice((None, u'j', u'tags'))
    cls = fl.JoinedString.named(name)
    if kind != 'String' or member.opts or gen.chance(rng, .5):
        cls = cls.of(member.cls)
    cls = cls.using(**o) if o else cls
    el, state, log = cls(), [], []

    def piece():
        r = rng.random()
        if kind in ('Integer', 'Float') and r < .6:
            return rng.choice((u'1', u'0', u'-3', u'12', 7, 0, u'x', u''))
        if kind == 'Boolean' and r < .6:
            return rng.choice((u'1', u'', u'on', u'off', True, False, u'x'))
        if kind == 'Date' and r < .6:
            return rng.choice((gen.date(rng), u'2004-02-29', u''))
        return rng.choice((gen.text(rng, 3), u'', u'a', None, u' ', u'b' + sep + u'c', 5))

    def take(values):
        out, oks = [], []
        for v in values:
            ok, native, u = model.scalar(member, v)
            if prune and not v and u == u'':
                ctx.count('pruned')
                continue
            out.append((native, u))
            oks.append(ok)
        return out, all(oks)

    for step in xrange(rng.randrange(3, 13)):
        r = rng.random()
        if r < .3:
            v = sep.join(p if isinstance(p, unicode) else unicode(p) for p in (piece() for _ in xrange(rng.randrange(0, 5))))
            if gen.chance(rng, .3):
                v = v + gen.text(rng, 4)
            if gen.chance(rng, .25):
                try:
                    v = v.encode('ascii')
                except UnicodeEncodeError:
                    pass
            state, ok = take(split(v, sep, regex))
            if regex:
                ctx.count('regex splits')
            if gen.chance(rng, .3):
                key = name or u''
                if v == u'' and isinstance(v, unicode):
                    pass
                el.set_flat([(name, v), ((name or u'') + u'x', u'no')])
                ctx.count('flat')
            else:
                got = el.set(v)
                ctx.check(got is ok or got == ok and isinstance(got, bool), 'result of set()', lambda: u'%r: %r' % (v, got))
            if not ok:
                ctx.count('refused wholes')
            log.append(('text', v))
        elif r < .55:
            values = [piece() for _ in xrange(rng.randrange(0, 5))]
            wrap = rng.choice((list, tuple, iter, lambda x: (i for i in x)))
            state, ok = take(values)
            got = el.set(wrap(values))
            ctx.check(got == ok and isinstance(got, bool), 'result of set()', lambda: u'%r: %r' % (values, got))
            log.append(('list', values))
        elif r < .63:
            v = rng.choice((None, 5, 1.5, object(), True, len, '\xff\xfe', '\xff,a'))
            got = el.set(v)
            if isinstance(v, str):
                # bytes that are no text: nothing of them remains, or one member that is not valid
                ctx.check(got is False and all(m.value is None or m.value == u'a' for m in el), 'undecodable text', repr(v))
                state = [(m.value, m.u) for m in el]
            else:
                ctx.same(got, False, 'result of set()', repr(v))
                state = []
            ctx.count('refused wholes')
            log.append(('bad', v))
        elif state and r < .75:
            i = rng.randrange(len(state))
            v = piece()
            if gen.chance(rng, .6):
                el[i].set(v)
            else:
                el[i] = v
            state[i] = model.scalar(member, v)[1:]
            ctx.count('parts set')
            log.append((i, v))
        elif r < .85:
            v = piece()
            i = rng.randrange(len(state) + 1)
            if gen.chance(rng, .5):
                el.append(v)
                i = len(state)
            else:
                el.insert(i, v)
            state.insert(i, model.scalar(member, v)[1:])
            log.append(('insert', i, v))
        elif state and r < .95:
            i = rng.randrange(len(state))
            if gen.chance(rng, .5):
                del el[i]
            else:
                el.pop(i)
            del state[i]
            log.append(('del', i))
        else:
            el.reverse()
            state.reverse()
            log.append('reverse')
        what = u'%r %r: %r' % (cls, o, log[-4:])
        got = [(m.value, m.u) for m in el]
        ctx.check(map(gen.fz, got) == map(gen.fz, state), 'members of the joined string', lambda: u'%s: %r, expected %r' % (what, got, state))
        whole = sep.join(u for _, u in state)
        ctx.check(el.value == whole and el.u == whole and isinstance(el.u, unicode), 'value and u of the joined string', lambda: (
            u'%s: %r %r, expected %r' % (what, el.value, el.u, whole)))
        ctx.check(dict(el.flatten()) == ({name: whole} if name is not None else dict(el.flatten())) and el.flatten()[0][1] == whole,
                  'flat joined string', what)
        ctx.count('steps')
        ctx.count('joined')
        ctx.nontrivial(('joined', kind, sep, regex, prune, log[-1] if isinstance(log[-1], str) else log[-1][0], repr(state)))
    twin = cls()
    for native, u in state:
        twin.append(native if native is not None else u)
    if all(native is not None for native, _ in state):
        ctx.check(twin == el and twin.value == el.value, 'equal parts, unequal wholes', lambda: u'%r %r' % (twin, el))
        ctx.count('twins')
    ctx.sample(u'%r' % (log,))


# ---------------------------------------------------------------- multi

def multi_case(ctx, rng):
    member = gen.scalar_spec(rng, rng.choice((None, u'm')), ('String', 'Integer', 'Boolean', 'Date'))
    prune = gen.chance(rng, .7)
    name = rng.choice((None, u'mv'))
    el = fl.MultiValue.named(name).of(member.cls).using(prune_empty=prune)()
    state, log = [], []
    for step in xrange(rng.randrange(3, 13)):
        r = rng.random()
        v = gen.text_for(rng, member) if gen.chance(rng, .7) else gen.good_value(rng, member)
        if r < .25:
            values = [gen.text_for(rng, member) for _ in xrange(rng.randrange(0, 4))]
            out = [model.scalar(member, x) for x in values]
            got = el.set(values)
            ctx.check(got == all(x[0] for x in out), 'result of set()', lambda: u'%r: %r' % (values, got))
            state = [x[1:] for x in out]
            log.append(('set', values))
        elif r < .4:
            key = u'_'.join([x for x in (name, member.name) if x]) or None
            values = [gen.text_for(rng, member) for _ in xrange(rng.randrange(0, 4))]
            el.set_flat([(key, x) for x in values] + [(u'other', u'1')])
            state = [model.scalar(member, x)[1:] for x in values if not (prune and x == u'')]
            ctx.count('flat')
            log.append(('flat', values))
        elif r < .55:
            el.append(v)
            state.append(model.scalar(member, v)[1:])
            log.append(('append', v))
        elif r < .65:
            el.insert(0, v)
            state.insert(0, model.scalar(member, v)[1:])
            log.append(('insert', v))
        elif r < .8 and state:
            i = rng.randrange(len(state))
            el[i].set(v)
            state[i] = model.scalar(member, v)[1:]
            ctx.count('parts set')
            log.append((i, v))
        elif r < .87 and state:
            del el[0]
            del state[0]
            log.append('del')
        elif r < .93:
            u = gen.text(rng, 3)
            el.u = u
            if not state:
                state.append(model.scalar(member, None)[1:])
            state[0] = (state[0][0], u)
            log.append(('u', u))
        else:
            ok, native, u = model.scalar(member, v)
            if not ok:
                continue
            el.value = native
            if not state:
                state.append(model.scalar(member, None)[1:])
            state[0] = (native, state[0][1])
            log.append(('value', native))
        got = [(m.value, m.u) for m in el]
        what = u'%r: %r' % (member, log[-5:])
        ctx.check(map(gen.fz, got) == map(gen.fz, state), 'members of the MultiValue', lambda: u'%s: %r, expected %r' % (what, got, state))
        value, u = state[0] if state else (None, u'')
        ctx.check(gen.fz(el.value) == gen.fz(value) and el.u == u, 'value and u of the MultiValue', lambda: u'%s: %r %r, expected %r %r' % (
            what, el.value, el.u, value, u))
        ctx.check(bool(el) == bool(state), 'truth of the MultiValue', what)
        ctx.count('steps')
        ctx.count('multi')
        ctx.nontrivial(('multi', member.kind, prune, log[-1] if isinstance(log[-1], str) else log[-1][0], repr(state)))
    ctx.sample(u'%r' % (log,))


def dates(ctx, rng):
    """Every day of some years, whole to parts and back."""
    for year in (1, 4, 100, 1900, 1999, 2000, 2004, 9999):
        for month in range(0, 14):
            for day in range(0, 33):
                el = fl.DateYYYYMMDD()
                el[u'day'].set(day)
                el[u'year'].set(year)
                el[u'month'].set(unicode(month))
                u, value = date_value((year, month, day))
                ctx.check(el.value == value and el.u == u, 'date of the parts', repr((year, month, day)))
                other = fl.DateYYYYMMDD()
                got = other.set(u'%04d-%02d-%02d' % (year, month, day))
                ctx.check(got is (value is not None) and other.value == value and other.u == u, 'date of the whole', repr((year, month, day)))
                ctx.check([other[n].value for n in (u'year', u'month', u'day')] == ([year, month, day] if value else [None] * 3),
                          'parts of the whole', repr((year, month, day)))


def nested(ctx, rng):
    """Compounds within trees."""
    schema = fl.Dict.of(fl.DateYYYYMMDD.named(u'd'), fl.List.named(u'l').of(fl.JoinedString.named(u'j')), fl.MultiValue.named(u'm').of(fl.Integer))
    el = schema({u'd': datetime.date(2004, 2, 29), u'l': [u'a,b', [u'c']], u'm': [u'1', 2]})
    ctx.eq(el.value, {u'd': datetime.date(2004, 2, 29), u'l': [u'a,b', u'c'], u'm': 1}, 'value')
    el[u'd'][u'year'].set(2003)
    ctx.eq((el[u'd'].value, el[u'd'].u), (None, u''), 'date')
    el[u'l'][0][1].set(u'z')
    ctx.eq(el[u'l'].value, [u'a,z', u'c'], 'joined')
    el.set_flat([(u'd_year', u'2000'), (u'd_day', u'3'), (u'd_month', u'12'), (u'l_4_j', u'q,r'), (u'm', u'5'), (u'm', u'6')])
    ctx.eq(el.value, {u'd': datetime.date(2000, 12, 3), u'l': [u'q,r'], u'm': 5}, 'value')


def many(ctx, rng):
    """Many more parts than a person would type."""
    for n in (999, 1000, 1001, 1025, 4097):
        pieces = [u'p%d' % i if i % 7 else u'' for i in xrange(n)]
        full = [p for p in pieces if p]
        for regex in (None, u'\\s*,\\s*'):
            o = dict(separator_regex=re.compile(regex)) if regex else {}
            for prune, kept in ((True, full), (False, pieces)):
                J = fl.JoinedString.using(prune_empty=prune, **o)
                text = u','.join(pieces)
                for whole in (text, pieces, tuple(pieces)):
                    el = J()
                    ctx.eq(el.set(whole), True, 'many parts', u'set() of %d parts' % n)
                    ctx.check([m.u for m in el] == kept and el.value == el.u == u','.join(kept), 'parts of a long whole',
                              lambda: u'%d parts of %d, %r...%r' % (len(el), len(kept), el.u[:50], el.u[-50:]))
                el[len(kept) - 1].set(u'last')
                ctx.check(el.u == u','.join(kept[:-1] + [u'last']) and el.value == el.u, 'whole of many parts', lambda: el.u[-60:])
                flat = J.named(u'j').from_flat([(u'j', text)])
                ctx.check([m.u for m in flat] == kept, 'long whole from flat data', lambda: repr(len(flat)))
        numbers = fl.JoinedString.of(fl.Integer)
        el = numbers(u','.join(unicode(i) for i in xrange(n)))
        ctx.check([m.value for m in el] == range(n), 'many numbers', lambda: repr(len(el)))
        M = fl.MultiValue.named(u'm').of(fl.Integer)
        for el in (M(range(n)), M.from_flat([(u'm', unicode(i)) for i in xrange(n)])):
            ctx.check([m.value for m in el] == range(n) and el.value == 0 and el.u == u'0', 'many values', lambda: repr(len(el)))
        ctx.count('long wholes')


def abstract(ctx, rng):
    """A compound without compose() or explode() says so; one whose parts do not compose can be shown."""
    class C(fl.Compound):
        field_schema = [fl.String.named(u'a')]
    el = C()
    ctx.raises(NotImplementedError, lambda: el.set(u'x'), 'explode() that is not there')
    ctx.raises(NotImplementedError, lambda: el.value, 'compose() that is not there')
    ctx.raises(NotImplementedError, lambda: el.u, 'compose() that is not there')
    ctx.raises(TypeError, lambda: el.serialize(u'x'), 'serialize() of a compound')
    ctx.check(u'NotImplementedError' in repr(el), 'a compound that can not compose is not shown')

    class Picky(fl.Compound):
        field_schema = [fl.String.named(u'a')]

        def compose(self):
            raise ValueError('no')

        def explode(self, value):
            if value == u'raise':
                raise KeyError('no')
            self[u'a'].set(value)
            return {u'true': True, u'false': False}.get(value)
    p = Picky()
    for value, want in ((u'raise', False), (u'true', True), (u'false', False), (u'other', True)):
        ctx.same(p.set(value), want, 'set() of a compound')
        if value != u'raise':
            ctx.eq(p[u'a'].value, value, 'parts')
    ctx.raises(ValueError, lambda: p.value, 'error of compose()')
    ctx.check('ValueError' in repr(p), 'a compound that can not compose is not shown')


FIXED = {'abstract': abstract, 'many': many, 'dates': dates, 'nested': nested}
