# -*- coding: utf-8 -*-
"""P01: scalar set() against an independent adaptation model."""
import decimal
import datetime

import flatland as fl
from fv import gen, model

CASES = {'quick': 14000, 'thorough': 400000}
RULE = '''A case draws a scalar schema (type and options) and a sequence of 1-8 inputs (text, bytes, numbers,
dates, booleans, None, containers, odd objects), sets them one after the other on one element and on fresh elements,
and compares result, value, u and raw with the model. Distinct non-trivial: distinct (schema, input, outcome) triples.'''
ASSUMPTIONS = ['int(), float() and Decimal() of the Python in use define what number text is valid.']
REQUIRE = {'sets': 10000, 'set succeeded': 3000, 'set failed': 3000, 'kinds': 11, 'round trips': 1500,
           'undecodable': 20, 'white space': 1000, 'long texts': 300}


def observe(el):
    return el.value, el.u


def same_value(a, b):
    return gen.fz(a) == gen.fz(b)


def judge(ctx, s, el, value, result, how):
    want_ok, want_value, want_u = model.scalar(s, value)
    what = u'%r %s %s' % (s, how, gen.text and repr(value)[:200].decode('ascii', 'replace'))
    ctx.check(result is want_ok or result == want_ok and isinstance(result, bool), 'set() result',
              lambda: u'%s returned %r, expected %r' % (what, result, want_ok))
    ctx.check(same_value(el.value, want_value), 'value after set()',
              lambda: u'%s: value %r, expected %r' % (what, el.value, want_value))
    ctx.check(isinstance(el.u, unicode), 'u is not unicode', lambda: u'%s: %r' % (what, el.u))
    ctx.check(unicode(el.u) == want_u, 'u after set()',
              lambda: u'%s: u %r, expected %r' % (what, unicode(el.u), want_u))
    ctx.check(el.raw is value, 'raw is not the input', lambda: u'%s: raw %r' % (what, el.raw))
    return want_ok


def case(ctx, rng):
    s = gen.scalar_spec(rng, rng.choice((None, u'n')))
    cls = s.cls
    el = cls()
    ctx.log(s)
    ctx.check(el.value is None and el.u == u'', 'fresh element is not empty', lambda: repr(s))
    for _ in xrange(rng.randrange(1, 9)):
        value = gen.any_input(rng) if rng.random() < .6 else gen.text_for(rng, s)
        ctx.log('set', value)
        ok = judge(ctx, s, el, value, el.set(value), u'set after other sets')
        ctx.count('sets')
        ctx.count('set succeeded' if ok else 'set failed')
        ctx.seen('kinds', s.kind)
        if isinstance(value, str) and model.as_text(value) is None:
            ctx.count('undecodable')
        ctx.nontrivial((repr(s), gen.fz(value) if not hasattr(value, 'next') else 'iterator', ok))
        ctx.sample(u'%r.set(%s) -> %r value=%s u=%s' % (
            s, repr(value)[:80].decode('ascii', 'replace'), ok, repr(el.value)[:80], repr(el.u)[:80]))
        # construction, positional and by keyword, and the same set() again
        how = rng.randrange(3)
        if how == 0:
            fresh = cls(value)
            result = ok
        elif how == 1:
            fresh = cls(value=value)
            result = ok
        else:
            fresh = cls()
            result = fresh.set(value)
        judge(ctx, s, fresh, value, result, u'construction')
        # its own text
        if ok and el.value is not None:
            u, v = unicode(el.u), el.value
            again = el.set(el.u)
            lossy = False
            if s.kind in ('Decimal', 'Float', 'Enum', 'Constrained'):
                lossy = model.scalar(s, u)[0] is False
            if not lossy:
                ctx.check(again is True or again == True, 'own u does not adapt',  # noqa
                          lambda: u'%r: %r from %r' % (s, u, v))
                ctx.check(el.u == u, 'own u changes', lambda: u'%r: %r to %r' % (s, u, el.u))
                ctx.count('round trips')


def every_date(ctx, rng):
    """Each day of leap and common years, and its neighbours."""
    for year in (1, 1900, 2000, 2004, 2023, 9999):
        for month in range(0, 14):
            for day in range(0, 33):
                t = u'%04d-%02d-%02d' % (year, month, day)
                for s in (gen.Spec('Date'), gen.Spec('DateTime')):
                    full = t if s.kind == 'Date' else t + u' 23:59:59'
                    el = s.cls()
                    judge(ctx, s, el, full, el.set(full), u'calendar')
                    ctx.count('calendar dates')


def every_time(ctx, rng):
    for h in range(0, 26):
        for m in (0, 1, 59, 60, 99):
            for sec in (0, 9, 59, 60, 61):
                t = u'%02d:%02d:%02d' % (h, m, sec)
                s = gen.Spec('Time')
                el = s.cls()
                judge(ctx, s, el, t, el.set(t), u'clock')


def formats(ctx, rng):
    """Near misses of the temporal formats."""
    for s in (gen.Spec('Date'), gen.Spec('Date', strip=False), gen.Spec('Time'), gen.Spec('Time', strip=False),
              gen.Spec('DateTime'), gen.Spec('DateTime', strip=False)):
        base = {'Date': u'2004-02-29', 'Time': u'12:34:56', 'DateTime': u'2004-02-29 12:34:56'}[s.kind]
        texts = [base]
        for i in range(len(base) + 1):
            for c in (u'', u'0', u' ', u'-', u':', u'\n', u'a', u'\u0661', u'\x00', u'+'):
                texts.append(base[:i] + c + base[i:])
                texts.append(base[:i] + c + base[i + 1:])
        for t in texts:
            el = s.cls()
            judge(ctx, s, el, t, el.set(t), u'format')


SPACES = [unichr(i) for i in xrange(0x10000) if not 0xd800 <= i < 0xe000 and unichr(i).isspace()]


def spaces(ctx, rng):
    """Every kind of white space before, after and within a text of every kind."""
    ctx.check(len(SPACES) > 20, 'white space', lambda: repr(SPACES))
    base = {'String': u'a', 'Integer': u'12', 'Long': u'-12', 'Float': u'1.5', 'Decimal': u'1.50', 'Boolean': u'on',
            'Date': u'2004-02-29', 'Time': u'12:34:56', 'DateTime': u'2004-02-29 12:34:56'}
    for kind in sorted(base):
        for o in ({}, {'strip': False}) if kind in ('String', 'Date', 'Time', 'DateTime') else ({},):
            s = gen.Spec(kind, **o)
            t = base[kind]
            for c in SPACES:
                for text in (c + t, t + c, c + t + c, c, c + c, t[:1] + c + t[1:], u' ' + c + t + c + u'\t'):
                    el = s.cls(u'1')
                    judge(ctx, s, el, text, el.set(text), u'white space')
                    ctx.count('white space')
                    if c in u' \t\n\r\x0b\x0c':
                        el = s.cls()
                        data = text.encode('ascii')
                        judge(ctx, s, el, data, el.set(data), u'white space in bytes')


def long_texts(ctx, rng):
    """Texts far beyond what a form field usually has."""
    for n in (255, 256, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 70001, 300000):
        for o in ({}, {'strip': False}):
            s = gen.Spec('String', **o)
            for text in (u'x' * n, u' ' * n, u' ' + u'x' * n + u'\n', u' ' * n + u'x', u'x' + u' ' * n,
                         u'x' + u' ' * n + u'y', u'\xe9' * n, ' ' * n + 'b' * n, '\xe9' * n):
                el = s.cls()
                judge(ctx, s, el, text, el.set(text), u'long text')
                ctx.count('long texts')
        for kind, o, base in (('Integer', {}, u'7'), ('Long', {}, u'-7'), ('Float', {}, u'1.5'), ('Decimal', {}, u'2.50'),
                              ('Boolean', {}, u'on'), ('Date', {}, u'2004-02-29'), ('Date', {'strip': False}, u'2004-02-29'),
                              ('Time', {}, u'12:34:56'), ('DateTime', {}, u'2004-02-29 12:34:56')):
            s = gen.Spec(kind, **o)
            for text in (u' ' * n + base, base + u'\n' * n, u' ' * n + base + u' ' * n, base + u'x' * n):
                el = s.cls()
                judge(ctx, s, el, text, el.set(text), u'long text')
                ctx.count('long texts')
    for n in (18, 19, 20, 40, 300, 2000, 5000):
        for kind in ('Integer', 'Long', 'Decimal'):
            s = gen.Spec(kind)
            for text in (u'7' * n, u'-' + u'9' * n, u'0' * n + u'1', u'1' + u'0' * n):
                el = s.cls()
                judge(ctx, s, el, text, el.set(text), u'long number')
                number = int(text)
                judge(ctx, s, el, number, el.set(number), u'long number')
                ctx.count('long texts')


def callables(ctx, rng):
    """Constrained asks valid_value about the adapted value and the element."""
    seen = []

    def valid(element, value):
        seen.append((element, value))
        return value == 2
    el = fl.Constrained.using(child_type=fl.Integer, valid_value=valid)()
    ctx.eq(el.set(u' 2 '), True, 'Constrained')
    ctx.eq(el.value, 2, 'Constrained')
    ctx.check(seen[-1][0] is el and seen[-1][1] == 2, 'valid_value arguments')
    ctx.eq(el.set(u'3'), False, 'Constrained')
    ctx.eq(el.value, None, 'Constrained')
    ctx.eq(el.u, u'3', 'Constrained')
    ctx.eq(fl.Constrained()().set(u'x') if False else fl.Constrained().set(u'x'), False, 'abstract Constrained accepts')


def other_ways(ctx, rng):
    """The text of an element, and serialize() of anything at all."""
    def text(v):
        return unicode(v)
    kinds = ((fl.Integer, int, lambda v: u'%i' % v), (fl.Float, float, lambda v: u'%f' % v), (fl.Decimal, decimal.Decimal, lambda v: u'%f' % v),
             (fl.Date, datetime.date, lambda v: unicode(v.isoformat()[:10])), (fl.Time, datetime.time, lambda v: unicode(v.strftime('%H:%M:%S'))),
             (fl.DateTime, datetime.datetime, lambda v: unicode(v.strftime('%Y-%m-%d %H:%M:%S'))))
    things = (u'', u'x', u'12', 5, -7, 2.5, decimal.Decimal('1.25'), datetime.date(2004, 2, 29), datetime.time(1, 2, 3),
              datetime.datetime(2004, 2, 29, 1, 2, 3), (), [u'a'])
    for T, type_, fmt in kinds:
        for thing in things:
            got = T().serialize(thing)
            own = type(thing) is type_
            if isinstance(thing, type_) and not own:
                continue
            ctx.check(isinstance(got, unicode) and got == (fmt(thing) if own else text(thing)), 'serialize()',
                      lambda: u'%s.serialize(%r): %r' % (T.__name__, thing, got))
            ctx.count('serialized')
    for T in (fl.String, fl.Integer, fl.Boolean, fl.Float, fl.Date, fl.Enum.valued(u'a', u'\xe9')):
        for value in (u'a', u'\xe9\u20ac', u'', None, 5, u' 1 ', True, u'2004-02-29'):
            el = T()
            el.set(value)
            ctx.check(unicode(el) == el.u and str(el) == el.u.encode('utf-8') and (u'%s' % el) == el.u, 'text of an element',
                      lambda: u'%r of %r: %r %r' % (el, value, unicode(el), str(el)))
            ctx.check(bool(el) is bool(el.u and el.value), 'truth', repr(el))


FIXED = {'other ways': other_ways, 'spaces': spaces, 'long texts': long_texts,
         'every date': every_date, 'every time': every_time, 'formats': formats, 'callables': callables}
