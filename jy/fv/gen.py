# -*- coding: utf-8 -*-
"""Random texts, inputs, schemas and values.

A Spec describes a schema independently of flatland; Spec.cls builds the
flatland class through the public API.  Models (fv.model) work on Specs only.
"""
import datetime
import decimal
import re

import flatland as fl

# ---------------------------------------------------------------- texts

CALM = u'abcxyz'
SPECIAL = (u'_', u'__', u'.', u'..', u'/', u'//', u'[', u']', u'\\', u':', u'-',
           u'"', u"'", u'<', u'>', u'&', u'&amp;', u'&#39;', u'%', u'%s', u'{', u'}', u'$',
           u' ', u'  ', u'\t', u'\n', u'\r\n', u',', u';', u'=', u'(', u')', u'*',
           u'+', u'?', u'|', u'^', u'#', u'@', u'!', u'`', u'~')
UNI = (u'\xe9', u'\xdf', u'\u0130', u'\u0131', u'\u3000', u'\xa0', u'\u2028',
       u'\u0661', u'\uff11', u'\u4e2d', u'\u05d0', u'e\u0301', u'\u20ac',
       u'\U0001F600', u'\ufeff', u'\u200b')
CONTROL = (u'\x00', u'\x01', u'\x0b', u'\x1f', u'\x7f', u'\x85')


def chance(rng, p):
    return rng.random() < p


def text(rng, longest=8, control=False):
    """Any unicode text."""
    n = rng.choice((0, 1, 1, 2, 3, longest))
    pools = [CALM, SPECIAL, UNI, u'0123456789']
    if control:
        pools.append(CONTROL)
    if chance(rng, .4):
        pools = [CALM, u'0123456789']
    return u''.join(rng.choice(rng.choice(pools)) for _ in xrange(n))


def nonblank(rng, longest=8):
    while True:
        t = text(rng, longest)
        if t.strip():
            return t


def ident(rng):
    return rng.choice(u'abcdefgh') + rng.choice((u'', u'', u'1', u'x', u'foo'))


NAMES_ODD = (u'\xe9t\xe9', u'a b', u'a.b', u'a-b', u'x[0]', u'"q"', u'<b>', u'a/b', u'a*', u'(a|b)',
             u'a+', u'$a', u'\u4e2d', u'a\\d', u'^a', u'0x', u'7', u'a\nb', u'%s', u'.', u'..', u'?',
             u'[', u'ab', u'abc', u'a0')


def name(rng, sep=u'_', odd=.3, used=()):
    """A field name without *sep*, not among *used* and not sharing a
    separator-terminated prefix with one."""
    for _ in xrange(200):
        n = rng.choice(NAMES_ODD) if chance(rng, odd) else ident(rng)
        if chance(rng, .06):
            n = n + sep + ident(rng)
        elif sep in n:
            continue
        if n in used or any(u.startswith(n + sep) or n.startswith(u + sep)
                            for u in used):
            continue
        # a name and a separator must not run into each other
        if sep in (n + sep)[:-len(sep)].replace(sep, u'', 0) and sep not in n:
            continue
        if (n + sep).find(sep) not in (len(n), n.find(sep)):
            continue
        return n
    return u'n%d' % len(used)

SEPARATORS = (u'_', u'_', u'_', u'.', u'-', u'__', u'|', u'*', u'\xb7', u'$', u'::', u' ', u'+', u'^', u'\\')


# ---------------------------------------------------------------- inputs

class Odd(object):
    def __init__(self, u=u'odd'):
        self.u_ = u

    def __unicode__(self):
        return self.u_

    def __repr__(self):
        return 'Odd(%r)' % self.u_


def date(rng):
    return datetime.date(rng.choice((1, 9, 99, 999, 1582, 1899, 1900, 1970, 2000, 2004, 2023, 9999)),
                         *rng.choice(((1, 1), (2, 28), (12, 31), (7, 9), (10, 30))))


def time(rng):
    return datetime.time(rng.choice((0, 9, 12, 23)), rng.choice((0, 7, 59)),
                         rng.choice((0, 30, 59)))


def datetime_(rng):
    return datetime.datetime.combine(date(rng), time(rng))


def temporal_text(rng):
    d = u'%s-%s-%s' % (
        rng.choice((u'2004', u'2001', u'0001', u'1900', u'2000', u'9999', u'0000', u'10000', u'99', u'-001', u'200a')),
        rng.choice((u'01', u'02', u'12', u'13', u'00', u'2', u'002')),
        rng.choice((u'01', u'28', u'29', u'30', u'31', u'32', u'00', u'9', u'1 ')))
    t = u'%s:%s:%s' % (
        rng.choice((u'00', u'12', u'23', u'24', u'7', u'-1')),
        rng.choice((u'00', u'59', u'60', u'5')),
        rng.choice((u'00', u'59', u'60', u'61', u'5', u'30.5')))
    s = rng.choice((d, d, t, t, d + u' ' + t, d + u' ' + t, d + u'T' + t, d + t))
    if chance(rng, .2):
        s = rng.choice((u' ', u'\n', u'\t', u'\xa0', u'x')) + s
    if chance(rng, .2):
        s = s + rng.choice((u' ', u'\n', u'\t', u'\u3000', u'x', u'Z', u'\x00'))
    return s


def number_text(rng):
    s = rng.choice((
        u'0', u'1', u'-1', u'-0.5', u'-1e-9', u'-0.0', u'12', u'007', u'-0', u'+5', u'1.5', u'-2.25', u'1e3', u'1E-2', u'.5', u'5.',
        u'1,000', u'0x1f', u'1_000', u'inf', u'-inf', u'nan', u'NaN', u'sNaN', u'Infinity', u'\u0661\u0662',
        u'\uff11', u'1L', u'--1', u'', u'1 2', u'9' * 30, u'-' + u'9' * 30, u'1e400', u'1e-400', u'\u2212' + u'1',
        unicode(rng.randrange(-10 ** 6, 10 ** 6)), unicode(rng.randrange(0, 10 ** 20)),
        u'%d.%d' % (rng.randrange(-999, 999), rng.randrange(0, 99))))
    if chance(rng, .2):
        s = rng.choice((u' ', u'\n', u'\t', u'\xa0')) + s
    if chance(rng, .2):
        s = s + rng.choice((u' ', u'\n', u'\u3000', u'x', u'\x00'))
    return s


def boolish(rng):
    return rng.choice((u'on', u'true', u'True', u'1', u'off', u'false', u'False', u'0', u'',
                       u'TRUE', u'yes', u'no', u'y', u'n', u' on', u'on ', u'None', u'\x00', u'2', u'ja', u'nein'))


def any_input(rng):
    """Anything a caller may hand to set()."""
    k = rng.randrange(24)
    if k < 4:
        return text(rng, control=True)
    if k < 7:
        return number_text(rng)
    if k < 9:
        return temporal_text(rng)
    if k == 9:
        return boolish(rng)
    if k == 10:
        return rng.choice((number_text, temporal_text, boolish, text))(rng).encode('utf-8')
    if k == 11:
        return ''.join(chr(rng.randrange(256)) for _ in xrange(rng.randrange(6)))
    if k == 12:
        return rng.choice((0, 1, -1, 2, 7, 10 ** 6, -10 ** 6, 2 ** 31, 2 ** 63, -2 ** 64, 10 ** 40))
    if k == 13:
        return rng.choice((0.0, -0.0, 1.0, 1.5, -2.25, 0.1, 1e20, -1e20, 1e-20, 1e300, 5e-324,
                           float('inf'), float('-inf'), float('nan')))
    if k == 14:
        return decimal.Decimal(rng.choice(('0', '1', '-1', '1.50', '-0.0', '1e10', '1E-10', 'NaN', 'sNaN', 'Infinity', '-Infinity',
                                           '-NaN')))
    if k == 15:
        return rng.choice((True, False))
    if k == 16:
        return None
    if k == 17:
        return date(rng)
    if k == 18:
        return datetime_(rng)
    if k == 19:
        return time(rng)
    if k == 20:
        return rng.choice(([], (), {}, [1], (1, 2), {u'a': 1}, set([3]), [u'\xe9'], ['\xff'], {'\xfe': u'\xe9'},
                           (0, (1, 2), -1), [[]], xrange(3), frozenset(), iter(()), [None], (0, (1, 2), 'x')))
    if k == 21:
        return rng.choice((Odd(), Odd(u'\xe9'), Odd(u'12'), Odd(u'2004-01-01'), object, len, Ellipsis, NotImplemented,
                           1j, slice(1), datetime.timedelta(1), bytearray('ab'), buffer('ab') if False else u'ab'))
    if k == 22:
        return rng.choice((u'a', u'b', u'c', u' a', u'A', u'\xe9', 'a', 1, 2, u'1', u'2', 2.0, u'2.0', True))
    return rng.choice((u' padded ', u'\tx\n', u'\u3000y\xa0', u'   ', u'\n', '  s  ', u'a\x00b', u'\ufeffz'))


# ---------------------------------------------------------------- specs

SCALARS = ('String', 'Integer', 'Long', 'Float', 'Decimal', 'Boolean', 'Enum', 'Constrained', 'Date', 'DateTime', 'Time')
MAPPINGS = ('Dict', 'SparseDict', 'Form')
SEQUENCES = ('List', 'Array', 'MultiValue')


class Spec(object):
    """A schema, described.  kids: fields of mappings, [member] of
    sequences."""

    def __init__(self, kind, name=None, kids=(), **opts):
        self.kind, self.name, self.kids, self.opts = kind, name, list(kids), opts
        self._cls = None

    @property
    def scalar(self):
        return self.kind in SCALARS

    @property
    def mapping(self):
        return self.kind in MAPPINGS

    @property
    def sequence(self):
        return self.kind in SEQUENCES or self.kind == 'JoinedString'

    @property
    def member(self):
        return self.kids[0]

    def field(self, name):
        for kid in self.kids:
            if kid.name == name:
                return kid

    def walk(self):
        yield self
        for kid in self.kids:
            for sub in kid.walk():
                yield sub

    def __repr__(self):
        return '%s%s%s%s' % (
            self.kind, '' if self.name is None else ':%r' % self.name,
            ''.join('{%s=%r}' % kv for kv in sorted(self.opts.items())
                    if kv[0] not in ('valid',)),
            '(%s)' % ', '.join(map(repr, self.kids)) if self.kids else '')

    @property
    def cls(self):
        if self._cls is None:
            self._cls = self.build()
        return self._cls

    def build(self):
        """The flatland schema class (a new one on every call)."""
        o = dict(self.opts)
        kind = self.kind
        o.pop('valid', None)
        if kind == 'Enum':
            cls = fl.Enum.valued(*o.pop('values'))
            child = o.pop('child')
            if child != 'String':
                cls = cls.using(child_type=getattr_kind(child))
        elif kind == 'Constrained':
            child, allowed = o.pop('child'), o.pop('values')
            cls = fl.Constrained.using(
                child_type=getattr_kind(child),
                valid_value=lambda element, value: value in allowed)
        elif kind == 'Form':
            cls = fl.Form.of(*[kid.cls for kid in self.kids])
        elif kind in MAPPINGS:
            cls = getattr(fl, kind).of(*[kid.cls for kid in self.kids])
        elif kind in SEQUENCES:
            cls = getattr(fl, kind).of(self.member.cls)
        elif kind == 'JoinedString':
            cls = fl.JoinedString
            if self.kids:
                cls = cls.of(self.member.cls)
            if 'separator_regex' in o:
                o['separator_regex'] = re.compile(o['separator_regex'])
        else:
            cls = getattr_kind(kind)
        if self.name is not None:
            cls = cls.named(self.name)
        if o:
            cls = cls.using(**o)
        return cls


def getattr_kind(kind):
    if kind == 'Decimal':
        from flatland.schema.scalars import Decimal
        return Decimal
    return getattr(fl, kind)


def scalar_spec(rng, name=None, kinds=SCALARS, plain=False):
    kind = rng.choice(kinds)
    o = {}
    if not plain:
        if kind == 'String' and chance(rng, .4):
            o['strip'] = False
        elif kind in ('Integer', 'Long', 'Float', 'Decimal'):
            if chance(rng, .3):
                o['signed'] = False
            if chance(rng, .3):
                o['format'] = rng.choice(
                    (u'%05i', u'%i', u'%d') if kind in ('Integer', 'Long') else
                    (u'%0.2f', u'%f', u'%.10f'))
        elif kind == 'Boolean' and chance(rng, .4):
            o.update(rng.choice((
                dict(true=u'yes', false=u'no'),
                dict(true=u'yes', true_synonyms=(u'y', u'ja'), false=u'no', false_synonyms=(u'n', u'nein')),
                dict(true=u'on', true_synonyms=()),
                dict(true=u'off'), dict(true=u'0', false=u'no'), dict(true=u'Y', true_synonyms=[u'y'], false=u'N'),
                dict(false=u'0', false_synonyms=(u'', u'off')))))
        elif kind in ('Date', 'DateTime', 'Time') and chance(rng, .3):
            o['strip'] = False
    if kind in ('Enum', 'Constrained'):
        o['child'], o['values'] = rng.choice((
            ('String', (u'a', u'b', u'\xe9')), ('String', (u'1', u'on', u'a b')),
            ('Integer', (1, 2, 3)), ('Integer', (-5, 0, 10 ** 12)),
            ('Float', (0.5, 1.0, 2.0)), ('Boolean', (True,)),
            ('Date', (datetime.date(2004, 2, 29), datetime.date(1, 1, 1)))))
    return Spec(kind, name, **o)


def spec(rng, depth=3, sep=u'_', name_=None, kinds=None, width=4, root=False,
         scalars=SCALARS, lossless=True, plain=True, multi=True, compounds=True):
    """A random schema with unambiguous names."""
    options = dict(sep=sep, width=width, scalars=scalars, lossless=lossless, plain=plain, multi=multi,
                   compounds=compounds)
    if depth <= 0 or (not root and chance(rng, .35)):
        r = rng.random()
        if compounds and r < .1:
            return Spec('DateYYYYMMDD', name_)
        if compounds and r < .2:
            member = scalar_spec(rng, None, ('String', 'Integer', 'Date'), True)
            return Spec('JoinedString', name_, [member],
                        separator=rng.choice((u',', u', ', u'|', u';;')))
        return scalar_spec(rng, name_, scalars, plain)
    kinds = kinds or ('Dict', 'Dict', 'Form', 'SparseDict', 'List', 'List', 'Array', 'MultiValue')
    kind = rng.choice(kinds)
    if kind in ('Array', 'MultiValue') and not multi:
        kind = 'List'
    if kind in MAPPINGS:
        used, kids = [], []
        for _ in xrange(rng.randrange(1, width + 1)):
            n = name(rng, sep, used=used)
            used.append(n)
            kids.append(spec(rng, depth - 1, name_=n, **options))
        o = {}
        if kind == 'SparseDict' and chance(rng, .5):
            o['minimum_fields'] = 'required'
            for kid in kids:
                if chance(rng, .5):
                    kid.opts['optional'] = True
        return Spec(kind, name_, kids, **o)
    member_name = name(rng, sep) if chance(rng, .6) else None
    if kind == 'List':
        member = spec(rng, depth - 1, name_=member_name, **options)
        o = {}
        if chance(rng, .4):
            o['prune_empty'] = False
        return Spec(kind, name_, [member], **o)
    if name_ is None and member_name is None and not root:
        pass
    o = {}
    if chance(rng, .3):
        o['prune_empty'] = False
    return Spec(kind, name_, [scalar_spec(rng, member_name, scalars, plain)], **o)


# ---------------------------------------------------------------- values

def good_value(rng, s, depth=0, size=3, blank=.15):
    """A native value of the schema (None included with chance *blank*)."""
    k, o = s.kind, s.opts
    if s.scalar or k == 'DateYYYYMMDD':
        if chance(rng, blank):
            return None
        if k == 'String':
            t = text(rng)
            return t.strip() if o.get('strip', True) else t
        if k in ('Integer', 'Long'):
            v = rng.choice((0, 1, -1, 12, rng.randrange(-10 ** 6, 10 ** 6), 10 ** 12))
            return abs(v) if o.get('signed') is False else v
        if k == 'Float':
            v = rng.choice((0.0, 1.0, -1.5, 0.25, 1024.5, 1e6))
            return abs(v) if o.get('signed') is False else v
        if k == 'Decimal':
            v = decimal.Decimal(rng.choice(('0', '1', '-1.5', '0.25', '100', '1000000')))
            return abs(v) if o.get('signed') is False else v
        if k == 'Boolean':
            return rng.choice((True, False))
        if k in ('Enum', 'Constrained'):
            return rng.choice(o['values'])
        if k in ('Date', 'DateYYYYMMDD'):
            return date(rng)
        if k == 'DateTime':
            return datetime_(rng)
        if k == 'Time':
            return time(rng)
    if k == 'JoinedString':
        return [v for v in (good_value(rng, s.member, blank=0)
                            for _ in xrange(rng.randrange(0, size + 1)))]
    if s.sequence:
        return [good_value(rng, s.member, depth + 1, size, blank)
                for _ in xrange(rng.randrange(0, size + 1))]
    if s.mapping:
        return dict((kid.name, good_value(rng, kid, depth + 1, size, blank))
                    for kid in s.kids
                    if k != 'SparseDict' or chance(rng, .7)
                    or not kid.opts.get('optional'))
    raise AssertionError(k)


def text_for(rng, s):
    """Text that may or may not suit the scalar schema."""
    k = s.kind
    if k in ('Integer', 'Long', 'Float', 'Decimal'):
        return number_text(rng)
    if k == 'Boolean':
        return boolish(rng)
    if k in ('Date', 'DateTime', 'Time'):
        return temporal_text(rng)
    if k in ('Enum', 'Constrained'):
        v = rng.choice(s.opts['values'])
        return rng.choice((unicode(v), unicode(v) + u' ', u'nope', u''))
    return text(rng)


# ---------------------------------------------------------------- trees

def snap(el, value=True):
    """The observable state of an element tree, as plain data."""
    kind = type(el).__name__
    if isinstance(el, dict):
        kids = sorted((k, snap(v, value)) for k, v in el.items())
    elif isinstance(el, list):
        kids = [snap(v, value) for v in el]
    else:
        kids = None
    return (kind, el.name, el.u if kids is None else None,
            fz(el.value) if value and kids is None else None, kids)


def fz(v):
    """Hashable, comparable stand-in for a value, with its type."""
    if isinstance(v, float) and v != v:
        return ('float', 'nan')
    if isinstance(v, decimal.Decimal):
        return ('Decimal', str(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(fz(i) for i in v))
    if isinstance(v, dict):
        return ('dict', tuple(sorted((fz(k), fz(i)) for k, i in v.items())))
    if isinstance(v, unicode):
        return ('unicode', unicode(v))
    if isinstance(v, (int, long)) and not isinstance(v, bool):
        return ('int', int(v))
    return (type(v).__name__, v)


def elements(el):
    """Every element of the tree (self first), found by the list and dict
    protocols alone."""
    out = [el]
    for e in out:
        if isinstance(e, dict):
            out.extend(v for _, v in sorted(e.items(), key=lambda kv: (
                kv[0] is not None, kv[0])))
        elif isinstance(e, list):
            out.extend(list(e))
    return out


# ---------------------------------------------------------------- flattening

def flat_pairs(el, s, sep, prefix=(), seen=None):
    """(name, u, element) of every flattenable element, by an independent
    walk over the tree alongside its Spec."""
    path = prefix + ((s.name,) if s.name is not None else ())
    out = []
    if s.scalar or s.kind in ('JoinedString', 'DateYYYYMMDD'):
        out.append((sep.join(path), unicode(el.u), el))
    if s.kind == 'DateYYYYMMDD':
        for part in (u'year', u'month', u'day'):
            out.append((sep.join(path + (part,)), unicode(el[part].u), el[part]))
    elif s.mapping:
        for kid in s.kids:
            if kid.name in el:
                out.extend(flat_pairs(el[kid.name], kid, sep, path))
    elif s.kind == 'List':
        for i, member in enumerate(el):
            out.extend(flat_pairs(member, s.member, sep, path + (unicode(i),)))
    elif s.kind in ('Array', 'MultiValue'):
        for member in el:
            out.extend(flat_pairs(member, s.member, sep, path))
    return out


def normalise(el, s, pruned=False):
    """Remove what flat data can not express from a tree: pruning lists drop
    every blank pair below them."""
    def lost(e, sp):
        pairs = flat_pairs(e, sp, u'_')
        return not any(u for _, u, _ in pairs) if pruned else not pairs
    if s.mapping:
        for kid in s.kids:
            if kid.name in el:
                normalise(el[kid.name], kid, pruned)
                if (s.kind == 'SparseDict' and lost(el[kid.name], kid)
                        and (s.opts.get('minimum_fields') is None or kid.opts.get('optional'))):
                    del el[kid.name]
    elif s.kind == 'List':
        prunes = s.opts.get('prune_empty', True)
        for member in el:
            normalise(member, s.member, pruned or prunes)
        if prunes:
            for i in reversed(range(len(el))):
                if not any(u for _, u, _ in flat_pairs(el[i], s.member, u'_')):
                    del el[i]
        else:
            while len(el) and lost(el[-1], s.member):
                del el[-1]
    elif s.kind in ('Array', 'MultiValue'):
        if pruned or s.opts.get('prune_empty', True):
            for i in reversed(range(len(el))):
                if el[i].u == u'':
                    del el[i]
    elif s.kind == 'JoinedString':
        sep = s.opts.get('separator', u',')
        us = [unicode(m.u) for m in el]
        if u'' in us or (us and sep.join(us).split(sep) != us):
            el.set([])


def build(rng, s, spoil=.3, **kw):
    """An element of the schema with a value, some scalars set to text that
    may not suit them."""
    el = s.cls()
    el.set(good_value(rng, s, **kw))
    if chance(rng, spoil):
        spoil_scalars(rng, el, s)
    return el


def spoil_scalars(rng, el, s, p=.3):
    if s.scalar:
        if chance(rng, p):
            el.set(text_for(rng, s))
    elif s.kind == 'DateYYYYMMDD':
        if chance(rng, p):
            el[rng.choice((u'year', u'month', u'day'))].set(rng.choice((u'', u'x', u'13', u'40', u'2', u' 7', u'2004')))
    elif s.mapping:
        for kid in s.kids:
            if kid.name in el:
                spoil_scalars(rng, el[kid.name], kid, p)
    elif s.kind in SEQUENCES:
        for member in el:
            spoil_scalars(rng, member, s.member, p)


def pairs_of(el, s):
    """(element, Spec) for every element of the tree that has a Spec."""
    out = [(el, s)]
    for e, sp in out:
        if sp.mapping:
            out.extend((e[k.name], k) for k in sp.kids if k.name in e)
        elif sp.sequence and sp.kids:
            out.extend((m, sp.member) for m in e)
    return out


def shuffled(rng, pairs):
    """Another order of pairs that keeps equal names in sequence."""
    queues = {}
    for k, v in pairs:
        queues.setdefault(k, []).append(v)
    keys = [k for k, _ in pairs]
    rng.shuffle(keys)
    for q in queues.values():
        q.reverse()
    return [(k, queues[k].pop()) for k in keys]


def chain(rng, depth):
    """A tree as deep as wanted: (root, [(key of each, element)] below it), and the leaf is text."""
    schema, kinds = fl.String.named(u's'), []
    for i in xrange(depth):
        k = rng.choice((fl.List, fl.Dict, fl.SparseDict, fl.Form)) if i else fl.Dict
        name = None if k is fl.List and rng.random() < .3 else u'n%d' % i
        if k is not fl.List and schema.name is None:
            schema = schema.named(u'm%d' % i)
        schema = k.named(name).of(schema)
        kinds.append(k)
    el = root = schema()
    line = []
    for k in reversed(kinds):
        if k is fl.List:
            for _ in xrange(rng.randrange(1, 3)):
                el.append(el.member_schema())
            key = unicode(len(el) - 1)
            el = el[-1]
        else:
            key = el.field_schema[0].name
            if key not in el:
                el[key] = el.field_schema[0]()
            el = el[key]
        line.append((key, el))
    return root, line
