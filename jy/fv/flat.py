# -*- coding: utf-8 -*-
"""Reference model of loading flat data into an element tree.

A state is plain data: scalars ('s', value, u); mappings ('m', {name: state});
sequences ('l', [states])."""
from fv import gen, model

PARTS = tuple(gen.Spec('Integer', n, format=f)
              for n, f in ((u'year', u'%04i'), (u'month', u'%02i'), (u'day', u'%02i')))


def capture(el, s):
    if s.scalar:
        return ('s', gen.fz(el.value), unicode(el.u))
    if s.kind == 'DateYYYYMMDD':
        return ('m', dict((p.name, capture(el[p.name], p)) for p in PARTS))
    if s.mapping:
        assert all(any(k == kid.name for kid in s.kids) for k in el), 'undeclared field'
        return ('m', dict((kid.name, capture(el[kid.name], kid)) for kid in s.kids if kid.name in el))
    return ('l', [capture(m, s.member) for m in el])


def blank(s):
    """The state of a new element."""
    if s.scalar:
        return ('s', gen.fz(None), u'')
    if s.kind == 'DateYYYYMMDD':
        return ('m', dict((p.name, blank(p)) for p in PARTS))
    if s.mapping:
        return ('m', dict((kid.name, blank(kid)) for kid in s.kids
                          if s.kind != 'SparseDict' or
                          (s.opts.get('minimum_fields') and not kid.opts.get('optional'))))
    return ('l', [])


def scalar_set(s, value):
    ok, v, u = model.scalar(s, value)
    return ('s', gen.fz(v), u)


def load(s, state, pairs, sep, stats):
    """The state after set_flat(pairs); keys of None address the element
    itself."""
    name = s.name
    if s.scalar or s.kind == 'JoinedString':
        for key, value in pairs:
            if key == name:
                stats['addressed'] = stats.get('addressed', 0) + 1
                return scalar_set(s, value) if s.scalar else joined(s, value)
        return state
    if s.mapping or s.kind == 'DateYYYYMMDD':
        rest = below(pairs, name, sep)
        fields = dict(state[1])
        for kid in (PARTS if s.kind == 'DateYYYYMMDD' else s.kids):
            mine = [(k, v) for k, v in rest if k == kid.name or k.startswith(kid.name + sep)]
            if mine:
                fields[kid.name] = load(kid, fields[kid.name] if kid.name in fields else blank(kid),
                                        mine, sep, stats)
        return ('m', fields)
    if s.kind == 'List':
        byindex = {}
        prune = s.opts.get('prune_empty', True)
        for key, value in below(pairs, name, sep):
            digits = key.split(sep)[0] if sep in key else key
            if not digits or not all(c.isdigit() and c.isdecimal() for c in digits):
                continue
            if prune and value == u'':
                continue
            remainder = key[len(digits) + len(sep):] if sep in key else u''
            byindex.setdefault(decimal_int(digits), []).append((remainder or None, value))
        most = s.opts.get('maximum_set_flat_members', 1024)
        if prune:
            indexes = sorted(byindex)[:most]
        else:
            indexes = range(min(max(byindex) + 1, most)) if byindex else []
        stats['list members'] = stats.get('list members', 0) + len(indexes)
        return ('l', [load(s.member, blank(s.member), byindex[i], sep, stats) if i in byindex else blank(s.member)
                      for i in indexes])
    # Array and MultiValue
    child = s.member.name
    if name:
        wanted = name if child is None else name + sep + child
    else:
        wanted = child
    members = []
    for key, value in pairs:
        if not name and key == u'':
            key = None
        if key == wanted and not (value == u'' and s.opts.get('prune_empty', True)):
            members.append(scalar_set(s.member, value))
            stats['addressed'] = stats.get('addressed', 0) + 1
    return ('l', members)


def below(pairs, name, sep):
    if name is None:
        return [(k, v) for k, v in pairs if k is not None]
    return [(k[len(name + sep):], v) for k, v in pairs
            if k is not None and k.startswith(name + sep)]


def decimal_int(digits):
    import unicodedata
    n = 0
    for c in digits:
        n = n * 10 + (ord(c) - 48 if u'0' <= c <= u'9' else unicodedata.decimal(c))
    return n


def joined(s, value):
    return ('l', [scalar_set(s.member, part) for part in value.split(s.opts.get('separator', u','))
                  if part or not s.opts.get('prune_empty', True)])


def diff(a, b, path=u''):
    """First difference of two states, as text."""
    if a == b:
        return None
    if a[0] != b[0]:
        return u'%s: %r / %r' % (path, a, b)
    if a[0] == 'm':
        if sorted(a[1]) != sorted(b[1]):
            return u'%s: fields %r / %r' % (path, sorted(a[1]), sorted(b[1]))
        for k in sorted(a[1]):
            d = diff(a[1][k], b[1][k], path + u'.' + k)
            if d:
                return d
    if a[0] == 'l':
        if len(a[1]) != len(b[1]):
            return u'%s: %d members / %d' % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, u'%s.%d' % (path, i))
            if d:
                return d
    return u'%s: %r / %r' % (path, a, b)


def assign(s, value):
    """(ok, state) of set() with a plain value that is a list of values for
    sequences, a dict of known fields for mappings."""
    if s.scalar:
        ok, v, u = model.scalar(s, value)
        return ok, ('s', gen.fz(v), u)
    if s.mapping:
        ok, fields = True, dict(blank(s)[1])
        for k in value:
            good, fields[k] = assign(s.field(k), value[k])
            ok = ok and good
        return ok, ('m', fields)
    parts = [assign(s.member, v) for v in value]
    return all(p[0] for p in parts), ('l', [p[1] for p in parts])


def native(s, state):
    """gen.fz() of .value"""
    if s.scalar:
        return state[1]
    if s.mapping:
        return ('dict', tuple(sorted((gen.fz(k), native(s.field(k), state[1][k])) for k in state[1])))
    if s.kind == 'MultiValue':
        return native(s.member, state[1][0]) if state[1] else gen.fz(None)
    return ('list', tuple(native(s.member, m) for m in state[1]))


def is_blank(s, state):
    """is_empty"""
    if s.scalar:
        return state[2] == u'' and state[1] in (gen.fz(None), gen.fz(u''))
    if s.mapping:
        return s.kind == 'SparseDict' and not state[1]
    return not state[1]
