# -*- coding: utf-8 -*-
"""Reference models of scalar adaptation, written against the documentation
and independent of flatland's code."""
import datetime
import decimal
import re

FAIL = object()

D = u'[0-9]'
FORMS = {
    'Date': (datetime.date, D * 4 + u'-' + D * 2 + u'-' + D * 2),
    'Time': (datetime.time, D * 2 + u':' + D * 2 + u':' + D * 2),
    'DateTime': (datetime.datetime,
                 D * 4 + u'-' + D * 2 + u'-' + D * 2 + u' ' + D * 2 + u':' + D * 2 + u':' + D * 2),
}
DAYS = (31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def as_text(value):
    """unicode() of any input; None if undecodable."""
    if isinstance(value, unicode):
        return unicode(value)
    try:
        return unicode(value)
    except UnicodeDecodeError:
        return None


def failed_u(value):
    if value is None:
        return u''
    t = as_text(value)
    if t is None:
        t = value.decode('ascii', 'replace')
    return t


def adapt(kind, o, value):
    """The native value or FAIL."""
    if kind in ('Enum', 'Constrained'):
        native = adapt(o.get('child', 'String'), {}, value)
        if native is FAIL or not any(native == v for v in o['values']):
            return FAIL
        return native
    if kind == 'Boolean':
        if not isinstance(value, basestring):
            return bool(value)
        true, false = o.get('true', u'1'), o.get('false', u'')
        if value in [true] + list(o.get('true_synonyms', (u'on', u'true', u'True', u'1'))):
            return True
        if value in [false] + list(o.get('false_synonyms', (u'off', u'false', u'False', u'0', u''))):
            return False
        return FAIL
    if value is None:
        return None
    if kind == 'String':
        t = as_text(value)
        if t is None:
            return FAIL
        return t.strip() if o.get('strip', True) else t
    if kind in ('Integer', 'Long', 'Float', 'Decimal'):
        if isinstance(value, basestring):
            value = value.strip()
        try:
            native = {'Integer': int, 'Long': int, 'Float': float, 'Decimal': decimal.Decimal}[kind](value)
            if kind == 'Decimal' and native.is_snan():
                return FAIL
            if o.get('signed') is False:
                if kind == 'Decimal' and native.is_nan():
                    return FAIL
                if native < 0:
                    return FAIL
        except Exception:
            return FAIL
        return native
    type_, pattern = FORMS[kind]
    if isinstance(value, type_):
        return value
    if not isinstance(value, basestring):
        return FAIL
    if isinstance(value, str):
        try:
            value = value.decode('ascii')
        except UnicodeDecodeError:
            return FAIL
    if o.get('strip', True):
        value = value.strip()
    if not re.match(pattern + u'\\Z', value):
        return FAIL
    n = [int(x) for x in re.findall(u'[0-9]+', value)]
    if kind != 'Time':
        y, m, d = n[:3]
        if y < 1 or not 1 <= m <= 12 or not 1 <= d <= DAYS[m - 1]:
            return FAIL
        if m == 2 and d == 29 and (y % 4 or (not y % 100 and y % 400)):
            return FAIL
    if kind != 'Date':
        h, mi, s = n[-3:]
        if h > 23 or mi > 59 or s > 59:
            return FAIL
    return type_(*n)


def serialize(kind, o, native):
    if kind == 'Boolean':
        return o.get('true', u'1') if native else o.get('false', u'')
    if native is None:
        return u''
    if kind in ('Enum', 'Constrained'):
        return serialize(o.get('child', 'String'), {}, native)
    if kind == 'String':
        return native
    if kind in ('Integer', 'Long'):
        return unicode(o.get('format', u'%i') % native)
    if kind == 'Float':
        return unicode(o.get('format', u'%f') % native)
    if kind == 'Decimal':
        return unicode(o.get('format', u'%f') % native)
    parts = []
    if kind != 'Time':
        parts.append(u'%04d-%02d-%02d' % (native.year, native.month, native.day))
    if kind != 'Date':
        parts.append(u'%02d:%02d:%02d' % (native.hour, native.minute, native.second))
    return u' '.join(parts)


def scalar(s, value):
    """(success, value, u) of setting a Spec to an input."""
    native = adapt(s.kind, s.opts, value)
    if native is FAIL:
        return False, None, failed_u(value)
    return True, native, serialize(s.kind, s.opts, native)
