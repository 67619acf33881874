# -*- coding: utf-8 -*-
"""P27: addresses and URLs, structured and mutated, against independent statements of what is accepted."""
import re
import urlparse
from encodings import idna

import flatland as fl
from flatland.validation import HTTPURLValidator, IsEmail, URLCanonicalizer, URLValidator
from fv import gen

CASES = {'quick': 900, 'thorough': 40000}
RULE = '''A case builds email addresses from local parts and domains of chosen label lengths (around 63, and 253 in all, ASCII and
international) and URLs from their parts, both also mutated, and validates them with randomly configured validators on elements of several
types. The verdict, the one error message, and that nothing but the canonicalizer alters the element are checked against models: label
arithmetic for domains, the parts urlparse finds for URLs. Canonical forms must lack the discarded parts, keep the others and be
fixed points. Non-trivial: distinct (validator, configuration, input).'''
ASSUMPTIONS = ['International domains are what the idna codec of the Python library encodes.',
               'HTTPURLValidator accepts an element without a value, and URLValidator does not, as the test suite has it.',
               'urlunparse may write an empty path as "/", and empty text between delimiters as no delimiter.']
REQUIRE = {'nontrivial': 13000, 'emails': 3600, 'emails accepted': 600, 'at a limit': 700, 'international': 700, 'urls': 3600, 'urls accepted': 700,
           'http': 3600, 'http accepted': 700, 'canonical': 12000, 'rewritten': 2500, 'unparseable': 1500, 'not text': 1900, 'other parser': 370}


# ---------------------------------------------------------------- email

LOCAL = (u'bob', u'a', u'#"$!+,,', u'a.b', u' ', u'', u'\t\n', u'\u3000', u'\xa0', u'\u200b', u'a b', u' a', u'\x00', u'\xe9t\xe9', u'"a@b"', u'x' * 300, u'%s', u'..')
WORDS = (u'noob', u'com', u'localhost', u'local', u'test', u'example', u'org', u'a', u'-', u'a-b', u'-a-', u'127', u'0', u'xn--bcher-kva', u'XN--A', u'NOOB')
ODD_LABELS = (u'', u'_', u'a_b', u'a b', u' ', u'a\n', u'[1', u'4]', u'a:b', u'*', u'\x00', u'a\t', u'%', u'/', u'\\', u'$', u'a.', u'\x7f', u'+')
IDN = (u'b\xfccher', u'\u4e2d\u56fd', u'stra\xdfe', u'\u05d0', u'\u0661', u'\xe9' * 50, u'\xe9' * 60, u'\u4e2d' * 20, u'\u2126', u'\uff21', u'\u0130', u'\xad', u'\u200d', u'\u2024', u'a\u2024b',
       u'\u2488', u'xn--\xe9', u'\U0001F600', u'\ufdd0', u'\u05d0a', u'\ufeff', u'\xb7', u'\u06dd', u'\u0301', u'\u212a')
DOTS = (u'.', u'.', u'.', u'.', u'.', u'\u3002', u'\uff0e', u'\uff61')


def domain(ctx, rng):
    k = rng.randrange(10)
    if k < 3:
        labels = [rng.choice(WORDS) for _ in range(rng.choice((1, 2, 2, 3, 5)))]
    elif k < 5:
        ctx.count('at a limit')
        labels = [u'a' * n for n in rng.choice(((63,), (64,), (62, 1), (63, 63), (64, 2), (2, 64), (63, 63, 63, 61), (63, 63, 63, 62), (63, 63, 63, 60), (63, 63, 63, 63),
                                                (1,) * 127, (1,) * 128, (63, 2, 65)))]
        if gen.chance(rng, .2):
            rng.shuffle(labels)
    elif k < 7:
        ctx.count('international')
        labels = [rng.choice(IDN)] + [rng.choice(WORDS + IDN) for _ in range(rng.choice((0, 1, 1, 2)))]
        rng.shuffle(labels)
    else:
        labels = [rng.choice(WORDS) for _ in range(rng.choice((1, 2, 3)))]
        labels.insert(rng.randrange(len(labels) + 1), rng.choice(ODD_LABELS))
    d = labels[0]
    for l in labels[1:]:
        d += rng.choice(DOTS) + l
    return d


def address(ctx, rng):
    a = rng.choice((gen.text(rng, control=True), rng.choice(LOCAL))) + u'@' + domain(ctx, rng)
    k = rng.randrange(12)
    if k == 0:
        a = mutate(rng, a)
    elif k == 1:
        a = a.replace(u'@', rng.choice((u'', u'@@', u'\uff20', u'@x@', u' @')))
    elif k == 2:
        a += rng.choice((u'\n', u'.', u' ', u'@', u'\r\n', u'\u3002'))
    elif k == 3:
        return rng.choice((u'', u'@', u'@a.b', u'a@', u' @a.b', u'a@.', u'a@.a.b', u'a@a..b', u'a@a.b.', u'a', u'a.b'))
    return a


def mutate(rng, t):
    for _ in range(rng.randrange(1, 4)):
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice((u'', u'', u'@', u'.', u':', u'/', u'//', u'#', u'?', u';', u' ', u'\n', u'[', u']', u'%', u'\x00', u'a', u'\xe9', gen.text(rng, 2))) + t[i + rng.randrange(2):]
    return t


def ascii_domain(d):
    """The domain as IDNA writes it, or None; for ASCII it is as it is."""
    labels = re.split(u'[.\u3002\uff0e\uff61]', d)
    if all(ord(c) < 128 for c in d):
        return None if any(len(l) > 63 for l in labels) else d
    out = []
    for i, l in enumerate(labels):
        if not l and i == len(labels) - 1:
            out.append('')
            continue
        try:
            out.append(idna.ToASCII(l))
        except:     # Java's own included
            return None
    return '.'.join(out).decode('ascii')


ALNUM = u'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-'


def email_ok(a, non_local, local_ok, domain_ok):
    if len(a.split(u'@')) != 2:
        return False
    local, d = a.split(u'@')
    if not local.strip() or not local_ok(local):
        return False
    d = ascii_domain(d)
    if d is None or len(d) > 253:
        return False
    labels = d.split(u'.')
    if domain_ok is None:
        if not all(l and all(c in ALNUM for c in l) for l in labels):
            return False
    elif not domain_ok(d):
        return False
    if any(len(l) > 63 for l in labels):
        return False
    return len(labels) > 1 or not non_local


LOCALS = ((None, lambda l: True), (re.compile(u'[a-z]+\\Z'), lambda l: all(u'a' <= c <= u'z' for c in l)),
          (re.compile(u'b'), lambda l: l.startswith(u'b')), (re.compile(u'.*[.]'), lambda l: u'.' in l.split(u'\n')[0]))
DOMAINS = ((None, None), (None, None), (None, None), (re.compile(u'.*[.]com\\Z', re.I | re.S), lambda d: d.lower().endswith(u'.com')), (re.compile(u''), lambda d: True))


def emails(ctx, rng):
    a = address(ctx, rng)
    non_local = gen.chance(rng, .6)
    pattern, local_ok = rng.choice(LOCALS) if gen.chance(rng, .3) else LOCALS[0]
    dpattern, domain_ok = rng.choice(DOMAINS)
    kw = {} if non_local and gen.chance(rng, .5) else {'non_local': non_local}
    if pattern:
        kw['local_part_pattern'] = pattern
    if dpattern:
        kw['domain_pattern'] = dpattern
    ctx.count('emails')
    ctx.nontrivial(('email', a, sorted(kw)))
    want = email_ok(a, non_local, local_ok, domain_ok)
    if want:
        ctx.count('emails accepted')
    verdict(ctx, IsEmail(invalid=u'bad', **kw), text_element(rng, a), want, (u'bad',), u'IsEmail', (a, sorted(kw)))


# ---------------------------------------------------------------- verdicts

def text_element(rng, t):
    """An element whose u and value are the text."""
    if gen.chance(rng, .7):
        return fl.String.named(u'f').using(strip=False)(t)
    if gen.chance(rng, .5):
        return fl.Dict.of(fl.String.named(u'f').using(strip=False)).named(u'd')({u'f': t})[u'f']
    return fl.Array.of(fl.String.using(strip=False)).named(u'f')([t])[0]


def state_of(el):
    return (gen.fz(el.value), el.u, gen.fz(el.raw), el.name, el.valid)


def verdict(ctx, validator, el, want, messages, what, input_, changes=False):
    before = state_of(el)
    try:
        got = validator.validate(el, None)
    except Exception as exc:
        ctx.fail(u'%s never raises' % what, u'%r: %r' % (input_, exc))
    ctx.check(isinstance(got, bool), u'%s answers True or False' % what, lambda: u'%r: %r' % (input_, got))
    ctx.check(got is want, u'%s accepts exactly the documented forms' % what, lambda: u'%r: %r, expected %r' % (input_, got, want))
    if got:
        ctx.check(not el.errors, u'%s reports nothing when it accepts' % what, lambda: u'%r: %r' % (input_, el.errors))
    else:
        ctx.check(len(el.errors) == 1 and el.errors[0] in messages, u'%s reports the one matching error' % what,
                  lambda: u'%r: %r, expected one of %r' % (input_, el.errors, messages))
    ctx.check(not el.warnings, u'%s does not warn' % what)
    if not changes or not got:
        ctx.check(state_of(el) == before, u'%s does not alter the element' % what, lambda: u'%r: %r' % (before, state_of(el)))
    el.errors[:] = []
    return got


# ---------------------------------------------------------------- URLs

PARTS = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
SCHEMES = (u'http', u'http', u'https', u'HTTP', u'ftp', u'mailto', u'javascript', u'', u'', u'a+b', u'1x', u'\xe9', u'ssh', u'x y')
HOSTS = (u'localhost', u'a.b', u'A.B', u'[::1]', u'[::1', u'::1]', u'', u'\xe9.com', u'127.0.0.1', u'a b', u'a%20', u'h')
PORTS = (u'', u'', u'', u':80', u':0', u':65535', u':65536', u':99999999999', u':x', u':-1', u':', u': 80', u':8\u0661', u':8.0', u':+8')
USERS = (u'', u'', u'', u'me@', u'me:you@', u':@', u'@', u'a:b:c@', u'a@b@', u'%40:@', u'me:@', u':you@')
PATHS = (u'', u'/', u'/p', u'p', u'/p/q', u'//p', u'////p', u'/p;a', u'/p;a;b', u'/;', u';', u'/a:b', u'a:b:c', u'/\xe9', u'/..', u' ', u'/p ', u'javascript:x', u'/p;a/q;b')
QUERIES = (u'', u'', u'?', u'?q', u'?a=b&c=d', u'?q?r', u'?#', u'?;a', u'?\xe9')
FRAGMENTS = (u'', u'', u'#', u'#f', u'#f#g', u'#/?', u'#\xe9')


def url(rng):
    # Jython's urlparse slices characters beyond the basic plane in halves
    return url_text(rng).replace(u'\U0001f600', u'\u263a')


def url_text(rng):
    s = rng.choice(SCHEMES)
    t = s + (u':' if s or gen.chance(rng, .1) else u'')
    if gen.chance(rng, .75):
        t += u'//' + rng.choice(USERS) + rng.choice(HOSTS) + rng.choice(PORTS)
    t += rng.choice(PATHS) + rng.choice(QUERIES) + rng.choice(FRAGMENTS)
    k = rng.randrange(10)
    if k == 0:
        t = mutate(rng, t)
    elif k == 1:
        t = rng.choice((u' ', u'\n', u'\t', u'\xa0', u'\x00')) + t
    elif k == 2:
        t += rng.choice((u' ', u'\n', u'\t', u'\u3000', u'\x00'))
    elif k == 3:
        return rng.choice((u'', u':', u'//', u'http:', u'http://', u'http:///', u'http:////x', u'http:x', u'#', u'?', u'http:#', u'http://[', u'http://]', u'//[', u'http://h]/', u'http://[]/',
                           gen.text(rng, control=True), u'a:b:c:d#', u'http://http://http://x', u'http:http:x', u':::', u'%:', u'http://a;b?c'))
    return t


def split(t):
    try:
        return urlparse.urlparse(t)
    except ValueError:
        return None


def odd_element(rng):
    """(element, value): elements whose value is no text."""
    return rng.choice((lambda: fl.Integer.named(u'f')(5), lambda: fl.Date.named(u'f')(u'2004-02-29'), lambda: fl.Boolean.named(u'f')(True),
                       lambda: fl.List.named(u'f').of(fl.String)([u'http://a']), lambda: fl.Dict.named(u'f').of(fl.String.named(u'x'))({u'x': u'http://a'}),
                       lambda: fl.Float.named(u'f')(1.5), lambda: fl.Integer.named(u'f')(u'http://a')))()


def subset(rng, names=PARTS):
    return [n for n in names if gen.chance(rng, rng.choice((.2, .5, .9)))]


def urls(ctx, rng):
    kw = {}
    schemes = parts = None
    if gen.chance(rng, .6):
        schemes = rng.choice(((u'http', u'https'), (u'ftp',), (u'http',), (), (u'HTTP',), (u'*', u'ssh'), (u'mailto', u'javascript', u'http')))
        kw['allowed_schemes'] = rng.choice((tuple, list, set))(schemes) if gen.chance(rng, .5) else schemes
    elif gen.chance(rng, .3):
        kw['allowed_schemes'] = ('*',)
    if gen.chance(rng, .6):
        parts = subset(rng)
        if gen.chance(rng, .8):
            parts += [p for p in ('scheme', 'path') if p not in parts]
        kw['allowed_parts'] = rng.choice((tuple, list, set))(parts)
    t = url(rng)
    v = URLValidator(bad_format=u'format', blocked_scheme=u'scheme', blocked_part=u'part', **kw)
    ctx.count('urls')
    ctx.nontrivial(('url', t, sorted(schemes) if schemes is not None else None, parts))
    p = split(t.strip())
    if p is None:
        ctx.count('unparseable')
        want, messages = False, (u'format',)
    else:
        problems = []
        if not p[0] or (schemes is not None and p[0] not in schemes):
            problems.append(u'scheme')
        if any(p[i] and n not in parts for i, n in enumerate(PARTS) if parts is not None):
            problems.append(u'part')
        want, messages = not problems, problems
    if want:
        ctx.count('urls accepted')
    el = text_element(rng, t)
    verdict(ctx, v, el, want, messages, u'URLValidator', (t, schemes, parts))
    ctx.check(URLValidator(**kw).validate(el, None) is want, 'the default messages report the same')
    if gen.chance(rng, .2):
        el = odd_element(rng)
        ctx.count('not text')
        verdict(ctx, v, el, False, (u'format',), u'URLValidator', el)


HTTP_PARTS = ('scheme', 'username', 'password', 'hostname', 'port', 'path', 'params', 'query', 'fragment')
SAMPLES = {'scheme': (u'http', u'https', u'ftp', u''), 'username': (u'me', u'', u'a'), 'password': (u'you', u''), 'hostname': (u'localhost', u'a.b', u'::1'),
           'port': ('80', u'0', '65535', u'8080'), 'path': (u'/', u'', u'/p', u'/p/q'), 'params': (u'a', u'', u'a;b'), 'query': (u'q', u'', u'a=b&c=d'),
           'fragment': (u'f', u'')}


def policy(rng, names):
    out = {}
    for n in names:
        if gen.chance(rng, .35):
            out[n] = rng.choice((True, False, None, (), 1)) if gen.chance(rng, .5) else rng.choice((tuple, list, set))(
                [v for v in SAMPLES[n] if gen.chance(rng, .6)])
            if out[n] == 1:
                out[n] = True
    return out


def https(ctx, rng):
    kw = {}
    required = {'scheme': ('http', 'https'), 'hostname': True}
    forbidden = {'username': True, 'password': True}
    names = HTTP_PARTS
    if gen.chance(rng, .5):
        kw['required_parts'] = required = policy(rng, HTTP_PARTS if gen.chance(rng, .4) else rng.sample(HTTP_PARTS, 2))
    if gen.chance(rng, .5):
        kw['forbidden_parts'] = forbidden = policy(rng, HTTP_PARTS if gen.chance(rng, .4) else rng.sample(HTTP_PARTS, 2))
    if gen.chance(rng, .15):
        kw['all_parts'] = names = tuple(subset(rng, HTTP_PARTS))
    t = url(rng)
    ctx.count('http')
    ctx.nontrivial(('http', t, repr(sorted(required.items())), repr(sorted(forbidden.items())), names))
    p = split(t)
    problems, broken = [], p is None
    for n in names if p is not None else ():
        try:
            value = getattr(p, n)
        except ValueError:
            broken = True
            continue
        if value is not None:
            value = unicode(value)
        r, f = required.get(n), forbidden.get(n)
        if r is True and not value or r is not True and r and value not in r:
            problems.append(u'required')
        if f is True and value or f is not True and f and value in f:
            problems.append(u'forbidden')
    if broken:
        ctx.count('unparseable')
        problems.append(u'format')
    if not problems:
        ctx.count('http accepted')
    el = text_element(rng, t)
    v = HTTPURLValidator(bad_format=u'format', required_part=u'required', forbidden_part=u'forbidden', **kw)
    verdict(ctx, v, el, not problems, problems, u'HTTPURLValidator', (t, required, forbidden, names))
    if gen.chance(rng, .2):
        el = odd_element(rng)
        ctx.count('not text')
        if el.value is None:
            verdict(ctx, v, el, True, (), u'HTTPURLValidator', el)
        else:
            verdict(ctx, v, el, False, (u'format',), u'HTTPURLValidator', el)


# ---------------------------------------------------------------- canonical

def canonical(ctx, rng):
    parts = ('fragment',) if gen.chance(rng, .4) else tuple(subset(rng))
    if gen.chance(rng, .3):
        rng.shuffle(list(parts))
    v = URLCanonicalizer(bad_format=u'format', **({} if parts == ('fragment',) and gen.chance(rng, .5) else {'discard_parts': rng.choice((tuple, list))(parts)}))
    t = url(rng)
    ctx.count('canonical')
    ctx.nontrivial(('canonical', t, parts))
    el = text_element(rng, t)
    p = split(t)
    if not parts:
        verdict(ctx, v, el, True, (), u'URLCanonicalizer', t)
        return
    if p is None:
        ctx.count('unparseable')
        verdict(ctx, v, el, False, (u'format',), u'URLCanonicalizer', t)
        return
    try:
        ok = v.validate(el, None)
    except Exception as exc:
        ctx.fail('URLCanonicalizer never raises', u'%r: %r' % (t, exc))
    if not ok:
        # what is left of a discarded scheme may itself not parse
        ctx.check('scheme' in parts and el.errors == [u'format'] and el.value == t, 'URLCanonicalizer accepts what parses', lambda: u'%r without %r: %r' % (t, parts, el.errors))
        return
    ctx.check(ok is True and not el.errors and not el.warnings, 'URLCanonicalizer accepts what parses', lambda: u'%r: %r' % (t, el.errors))
    c = el.value
    ctx.check(isinstance(c, basestring) and el.u == c, 'value and text of a canonical URL agree', lambda: u'%r: %r %r' % (t, c, el.u))
    if c != t:
        ctx.count('rewritten')
    q = split(c)
    left = [n for i, n in enumerate(PARTS) if n in parts and q[i] and not (n == 'path' and q[i] == u'/')]
    ctx.check(not left, 'a canonical URL has none of the discarded parts', lambda: u'%r without %r: %r has %r' % (t, parts, c, left))
    # urlparse takes digits after a name and a colon for a port
    if 'scheme' not in parts and not (p[2].isdigit() and not p[1]):
        for i, n in enumerate(PARTS):
            if n in parts or 'path' in parts and n == 'params':
                continue
            mine, theirs = p[i], q[i]
            if n == 'path' and (p[1] or p[0]):
                # urlunparse writes the / that separates
                mine, theirs = mine.lstrip(u'/') if len(mine) - len(mine.lstrip(u'/')) < 2 else mine, theirs.lstrip(u'/') if len(theirs) - len(theirs.lstrip(u'/')) < 2 else theirs
            ctx.check(mine == theirs, 'a canonical URL keeps the other parts', lambda: u'%r without %r: %r; %s %r became %r' % (t, parts, c, n, p[i], q[i]))
    ctx.check(v.validate(el, None) is True and el.value == c and el.u == c, 'URLCanonicalizer is idempotent', lambda: u'%r without %r: %r then %r' % (t, parts, c, el.value))
    other = fl.String.using(strip=False)(c)
    ctx.check(v.validate(other, None) is True and other.value == c, 'URLCanonicalizer is idempotent on its results', lambda: u'%r: %r' % (c, other.value))
    if gen.chance(rng, .15):
        el = odd_element(rng)
        ctx.count('not text')
        verdict(ctx, v, el, False, (u'format',), u'URLCanonicalizer', el)


def known(ctx, rng):
    """URLs put together from known parts, and plain literals."""
    for scheme in (u'http', u'https', u'ftp'):
        for host in (u'a', u'a.b:80', u'u:p@h', u'[::1]:8'):
            for path in (u'/', u'/p', u'/p/q', u'//p', u'/p//q/'):
                for params in (u'', u'a', u'a;b'):
                    for query in (u'', u'q', u'a=b&c'):
                        for fragment in (u'', u'f', u'f#g'):
                            for discard in ((), ('fragment',), ('query', 'fragment'), ('params',), ('params', 'query', 'fragment'), ('query',)):
                                def write(skip):
                                    return (scheme + u'://' + host + path + (u';' + params if params and 'params' not in skip else u'') +
                                            (u'?' + query if query and 'query' not in skip else u'') + (u'#' + fragment if fragment and 'fragment' not in skip else u''))
                                el = fl.String(write(()))
                                ctx.check(URLCanonicalizer(discard_parts=discard).validate(el, None) is True, 'a plain URL is accepted')
                                ctx.eq((el.value, el.u), (write(discard), write(discard)), 'a canonical URL is the URL without the discarded parts', u'%r' % (discard,))
                                ctx.count('canonical')
    for t, want in ((u'http://x', u'http://x'), (u'http:////x#f', u'http:////x'), (u'http://h//x', u'http://h//x')):
        el = fl.String(t)
        URLCanonicalizer().validate(el, None)
        ctx.eq(el.value, want, 'paths stay paths')
    el = fl.String(u'http://h//x')
    URLCanonicalizer(discard_parts=('netloc',)).validate(el, None)
    ctx.eq(urlparse.urlparse(el.value)[1:3], (u'', u'//x'), 'paths stay paths when the host is discarded')
    for cls, want in ((IsEmail, False), (URLValidator, False), (HTTPURLValidator, True), (URLCanonicalizer, False)):
        for el in (fl.String(), fl.String(None), fl.Integer(u'x')):
            for _ in range(2):
                ctx.check(cls().validate(el, None) is want, 'a missing value', lambda: u'%r %r' % (cls, el))
    for a, want in ((u'a@' + u'.'.join((u'a' * 63, u'b' * 63, u'c' * 63, u'd' * 61)), True), (u'a@' + u'.'.join((u'a' * 63, u'b' * 63, u'c' * 63, u'd' * 62)), False),
                    (u'a@b.' + u'c' * 63, True), (u'a@b.' + u'c' * 64, False), (u'a@b', False), (u'a@b.c\n', False), (u'a@b.c.', False), (u'a@b_c.d', False),
                    (u'\xe9@b\xfccher.de', True), (u'a@\xe9.com', True), (u'a b@c.d', True), (u' @c.d', False), (u'a@b@c.d', False), (u'a@[1.2.3.4]', False), (u'a@1.2', True)):
        el = fl.String.using(strip=False)(a)
        ctx.check(IsEmail().validate(el, None) is want, 'IsEmail on known addresses', u'%r' % a)


class Parser(object):
    """A stand-in for the urlparse module."""
    def __init__(self, fail):
        self.fail, self.calls = fail, []

    def urlparse(self, t):
        self.calls.append(t)
        if self.fail:
            raise self.fail
        return urlparse.urlparse(t)

    def urlunparse(self, parts):
        self.calls.append(list(parts))
        return urlparse.urlunparse(parts)


def parsers(ctx, rng):
    """The urlparse attribute is the parser in use; its exceptions are errors."""
    t = url(rng)
    for cls in (URLValidator, HTTPURLValidator, URLCanonicalizer):
        ctx.count('other parser')
        el = text_element(rng, t)
        verdict(ctx, cls(urlparse=Parser(rng.choice((ValueError('x'), KeyError(1), Exception(), TypeError(u'\xe9')))), bad_format=u'format'), el, False, (u'format',), cls.__name__.decode('ascii'), t)
        p = Parser(None)
        cls(urlparse=p).validate(el, None)
        ctx.check(p.calls, 'the configured parser is used')


def case(ctx, rng):
    for _ in range(8):
        emails(ctx, rng)
        urls(ctx, rng)
        https(ctx, rng)
        canonical(ctx, rng)
    if gen.chance(rng, .3):
        parsers(ctx, rng)


FIXED = {'known': known}
