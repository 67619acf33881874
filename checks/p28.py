# -*- coding: utf-8 -*-
"""P28: card and phone numbers against digit-by-digit models."""
import flatland as fl
from flatland.ext.creditcard import AMEX, CreditCardNumber, DISCOVER, MASTERCARD, VISA
from flatland.validation.number import Luhn10, NANPnpa_nxx, NANPnxx
from flatland.validation.string import NANPphone
from fv import gen

CASES = {'quick': 900, 'thorough': 40000}
RULE = '''A case makes card numbers of every brand, near misses of prefix, length and checksum, written as integers or as text in random groups, with
foreign characters or not at all, and validates them for random sets of accepted brands, labels and options; phone texts of 0-25 digits of
several scripts with any other characters, under each extension option; and integers for Luhn10. Value, u, verdict and the one message
are compared with models working on the digits. All exchanges from -50 to 1100 are tried. Non-trivial: distinct (validator, configuration, input).'''
ASSUMPTIONS = ['Text of fewer than 13 digits padded to 13 characters by separators may be adapted or not, but is never valid.',
               'At least one brand is accepted.', 'NANPphone is used on text elements, Luhn10 and NANPnxx on integer ones.']
REQUIRE = {'nontrivial': 7500, 'cards': 3600, 'valid cards': 1000, 'wrong checksum': 750, 'not accepted': 1000, 'not converted': 650, 'blank': 65, 'round trips': 2600,
           'phones': 3600, 'phones accepted': 2000, 'extensions': 700, 'international': 1000, 'luhn': 1800, 'exchanges': 1300, 'verified': 450}


def luhn(n):
    total = 0
    for i, c in enumerate(reversed(str(abs(n)).rstrip('L'))):
        d = ord(c) - 48
        if i % 2:
            d = (0, 2, 4, 6, 8, 1, 3, 5, 7, 9)[d]
        total += d
    return total % 10 == 0


BRANDS = (VISA, MASTERCARD, AMEX, DISCOVER)


def brand(n):
    d = str(n).rstrip('L')
    if d[0] == '4' and len(d) in (13, 16):
        return VISA
    if d[:2] in ('51', '52', '53', '54', '55') and len(d) == 16:
        return MASTERCARD
    if d[:2] in ('34', '37') and len(d) == 15:
        return AMEX
    if d[:4] == '6011' and len(d) == 16:
        return DISCOVER


GROUPS = {13: (4, 3, 3, 3), 15: (4, 6, 5), 16: (4, 4, 4, 4)}


def grouped(n):
    d = str(n).rstrip('L')
    out = []
    for size in GROUPS.get(len(d), (len(d),)):
        out.append(d[:size])
        d = d[size:]
    return u'-'.join(out)


STARTS = ('4', '4', '51', '52', '53', '54', '55', '34', '37', '6011')
NEAR = ('50', '56', '35', '36', '6012', '6010', '65', '3', '5', '2', '1', '60', '33', '38', '41', '9', '44')
LENGTHS = {'4': (13, 16, 16), '5': (16,), '3': (15,), '6': (16,)}


def number(rng):
    k = rng.random()
    start = rng.choice(STARTS if k < .8 else NEAR)
    length = rng.choice(LENGTHS.get(start[0], (16,))) if gen.chance(rng, .8) else rng.choice((12, 13, 14, 15, 16, 17, 19, 20, 30))
    d = start + ''.join(str(rng.randrange(10)) for _ in range(length - len(start)))
    n = int(d)
    if gen.chance(rng, .75):
        n -= n % 10
        while not luhn(n):
            n += 1
    return n


def written(rng, n):
    """(input, number or None or Ellipsis for either)"""
    value, want = any_form(rng, n)
    if isinstance(value, basestring) and want == n and len(str(n).rstrip('L')) < 13:
        want = None if len(value) < 13 else Ellipsis
    return value, want


def any_form(rng, n):
    k = rng.randrange(12)
    if k == 0:
        return n, n
    if k == 1:
        return long(n), n
    d = str(n).rstrip('L').decode('ascii')
    if k < 4:
        return (d if gen.chance(rng, .5) else d.encode('ascii')), n
    if k < 5:
        return grouped(n), n
    if k < 9:
        t = u''
        for c in d:
            if gen.chance(rng, .25):
                t += rng.choice((u' ', u'-', u'  ', u'\t', u'\n', u' - ', u'\r\n', u'--'))
            t += c
        if gen.chance(rng, .2):
            t = rng.choice((u' ', u'\n', u'-')) + t
        if gen.chance(rng, .2):
            t += rng.choice((u' ', u'\n', u'-', u'\r\n'))
        return t if gen.chance(rng, .7) else t.encode('ascii'), n
    if k < 10:
        i = rng.randrange(len(d) + 1)
        return d[:i] + rng.choice((u'x', u'.', u'+', u',', u'\x00', u'\xe9', u'\u0661', u'\uff11', u'/', u'\u2013', u'_', u'e')) + d[i:], None
    if k < 11:
        few = rng.randrange(0, 13)
        t = d[:few] + u''.join(rng.choice((u' ', u'-')) for _ in range(rng.choice((0, 1, 13, 20))))
        return t, None if not few or len(t) < 13 else Ellipsis
    if gen.chance(rng, .3):
        return rng.choice((None, u'', u'   ', '')), None
    return rng.choice(((u'    ', None), (u' ' * 13, None), (u'-' * 16, None), (u'\n' * 20, None), (1.5, None), ([4111111111111111], None), (u'4' * 12, None),
                       (gen.Odd(u'4111111111111111'), None), ('\xff' * 16, None), (float(n), None), (0, 0), (7, 7), (10 ** 40, 10 ** 40), (gen.text(rng, control=True), Ellipsis),
                       (u'0' * 16, 0), (u'\xa0' * 13, Ellipsis), (-7, -7), (u'-' + d, n if len(d) >= 13 else Ellipsis)))


MESSAGES = {'blank': u'%s may not be blank.', 'converted': u'%s is not correct.', 'luhn': u'The %s was not entered correctly.'}


def accept_message(accepted):
    labels = [b[0] for b in accepted]
    if len(labels) == 1:
        listed = labels[0]
    elif len(labels) == 2:
        listed = labels[0] + ' and ' + labels[1]
    else:
        listed = ', '.join(labels[:-1]) + ', and ' + labels[-1]
    return u'We accept %s' % listed


def cards(ctx, rng):
    n = number(rng)
    value, want = written(rng, n)
    schema = CreditCardNumber.named(u'cc')
    accepted = (VISA, MASTERCARD, AMEX)
    if gen.chance(rng, .7):
        accepted = rng.sample(BRANDS, rng.randrange(1, 5))
        if gen.chance(rng, .1):
            accepted.append(('Other',))
        schema = schema.using(accepted=tuple(accepted) if gen.chance(rng, .7) else accepted)
    label = u'cc'
    if gen.chance(rng, .3):
        label = rng.choice((u'Visa/MC Number', u'\xe9', u'a b'))
        schema = schema.using(label=label)
    optional = gen.chance(rng, .2)
    if optional:
        schema = schema.using(optional=True)
    ctx.count('cards')
    ctx.nontrivial(('card', repr(value) if not isinstance(value, gen.Odd) else 'odd', [b[0] for b in accepted], optional))
    what = u'%r accepting %r' % (value, accepted)
    within = gen.chance(rng, .3)
    if within:
        form = fl.Dict.of(schema, fl.String.named(u'x'))({u'x': u'y'})
        el = form[u'cc']
    else:
        form = el = schema()
    try:
        ok = el.set(value)
    except Exception as exc:
        ctx.fail('CreditCardNumber.set never raises', u'%s: %r' % (what, exc))
    if want is Ellipsis:
        ctx.check(ok is (el.value is not None), 'a card number is converted or not', what)
        want = el.value
        ctx.check(want is None or len(str(want).rstrip('L')) < 13, 'too few digits make no card', what)
    else:
        ctx.check(ok is (want is not None or value is None), 'digit groups of card length are converted, and nothing else', lambda: u'%s: %r' % (what, ok))
        ctx.check(el.value == want and not isinstance(el.value, basestring), 'the value is the digits as a number', lambda: u'%s: %r' % (what, el.value))
    if want is not None:
        ctx.check(type(el.u) is unicode and (el.u.replace(u'-', u'') == str(abs(want)).rstrip('L')), 'the text has the digits of the number', lambda: u'%s: %r' % (what, el.u))
        if want > 0 and brand(want):
            ctx.eq(el.u, grouped(want), "a card prints in its brand's groups", what)
        if want > 0 and len(str(want).rstrip('L')) >= 13:
            ctx.count('round trips')
            again = schema(el.u)
            ctx.check(again.value == want and again.u == el.u, 'the printed number is read back', lambda: u'%s: %r' % (what, again.u))
    problems = []
    if el.u == u'':
        ctx.count('blank')
        problems = [] if optional else [MESSAGES['blank'] % label]
    elif want is None:
        ctx.count('not converted')
        problems = [MESSAGES['converted'] % label]
        if not el.u.strip():
            problems.append(MESSAGES['blank'] % label)
    elif not luhn(want):
        ctx.count('wrong checksum')
        problems = [MESSAGES['luhn'] % label]
    elif brand(abs(want)) not in accepted or want <= 0:
        ctx.count('not accepted')
        problems = [accept_message(accepted)]
    else:
        ctx.count('valid cards')
    try:
        valid = form.validate()
    except Exception as exc:
        ctx.fail('validating a card number never raises', u'%s: %r' % (what, exc))
    ctx.check(valid is (not problems), 'a card number is valid exactly if well-formed, of correct checksum and accepted', lambda: u'%s: %r %r' % (what, valid, el.errors))
    ctx.check(el.valid == valid, 'the element knows', what)
    if problems:
        ctx.check(len(el.errors) == 1 and el.errors[0] in problems, 'exactly the one message is reported', lambda: u'%s: %r, expected %r' % (what, el.errors, problems))
    else:
        ctx.check(not el.errors, 'a valid card number has no errors', lambda: u'%s: %r' % (what, el.errors))
    ctx.check(not el.warnings, 'no warnings')
    ctx.check(gen.fz(el.value) == gen.fz(want), 'validation leaves the number', what)


# ---------------------------------------------------------------- phones

OTHER = (u' ', u'-', u'(', u')', u'.', u'+', u'x', u'ext ', u'\xb2', u'\u2460', u'\xbd', u'\n', u'\t', u'\xe9', u'\x00', u'/', u'%s', u'\u3000', u'\u2167', u'a', u'_')
ZEROS = (0x0660, 0x06f0, 0x0966, 0x09e6, 0x0e50, 0xff10, 0x0030)


def phone_text(ctx, rng):
    count = rng.choice((0, 1, 3, 7, 9, 9, 10, 10, 10, 10, 10, 11, 11, 12, 14, 15, 20, 25))
    intl = gen.chance(rng, .3)
    if intl:
        ctx.count('international')
    zero = rng.choice(ZEROS)
    t = u''
    for i in range(count):
        if gen.chance(rng, .15):
            t += rng.choice(OTHER)
        if intl and gen.chance(rng, .1):
            zero = rng.choice(ZEROS)
        d = rng.choice((0, 0, 0, 1)) if gen.chance(rng, .2) else rng.randrange(10)
        t += unichr((zero if intl else 0x30) + d)
    if gen.chance(rng, .3):
        t += rng.choice(OTHER)
    return t


def phone_model(t, extensions):
    d = [str(ord(c) - z) for c in t for z in ZEROS if 0 <= ord(c) - z <= 9]
    if len(d) < 10:
        return False, 'invalid', None
    line = u'(%s) %s-%s' % (u''.join(d[:3]), u''.join(d[3:6]), u''.join(d[6:10]))
    if len(d) > 10 and extensions != 'strip':
        if not extensions:
            return False, 'noext', None
        return True, None, line + u' x' + (u''.join(d[10:]).lstrip(u'0') or u'0')
    return True, None, line


def phones(ctx, rng):
    t = phone_text(ctx, rng)
    extensions = rng.choice((False, True, True, 'strip'))
    v = NANPphone(extensions=extensions) if extensions or gen.chance(rng, .5) else NANPphone()
    schema = fl.String.named(u'p')
    if gen.chance(rng, .3):
        schema = schema.using(strip=False)
    el = schema(t)
    t = el.u
    ctx.count('phones')
    ctx.nontrivial(('phone', t, extensions))
    what = u'%r with extensions=%r' % (t, extensions)
    want, problem, text = phone_model(t, extensions)
    before = (el.value, el.u)
    try:
        got = v.validate(el, None)
    except Exception as exc:
        ctx.fail('NANPphone never raises', u'%s: %r' % (what, exc))
    ctx.check(got is want, 'NANPphone accepts exactly texts of ten digits, or more with extensions', lambda: u'%s: %r' % (what, got))
    if not want:
        ctx.eq((el.value, el.u), before, 'a refused phone number is left alone', what)
        ctx.eq(el.errors, [{'invalid': u'The p is not valid.', 'noext': u'p must be a ten-digit phone number without extension.'}[problem]], 'exactly one message is reported', what)
        return
    ctx.count('phones accepted')
    if u'x' in text:
        ctx.count('extensions')
    ctx.check(not el.errors, 'an accepted phone number has no errors')
    ctx.eq((el.value, el.u), (text, text), 'a phone number is rewritten to the canonical format', what)
    ctx.check(v.validate(el, None) is True and el.u == text and el.value == text and not el.errors, 'NANPphone is idempotent', lambda: u'%s: %r' % (what, el.u))
    fresh = fl.String.named(u'p').validated_by(v)(text)
    ctx.check(fresh.validate() is True and fresh.u == text, 'the canonical format is accepted', lambda: u'%s: %r' % (what, fresh.u))


def exchanges(ctx, rng):
    """All exchanges, as Integer and Long."""
    reserved = set([311, 411, 511, 611, 711, 811, 911, 555, 990, 959, 958, 950, 700, 976])
    for cls in (fl.Integer, fl.Long):
        for n in range(-50, 1101):
            ctx.count('exchanges')
            el = cls(n)
            want = n >= 200 and n not in reserved
            got = NANPnxx().validate(el, None)
            ctx.check(got is want, 'NANPnxx rejects exactly the reserved exchanges', lambda: u'%d: %r' % (n, got))
            ctx.check(el.value == n and el.u == unicode(n), 'the exchange is kept', lambda: u'%r' % el)
        for el in (cls(), cls(u'x'), cls(None)):
            ctx.check(NANPnxx().validate(el, None) is False, 'no exchange')
    for el in (fl.String(), fl.String(None), fl.String(u'')):
        for ext in (False, True, 'strip'):
            ctx.check(NANPphone(extensions=ext).validate(el, None) is False, 'no phone number')
    for text in (u'', u'x', u'123', u'12345678901'):
        el = fl.String(text)
        for v in (NANPphone(invalid=u'I', noext=u'N'), NANPphone(False, invalid=u'I', noext=u'N')):
            del el.errors[:]
            ctx.check(v.validate(el, None) is False and el.errors == [u'N' if len(text) > 10 else u'I'], 'messages of NANPphone', repr(el.errors))
    ctx.raises(TypeError, lambda: NANPphone(bogus=1), 'an unknown attribute')


class Lookup(object):
    def __init__(self, result):
        self.result, self.calls = result, []

    def __len__(self):
        return 0        # a tool without entries of its own is still the tool

    def valid_npanxx(self, npa, nxx):
        self.calls.append((npa, nxx))
        return self.result

    other = valid_npanxx


def verified(ctx, rng):
    """NANPnpa_nxx asks the lookup tool in the state."""
    ctx.count('verified')
    schema = fl.Dict.of(fl.Integer.named(u'npa'), fl.Integer.named(u'nxx'), fl.String.named(u'e'), fl.Dict.named(u'in').of(fl.Integer.named(u'npa')))
    npa, nxx = [rng.choice((None, 0, 212, 999)) for _ in range(2)]
    el = schema({u'npa': 1, u'nxx': nxx, u'e': u'', u'in': {u'npa': 2}})
    path = rng.choice((u'npa', u'in/npa'))
    el.find(path, single=True).set(npa)
    to = rng.choice((None, u'e', u'nxx'))
    result = rng.choice((True, False, 0, 1, None))
    tool = Lookup(result)
    kw = {}
    key = 'aq'
    if gen.chance(rng, .4):
        key = kw['lookup'] = 'tool'
    if gen.chance(rng, .4):
        kw['method'] = 'other'
    if gen.chance(rng, .5):
        state = {key: tool}
    else:
        state = lambda: None
        setattr(state, key, tool)
    v = NANPnpa_nxx(path, u'nxx', errors_to=to, incomplete=u'%(label)s is incomplete', **kw)
    got = v.validate(el, state)
    missing = npa is None or nxx is None
    ctx.check(bool(got) is (not missing and bool(result)), 'the lookup decides', lambda: u'%r %r %r: %r' % (npa, nxx, result, got))
    ctx.eq(tool.calls, [] if missing else [(npa, nxx)], 'the lookup is asked once, for complete numbers')
    target = el if to is None else el[to]
    for e in [el] + list(el.all_children):
        want = []
        if e is target and not got:
            want = [(u'%s is incomplete' if missing else u'The %s can not be verified.') % e.label]
        ctx.eq(e.errors, want, 'the error is reported on the configured element')


def checksums(ctx, rng):
    n = rng.choice((rng.randrange(1000), rng.randrange(10 ** 16), number(rng), -number(rng), 10 ** 30 + rng.randrange(10 ** 6), 0, long(rng.randrange(10 ** 9))))
    for cls in (fl.Integer, fl.Long):
        ctx.count('luhn')
        ctx.nontrivial(('luhn', n))
        el = cls.named(u'n')(n)
        got = Luhn10().validate(el, None)
        ctx.check(got is luhn(n), 'Luhn10 agrees with the checksum', lambda: u'%r: %r' % (n, got))
        ctx.eq(el.errors, [] if got else [u'The n was not entered correctly.'], 'Luhn10 reports one message', u'%r' % n)
        ctx.check(el.value == n, 'Luhn10 leaves the number')
    el = rng.choice((lambda: fl.Integer.named(u'n')(), lambda: fl.Integer.named(u'n')(u'x'), lambda: fl.Integer.named(u'n')(None)))()
    ctx.check(Luhn10().validate(el, None) is False and len(el.errors) == 1, 'Luhn10 refuses a missing number')


def case(ctx, rng):
    for _ in range(8):
        cards(ctx, rng)
        phones(ctx, rng)
    for _ in range(2):
        checksums(ctx, rng)
    verified(ctx, rng)


def direct(ctx, rng):
    """adapt() and serialize() as overrides call them."""
    from flatland.exc import AdaptationError
    for given in ([], (), [lambda el, state: True]):
        el = CreditCardNumber(u'4111', validators=given)
        ctx.check(el.validate() is True or el.validate() == True, 'validators given to an element', repr(given))  # noqa
        ctx.eq(el.errors, [], 'validators given to an element')
    ctx.check(not CreditCardNumber(u'4111').validate(), 'own validators')
    el = CreditCardNumber()
    ctx.check(el.adapt(None) is None and el.serialize(None) == u'', 'None stays None')
    for n in (0, 7, 4111111111111, 4111111111111111, 378282246310005, 10 ** 40, long(5)):
        ctx.check(el.adapt(n) == n and not isinstance(el.adapt(n), basestring), 'a number is a number', n)
        ctx.eq(el.serialize(n), grouped(n), 'the text of a number', n)
        ctx.check(type(el.serialize(n)) is unicode, 'text is unicode')
        if len(str(n)) > 12:
            ctx.eq(el.adapt(grouped(n)), n, 'the text of a number is read back')
    for bad in (u'', u'x', u'411', 1.5, [], object(), u'4111-1111-1111-111x'):
        try:
            el.adapt(bad)
        except AdaptationError:
            ctx.count('direct refusals')
        else:
            ctx.fail('adapt() refuses what is no number', repr(bad))


FIXED = {'direct': direct, 'exchanges': exchanges}
