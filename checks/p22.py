# -*- coding: utf-8 -*-
"""P22: histories of settings against a model of the stack and the transforms."""
import flatland as fl
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from flatland.util import Maybe
from fv import gen, html

try:
    from markupsafe import Markup as SafeMarkup
except ImportError:
    SafeMarkup = Markup

CASES = {'quick': 2600, 'thorough': 90000}
RULE = '''A case makes one or two generators and performs 12-40 steps: begin, set and end with random settings in all spellings, some of them
unknown or failing, and tags (form tags, labels, options and others; bound or not; with own auto_ options and explicit attributes) whose parsed
attributes must be those of a model of the settings stack and the transforms. Non-trivial: distinct (effective settings, tag, options,
attributes).'''
ASSUMPTIONS = ['tabindex is an integer; domid_format has one %s; label for and control id are compared for controls that are not check boxes or '
               'radio buttons (those have their value in the id).']
REQUIRE = {'nontrivial': 10000, 'tags': 15000, 'begins': 2500, 'ends': 1500, 'sets': 2500, 'failed begins': 700, 'failed sets': 700,
           'ends without begin': 700, 'forced': 4000, 'switched off': 3000, 'tabindexes': 1500, 'ids': 3000, 'fors': 700, 'filtered': 800,
           'pairs agree': 800, 'deepest': 5}

SPELL = {True: (True, 'on', u'ON', u'1', 1, u'true', u'True', u't', u'yes', 'Yes'),
         False: (False, 'off', u'Off', u'0', 0, u'false', u'False', u'nil', u'no'),
         None: (Maybe, 'auto', u'Auto', u'AUTO', u'whatever', u'')}
AUTOS = ('auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex', 'auto_filter')
TAGS = ('input', 'input', 'textarea', 'button', 'select', 'option', 'label', 'form')
OTHER = ('p', 'fieldset', 'squiznart', 'a')


def spelled(rng):
    return rng.choice(SPELL[rng.choice((True, True, False, False, None))])


def make_filter(tags_, key, text):
    def fn(tagname, attributes, contents, context, bind):
        attributes[key] = attributes.get(key, u'') + text
        if text == u'c':
            return Markup(u'filtered')
        return contents

    def modelled(tag, attrs, body, bind):
        if tags_ and tag not in tags_:
            return body
        attrs[key] = attrs.get(key, u'') + text
        if text == u'c':
            return html.Body(markup=u'filtered')
        return body
    if tags_ is not None:
        fn.tags = tags_
    fn.model = modelled
    return fn


FILTERS = (make_filter(None, u'class', u'a'), make_filter((u'input', u'label'), u'class', u'b'), make_filter((u'textarea', u'p'), u'title', u'c'),
           make_filter(set([u'select']), u'name', u'x'), make_filter((), u'lang', u'e'))


def settings(rng):
    out = {}
    for key in rng.sample(AUTOS, rng.randrange(0, 4)):
        out[key] = spelled(rng)
    if gen.chance(rng, .25):
        out['tabindex'] = rng.choice((0, 1, 1, 5, 100, -1, -3))
    if gen.chance(rng, .2):
        out['domid_format'] = rng.choice((u'f_%s', u'%s', u'id-%s-x', '%s_b'))
    if gen.chance(rng, .2):
        out['filters'] = rng.choice((list, tuple))(rng.sample(FILTERS, rng.randrange(0, 3)))
    if gen.chance(rng, .1):
        out['ordered_attributes'] = gen.chance(rng, .5)
    if gen.chance(rng, .1):
        out['markup_wrapper'] = rng.choice((Markup, SafeMarkup))
    return out


class World(object):
    """A generator and the model of its stack."""

    def __init__(self, rng):
        self.mode = rng.choice(('xml', 'html', 'xhtml'))
        start = settings(rng) if gen.chance(rng, .5) else {}
        self.g = Generator(self.mode, **start)
        base = dict(html.DEFAULTS)
        base.update(ordered_attributes=True, markup_wrapper=Markup)
        base.update(start)
        self.stack = [base]
        self.held, self.opened = {}, []

    @property
    def now(self):
        return self.stack[-1]


def elements():
    schema = fl.Dict.named(u'form').of(
        fl.String.named(u'text').using(strip=False), fl.Integer.named(u'number'), fl.Boolean.named(u'flag'), fl.Array.named(u'bag').of(fl.String),
        fl.List.named(u'rows').of(fl.Dict.named(u'row').of(fl.String.named(u'cell'), fl.Boolean.named(u'on').using(true=u'x!y'))),
        fl.MultiValue.named(u'mv').of(fl.Integer), fl.DateYYYYMMDD.named(u'day'), fl.JoinedString.named(u'tags'))
    el = schema({u'text': u'some "text" <&>', u'number': 5, u'flag': True, u'bag': [u'a', u'b', u'a b'], u'mv': [1, 2], u'tags': [u'x', u'y'],
                 u'rows': [{u'cell': u'c0', u'on': u'x!y'}, {u'cell': u'', u'on': False}]})
    free = fl.String(u'unnamed')
    lone = fl.String.named(u'lone')()
    return [el, el[u'text'], el[u'number'], el[u'flag'], el[u'bag'], el[u'rows'], el[u'rows'][0], el[u'rows'][0][u'cell'], el[u'rows'][0][u'on'],
            el[u'rows'][1][u'cell'], el[u'rows'][1][u'on'], el[u'mv'], el[u'day'], el[u'day'][u'year'], el[u'tags'], el[u'bag'][0], free, lone]


def case(ctx, rng):
    worlds = [World(rng) for _ in xrange(1 if gen.chance(rng, .7) else 2)]
    binds = elements()
    for step in xrange(rng.randrange(12, 41)):
        w = rng.choice(worlds)
        r = rng.random()
        if r < .1:
            new = settings(rng)
            out = w.g.begin(**new)
            w.stack.append(dict(w.now, **new))
            ctx.count('begins')
            ctx.seen('deepest', len(w.stack))
            ctx.check(out == u'' and type(out) is w.now['markup_wrapper'], 'result of begin()', repr(out))
            ctx.log('begin', new)
        elif r < .2:
            new = settings(rng)
            out = w.g.set(**new)
            w.now.update(new)
            ctx.count('sets')
            ctx.check(out == u'' and type(out) is w.now['markup_wrapper'], 'result of set()', repr(out))
            ctx.log('set', new)
        elif r < .3:
            if len(w.stack) == 1:
                ctx.raises(RuntimeError, w.g.end, 'end() without begin()')
                ctx.count('ends without begin')
            else:
                out = w.g.end()
                w.stack.pop()
                ctx.count('ends')
                ctx.check(out == u'' and type(out) is w.now['markup_wrapper'], 'result of end()', repr(out))
            ctx.log('end')
        elif r < .36:
            new = settings(rng)
            new[rng.choice(('bogus', 'auto_bogus', 'name', 'auto', 'tab_index'))] = rng.choice((True, u'on', None))
            if gen.chance(rng, .5):
                ctx.raises((KeyError, TypeError), lambda: w.g.begin(**new), 'begin() of an unknown setting', repr(new))
                ctx.count('failed begins')
            else:
                ctx.raises((KeyError, TypeError), lambda: w.g.set(**new), 'set() of an unknown setting', repr(new))
                ctx.count('failed sets')
            ctx.log('failed', new)
        elif r < .42:
            # tags left open, here or in the other generator
            if w.opened and gen.chance(rng, .5):
                maker, name = w.opened.pop(rng.randrange(len(w.opened)))
                out = maker.close()
                ctx.check(out == u'</%s>' % name and type(out) is w.now['markup_wrapper'], 'result of close()', repr(out))
            else:
                name = rng.choice(TAGS + OTHER)
                maker = getattr(w.g, name) if name in TAGS else w.g.tag(name)
                out = maker.open(None, auto_tabindex=False, auto_filter=False, auto_domid=False, auto_for=False)
                ctx.check(out == u'<%s>' % name and type(out) is w.now['markup_wrapper'], 'result of open()', repr(out))
                w.opened.append((maker, name))
                ctx.count('left open')
            ctx.log('open', name)
        else:
            tag(ctx, rng, w, binds)
    for w in worlds:
        while len(w.stack) > 1:
            w.g.end()
            w.stack.pop()
            tag(ctx, rng, w, binds)
        ctx.raises(RuntimeError, w.g.end, 'end() without begin()')
        for _ in range(3):
            tag(ctx, rng, w, binds)


def arguments(rng, name, bind):
    given = {}
    if name == 'input' and gen.chance(rng, .8):
        given['type'] = rng.choice((u'text', u'hidden', u'password', u'radio', u'checkbox', u'checkbox', u'file', u'image', u'submit', u'email'))
    for key, value in (('name', u'own'), ('id', u'own id'), ('for_', u'own'), ('tabindex', rng.choice((u'7', u'7', u''))), ('class_', u'k'), ('checked', u'checked'),
                       ('selected', u'selected')):
        if gen.chance(rng, .12):
            given[key] = value
    if gen.chance(rng, .4):
        given['value'] = rng.choice((u'a', u'b', u'5', u'1', u'x!y', u'', u'a b', u'c0', u'2', u'"v"', u'05'))
        if bind is not None and gen.chance(rng, .3):
            given['value'] = bind.u
    for key in rng.sample(AUTOS, rng.choice((0, 0, 0, 1, 1, 2, 3))):
        given[key] = spelled(rng)
    if name in ('option', 'label', 'button', 'p', 'textarea', 'select') and gen.chance(rng, .3):
        given['contents'] = rng.choice((u'a', u' b ', u'\t5\r\n', u'\xa05\u2003', u'\x0b5\n', u'5', u'text', u'', Markup(u'a'), Markup(u'<b>x</b>')))
    return given


def render(w, name, bind, given, rng):
    """The markup, through one of the ways to make it."""
    how = rng.randrange(4)
    maker = getattr(w.g, name) if name in TAGS else w.g.tag(name)
    if how == 0 and name not in ('input',):
        head = maker.open(bind, **given)
        return unicode(head) + unicode(maker.contents) + unicode(maker.close())
    if how == 1 and (bind is not None or given):
        return unicode(w.g.tag(name, bind, **given))
    if how == 2 and name in w.held and gen.chance(rng, .5):
        # a tag taken earlier renders with the settings of now
        return unicode(w.held[name](bind, **given))
    w.held[name] = maker
    out = maker(bind, **given)
    return out


def tag(ctx, rng, w, binds):
    name = rng.choice(TAGS) if gen.chance(rng, .85) else rng.choice(OTHER)
    bind = rng.choice(binds) if gen.chance(rng, .8) else None
    given = arguments(rng, name, bind)
    attrs = dict((unicode(k).rstrip(u'_'), v) for k, v in given.items() if k != 'contents')
    contents = given.get('contents')
    effective = dict((k, v) for k, v in w.now.items() if k in html.DEFAULTS and k != 'filters')
    before = dict(effective)
    config = w.now
    for key in AUTOS:
        if key in attrs:
            own = html.trool(attrs[key])
            if own is True:
                ctx.count('forced')
            elif own is False:
                ctx.count('switched off')
    index = config['tabindex']
    body = html.transform(unicode(name), attrs, contents.__html__() if hasattr(contents, '__html__') else contents, config, bind)
    out = render(w, name, bind, given, rng)
    what = lambda: u'%s of %r with %r under %r:\n%s' % (name, bind, given, before, out)
    try:
        node = html.parse(unicode(out), w.mode != 'html').kids[0]
    except html.Malformed as exc:
        ctx.fail('not well formed', u'%s\n%s' % (exc, what()))
    ctx.check(node.tag == name and node.attrs == attrs, 'attributes', lambda: u'%s\ngot %r, expected %r' % (what(), node.attrs, attrs))
    if name != 'input':
        text = body.text if body and body.text is not None else body.markup if body else u''
        if body and body.text is not None:
            ctx.check(node.text == text, 'text', lambda: u'%s\ngot %r, expected %r' % (what(), node.text, text))
        else:
            ctx.check(u'>%s</%s>' % (text, name) in out or not text, 'contents', what)
            ctx.check(bool(node.kids) == bool(text), 'contents', what)
    ctx.count('tags')
    if config['tabindex'] != index or index and u'tabindex' in attrs:
        ctx.count('tabindexes')
    if u'id' in attrs and 'id' not in given:
        ctx.count('ids')
    if u'for' in attrs and 'for_' not in given:
        ctx.count('fors')
    if html.trool(given.get('auto_filter', config['auto_filter'])) and config['filters']:
        ctx.count('filtered')
    ctx.nontrivial((sorted((k, unicode(v)) for k, v in before.items()), name, sorted((k, unicode(v)) for k, v in given.items()),
                    sorted(attrs.items())))
    if bind is not None and name in ('textarea', 'select', 'button') and gen.chance(rng, .3):
        # the label of a control points to it
        label = html.parse(unicode(w.g.label(bind, auto_for=True, auto_filter=False, auto_domid=False)), w.mode != 'html').kids[0]
        control = html.parse(unicode(getattr(w.g, name)(bind, auto_domid=True, auto_tabindex=False, auto_filter=False)),
                             w.mode != 'html').kids[0]
        ctx.check(label.attrs.get(u'for') == control.attrs.get(u'id') and (u'id' in control.attrs) == bool(html.bound_name(bind)),
                  'for and id of one control', lambda: u'%r %r' % (label.attrs, control.attrs))
        ctx.count('pairs agree')
    ctx.sample(out)


def documented(ctx, rng):
    """The documentation of the settings."""
    g = Generator(tabindex=100)
    ctx.eq(unicode(g.textarea()), u'<textarea></textarea>', 'documented')
    ctx.eq(unicode(g.textarea(auto_tabindex=True)), u'<textarea tabindex="100"></textarea>', 'documented')
    g.set(auto_tabindex=True)
    ctx.eq(unicode(g.textarea()), u'<textarea tabindex="101"></textarea>', 'documented')
    ctx.eq(unicode(g.tag('squiznart', auto_tabindex=True)), u'<squiznart tabindex="102" />', 'documented')
    g.begin(tabindex=5)
    g.textarea()
    g.begin()
    ctx.eq(unicode(g.textarea()), u'<textarea tabindex="6"></textarea>', 'nested count')
    g.end()
    ctx.eq(unicode(g.textarea()), u'<textarea tabindex="6"></textarea>', 'count after end()')
    g.end()
    ctx.eq(unicode(g.textarea()), u'<textarea tabindex="103"></textarea>', 'count after end()')
    for bad in ({'bogus': 1}, {'tabIndex': 5}):
        ctx.raises((KeyError, TypeError), lambda: Generator(**bad), 'unknown setting of a generator')


def contexts(ctx, rng):
    """The stack of settings alone."""
    from flatland.out.generic import Context
    keys = sorted(k for k in html.DEFAULTS if k in Context())
    for _ in xrange(60):
        c = Context()
        stack = [dict((k, c[k]) for k in keys)]
        for _ in xrange(30):
            key, value = rng.choice(keys), object()
            r = rng.randrange(8)
            if r == 0:
                c.push()
                stack.append(dict(stack[-1]))
            elif r == 1:
                c.push(**{str(key): value})
                stack.append(dict(stack[-1]))
                stack[-1][key] = value
            elif r == 2:
                if len(stack) == 1:
                    ctx.raises(RuntimeError, c.pop, 'pop() of the last frame')
                else:
                    c.pop()
                    stack.pop()
            elif r == 3:
                c[key] = value
                stack[-1][key] = value
            elif r == 4:
                rng.choice((lambda: c.update({key: value}), lambda: c.update([(key, value)]), lambda: c.update(**{str(key): value})))()
                stack[-1][key] = value
            elif r == 5:
                bad = rng.choice((u'bogus', u'', u'AUTO_NAME'))
                ctx.raises(KeyError, lambda: c.__setitem__(bad, value), 'unknown setting')
                ctx.raises(KeyError, lambda: c.update({bad: value}), 'unknown setting')
                ctx.raises(KeyError, lambda: c.push(bogus=value), 'unknown setting')
                ctx.raises(KeyError, lambda: c[bad], 'unknown setting')
                ctx.check(bad not in c, 'unknown setting', bad)
            elif r == 6:
                ctx.raises(TypeError, lambda: c.update({}, {}), 'update() of two')
            ctx.check(all(c[k] is stack[-1][k] for k in keys) and all(k in c for k in keys), 'settings of the stack', lambda: repr(r))
            ctx.count('context steps')


FIXED = {'contexts': contexts, 'documented': documented}
