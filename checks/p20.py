# -*- coding: utf-8 -*-
"""P20: every output of the generator parsed again."""
import flatland as fl
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from fv import gen, html

try:
    from markupsafe import Markup as SafeMarkup
except ImportError:
    SafeMarkup = Markup

CASES = {'quick': 5000, 'thorough': 200000}
RULE = '''A case makes a generator (xml, xhtml, html; either order of attributes; either markup class) and renders 4-10 tags (form tags, void and
other elements) bound to elements with hostile names and values or to none, with hostile attribute texts, markup values, contents, in one call,
through tag() and through open() and close(). A strict tokenizer, and the XML parser of Java in the XML modes, parse each output; tag, attributes and body must
be those of a model of the transforms, character for character. Non-trivial: distinct outputs.'''
ASSUMPTIONS = ['Texts hold no characters that XML 1.0 can not hold; line ends are compared as the parser of the mode has to report them; contents= '
               'given by the caller is markup by documentation and compared verbatim.']
REQUIRE = {'nontrivial': 12000, 'outputs': 20000, 'xml parsed': 8000, 'html parsed': 5000, 'escapes': 9000, 'markup values': 1500,
           'textareas': 900, 'void': 800, 'open and close': 2500, 'by tag()': 3000, 'ordered': 8000, 'unordered': 1000, 'contents': 2500,
           'hostile names': 1500, 'line ends': 2500, 'escaped texts': 700}

FORM = ('form', 'input', 'textarea', 'button', 'select', 'option', 'label')
OTHER = ('p', 'div', 'squiznart', 'fieldset', 'optgroup', 'a')
PAIRED = ('form', 'textarea', 'select', 'option')
ATTRS = ('class_', 'id', 'title', 'for_', 'style', 'alt', 'data-x', 'lang', 'onclick', 'href', 'z9', 'xml:lang', '_own', 'data_x', 'a_b__')


class Html(object):
    """Markup of a third kind."""

    def __init__(self, text):
        self.text = text

    def __html__(self):
        return self.text


class Sub(object):
    def __html__(self):
        return SafeMarkup(u'sub &amp; <b>m</b>')


def element(ctx, rng):
    """A bound element with hostile name and value."""
    name = gen.ident(rng)
    if gen.chance(rng, .3):
        name = html.hostile(rng, 3).replace(u'_', u'') or u'n'
        ctx.count('hostile names')
    text = html.hostile(rng)
    r = rng.random()
    if r < .5:
        el = fl.String.named(name).using(strip=False)(text)
    elif r < .6:
        el = fl.Integer.named(name)(text)
    elif r < .65:
        el = fl.Boolean.named(name).using(true=html.hostile(rng, 3))(rng.choice((True, False, text)))
    elif r < .75:
        el = fl.Array.named(name).of(fl.String.using(strip=False))([text, html.hostile(rng)])
    elif r < .8:
        el = fl.MultiValue.named(name).of(fl.String)([text])
    elif r < .85:
        el = fl.JoinedString.named(name).of(fl.String.using(strip=False))([text, u'"'])
    elif r < .9:
        el = fl.Dict.named(html.hostile(rng, 2)).of(fl.String.named(name))({name: text})
        if gen.chance(rng, .6):
            el = el[name]
    elif r < .95:
        el = fl.List.named(u'l').of(fl.String.named(name))([u'x', text])
        if gen.chance(rng, .6):
            el = el[1]
    else:
        el = fl.DateYYYYMMDD.named(name)(rng.choice((gen.date(rng), text)))
    return el


def texts(rng, ctx, mark=True):
    """An attribute value and its text."""
    r = rng.random()
    if mark and r < .12:
        text = rng.choice((u'a &amp; b', u'&lt;i&gt;', u'plain', u'&quot;q&quot;'))
        ctx.count('markup values')
        return rng.choice((Markup, SafeMarkup, Html))(text), html.decode(text), text
    if r < .2:
        return 'bytes & "more" <', u'bytes & "more" <', None
    t = html.hostile(rng)
    return t, t, None


def lines(text, mode, attribute):
    """What a parser must report for the text."""
    return text


def case(ctx, rng):
    mode = rng.choice(('xml', 'xhtml', 'html'))
    xml = mode != 'html'
    ordered = gen.chance(rng, .8)
    settings = {} if ordered and gen.chance(rng, .6) else {'ordered_attributes': ordered}
    wrapper = Markup
    if gen.chance(rng, .3):
        wrapper = settings['markup_wrapper'] = SafeMarkup
    if gen.chance(rng, .3):
        settings['auto_domid'] = True
        settings['domid_format'] = rng.choice((u'f_%s', u'%s', u'<"%s">', u'&%s'))
    g = Generator(mode, **settings)
    for _ in xrange(rng.randrange(4, 11)):
        tag(ctx, rng, g, mode, xml, ordered, wrapper, settings)


def tag(ctx, rng, g, mode, xml, ordered, wrapper, settings):
    name = rng.choice(FORM) if gen.chance(rng, .75) else rng.choice(OTHER + html.VOID)
    bind = element(ctx, rng) if gen.chance(rng, .7) else None
    given, plain, raw = {}, {}, {}
    for key in rng.sample(ATTRS, rng.randrange(0, 4)):
        value, text, markup = texts(rng, ctx)
        given[key] = value
        plain[unicode(key).rstrip(u'_')] = text
        if markup is not None:
            raw[unicode(key).rstrip(u'_')] = markup
    if gen.chance(rng, .35):
        value, text, markup = texts(rng, ctx, mark=False)
        if bind is not None and gen.chance(rng, .4):
            value = text = bind.u
        elif gen.chance(rng, .1):
            value = text = rng.choice((u'1.5', u'a.b:c-d_e', u'\xe9.', u'..', u'@[`{'))
        given['value'], plain[u'value'] = value, text
    if gen.chance(rng, .2):
        given['name'], plain[u'name'], _ = texts(rng, ctx, mark=False)
    if name == 'input' and gen.chance(rng, .7):
        given['type'] = plain[u'type'] = rng.choice((u'text', u'hidden', u'password', u'radio', u'checkbox', u'file', u'image', u'submit', u'"hm"'))
    if gen.chance(rng, .2):
        given['auto_value'] = plain[u'auto_value'] = rng.choice((u'on', u'off', True, u'auto'))
    contents = None
    void = name == 'input' or name in html.VOID
    if not void and gen.chance(rng, .35):
        contents = rng.choice((u'plain text', Markup(u'<b>&amp;</b>'), SafeMarkup(u'x<i>y</i>'), Html(u'h &lt;'), Sub(), u'', u' sp ', u'\nline', u'\n\n', u'\n &amp;'))
        given['contents'] = contents
        ctx.count('contents')
    ctx.log(mode, name, bind, given)
    how = rng.randrange(5)
    if bind is None and not given and how in (1, 2):
        how = 0
    args = () if bind is None else (bind,)
    given_ = lambda: dict(given)
    if how == 0:
        maker = getattr(g, name) if name in FORM else g.tag(name)
        out = maker(*args, **given_())
    elif how == 1:
        out = g.tag(rng.choice((name, name.upper(), unicode(name))), *args, **given_())
        ctx.count('by tag()')
        if name in FORM:
            ctx.check(out == getattr(g, name)(*args, **given_()), 'tag() and the method of the tag', lambda: out)
    elif how == 2:
        out = g.tag(name, bind=bind, **given_())
        ctx.count('by tag()')
    elif how == 3 and not void:
        maker = getattr(g, name) if name in FORM else g.tag(name)
        head = maker.open(*args, **given_())
        body, tail = maker.contents, maker.close()
        for piece in (head, body, tail):
            ctx.check(type(piece) is wrapper, 'type of a part', lambda: repr(type(piece)))
        out = wrapper(unicode(head) + unicode(body) + unicode(tail))
        ctx.count('open and close')
    else:
        maker = getattr(g, name) if name in FORM else g.tag(name)
        out = maker(bind, **given_())
    what = lambda: u'%s %s bound to %r with %r:\n%s' % (mode, name, bind, given, out)
    ctx.count('outputs')
    ctx.check(type(out) is wrapper and isinstance(out, unicode) and unicode(out.__html__()) == unicode(out), 'type of the output', what)
    again = (getattr(g, name) if name in FORM else g.tag(name))(bind, **given_())
    if how != 3:
        ctx.check(again == out, 'rendering again gives something else', what)
    # the model
    want = dict(plain)
    config = dict(html.DEFAULTS)
    for k in ('auto_domid', 'domid_format'):
        if k in settings:
            config[k] = settings[k]
    body = html.transform(unicode(name), want, contents.__html__() if hasattr(contents, '__html__') else contents, config, bind)
    try:
        nodes = html.parse(unicode(out), xml).kids
    except html.Malformed as exc:
        ctx.fail('not well formed', u'%s\n%s' % (exc, what()))
    ctx.check(len(nodes) == 1 and isinstance(nodes[0], html.Node), 'exactly one element', what)
    node = nodes[0]
    ctx.check(node.tag == name, 'tag name', what)
    ctx.check(node.attrs == want, 'attributes', lambda: u'%s\nparsed %r, expected %r' % (what(), node.attrs, want))
    for key, markup in raw.items():
        if want.get(key) == plain[key]:
            ctx.check(u'%s="%s"' % (key, markup) in out, 'markup value', what)
    if body is not None and body.text is not None:
        text = body.text
        ctx.check(all(isinstance(k, unicode) for k in node.kids) and node.text == text, 'text of the tag', lambda: u'%s\n%r, expected %r' % (
            what(), node.kids, text))
        ctx.count('textareas')
    elif body is not None and body.markup:
        markup = unicode(body.markup)
        if name == 'textarea' and not xml and markup[:1] == u'\n':
            markup = u'\n' + markup      # parsers of HTML drop the first
            ctx.count('first lines')
        if not out.endswith(u'>%s</%s>' % (markup, name)):
            ctx.fail('given contents', what())
    else:
        ctx.check(node.kids == [], 'body of an empty tag', what)
    if how != 3:
        empty = not node.kids
        if xml:
            ctx.check(node.selfclosed == (empty and name not in PAIRED), 'closing of the tag', what)
        else:
            closed = out.endswith(u'</%s>' % name)
            ctx.check(closed == (name not in html.VOID), 'closing of the tag', what)
    if name in html.VOID:
        ctx.count('void')
    if ordered:
        ranks = [(0, (u'type', u'name', u'value').index(k)) if k in (u'type', u'name', u'value') else (1, k) for k in node.order]
        ctx.check(ranks == sorted(ranks), 'order of the attributes', what)
        ctx.count('ordered')
    else:
        ctx.count('unordered')
    if xml:
        try:
            other = html.xml_tree(unicode(out))
        except html.Malformed as exc:
            ctx.fail('not well formed', u'%s\n%s' % (exc, what()))
        ctx.check(len(other.kids) == 1 and other.kids[0].plain() == node.plain(), 'the parsers disagree', lambda: u'%s\n%r\n%r' % (
            what(), other.kids and other.kids[0].plain(), node.plain()))
        ctx.count('xml parsed')
    else:
        ctx.count('html parsed')
    held = list(want.values()) + [body.text if body and body.text else u'']
    if any(c in t for t in held for c in u'<>"&'):
        ctx.count('escapes')
    if any(c in t for t in held for c in u'\r\n\t'):
        ctx.count('line ends')
    ctx.nontrivial(unicode(out).encode('utf-8', 'replace'))
    ctx.sample(unicode(out))


def markup_outputs(ctx, rng):
    """begin, end, set and parts are markup as well; unknown modes are refused."""
    for wrapper in (Markup, SafeMarkup):
        g = Generator(markup_wrapper=wrapper)
        for out in (g.begin(auto_name=False), g.set(auto_value=False), g.end(), g.input.open(), g.input.close(), g.textarea.close()):
            ctx.check(type(out) is wrapper and isinstance(out, unicode), 'type of the output', repr(out))
        ctx.eq(unicode(g.tag('p').__html__()), u'<p />', 'a tag as markup')
    for mode in ('HTML', 'html5', u'sgml', None, ''):
        ctx.raises(TypeError, lambda: Generator(mode), 'unknown markup type', repr(mode))


def escaped_texts(ctx, rng):
    """The texts that templates write out by themselves: x and xa."""
    for turn in range(800):
        el = element(ctx, rng)
        text = el.u
        x, xa = el.x, el.xa
        what = lambda: u'%r: x %r, xa %r' % (el, x, xa)
        ctx.check(isinstance(x, unicode) and isinstance(xa, unicode), 'type of an escaped text', what)
        ctx.check(x == el.x and xa == el.xa and el.u == text, 'an escaped text changes', what)
        for source, kids, attrs in ((u'<p>%s</p>' % x, text, {}), (u'<p t="%s">.</p>' % xa, u'.', {u't': text})):
            for parser in (lambda t: html.parse(t, True), html.xml_tree):
                try:
                    nodes = parser(source).kids
                except html.Malformed as exc:
                    ctx.fail('not well formed', u'%s\n%s\n%s' % (exc, source, what()))
                ctx.check(len(nodes) == 1 and all(isinstance(k, unicode) for k in nodes[0].kids) and u''.join(nodes[0].kids) == kids
                          and nodes[0].attrs == attrs, 'an escaped text parses to another', lambda: u'%s\n%s' % (source, what()))
        ctx.count('escaped texts')


FIXED = {'escaped texts': escaped_texts, 'markup_outputs': markup_outputs}
