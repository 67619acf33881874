# -*- coding: utf-8 -*-
"""P23: Genshi templates against a model of the transforms and against the generator."""
import flatland as fl
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from genshi.core import Markup as GenshiMarkup, TEXT
from fv import gen, gshi, html

SHARDS = 4
CASES = {'quick': 1400, 'thorough': 30000}
RULE = '''A case makes a Genshi template of 2-9 nodes, nested: tags bound by form:bind or with form:auto-* only, selects with options, option groups and loops, plain
tags, texts, form:with and form:set, under py:if, py:for, py:with, py:attrs, py:content, py:strip, py:choose and py:def, with static and interpolated attributes, controls and contents, element values hostile.
It is rendered as xml, xhtml or html and parsed again: the tree must be that of a model of the transforms walked over the same nodes, settings scoped by form:with,
and the generator, driven with the same settings tag by tag, must give the same tags and attributes and (textareas) texts. Non-trivial: distinct outputs.'''
ASSUMPTIONS = ['Jython has no expat: templates are parsed by Java and expressions compiled by the harness; everything else of Genshi is the real one.',
               'What the Genshi serializer itself can not express (carriage returns, a newline that starts a textarea) is left out; white space of attributes is compared as XML reports it.',
               'The order of attributes is not compared.']
REQUIRE = {'nontrivial': 800, 'outputs': 900, 'bound': 5000, 'not bound': 800, 'controls': 3000, 'filter calls': 250, 'flow': 700, 'form:set': 320, 'form:with': 480,
           'functions': 100, 'text after an expression': 200, 'interpolations': 9000, 'loops of options': 250, 'nested bodies': 220, 'optgroups': 400, 'options': 1900,
           'options bound elsewhere': 250, 'plain tags': 400, 'py:attrs': 600, 'py:content': 240, 'py:strip': 80, 'selects': 600,
           'tags like the generator': 5500, 'texts like the generator': 2200, 'markup within text': 90}

BINDABLE = (u'input', u'input', u'textarea', u'button', u'select', u'label', u'form', u'option', u'div')
OTHER = (u'p', u'fieldset', u'b')
ATTRS = (u'class', u'id', u'title', u'for', u'alt', u'data-x', u'lang', u'name', u'tabindex', u'x:id')
CONTROLS_ = (u'auto-name', u'auto-value', u'auto-domid', u'auto-for', u'auto-tabindex', u'auto-filter')
TROOLS = (u'on', u'off', u'on', u'off', u'auto', u'yes', u'NO', u'')


def text(rng, longest=4):
    return html.hostile(rng, longest).replace(u'\r', u'').replace(u'\x85', u'').replace(u'\u2028', u'').replace(u'\U0001f600', u'').lstrip(u'\n')


def esc(t, attribute=False):
    t = t.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>', u'&gt;').replace(u'$', u'$$')
    return t.replace(u'"', u'&quot;').replace(u'\n', u'&#10;').replace(u'\t', u'&#9;') if attribute else t


class Html(object):
    """Markup that is no text by itself."""

    def __init__(self, t):
        self.t = t

    def __html__(self):
        return self.t


class Doc(object):
    """Writes the template and its expected events; evaluation of one node may be repeated, so that the expected output is a function of the settings."""

    def __init__(self, ctx, rng, mode):
        self.ctx, self.rng, self.mode = ctx, rng, mode
        self.vars, self.n, self.binds = {'form': fl.String.named(u'decoy')(u'1'), 'bind': u'decoy'}, 0, []
        self.functions = []

    def var(self, value, stem='v'):
        self.n += 1
        name = '%s%d' % (stem, self.n)
        self.vars[name] = value
        return name

    # -------------------------------------------------------- pieces with a text

    def piece(self, t, attribute, plain=False, whole=False, kinds=(GenshiMarkup,)):
        """Template text that becomes t: literal, or interpolated in part."""
        rng = self.rng
        r = rng.random()
        if r < .5:
            return esc(t, attribute)
        self.ctx.count('interpolations')
        if r < .75 or plain or not t:
            return u'${%s}' % self.var(t)
        cut = rng.randrange(len(t) + 1)
        tail, last = t[cut:], u''
        if len(tail) > 1 and gen.chance(rng, .4):
            at = rng.randrange(1, len(tail))
            tail, last = tail[:at], tail[at:]
            last = u'${%s}' % self.var(last) if gen.chance(rng, .4) else esc(last, attribute)
            self.ctx.count('text after an expression')
        if tail and not attribute and gen.chance(rng, .3) and not (whole and any(c in t for c in u'<>&"')):
            # markup of its own: what it says is the same text
            self.ctx.count('markup within text')
            kind = rng.choice(kinds)
            tail = kind(tail.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>', u'&gt;'))
        elif gen.chance(rng, .3):
            tail = rng.choice(([tail], [tail[:1], tail[1:]], (tail[:1], tail[1:]), list(tail), Text(tail)))
        nothing = u'${%s}' % self.var(None) if gen.chance(rng, .3) else u''
        return esc(t[:cut], attribute) + nothing + u'${%s}' % self.var(tail) + last

    def element(self):
        rng = self.rng
        if self.binds and gen.chance(rng, .5):
            return rng.choice(self.binds)
        name, t = gen.ident(rng), text(rng)
        r = rng.random()
        if r < .1:
            name = text(rng).replace(u'_', u'').strip() or u'n'
        if r < .45:
            el = fl.String.named(name).using(strip=False)(t)
        elif r < .55:
            el = fl.Integer.named(name)(rng.choice((3, u'x', u'', 40)))
        elif r < .65:
            el = fl.Boolean.named(name)(rng.choice((True, False, None, u'zz')))
        elif r < .75:
            el = fl.Array.named(name).of(fl.String.using(strip=False))([t, text(rng)][:rng.randrange(3)])
        elif r < .85:
            el = fl.Dict.named(u'd').of(fl.String.named(name).using(strip=False))({name: t})[name]
        elif r < .92:
            el = fl.List.named(u'l').of(fl.String.named(name))([u'x', t])[1]
        else:
            el = fl.Dict.named(name).of(fl.String.named(u's'))({u's': t})
        el = (self.var(el, 'e'), el)
        self.binds.append(el)
        return el

    def attributes(self, tag, bind):
        rng = self.rng
        attrs = {}
        for key in rng.sample(ATTRS, rng.choice((0, 0, 1, 1, 2, 3))):
            if key == u'x:id' and self.mode == 'html':
                continue
            attrs[key] = text(rng)
        if tag == u'input' and gen.chance(rng, .7):
            attrs[u'type'] = rng.choice((u'text', u'hidden', u'password', u'radio', u'checkbox', u'checkbox', u'file', u'submit', u'image', u'CHECKBOX'))
        if gen.chance(rng, .4):
            attrs[u'value'] = self.likely(bind)
        if gen.chance(rng, .08):
            key = rng.choice((u'checked', u'selected'))
            attrs[key] = key
        return attrs

    def likely(self, bind):
        """A text that may well be a value of the element."""
        rng = self.rng
        if bind is not None and gen.chance(rng, .6):
            if isinstance(bind, fl.Array):
                us = [m.u for m in bind]
                return rng.choice(us) if us else u''
            return bind.u
        return rng.choice((text(rng), u'1', u'3', u''))

    def start(self, tag, attrs, extra=()):
        rng = self.rng
        parts = [u'%s="%s"' % (k, self.piece(v, True)) for k, v in attrs.items()] + list(extra)
        rng.shuffle(parts)
        return u'<%s%s' % (tag, u''.join(u' ' + p for p in parts))

    # -------------------------------------------------------- nodes: (template, fn(settings) -> kids)

    def nodes(self, depth, most=4):
        parts, fns = [], []
        for _ in xrange(self.rng.randrange(1, most + 1)):
            t, fn = self.node(depth)
            parts.append(t)
            fns.append(fn)
        return u''.join(parts), lambda s: [k for fn in fns for k in fn(s)]

    def node(self, depth):
        r = self.rng.random()
        if depth <= 0:
            r *= .55
        if r < .45:
            return self.control(depth)
        if r < .5:
            t = text(self.rng)
            return self.piece(t, False), lambda s: [t]
        if r < .55:
            return self.set()
        if r < .63:
            return self.plain(depth)
        if r < .73:
            return self.with_(depth)
        if r < .85:
            return self.select(depth)
        return self.flow(depth)

    def plain(self, depth):
        tag = self.rng.choice(OTHER + (u'input', u'label', u'select', u'textarea', u'option'))
        attrs = self.attributes(tag, None)
        if tag == u'input':
            inner, fn = u'', lambda s: []
        elif tag == u'textarea':
            t = text(self.rng)
            inner, fn = self.piece(t, False), lambda s: [t]
        else:
            inner, fn = self.nodes(depth - 1, 3)
        self.ctx.count('plain tags')
        return (self.start(tag, attrs) + u'>' + inner + u'</%s>' % tag, lambda s: [leaf(tag, attrs, fn(s))])

    def settings(self):
        rng = self.rng
        out, live = {}, {}
        for key in rng.sample(CONTROLS_, rng.randrange(1, 4)):
            out[key] = rng.choice(TROOLS)
            live[str(key.replace(u'-', u'_'))] = out[key]
        if gen.chance(rng, .3):
            out[u'domid-format'] = live['domid_format'] = rng.choice((u'f_%s', u'%s', u'"%s"', u'&lt;%s'))
        if gen.chance(rng, .4):
            live['tabindex'] = rng.choice((0, 1, 5, 100, -1))
            out[u'tabindex'] = unicode(live['tabindex'])
        if gen.chance(rng, .3):
            live['filters'] = [Filter(rng, self.ctx) for _ in xrange(rng.randrange(3))]
            out[u'filters'] = self.var(live['filters'], 'f')
            self.ctx.count('filters')
        return out, live

    def with_(self, depth):
        out, live = self.settings()
        inner, fn = self.nodes(depth - 1)
        self.ctx.count('form:with')
        head, inner = self.start_static(u'form:with', out), inner + u'</form:with>'

        def run(s):
            s.push(live)
            try:
                return fn(s)
            finally:
                s.pop()
        if gen.chance(self.rng, .2):
            yes = gen.chance(self.rng, .5)
            return head + u' py:if="%s">' % yes + inner, lambda s: run(s) if yes else []
        return head + u'>' + inner, run

    def start_static(self, tag, attrs):
        return u'<' + tag + u''.join(u' %s="%s"' % (k, v.replace(u'&', u'&amp;').replace(u'"', u'&quot;')) for k, v in attrs.items())

    def set(self):
        out, live = self.settings()
        self.ctx.count('form:set')

        def run(s):
            s.set(live)
            return []
        head = self.start_static(u'form:set', out)
        if gen.chance(self.rng, .2):
            yes = gen.chance(self.rng, .5)
            return head + u' py:if="%s"/>' % yes, lambda s: run(s) if yes else []
        return head + u'/>', run

    def flow(self, depth):
        """Nodes under a directive of Genshi."""
        rng = self.rng
        self.ctx.count('flow')
        inner, fn = self.nodes(depth - 1, 3)
        r = rng.random()
        if r < .25:
            yes = gen.chance(rng, .7)
            return u'<py:if test="%s">%s</py:if>' % (yes, inner), lambda s: fn(s) if yes else []
        if r < .5:
            times = rng.randrange(0, 4)
            return u'<py:for each="i in %s">%s</py:for>' % (self.var(range(times)), inner), lambda s: [k for _ in xrange(times) for k in fn(s)]
        if r < .7:
            return u'<py:with vars="a = 1; b = 2">%s</py:with>' % inner, fn
        if r < .85:
            other, fn2 = self.nodes(depth - 1, 2)
            yes = gen.chance(rng, .5)
            return (u'<py:choose test=""><py:when test="%s">%s</py:when><py:otherwise>%s</py:otherwise></py:choose>' % (yes, inner, other),
                    fn if yes else fn2)
        self.n += 1
        times = rng.randrange(1, 3)
        self.ctx.count('functions')
        return (u'<py:def function="fn%d()">%s</py:def>%s' % (self.n, inner, (u'${fn%d()}' % self.n) * times),
                lambda s: [k for _ in xrange(times) for k in fn(s)])

    def directives(self, bind, must):
        """Controls of one tag: (texts, mapping)"""
        rng = self.rng
        chosen = rng.sample(CONTROLS_, rng.choice((0, 0, 0, 1, 1, 2))) if not must else rng.sample(CONTROLS_, rng.randrange(1, 3))
        mapping = dict((k, rng.choice(TROOLS)) for k in chosen)
        return ([u'form:%s="%s"' % (k, self.piece(v, True, True)) for k, v in mapping.items()],
                dict((k.replace(u'-', u'_'), v) for k, v in mapping.items()))

    def control(self, depth, tag=None, bind=False, contents=None, force=()):
        """A tag with directives; contents: (template, fn) of an own body."""
        rng, ctx = self.rng, self.ctx
        tag = tag or rng.choice(BINDABLE)
        if bind is False:
            r = rng.random()
            bind = self.element() if r < .8 else (u'', None) if r < .87 else None
        unbound = bind is None
        name, el = bind or (None, None)
        attrs = self.attributes(tag, el)
        attrs.update(force)
        extra, controls = self.directives(el, unbound)
        if not unbound:
            extra.append(u'form:bind="%s"' % name)
        late, times = {}, 1
        if gen.chance(rng, .1):
            late = {rng.choice((u'title', u'value', u'name', u'class')): text(rng).strip() or u'v'}
            extra.append(u'py:attrs="%s"' % self.var(dict(late), 'a'))
            ctx.count('py:attrs')
        if gen.chance(rng, .05):
            key = u'data-none'
            extra.append(u'%s="${%s}%s"' % (key, self.var(None), rng.choice((u'', u'${%s}' % self.var([])))))
            ctx.count('attributes of nothing')
        if gen.chance(rng, .08):
            times = rng.randrange(2)
            extra.append(u'py:if="%s"' % bool(times))
        elif gen.chance(rng, .08):
            times = rng.randrange(3)
            extra.append(u'py:for="j in %s"' % self.var(range(times)))
        body, fn, foreign = None, None, False
        if contents is not None:
            body, fn = contents
        elif tag != u'input' and gen.chance(rng, .5 if tag != u'option' else .8):
            if tag in (u'form', u'div', u'label') and depth > 0 and gen.chance(rng, .6):
                inner, fn = self.nodes(depth - 1, 3)
                first, word = self.rng.choice(((u'<b/>', leaf(u'b', {}, [])), (u'<b title="t"/>', leaf(u'b', {u'title': u't'}, []))))
                # a body that starts with a tag is not text for the transforms
                body, fn = first + inner, (lambda fn, word: lambda s: [word] + fn(s))(fn, word)
                ctx.count('nested bodies')
            else:
                word = self.likely(el) if tag == u'option' else text(rng)
                kind = rng.choice((GenshiMarkup, Markup, Html))
                body = self.piece(word, False, whole=tag == u'option', kinds=(kind,))
                foreign = kind is not GenshiMarkup
                if not body:
                    word = None
                elif gen.chance(rng, .1):
                    extra.append(u'py:content="%s"' % self.var(word))
                    body = u'x'
                    ctx.count('py:content')
                body = (body, word)
        if body is None:
            whole = self.start(tag, attrs, extra) + rng.choice((u'/>', u'></%s>' % tag))
            given = None
        elif isinstance(body, tuple):
            body, given = body
            whole = self.start(tag, attrs, extra) + u'>' + body + u'</%s>' % tag
        else:
            whole = self.start(tag, attrs, extra) + u'>' + body + u'</%s>' % tag
            given = fn
        stripped = False
        if contents is None and not foreign and (given is None or isinstance(given, unicode)) and gen.chance(rng, .05):
            stripped = gen.chance(rng, .6)
            strip = u'py:strip="%s"' % (stripped or u'False') if gen.chance(rng, .6) or not stripped else u'py:strip=""'
            whole = whole.replace(u'<' + tag, u'<%s %s' % (tag, strip), 1)
            ctx.count('py:strip')
        ctx.count('bound' if el is not None else 'not bound')
        ctx.count('tags')
        if controls:
            ctx.count('controls')
        attrs = dict(attrs)
        attrs.update(late)
        if stripped:
            return whole, lambda s: [given] * times if given else []
        return whole, lambda s: [self.expected(tag, attrs, controls, el, given, s) for _ in xrange(times)]

    def expected(self, tag, attrs, controls, el, given, s):
        attrs = dict(attrs)
        own = dict((k, attrs.pop(k)) for k in list(attrs) if u':' in k)
        attrs.update(controls)
        generated = s.generate(tag, dict(attrs), el, given)
        contents = None if given is None else given if isinstance(given, unicode) else Events(given)
        body = html.transform(tag, attrs, contents, s.top, el)
        attrs.update(own)
        if body is None:
            kids = []
        elif body.text is not None:
            kids = [body.text]
        elif isinstance(body.markup, Events):
            kids = body.markup.fn(s)
        else:
            kids = [unicode(body.markup)] if body.markup else []
        want = leaf(tag, attrs, kids)
        s.compare(generated, want, own, given)
        return want

    # -------------------------------------------------------- selects

    def select(self, depth):
        rng = self.rng
        bind = self.element()
        inner, fn = self.options(bind, 2)
        if not inner:
            return self.control(0, u'select', bind)
        self.ctx.count('selects')
        lead = rng.choice((u'', u'\n  ', u' '))
        body = lead + inner
        return self.control(0, u'select', bind, (body, lambda s: ([lead] if lead else []) + fn(s)))

    def options(self, bind, depth):
        rng = self.rng
        parts, fns = [], []
        for _ in xrange(rng.randrange(1, 5)):
            r = rng.random()
            if r < .6 or depth <= 0:
                t, fn = self.option(bind, depth)
            elif r < .75:
                t, fn = self.options(bind, depth - 1)
                attrs = {u'label': text(rng)}
                t = self.start(u'optgroup', attrs) + u'>' + t + u'</optgroup>'
                fn = (lambda fn, attrs: lambda s: [leaf(u'optgroup', attrs, fn(s))])(fn, attrs)
                self.ctx.count('optgroups')
            elif r < .85:
                t, fn = self.loop(bind)
            elif r < .93:
                t, fn = self.options(bind, depth - 1)
                yes = gen.chance(rng, .7)
                t = u'<py:if test="%s">%s</py:if>' % (yes, t)
                fn = (lambda fn, yes: lambda s: fn(s) if yes else [])(fn, yes)
            else:
                t, fn = self.options(bind, depth - 1)
                out, live = self.settings()
                t = self.start_static(u'form:with', out) + u'>' + t + u'</form:with>'

                def fn(s, fn=fn, live=live):
                    s.push(live)
                    kids = fn(s)
                    s.pop()
                    return kids
            sep = rng.choice((u'', u'', u'\n'))
            parts.append(t + sep)
            fns.append((fn, sep))
        return u''.join(parts), lambda s: [k for fn, sep in fns for k in fn(s) + ([sep] if sep else [])]

    def option(self, bind, depth):
        """An option, most often without a form:bind of its own."""
        r = self.rng.random()
        if r < .1:
            self.ctx.count('options bound elsewhere')
            return self.control(0, u'option', self.element())
        if r < .2:
            return self.control(0, u'option', (u'', None))
        self.ctx.count('options')
        contents, force = None, {}
        if depth > 0 and gen.chance(self.rng, .12):
            inner, kids = self.options(bind, depth - 1)
            contents = u'<b/>' + inner, lambda s: [leaf(u'b', {}, [])] + kids(s)
            force[u'value'] = self.likely(bind[1])
            self.ctx.count('nested options')
        whole, fn = self.control(0, u'option', bind, contents, force)
        mark = u' form:bind="%s"' % bind[0]
        head, tail = whole[:whole.index(u'>')], whole[whole.index(u'>'):]
        assert head.count(mark) == 1, whole
        return head.replace(mark, u'') + tail, fn

    def loop(self, bind):
        """Options of a loop, with and without a tag around."""
        rng, el = self.rng, bind[1]
        values = [self.likely(el) for _ in xrange(rng.randrange(4))]
        each = u'o in %s' % self.var(values)
        extra, controls = self.directives(el, False)
        how = rng.randrange(3)
        self.ctx.count('loops of options')

        def fn(s):
            out = []
            for v in values:
                if how == 1:
                    out.append(self.expected(u'option', {}, controls, el, v, s))
                else:
                    out.append(self.expected(u'option', {u'value': v}, controls, el, u'x', s))
            return out
        extra = u''.join(u' ' + e for e in extra)
        if how == 0:
            return u'<option py:for="%s" value="$o"%s>x</option>' % (each, extra), fn
        if how == 1:
            return u'<option py:for="%s"%s>${o}</option>' % (each, extra), fn
        return u'<py:for each="%s"><option value="${o}"%s>x</option></py:for>' % (each, extra), fn


class Text(object):
    """Not a text but has one."""

    def __init__(self, text):
        self.text = text

    def __unicode__(self):
        return self.text


class Events(object):
    """A body that is no text."""

    def __init__(self, fn):
        self.fn = fn

    def strip(self):
        return self


class Filter(object):

    def __init__(self, rng, ctx):
        self.how = rng.randrange(5)
        self.ctx = ctx
        if gen.chance(rng, .4):
            self.tags = rng.sample((u'input', u'option', u'textarea', u'label'), 2)

    def __call__(self, tag, attrs, contents, context, bind):
        self.ctx.count('filter calls')
        if self.how == 0:
            attrs[u'data-f'] = tag
        elif self.how == 1:
            attrs.pop(u'title', None)
        elif self.how == 2 and tag == u'label':
            return u'filtered "all"'
        elif self.how == 3 and tag == u'label':
            return Markup(u'a &amp; b')
        elif self.how == 4 and tag == u'label':
            return u''
        return contents

    def model(self, tag, attrs, body, bind):
        tags = getattr(self, 'tags', None)
        if tags and tag not in tags:
            return body
        if self.how == 0:
            attrs[u'data-f'] = tag
        elif self.how == 1:
            attrs.pop(u'title', None)
        elif self.how == 2 and tag == u'label':
            return html.Body(text=u'filtered "all"')
        elif self.how == 3 and tag == u'label':
            return html.Body(text=u'a & b')
        elif self.how == 4 and tag == u'label':
            return html.Body(text=u'')
        return body


class Settings(object):
    """The settings of the model, and a generator that gets the same ones."""

    def __init__(self, ctx, mode, what):
        self.ctx, self.what, self.xml = ctx, what, mode != 'html'
        self.frames = [dict(html.DEFAULTS)]
        self.generator = Generator(mode)

    @property
    def top(self):
        return self.frames[-1]

    def push(self, live):
        self.frames.append(dict(self.frames[-1], **live))
        self.generator.begin(**live)

    def pop(self):
        self.frames.pop()
        self.generator.end()

    def set(self, live):
        self.frames[-1].update(live)
        self.generator.set(**live)

    def generate(self, tag, attrs, el, given):
        """What the generator makes of the tag, as a parsed node."""
        keys = dict((str(k), v) for k, v in attrs.items())
        if isinstance(given, unicode):
            keys['contents'] = given if not set(given) & set(u'<&') else None
            if keys['contents'] is None:
                keys['contents'] = u'z'
                if tag == u'option' and u'value' not in attrs:
                    keys['value'] = given.strip()
        elif given is not None:
            keys['contents'] = Markup(u'<i></i>')
        out = unicode(getattr(self.generator, str(tag), self.generator.tag(str(tag)))(el, **keys))
        try:
            nodes = html.parse(out, self.xml).kids
        except html.Malformed as exc:
            self.ctx.fail('generator', u'%s\n%s' % (exc, out))
        return nodes[0]

    def compare(self, node, want, own, given):
        attrs = dict(want[1])
        for k in own:
            attrs.pop(k)
        mine = dict((k, normal(v)) for k, v in node.attrs.items())
        if want[0] == u'option' and u'value' in mine and u'value' not in attrs:
            mine.pop(u'value')
        self.ctx.check(node.tag == want[0] and mine == attrs, 'the generator has it otherwise', lambda: u'%r %r, expected %r\n%s' % (
            node.tag, mine, want, self.what()))
        if given is None:
            self.ctx.check(node.text == u''.join(want[2]), 'the generator has another text', lambda: u'%r, expected %r\n%s' % (node.text, want, self.what()))
            self.ctx.count('texts like the generator')
        self.ctx.count('tags like the generator')


def normal(v):
    return v.replace(u'\n', u' ').replace(u'\t', u' ')


def leaf(tag, attrs, kids):
    """A comparable node: attributes as XML reports them, texts joined."""
    out = []
    for k in kids:
        if isinstance(k, unicode):
            if out and isinstance(out[-1], unicode):
                out[-1] += k
            elif k:
                out.append(k)
        else:
            out.append(k)
    return (tag, tuple(sorted((k, normal(v)) for k, v in attrs.items())), tuple(out))


def parsed(node):
    return leaf(node.tag, node.attrs, [k if isinstance(k, unicode) else parsed(k) for k in node.kids])


def case(ctx, rng):
    mode = rng.choice(('xml', 'xhtml', 'html'))
    doc = Doc(ctx, rng, mode)
    template, fn = doc.nodes(3, 5)
    compare(ctx, mode, template, fn, doc.vars)


def compare(ctx, mode, template, fn, context):
    what = lambda: u'%s\n%s\n%r' % (mode, template, context)
    ctx.log(mode, template)
    want = leaf(None, {}, fn(Settings(ctx, mode, what)))
    made = gshi.template(template)
    whole = gshi.whole(made, mode, context)
    out = gshi.body(whole)
    ctx.count('outputs')
    again = gshi.whole(made, mode, context)
    ctx.check(again == whole, 'rendering again gives something else', lambda: u'%s\n%s\n%s' % (what(), whole, again))
    ctx.check(u'discorporate' not in whole and u' form:' not in whole and u'<form:' not in whole, 'traces of the directives', lambda: u'%s\n%s' % (what(), whole))
    try:
        root = html.parse(out, mode != 'html')
    except html.Malformed as exc:
        ctx.fail('not well formed', u'%s\n%s\n%s' % (exc, what(), out))
    got = parsed(root)
    if got != want:
        ctx.fail('output of the template', u'%s\n%s\n%s' % (what(), out, difference(got, want)))
    ctx.nontrivial(out.encode('utf-8', 'replace'))
    ctx.sample(template)


def difference(got, want):
    if not (isinstance(got, tuple) and isinstance(want, tuple)) or got[:2] != want[:2] or len(got[2]) != len(want[2]):
        return u'got %r\nexpected %r' % (got, want)
    for a, b in zip(got[2], want[2]):
        if a != b:
            return difference(a, b)
    return u''


FIXED = {}
