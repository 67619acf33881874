# -*- coding: utf-8 -*-
"""P21: forms rendered, parsed and submitted by a simulated browser."""
import flatland as fl
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from fv import gen, html

CASES = {'quick': 3600, 'thorough': 90000}
RULE = '''A case draws a tree (odd names, hostile texts, nested lists, arrays and compounds), renders every part of it as a form in xhtml or
html with randomly chosen controls - text, hidden, password, textarea, single and grouped check boxes, radio buttons, selects and options with
other choices among them, labels and buttons in between - parses the page and submits it as a browser would. The submitted pairs must be the
names and texts of the tree by an independent walk, a control checked or selected exactly if its value is that of the element or of a member,
and from_flat() of the pairs must restore the tree. Non-trivial: distinct (schema, controls, pairs).'''
ASSUMPTIONS = ['Line ends are what a submission makes them (CR LF, undone before comparing), values with line ends use controls that can hold them; '
               'an unchecked box submits nothing and restores as no value; blank members of pruning sequences are left out; arrays bound to check '
               'boxes or multiple selects hold distinct texts in the order of the choices; an option without value= has a plain text.']
REQUIRE = {'nontrivial': 1200, 'forms': 1700, 'controls': 6000, 'pairs': 6000, 'xhtml': 600, 'html': 600, 'radios': 2000, 'check boxes': 1200,
           'options': 3000, 'checked': 2000, 'left unchecked': 3000, 'selected': 1200, 'grouped': 100, 'multiple selects': 100, 'textareas': 900,
           'passwords': 400, 'restored': 1700, 'hostile': 600, 'unchecked booleans': 30, 'option texts': 500}


class Form(object):
    """A page in the making and what it must submit."""

    def __init__(self, ctx, rng, g):
        self.ctx, self.rng, self.g = ctx, rng, g
        self.parts, self.pairs, self.expect, self.cleared, self.kinds = [], [], [], [], []

    def add(self, name, u):
        self.pairs.append((name, u))


def others(rng, u, n=3):
    """Choices that are not u, near ones among them."""
    pool = [u + u'x', u + u' ', u' ' + u, u.upper() + u'!', u'', u'&' + u, u'0', u'on', u'a', u'None', u.replace(u'<', u'&lt;'), u'True', u'0' + u]
    return [p for p in rng.sample(pool, rng.randrange(0, n + 1)) if p != u and u'\n' not in p]


def control(form, el, s, name, boxable):
    """A scalar as one control."""
    ctx, rng, g = form.ctx, form.rng, form.g
    u = unicode(el.u)
    ctx.count('controls')
    if any(c in u for c in u'<>&"\''):
        ctx.count('hostile')
    kinds = ['hidden', 'textarea', 'textarea']
    if u'\n' not in u:
        kinds += ['text', 'plain', 'password', 'email']
    if u'\n' not in u and (s is None or s.kind != 'JoinedString'):
        kinds += ['radio', 'radio', 'select', 'select', 'checks']
        if s is not None and s.kind == 'Boolean' and u in (el.true, el.false) and el.true != el.false:
            if boxable or u == el.true:
                kinds += ['box'] * 6
        if s is not None and s.kind in ('Enum', 'Constrained'):
            kinds += ['select'] * 4
    kind = rng.choice(kinds)
    form.kinds.append(kind)
    out = form.parts.append
    if gen.chance(rng, .1):
        out(g.label(el, contents=u'label'))
    if kind == 'hidden':
        out(g.input(el, type=u'hidden'))
    elif kind == 'textarea':
        ctx.count('textareas')
        if gen.chance(rng, .3):
            area = g.textarea
            head = area.open(el)
            out(head + area.contents + area.close())
        else:
            out(g.textarea(el))
    elif kind == 'text':
        out(g.input(el, type=u'text'))
    elif kind == 'plain':
        out(g.tag('input', el))
    elif kind == 'email':
        out(g.input(el, type=rng.choice((u'email', u'tel', u'search'))))
    elif kind == 'password':
        ctx.count('passwords')
        out(g.input(el, type=u'password', auto_value=rng.choice((True, u'on'))))
    elif kind == 'box':
        attrs = {} if gen.chance(rng, .6) else {'value': el.true}
        if gen.chance(rng, .2):
            attrs['checked'] = u'checked'
        out(g.input(el, type=u'checkbox', **attrs))
        form.expect.append((el.true, u == el.true))
        ctx.count('check boxes')
        if u != el.true:
            form.cleared.append(el)
            ctx.count('unchecked booleans')
            return
    elif kind in ('radio', 'checks'):
        choices = others(rng, u)
        choices.insert(rng.randrange(len(choices) + 1), u)
        for v in choices:
            attrs = {'checked': u'checked'} if gen.chance(rng, .15) else {}
            out(g.input(el, type=u'radio' if kind == 'radio' else u'checkbox', value=v, **attrs))
            form.expect.append((v, v == u))
            ctx.count('radios' if kind == 'radio' else 'check boxes')
    else:
        choices = others(rng, u, 4)
        if s is not None and s.kind in ('Enum', 'Constrained'):
            choices += [unicode(v) for v in s.opts['values']][:4]
        choices = [v for v in choices if v != u]
        choices.insert(rng.randrange(len(choices) + 1), u)
        options(form, el, el, choices, lambda v: v == u, {})
    form.add(name, u)


def options(form, el, bind, choices, chosen, attrs):
    ctx, rng, g = form.ctx, form.rng, form.g
    out = form.parts.append
    out(g.select.open(bind, **attrs))
    grouped = gen.chance(rng, .2)
    if grouped:
        group = g.tag('optgroup')
        out(group.open(label=u'g'))
    for v in choices:
        own = {'selected': u'selected'} if gen.chance(rng, .1) else {}
        calm = v and all(c in u'abcdefghijklmnopqrstuvwxyz0123456789' for c in v)
        if calm and gen.chance(rng, .5):
            out(g.option(bind, contents=rng.choice((v, u' %s ' % v, u'\n  %s\n' % v)), **own))
            ctx.count('option texts')
        else:
            contents = rng.choice((None, u'a label', u''))
            if contents is not None:
                own['contents'] = contents
            out(g.option(bind, value=v, **own))
        form.expect.append((v, chosen(v)))
        ctx.count('options')
    if grouped:
        out(group.close())
    out(g.select.close())


def fields(form, el, s, path, boxable=True):
    """Controls for everything below el."""
    ctx, rng, g = form.ctx, form.rng, form.g
    here = path + ((s.name,) if s.name is not None else ())
    name = u'_'.join(here)
    if s.scalar or s.kind == 'JoinedString':
        control(form, el, s, name, boxable)
    elif s.kind == 'DateYYYYMMDD':
        for part in rng.sample((u'year', u'month', u'day'), 3):
            control(form, el[part], None, u'_'.join(here + (part,)), False)
    elif s.mapping:
        kids = [k for k in s.kids if k.name in el]
        for kid in kids:
            fields(form, el[kid.name], kid, here, boxable and s.kind != 'SparseDict')
        if gen.chance(rng, .2):
            form.parts.append(g.button(el, type=u'submit', contents=u'go'))
    elif s.kind == 'List':
        for i, member in enumerate(el):
            fields(form, member, s.member, here + (unicode(i),), False)
    else:
        us = [unicode(m.u) for m in el]
        whole = s.member.name is None and len(set(us)) == len(us) and not any(u'\n' in u for u in us)
        if whole and us and gen.chance(rng, .7):
            choices = list(us)
            for v in others(rng, rng.choice(us), 4):
                if v not in choices:
                    choices.insert(rng.randrange(len(choices) + 1), v)
            form.kinds.append('group')
            if gen.chance(rng, .5):
                ctx.count('grouped')
                for v in choices:
                    form.parts.append(g.input(el, type=u'checkbox', value=v))
                    form.expect.append((v, v in us))
            else:
                ctx.count('multiple selects')
                options(form, el, el, choices, lambda v: v in us, {'multiple': u'multiple'})
            for u in us:
                form.add(name, u)
        else:
            for member in el:
                control(form, member, s.member, u'_'.join(here + ((s.member.name,) if s.member.name is not None else ())), False)


# ---------------------------------------------------------------- the browser

def crlf(text):
    return text.replace(u'\r\n', u'\n').replace(u'\r', u'\n').replace(u'\n', u'\r\n')


def submit(page):
    """(pairs, states) of the form: states are (value, checked) of everything that can be."""
    pairs, states = [], []
    for node in page.walk():
        a = node.attrs
        if node.tag == u'input':
            kind = a.get(u'type', u'text').lower()
            value = a.get(u'value', u'on' if kind in (u'checkbox', u'radio') else u'')
            if kind in (u'checkbox', u'radio'):
                states.append((value, u'checked' in a))
                if u'checked' not in a:
                    continue
            elif kind in (u'submit', u'button', u'image', u'reset', u'file'):
                continue
            elif kind != u'hidden':
                value = value.replace(u'\n', u'').replace(u'\r', u'')
        elif node.tag == u'textarea':
            value = node.text
        elif node.tag == u'select':
            options = []
            for o in node.walk():
                if o.tag == u'option':
                    value = o.attrs.get(u'value', u' '.join(o.text.split()))
                    options.append((value, u'selected' in o.attrs))
            states.extend(options)
            chosen = [v for v, on in options if on]
            if u'multiple' not in a:
                chosen = chosen[-1:] or [v for v, _ in options[:1]]
            if a.get(u'name'):
                pairs.extend((crlf(a[u'name']), crlf(v)) for v in chosen)
            continue
        else:
            continue
        if a.get(u'name'):
            pairs.append((crlf(a[u'name']), crlf(value)))
    return pairs, states


def clean(t):
    return u''.join(c for c in t if c != u'\r' and (c >= u' ' or c in u'\t\n'))


def case(ctx, rng):
    mode = rng.choice(('xhtml', 'html'))
    if gen.chance(rng, .03):
        s = gen.scalar_spec(rng, u'solo')
    else:
        s = gen.spec(rng, rng.choice((1, 2, 2, 3)), u'_', rng.choice((None, None, u'root', u'r\xe9')), root=True, plain=gen.chance(rng, .5),
                     kinds=('Dict', 'Dict', 'Dict', 'Form', 'Form', 'SparseDict', 'List', 'Array', 'MultiValue'),
                     scalars=gen.SCALARS + ('String',) * 7 + ('Boolean',) * 2)
    if any(u'\n' in (n.name or u'') for n in s.walk()):
        return
    if s.name is None and not s.mapping and s.kind != 'List':
        return
    for n in s.walk():
        if n.kind in ('Array', 'MultiValue') and n.name is not None and gen.chance(rng, .6):
            n.kids[0].name = None
    el = gen.build(rng, s)
    for leaf, sub in gen.pairs_of(el, s):
        if sub.kind == 'String' and gen.chance(rng, .4):
            leaf.set(clean(html.hostile(rng)))
    gen.normalise(el, s)
    if any(u'\r' in e.u or clean(e.u) != e.u for e in gen.elements(el) if not isinstance(e, (dict, list))):
        return
    settings = {}
    if gen.chance(rng, .3):
        settings.update(auto_domid=True, auto_for=True)
    if gen.chance(rng, .2):
        settings['ordered_attributes'] = False
    g = Generator(mode, **settings)
    form = Form(ctx, rng, g)
    frame = g.form
    head = frame.open(el, action=u'?')
    fields(form, el, s, ())
    page = head + Markup(u'\n').join(form.parts) + frame.close()
    what = lambda: u'%s %r\n%s' % (mode, s, page[:3000])
    try:
        tree = html.parse(unicode(page), mode != 'html')
    except html.Malformed as exc:
        ctx.fail('not well formed', u'%s\n%s' % (exc, what()))
    pairs, states = submit(tree)
    ctx.check(states == form.expect, 'checked and selected controls', lambda: u'%s\n%r, expected %r' % (what(), states, form.expect))
    undone = [(k, v.replace(u'\r\n', u'\n')) for k, v in pairs]
    ctx.check(undone == form.pairs, 'submitted pairs', lambda: u'%s\n%r, expected %r' % (what(), undone, form.pairs))
    for v, on in form.expect:
        ctx.count('checked' if on else 'left unchecked')
    ctx.count('selected', sum(1 for n in tree.walk() if n.tag == u'option' and u'selected' in n.attrs))
    ctx.count('forms')
    ctx.count(mode)
    ctx.count('pairs', len(pairs))
    for leaf in form.cleared:
        leaf.set(None)
        leaf.u = u''
    again = s.cls.from_flat(undone)
    a, b = gen.snap(el, value=False), gen.snap(again, value=False)
    ctx.check(a == b, 'the tree after the submission', lambda: u'%s\n%r\nbefore %r\nafter  %r' % (what(), undone, a, b))
    for (x, sx), (y, _) in zip(gen.pairs_of(el, s), gen.pairs_of(again, s)):
        if (sx.scalar or sx.kind == 'DateYYYYMMDD') and x.u != u'':
            probe = sx.cls()
            probe.set(unicode(x.u))
            if gen.fz(probe.value) == gen.fz(x.value):
                ctx.check(gen.fz(x.value) == gen.fz(y.value), 'a value after the submission', lambda: u'%s\n%r %r' % (what(), x, y))
    ctx.count('restored')
    if len(pairs) > 1:
        ctx.nontrivial((repr(s), form.kinds, pairs))
        ctx.sample(unicode(page))


FIXED = {}
