# -*- coding: utf-8 -*-
"""A strict tokenizer of markup, and a reference model of the transforms."""
import re

from java.lang import String as JString
from java.io import StringReader
from javax.xml.parsers import SAXParserFactory
from org.xml.sax import InputSource, SAXParseException
from org.xml.sax.helpers import DefaultHandler

import flatland as fl
from flatland.util import Maybe

VOID = ('area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr')
NAMED = {u'amp': u'&', u'lt': u'<', u'gt': u'>', u'quot': u'"'}


class Malformed(Exception):
    pass


def decode(text):
    """Resolve references the way a browser would; refuse what browsers guess at."""
    out, at = [], 0
    while True:
        i = text.find(u'&', at)
        if i < 0:
            return u''.join(out) + text[at:]
        out.append(text[at:i])
        m = re.compile(u'&(?:([a-z]+)|#([0-9]+)|#x([0-9a-fA-F]+));').match(text, i)
        if m:
            name, dec, hexa = m.groups()
            if name:
                if name not in NAMED:
                    raise Malformed(u'unknown reference %s' % m.group())
                out.append(NAMED[name])
            else:
                out.append(unichr(int(dec) if dec else int(hexa, 16)))
            at = m.end()
        elif re.compile(u'&[A-Za-z0-9#]').match(text, i):
            raise Malformed(u'a reference that is none: %r' % text[i:i + 12])
        else:
            out.append(u'&')
            at = i + 1


START = re.compile(u'<([A-Za-z][A-Za-z0-9:_.-]*)', re.UNICODE)
ATTR = re.compile(u'[ \n]+([^\\s"\'<>/=]+)(?:="([^"]*)"|(?=[ \n>]))', re.UNICODE)
CLOSE = re.compile(u'([ \n]*)(/?)>')
END = re.compile(u'</([A-Za-z][A-Za-z0-9:_.-]*)>', re.UNICODE)


def tokens(text, xml):
    """[('start', tag, [(name, value)], selfclosed) | ('end', tag) | ('text', text)]"""
    text = text.replace(u'\r\n', u'\n').replace(u'\r', u'\n')
    out, at, rcdata = [], 0, None
    while at < len(text):
        i = text.find(u'<' if rcdata is None else u'</' + rcdata, at)
        if i < 0:
            i = len(text)
        if i > at:
            piece = text[at:i]
            if rcdata and not xml and piece[0] == u'\n':
                piece = piece[1:]
            if piece:
                out.append(('text', decode(piece)))
        if i == len(text):
            break
        m = END.match(text, i)
        if m:
            out.append(('end', m.group(1)))
            at, rcdata = m.end(), None
            continue
        m = START.match(text, i)
        if not m:
            raise Malformed(u'no tag at %r' % text[i:i + 30])
        tag, at, attrs = m.group(1), m.end(), []
        while True:
            m = ATTR.match(text, at)
            if not m:
                break
            name, value = m.groups()
            if value is None:
                if xml:
                    raise Malformed(u'attribute %s without a value' % name)
                value = name
            if xml:
                if u'<' in value:
                    raise Malformed(u'< in an attribute: %r' % value)
                value = value.replace(u'\n', u' ').replace(u'\t', u' ')
            attrs.append((name, decode(value)))
            at = m.end()
        m = CLOSE.match(text, at)
        if not m:
            raise Malformed(u'in tag %s at %r' % (tag, text[at:at + 30]))
        at = m.end()
        names = [a[0] for a in attrs]
        if len(set(names)) != len(names):
            raise Malformed(u'attribute given twice: %r' % names)
        if m.group(2) and not xml:
            raise Malformed(u'/ in an html tag')
        out.append(('start', tag, attrs, bool(m.group(2))))
        if not xml and tag in (u'textarea', u'title'):
            rcdata = tag
    return out


class Node(object):
    """An element of the parsed document; kids are Nodes and texts."""

    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids = tag, dict(attrs), []
        self.order = [a[0] for a in attrs]
        self.selfclosed = False

    @property
    def text(self):
        return u''.join(k if isinstance(k, unicode) else k.text for k in self.kids)

    def walk(self):
        yield self
        for kid in self.kids:
            if isinstance(kid, Node):
                for n in kid.walk():
                    yield n

    def plain(self):
        return (self.tag, tuple(sorted(self.attrs.items())),
                tuple(k if isinstance(k, unicode) else k.plain() for k in self.kids))


def parse(text, xml):
    """The tree under a nameless root."""
    root = Node(None, [])
    stack = [root]
    for token in tokens(text, xml):
        if token[0] == 'text':
            kids = stack[-1].kids
            if kids and isinstance(kids[-1], unicode):
                kids[-1] += token[1]
            else:
                kids.append(token[1])
        elif token[0] == 'start':
            node = Node(token[1], token[2])
            node.selfclosed = token[3]
            stack[-1].kids.append(node)
            if not token[3] and (xml or token[1] not in VOID):
                stack.append(node)
        else:
            if stack[-1].tag != token[1]:
                raise Malformed(u'</%s> closes %r' % (token[1], stack[-1].tag))
            stack.pop()
    if len(stack) != 1:
        raise Malformed(u'%s is not closed' % stack[-1].tag)
    return root


class Builder(DefaultHandler):

    def __init__(self):
        self.root = Node(None, [])
        self.stack = [self.root]

    def startElement(self, uri, local, tag, attrs):
        node = Node(tag, [(attrs.getQName(i), attrs.getValue(i)) for i in range(attrs.getLength())])
        self.stack[-1].kids.append(node)
        self.stack.append(node)

    def endElement(self, uri, local, tag):
        self.stack.pop()

    def characters(self, chars, start, length):
        text = JString(chars, start, length).toString()
        kids = self.stack[-1].kids
        if kids and isinstance(kids[-1], unicode):
            kids[-1] += text
        else:
            kids.append(text)

    def error(self, exc):
        raise exc

    def fatalError(self, exc):
        raise exc

    def warning(self, exc):
        pass


FACTORY = SAXParserFactory.newInstance()


def xml_tree(text):
    """The tree the XML parser of Java makes of it."""
    builder = Builder()
    try:
        FACTORY.newSAXParser().parse(InputSource(StringReader(u'<fv-root>%s</fv-root>' % text)), builder)
    except SAXParseException as exc:
        raise Malformed(u'no XML: %s' % exc)
    return builder.root.kids[0]


# ---------------------------------------------------------------- the transforms

NAME = (u'input', u'button', u'select', u'textarea', u'form')
VALUE = (u'button', u'input', u'option', u'textarea')
CONTROLS = (u'input', u'button', u'select', u'textarea')
DEFAULTS = {'auto_name': True, 'auto_value': True, 'auto_domid': False, 'domid_format': u'f_%s', 'auto_for': False, 'auto_tabindex': False,
            'tabindex': 0, 'auto_filter': False, 'filters': ()}
YES = (u'1', u'true', u't', u'on', u'yes')
NO = (u'0', u'false', u'nil', u'off', u'no')


def trool(value):
    if value is True or value is False:
        return value
    if value is Maybe:
        return None
    value = unicode(value).lower()
    return True if value in YES else False if value in NO else None


def effective(key, attrs, settings):
    """(apply, forced) of one transform."""
    own = trool(attrs.pop(key)) if key in attrs else None
    if own is not None:
        return own, own
    own = trool(settings[key])
    return (DEFAULTS[key] if own is None else own), False


def bound_name(bind):
    return u'_'.join(name_parts(bind))


def name_parts(bind):
    out = []
    while bind is not None:
        if bind.name is not None:
            out.insert(0, bind.name)
        bind = bind.parent
    return out


def holds(bind, value):
    """Is value one of the texts of the element?"""
    if isinstance(bind, fl.Array):
        for m in bind:
            if m.u == value:
                return True
        return False
    return bind.u == value


def dom_id(tag, attrs, bind):
    basis = bound_name(bind) if bind is not None else attrs.get(u'name')
    if not basis:
        return None
    if tag == u'input' and attrs.get(u'type') in (u'checkbox', u'radio'):
        suffix = u''.join(c for c in attrs.get(u'value', u'') if c in
                          u'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_:.-')
        if suffix:
            basis += u'_' + suffix
    return basis


class Body(object):
    """What a tag is to contain: text to be parsed back, or given markup."""

    def __init__(self, text=None, markup=None):
        self.text, self.markup = text, markup


def transform(tag, attrs, contents, settings, bind):
    """Change attrs (and the tabindex of settings); the Body or None."""
    body = None if contents is None else Body(markup=contents)
    on, forced = effective('auto_name', attrs, settings)
    if on and bind is not None:
        name = bound_name(bind)
        if name and (forced or (tag in NAME and attrs.get(u'name') is None)):
            attrs[u'name'] = name
    on, forced = effective('auto_value', attrs, settings)
    if on and bind is not None and (forced or tag in VALUE):
        own = attrs.get(u'value')
        kind = attrs.get(u'type', u'') if tag == u'input' else None
        if kind in (u'checkbox', u'radio'):
            if own is None and kind == u'checkbox' and isinstance(bind, fl.Boolean):
                own = attrs[u'value'] = bind.true
            if own is not None:
                attrs.pop(u'checked', None)
                if holds(bind, own):
                    attrs[u'checked'] = u'checked'
        elif kind in (u'password', u'file', u'image'):
            if forced:
                attrs[u'value'] = bind.u
        elif tag == u'option':
            if own is None:
                own = u'' if contents is None else contents.strip() if isinstance(contents, unicode) else contents
            attrs.pop(u'selected', None)
            if holds(bind, own):
                attrs[u'selected'] = u'selected'
        elif tag == u'textarea':
            if contents is None or forced:
                body = Body(text=bind.u)
        elif own is None or forced:
            attrs[u'value'] = bind.u
    on, forced = effective('auto_domid', attrs, settings)
    if on and (forced or (tag in CONTROLS and attrs.get(u'id') is None)):
        made = dom_id(tag, attrs, bind)
        if made:
            attrs[u'id'] = settings['domid_format'] % made
    on, forced = effective('auto_for', attrs, settings)
    if on and bind is not None and (forced or (tag == u'label' and attrs.get(u'for') is None)):
        made = dom_id(tag, attrs, bind)
        if made:
            attrs[u'for'] = settings['domid_format'] % made
    on, forced = effective('auto_tabindex', attrs, settings)
    if on and settings['tabindex'] != 0 and (forced or (tag in CONTROLS and attrs.get(u'tabindex') is None)):
        attrs[u'tabindex'] = unicode(settings['tabindex'])
        if settings['tabindex'] > 0:
            settings['tabindex'] += 1
    on, forced = effective('auto_filter', attrs, settings)
    if on:
        for fn in settings['filters']:
            body = fn.model(tag, attrs, body, bind)
    return body


# ---------------------------------------------------------------- hostile texts

PIECES = (u'<', u'>', u'"', u"'", u'&', u'&amp;', u'&lt;', u'&quot;', u'&#60;', u']]>', u'-->', u'<!--', u'</textarea>', u'<script>', u'/>',
          u' onload="x"', u'\n', u'\t', u'\r', u'\r\n', u'\xe9', u'\U0001f600', u'=', u'`', u'&copy', u'&#', u' ', u'a', u'b', u'1', u'\u2028',
          u'<?', u'%s', u'${x}', u'{{', u'\\', u'\x85', u'\xa0', u'checked', u'</option>', u'"/>')


def hostile(rng, longest=6):
    return u''.join(rng.choice(PIECES) for _ in xrange(rng.randrange(0, longest + 1)))
