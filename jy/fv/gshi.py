# -*- coding: utf-8 -*-
"""Genshi templates on Jython: genshi's own parser needs an expat that Jython
lacks, so templates are parsed by Java and handed to genshi as a stream, and
genshi's compiler of expressions does not work on Jython's syntax trees, so
the expressions are compiled here (to the same look-ups).  The rest of genshi
and all of flatland.out.genshi is the real code."""
import ast

from java.io import StringReader
from java.lang import String as JString
from javax.xml.parsers import SAXParserFactory
from org.xml.sax import InputSource
from org.xml.sax.helpers import DefaultHandler

from genshi.core import Attrs, END, END_NS, QName, START, START_NS, Stream, TEXT
from genshi.template import MarkupTemplate

import genshi.template.directives
import genshi.template.eval

from flatland.out.genshi import setup


class Source(object):
    """Source of an expression with genshi's look-ups of names, attributes
    and items."""

    def visit(self, node):
        return getattr(self, type(node).__name__)(node)

    def Expression(self, node):
        return self.visit(node.body)

    def Name(self, node):
        if node.id in ('None', 'True', 'False'):
            return node.id
        return '_lookup_name(__data__, %r)' % node.id

    def Attribute(self, node):
        return '_lookup_attr(%s, %r)' % (self.visit(node.value), node.attr)

    def Subscript(self, node):
        return '_lookup_item(%s, (%s,))' % (self.visit(node.value), self.visit(node.slice.value))

    def Str(self, node):
        return repr(node.s)

    def Num(self, node):
        return repr(node.n)

    def BinOp(self, node):
        return '(%s %s %s)' % (self.visit(node.left), {'Add': '+', 'Mod': '%', 'Mult': '*'}[type(node.op).__name__], self.visit(node.right))

    def List(self, node):
        return '[%s]' % ', '.join(map(self.visit, node.elts))

    def Tuple(self, node):
        return '(%s,)' % ', '.join(map(self.visit, node.elts))

    def Call(self, node):
        args = map(self.visit, node.args) + ['%s=%s' % (k.arg, self.visit(k.value)) for k in node.keywords]
        return '%s(%s)' % (self.visit(node.func), ', '.join(args))


def parse_source(source, mode='eval'):
    return ast.parse(source.strip(), '<expression>', mode)


def compile_expression(node, source=None, mode='eval', filename=None, lineno=-1, xform=None):
    assert mode == 'eval', mode
    return compile(Source().visit(node), '<expression %s>' % source.encode('unicode_escape'), 'eval')


genshi.template.eval._parse = genshi.template.directives._parse = parse_source
genshi.template.eval._compile = compile_expression

HEAD = (u'<div xmlns="http://www.w3.org/1999/xhtml" xmlns:x="urn:x" xmlns:form="http://ns.discorporate.us/flatland/genshi" '
        u'xmlns:py="http://genshi.edgewall.org/">')


def qname(uri, local):
    return QName(u'{%s}%s' % (uri, local) if uri else local)


class Events(DefaultHandler):

    def __init__(self):
        self.events = []

    def add(self, kind, data):
        self.events.append((kind, data, (None, 1, 0)))

    def startPrefixMapping(self, prefix, uri):
        self.add(START_NS, (prefix, uri))

    def endPrefixMapping(self, prefix):
        self.add(END_NS, prefix)

    def startElement(self, uri, local, tag, attrs):
        pairs = [(qname(attrs.getURI(i), attrs.getLocalName(i)), attrs.getValue(i)) for i in range(attrs.getLength())]
        self.add(START, (qname(uri, local), Attrs(pairs)))

    def endElement(self, uri, local, tag):
        self.add(END, qname(uri, local))

    def characters(self, chars, start, length):
        text = JString(chars, start, length).toString()
        if self.events and self.events[-1][0] is TEXT:
            text = self.events.pop()[1] + text
        self.add(TEXT, text)

    def error(self, exc):
        raise exc

    def fatalError(self, exc):
        raise exc

    def warning(self, exc):
        pass


FACTORY = SAXParserFactory.newInstance()
FACTORY.setNamespaceAware(True)


def template(text):
    handler = Events()
    FACTORY.newSAXParser().parse(InputSource(StringReader(HEAD + text + u'</div>')), handler)
    made = MarkupTemplate(Stream(handler.events))
    setup(made)
    return made


def render(text, method, **context):
    """What the template text becomes, without the wrapper around it."""
    return body(whole(template(text), method, context))


def whole(template, method, context):
    # the cache of the serializer repeats the namespaces of one tag in others
    return template.generate(**context).render(method, encoding=None, strip_whitespace=False, cache=False)


def body(out):
    return u'' if out.endswith(u'/>') and u'</div>' not in out else out[out.index(u'>') + 1:out.rindex(u'</div>')]
