# -*- coding: utf-8 -*-
"""An independent walk of element trees by list and dict access alone."""


class Node(object):
    def __init__(self, el, key, parent, spec):
        self.el, self.key, self.parent, self.spec, self.kids = el, key, parent, spec, []
        self.chain = (parent.chain if parent else ()) + (self,)


def walk(el, s, key=None, parent=None):
    node = Node(el, key, parent, s)
    if isinstance(el, dict):
        for k in el:
            node.kids.append(walk(el[k], s.field(k) if s is not None and s.mapping else None, k, node))
    elif isinstance(el, list):
        for i in xrange(len(el)):
            node.kids.append(walk(el[i], s.member if s is not None else None, unicode(i), node))
    return node


def nodes_of(top):
    out = [top]
    for n in out:
        out.extend(n.kids)
    return out
