# -*- coding: utf-8 -*-
"""Element trees with scripted validators, and a model of their validation."""
import flatland as fl
from fv import gen
from fv.walk import walk, nodes_of

Skip, SkipAll, SkipAllFalse, Unevaluated = fl.Skip, fl.SkipAll, fl.SkipAllFalse, fl.Unevaluated

TRUE = (True, 1, u'yes', object(), [0], 2L)
FALSE = (False, 0, None, SkipAllFalse)


class Boom(Exception):
    pass


class V(object):
    """A validator that does as the plan says and logs."""

    def __init__(self, world, vid):
        self.world, self.vid = world, vid

    def __call__(self, element, state):
        w = self.world
        w.log.append(('call', self.vid, id(element)))
        w.states.append(state)
        outcome = w.plan[(id(element), self.vid)]
        if outcome is Boom:
            raise Boom(self.vid)
        return outcome

    def __repr__(self):
        return 'v%d' % self.vid


def outcome(rng, weights):
    r = rng.random()
    if r < weights[0]:
        return rng.choice(TRUE)
    if r < weights[1]:
        return Skip
    if r < weights[2]:
        return SkipAll
    if r < weights[3]:
        return Boom
    return rng.choice(FALSE)


class World(object):
    def __init__(self, rng, depth=3, width=3):
        self.rng, self.log, self.states, self.plan, self.vs = rng, [], [], {}, []
        self.s = gen.spec(rng, rng.choice((1, 2, depth)), root=True, width=width)
        for sub in self.s.walk():
            if rng.random() < .55:
                sub.opts['validators'] = self.some()
            if not sub.scalar and rng.random() < .45:
                sub.opts['descent_validators'] = self.some()
            if rng.random() < .4:
                sub.opts['optional'] = True
        self.root = self.s.cls()
        if rng.random() < .9:
            gen_value = gen.good_value(rng, self.s, blank=.35)
            self.root.set(gen_value)
        if rng.random() < .3:
            gen.spoil_scalars(rng, self.root, self.s)
        self.refresh()
        if rng.random() < .3:
            # validators of single elements
            for n in self.nodes:
                if rng.random() < .2:
                    n.el.validators = self.some()

    def some(self):
        vs = []
        for _ in xrange(self.rng.choice((0, 1, 1, 2, 3))):
            if self.vs and self.rng.random() < .15:
                vs.append(self.rng.choice(self.vs))
            else:
                vs.append(V(self, len(self.vs)))
                self.vs.append(vs[-1])
        return self.rng.choice((list, tuple))(vs)

    def refresh(self):
        self.top = walk(self.root, self.s)
        self.nodes = nodes_of(self.top)
        for n in self.nodes:
            if n.spec is None:      # parts of a date
                n.spec = gen.Spec('Integer', n.key)
        self.valid = dict((id(n.el), n.el.valid) for n in self.nodes)

    def schedule(self, booms=True):
        """New outcomes for everything."""
        rng = self.rng
        weights = rng.choice(((.6, .7, .8, .84), (.95, .96, .98, .985), (.2, .3, .6, .6), (.75, .85, .85, .85), (.9, .9, .9, .93)))
        if not booms:
            weights = weights[:3] + weights[2:3]
        self.plan = dict(((id(n.el), v.vid), outcome(rng, weights)) for n in self.nodes for v in self.vs)

    # -- the model

    def run(self, n, validators, log):
        el = n.el
        if el.is_empty and el.optional:
            return True, None
        if not validators:
            log.append(('empty', None, id(el)))
            return not el.is_empty, None
        for v in validators:
            log.append(('call', v.vid, id(el)))
            out = self.plan[(id(el), v.vid)]
            if out is Boom:
                raise Boom(v.vid)
            log[-1] = log[-1] + (out,)
            if out is Skip:
                return True, out
            if out is SkipAll:
                return True, out
            if not out:
                return False, out
        return True, None

    def expect(self, n, recurse=True):
        """(log, result or Boom); updates self.valid as validate() should."""
        log = []
        try:
            return log, self.walk_through(n, recurse, log)
        except Boom:
            return log, Boom

    def walk_through(self, n, recurse, log):
        visited, queue = [], [n]
        failed = set()
        for x in queue:
            visited.append(x)
            scalar = x.spec.scalar
            out = None
            if scalar:
                ok, out = self.run(x, x.el.validators, log)
            elif x.el.descent_validators:
                ok, out = self.run(x, x.el.descent_validators, log)
            else:
                ok = Unevaluated
            self.valid[id(x.el)] = ok
            if ok is False:
                failed.add(id(x.el))
            if recurse and out is not SkipAll and out is not SkipAllFalse:
                queue.extend(x.kids)
        for x in reversed(visited):
            if not x.spec.scalar:
                ok, out = self.run(x, x.el.validators, log)
                if id(x.el) not in failed:
                    self.valid[id(x.el)] = ok
                    if ok is False:
                        failed.add(id(x.el))
        return not failed
