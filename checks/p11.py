# -*- coding: utf-8 -*-
"""P11: signals of validation against the log of validator calls."""
import flatland as fl
from flatland.signals import validator_validated
from flatland.schema.base import NotEmpty
from fv import gen
from fv.valid import World, Boom

CASES = {'quick': 2600, 'thorough': 80000}
RULE = '''A case validates a tree with scripted validators (as P10) 3-7 times while receivers (functions, methods, for any sender or for
one validator or NotEmpty, weak and strong) are connected and disconnected in between; every receiver's log must be the model's sequence of
calls it listens to, each signal directly behind its call. The same tree is validated with and without receivers and outcomes compared.
In some cases the validators themselves connect and disconnect receivers. Non-trivial: distinct (shape, signal sequence) runs with at least two signals.'''
ASSUMPTIONS = ['Receivers do not raise and do not connect or disconnect others while a signal is sent (validators do).']
REQUIRE = {'nontrivial': 2000, 'signals': 15000, 'runs': 8000, 'quiet runs': 800, 'NotEmpty signals': 3000, 'sender receivers': 1500,
           'raising validators': 150, 'disconnects': 900, 'compared without receivers': 1500, 'connected midway': 300}


class Receiver(object):
    """Records the signals it gets, in one shared log."""
    def __init__(self, log, rid):
        self.log, self.rid = log, rid

    def got(self, sender, **kw):
        self.log.append(('signal', self.rid, sender, kw))


def connect(rng, w, rid):
    """(sender or None, receiver callable, keep alive)"""
    sender = None
    if rng.random() < .45:
        sender = rng.choice(w.vs + [NotEmpty])
    r = Receiver(w.log, rid)
    if rng.random() < .5:
        fn = r.got
    else:
        log = w.log

        def fn(sender, element, state, result):
            log.append(('signal', rid, sender, dict(element=element, state=state, result=result)))
    weak = rng.random() < .5
    if sender is None:
        validator_validated.connect(fn, weak=weak)
    else:
        validator_validated.connect(fn, sender=sender, weak=weak)
    return [rid, sender, fn, r]


def midway(ctx, rng):
    """Validators connect and disconnect receivers while the validation goes on."""
    log, want, connected, counter = [], [], [], [0]

    def receiver():
        counter[0] += 1
        rid = counter[0]

        def fn(sender, element, state, result):
            log.append((rid, sender, id(element), state, result))
        return rid, fn

    def scripted(action, outcome):
        def validator(element, state):
            if action == 'connect':
                rid, fn = receiver()
                validator_validated.connect(fn, weak=False)
                connected.append((rid, fn))
            elif action == 'disconnect' and connected:
                validator_validated.disconnect(connected.pop(0)[1])
            for rid, _ in connected:
                want.append((rid, validator, id(element), state, outcome))
            return outcome
        return validator

    def some(k):
        return [scripted(rng.choice(('connect', 'disconnect', None, None)), rng.choice((True, True, True, 1, False, None)))
                for _ in xrange(rng.randrange(1, k))]
    kids = [fl.String.named(u'k%d' % i).validated_by(*some(5)) for i in xrange(rng.randrange(1, 4))]
    schema = fl.Dict.of(*kids).validated_by(*some(4)).descent_validated_by(*some(3))
    el = schema(dict((k.name, u'x') for k in kids))
    try:
        for run in xrange(rng.randrange(1, 4)):
            state = object()
            el.validate(state)
            ctx.check(sorted(log) == sorted(want), 'signals while receivers come and go', lambda: u'%r, expected %r' % (log, want))
            ctx.check([e[1:] for e in log] == [e[1:] for e in want], 'order of signals while receivers come and go',
                      lambda: u'%r, expected %r' % (log, want))
            ctx.count('connected midway')
    finally:
        validator_validated._clear_state()
    ctx.nontrivial(('midway', [e[0] for e in want], len(kids)))


def case(ctx, rng):
    if gen.chance(rng, .15):
        return midway(ctx, rng)
    w = World(rng)
    if len(w.nodes) > 60:
        return
    receivers, next_id = [], 0
    try:
        for run in xrange(rng.randrange(3, 8)):
            if receivers and rng.random() < .35:
                rid, sender, fn, _ = receivers.pop(rng.randrange(len(receivers)))
                if sender is None:
                    validator_validated.disconnect(fn)
                else:
                    validator_validated.disconnect(fn, sender=sender)
                ctx.count('disconnects')
            while len(receivers) < 3 and rng.random() < .6:
                receivers.append(connect(rng, w, next_id))
                next_id += 1
            w.schedule()
            n = w.top if rng.random() < .6 else rng.choice(w.nodes)
            recurse = rng.random() < .85
            state = rng.choice((None, {u'a': 1}, object()))
            want_log, want = w.expect(n, recurse)
            del w.log[:], w.states[:]
            try:
                got = n.el.validate(state, recurse=recurse)
            except Boom:
                got = Boom
            what = u'%r from %r' % (w.s, [c.key for c in n.chain])
            audit(ctx, w, receivers, want_log, state, what)
            ctx.check(got is want, 'result of validate()', lambda: u'%s: %r, expected %r' % (what, got, want))
            flags = [x.el.valid for x in w.nodes]
            for x in w.nodes:
                ctx.check(x.el.valid is w.valid[id(x.el)] or x.el.valid == w.valid[id(x.el)], 'valid flag', what)
            ctx.count('runs')
            if not receivers:
                ctx.count('quiet runs')
            elif rng.random() < .3:
                # the same without any receiver
                log = [e for e in w.log if e[0] == 'call']
                saved = list(receivers)
                for rid, sender, fn, _ in receivers:
                    if sender is None:
                        validator_validated.disconnect(fn)
                    else:
                        validator_validated.disconnect(fn, sender=sender)
                receivers = []
                validator_validated._clear_state()
                del w.log[:]
                try:
                    again = n.el.validate(state, recurse=recurse)
                except Boom:
                    again = Boom
                ctx.check(again is got and w.log == log and [x.el.valid for x in w.nodes] == flags,
                          'receivers change the validation', lambda: u'%s: %r / %r' % (what, again, got))
                ctx.count('compared without receivers')
            if len(want_log) >= 2 and receivers:
                ctx.nontrivial((repr(w.s), [(e[0], e[1], repr(e[3:])[:20]) for e in want_log], len(receivers)))
    finally:
        validator_validated._clear_state()
    ctx.sample(u'%r: %r' % (w.s, [e[:2] for e in w.log][:40]))


def audit(ctx, w, receivers, want_log, state, what):
    """w.log must be the calls of the model, each followed by its signals."""
    log, pos = list(w.log), 0
    for e in want_log:
        if e[0] == 'call':
            ctx.check(pos < len(log) and log[pos] == e[:3], 'validators called', lambda: u'%s: %r, expected %r' % (
                what, log[pos:pos + 1], e))
            pos += 1
            if len(e) == 3:
                ctx.count('raising validators')
                break
            sender, result = w.vs[e[1]], e[3]
        else:
            sender = NotEmpty
            result = not element(w, e[2]).is_empty
        due = dict((rid, fn) for rid, wanted, fn, _ in receivers if wanted is None or wanted is sender)
        while due:
            ctx.check(pos < len(log) and log[pos][0] == 'signal', 'a signal is missing', lambda: u'%s: after %r of %r: %r' % (
                what, e, want_log, log[pos:pos + 1]))
            _, rid, got_sender, kw = log[pos]
            ctx.check(rid in due, 'a signal is sent twice or to the wrong receiver', lambda: u'%s: %r' % (what, e))
            del due[rid]
            ctx.check(got_sender is sender, 'sender', lambda: u'%s: %r, expected %r' % (what, got_sender, sender))
            ctx.check(sorted(kw) == ['element', 'result', 'state'], 'arguments of the signal', what)
            ctx.check(kw['element'] is element(w, e[2]) and kw['state'] is state, 'element or state of the signal', what)
            ctx.check(kw['result'] is result, 'result of the signal', lambda: u'%s: %r, expected %r' % (
                what, kw['result'], result))
            ctx.count('signals')
            if sender is NotEmpty:
                ctx.count('NotEmpty signals')
            pos += 1
        if any(r[1] is not None for r in receivers):
            ctx.count('sender receivers')
    ctx.check(pos == len(log), 'calls or signals beyond the expected', lambda: u'%s: %r' % (what, log[pos:]))


def element(w, i):
    for n in w.nodes:
        if id(n.el) == i:
            return n.el


def lifetimes(ctx, rng):
    """Weak receivers go with their object, strong ones stay."""
    log = []
    el = fl.String(u'x')
    try:
        r = Receiver(log, 1)
        validator_validated.connect(r.got)
        el.validate()
        ctx.eq(len(log), 1, 'a weakly connected receiver')
        ctx.check(log[0][2] is NotEmpty and log[0][3] == dict(element=el, state=None, result=True), 'signal')
        validator_validated.disconnect(r.got)
        el.validate()
        ctx.eq(len(log), 1, 'a disconnected receiver')
        with validator_validated.connected_to(r.got):
            el.validate(u'state')
        el.validate()
        ctx.eq(len(log), 2, 'a temporarily connected receiver')
        ctx.eq(log[1][3]['state'], u'state', 'state')
        validator_validated.connect(Receiver(log, 2).got, weak=False)
        fl.Dict.of(fl.String.named(u'a').using(optional=True), fl.String.named(u'b'))().validate()
        ctx.eq(len(log), 4, 'a strongly connected receiver')
        ctx.eq([e[3]['result'] for e in log[2:]], [False, True], 'signals of fields and dict')
        # descent without validators emits nothing, recurse=False one
        del log[:]
        fl.List.of(fl.String)([u'a', u'']).validate(recurse=False)
        ctx.eq([e[3]['result'] for e in log], [True], 'recurse=False')
    finally:
        validator_validated._clear_state()


FIXED = {'lifetimes': lifetimes}
