# -*- coding: utf-8 -*-
"""What every check runs on: seeded cases, verdicts, and the account of what
the monitors observed."""
import hashlib
import os
import random
import sys
import time
import traceback

HANG_SECONDS = 150
ENOUGH_SECONDS = 300


class Violation(Exception):
    def __init__(self, mechanism, message):
        Exception.__init__(self, mechanism, message)
        self.mechanism, self.message = mechanism, message


def digest(obj):
    if not isinstance(obj, str):
        obj = repr(obj)
    return hashlib.md5(obj).hexdigest()[:15]


def short(obj, limit=400):
    try:
        text = repr(obj)
    except Exception as exc:
        text = '<repr raised %s>' % type(exc).__name__
    if isinstance(text, unicode):
        text = text.encode('ascii', 'backslashreplace')
    text = text.decode('latin-1')
    return text if len(text) <= limit else text[:limit] + u'...'


def as_json(text):
    """Plain text of whatever a message was made from."""
    if isinstance(text, str):
        return text.decode('utf-8', 'replace')
    if type(text) is not unicode:
        return short(text, 2000)
    return text


class Context(object):
    """One worker's verdicts, counters and samples."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counters, self.distinct = {}, {}
        self.samples, self.violations, self.harness_errors = [], [], []
        self.evaluations = 0
        self.current, self.since, self.finished = None, time.time(), False
        self.trace = []
        self.stuck = False      # blocked threads stay behind
        self.began = time.time()

    def enough(self):
        """True when further cases would not change the verdict."""
        return self.stuck or len(self.violations) >= 12 or (
            self.violations and time.time() - self.began > ENOUGH_SECONDS)

    # -- the cases

    def rng(self, case):
        key = '%s:%s:%s' % (self.pid, self.seed, case)
        return random.Random(int(hashlib.md5(key).hexdigest()[:12], 16))

    def run(self, case, fn):
        self.current, self.since = case, time.time()
        self.trace = []
        self.evaluations += 1
        try:
            fn(self, self.rng(case))
        except Violation as v:
            self.record(v.mechanism, v.message)
        except:
            kind, value = sys.exc_info()[:2]
            stack = traceback.format_exc()
            self.record('unexpected %s' % getattr(kind, '__name__', kind),
                        (short(value) + u'\n' +
                         stack.decode('utf-8', 'replace')
                         if isinstance(stack, str) else stack)[-2500:])
        self.current = None

    def record(self, mechanism, message):
        self.violations.append({
            'case': str(self.current), 'mechanism': as_json(mechanism),
            'message': as_json(message),
            'trace': [as_json(t) for t in list(self.trace)[-80:]]})

    # -- verdicts

    def fail(self, mechanism, message=u''):
        if isinstance(message, str):
            message = message.decode('utf-8', 'replace')
        raise Violation(mechanism, message)

    def check(self, condition, mechanism, message=u''):
        self.count('assertions')
        if not condition:
            if callable(message):
                message = message()
            self.fail(mechanism, message)

    def eq(self, got, want, mechanism, what=u''):
        self.count('assertions')
        if not (got == want and type_alike(got, want)):
            self.fail(mechanism, u'%s: got %s, expected %s' % (
                what, short(got), short(want)))

    def same(self, got, want, mechanism, what=u''):
        self.count('assertions')
        if got is not want:
            self.fail(mechanism, u'%s: %s is not %s' % (
                what, short(got), short(want)))

    def raises(self, kinds, fn, mechanism, what=u''):
        self.count('assertions')
        try:
            result = fn()
        except kinds as exc:
            return exc
        except Violation:
            raise
        except Exception as exc:
            self.fail(mechanism, u'%s: raised %s %s' % (
                what, type(exc).__name__, short(exc)))
        self.fail(mechanism, u'%s: returned %s instead of raising' % (
            what, short(result)))

    # -- the account

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, category, obj):
        self.distinct.setdefault(category, set()).add(digest(obj))

    def nontrivial(self, obj):
        self.seen('nontrivial', obj)

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(short(obj, 700) if not isinstance(
                obj, unicode) else unicode(obj)[:700])

    def log(self, *items):
        self.trace.append(u' '.join(
            i if isinstance(i, unicode) else short(i, 300) for i in items))

    def result(self, module):
        return {
            'evaluations': self.evaluations,
            'counters': self.counters,
            'distinct': dict((k, sorted(v))
                             for k, v in self.distinct.items()),
            'samples': self.samples,
            'violations': self.violations,
            'harness_errors': self.harness_errors,
            'rule': ' '.join(module.RULE.split()),
            'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
            'require': module.REQUIRE[self.tier]
            if self.tier in module.REQUIRE else module.REQUIRE,
        }


def type_alike(a, b):
    """True unless one is text and the other is not, or bool against int."""
    for kind in (bool, float):
        if isinstance(a, kind) != isinstance(b, kind):
            return False
    return True


def watch(ctx, report):
    """Turn a case that never ends into a verdict (daemon thread)."""
    while not ctx.finished:
        time.sleep(1.0)
        case, since = ctx.current, ctx.since
        if case is not None and time.time() - since > HANG_SECONDS:
            ctx.record('does not terminate',
                       u'case still running after %d seconds' % HANG_SECONDS)
            ctx.finished = True
            report()
            os._exit(0)
