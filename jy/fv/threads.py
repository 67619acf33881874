# -*- coding: utf-8 -*-
"""Threads that start together, are disturbed at random lines of flatland's
code, and leave a shared order of events (Jython threads run in parallel)."""
import random
import sys
import threading
import time
import traceback
import weakref

from java.util.concurrent import CountDownLatch, TimeUnit
from java.lang import Thread as JThread

# Jython starts its reaper of weak references with the first of them, and
# breaks when two threads make that one together (GlobalRef
# .createReaperThreadIfAbsent): make it now, flatland is not to blame for it.


def _target():
    pass


FIRST_WEAK_REFERENCE = weakref.ref(_target, lambda r: None)

PATIENCE = 60
MOST_DELAYS = 1200      # per thread


class Barrier(object):
    """Every thread passes as close together as it gets."""

    def __init__(self, n):
        self.ready, self.go = CountDownLatch(n), CountDownLatch(1)

    def wait(self):
        self.ready.countDown()
        self.go.await(PATIENCE, TimeUnit.SECONDS)

    def release(self):
        self.ready.await(PATIENCE, TimeUnit.SECONDS)
        self.go.countDown()


class Crew(object):
    """Runs one function per thread; every function gets its Mate."""

    def __init__(self, ctx, rng, files=('flatland',), density=None):
        self.ctx, self.events, self.files = ctx, [], files
        self.density = density if density is not None else rng.choice((0, 0, .02, .1, .3))
        self.seeds = rng.random()
        self.delays = 0

    def run(self, functions):
        barrier = Barrier(len(functions))
        mates = [Mate(self, i, fn, barrier) for i, fn in enumerate(functions)]
        for m in mates:
            m.start()
        barrier.release()
        progress, since = None, time.time()
        while True:
            alive = [m.index for m in mates if m.isAlive()]
            if not alive:
                break
            mates[alive[0]].join(.5)
            now = (len(alive), len(self.events), [m.delays for m in mates])
            if now != progress:
                progress, since = now, time.time()
            elif time.time() - since > PATIENCE:
                break
        if alive:
            self.ctx.stuck = True
            self.ctx.fail('threads do not terminate', u'threads %r made no progress for %d seconds; last events %r' % (
                alive, PATIENCE, self.events[-10:]))
        order = [e[0] for e in list(self.events)]
        switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
        self.ctx.count('threads run', len(mates))
        self.ctx.count('events logged', len(order))
        self.ctx.count('switches between threads', switches)
        self.ctx.count('injected delays', sum(m.delays for m in mates))
        self.ctx.seen('interleavings', order)
        if switches >= len(mates):
            self.ctx.count('runs that interleaved')
        return mates


class Mate(threading.Thread):
    def __init__(self, crew, index, fn, barrier):
        threading.Thread.__init__(self)
        self.setDaemon(True)
        self.crew, self.index, self.fn, self.barrier = crew, index, fn, barrier
        self.log, self.result, self.error, self.delays = [], None, None, 0
        self.rng = random.Random('%r:%d' % (crew.seeds, index))

    def event(self, name=None):
        self.crew.events.append((self.index, name))

    def trace(self, frame, event, arg):
        if self.delays >= MOST_DELAYS:
            return None
        for part in self.crew.files:
            if part in frame.f_code.co_filename:
                return self.line
        return None

    def line(self, frame, event, arg):
        if self.delays >= MOST_DELAYS:
            return None
        if event == 'line' and self.rng.random() < self.crew.density:
            self.delays += 1
            if self.rng.random() < .3:
                time.sleep(self.rng.random() * .002)
            else:
                getattr(JThread, 'yield')()
        return self.line

    def run(self):
        self.barrier.wait()
        if self.crew.density:
            sys.settrace(self.trace)
        try:
            self.result = self.fn(self)
        except:
            self.error = (sys.exc_info()[1], traceback.format_exc())
        finally:
            sys.settrace(None)

    def value(self, ctx, mechanism):
        """The result; an exception is a violation."""
        if self.error is not None:
            ctx.fail(mechanism, u'thread %d raised %r\n%s' % (
                self.index, self.error[0], unicode(self.error[1], 'utf-8', 'replace')[-1500:]))
        return self.result
