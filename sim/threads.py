"""Caller threads under a scheduler that owns every interleaving.

Real threads, but exactly one runs at a time: all others are parked.  A thread
gives up control only at a line of the code under test, and only when the
explicit schedule says so: a list of (lines to run, next thread).  Interrupts
(an exception raised at a given line of a given thread) come from the same
schedule, so an execution is a pure function of the schedule and the code.
"""

from __future__ import annotations

import os
import sys
import threading

from sim import boot


class Interrupted(BaseException):
    """injected: the client was interrupted in the middle of a call"""


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, switches, interrupts, can_yield):
        self.switches = [list(s) for s in switches]
        self.interrupts = {(t, n): True for t, n in interrupts}
        self.can_yield = can_yield
        self.src = os.path.realpath(boot.SRC) + os.sep
        self.events = []  # the interleaving: (thread, lines run) slices
        self.lines = {}
        self.fired = 0
        self.context_switches = 0
        self.inside_call_switches = 0

    def run(self, bodies):
        n = len(bodies)
        self.n = n
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.lines = {i: 0 for i in range(n)}
        self.slice = 0
        self.budget = self.switches.pop(0) if self.switches else None
        self.all_done = threading.Event()
        self.errors = {}
        ts = [threading.Thread(target=self._main, args=(i, b), daemon=True) for i, b in enumerate(bodies)]
        for t in ts:
            t.start()
        first = 0
        self.current = first
        self.go[first].release()
        if not self.all_done.wait(timeout=600):
            raise Deadlock("the simulated threads did not finish")
        for t in ts:
            t.join(timeout=10)
        for i in sorted(self.errors):
            raise self.errors[i]

    def _main(self, i, body):
        self.go[i].acquire()
        sys.settrace(self._global)
        try:
            body()
        except BaseException as exc:
            self.errors[i] = exc
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            self.events.append((i, self.slice, "end"))
            self.slice = 0
            if self.alive:
                nxt = min(self.alive)
                self.current = nxt
                self.go[nxt].release()
            else:
                self.all_done.set()

    def _global(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(self.src):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event != "line":
            return self._local
        i = self.current
        self.lines[i] += 1
        self.slice += 1
        if (i, self.lines[i]) in self.interrupts:
            del self.interrupts[i, self.lines[i]]
            self.fired += 1
            raise Interrupted(f"client {i} interrupted")
        if self.budget is not None and self.slice >= self.budget[0] and self.can_yield():
            self._switch(i, self.budget[1])
        return self._local

    def _switch(self, i, to):
        self.budget = self.switches.pop(0) if self.switches else None
        live = sorted(self.alive)
        nxt = live[to % len(live)]
        self.events.append((i, self.slice))
        self.slice = 0
        if nxt == i:
            return
        self.context_switches += 1
        self.current = nxt
        self.go[nxt].release()
        self.go[i].acquire()


