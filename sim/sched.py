"""Cooperative scheduler for real threads: the simulator decides, between any
two lines (or bytecodes) of the code under test, which thread goes on.

The code under test is instrumented (sys.monitoring) before the threads start
and not changed while they run. Exactly one thread has the baton; at each
instrumented point it may be told to hand it over.
The list of hand-overs is part of the plan, so an execution can be repeated.
"""
import gc
import sys
import threading
import time
import types

from . import env

_SLEEP = time.sleep
_ROOT = env.SRC


_CODES = None
_TOOL = 4
_MON = sys.monitoring


def _codes():
    """All code objects of the code under test."""
    global _CODES
    if _CODES is None:
        todo, seen = [], {}
        for f in gc.get_objects():
            if type(f) is types.FunctionType:
                todo.append(f.__code__)
        while todo:
            c = todo.pop()
            if id(c) in seen or not c.co_filename.startswith(_ROOT):
                continue
            seen[id(c)] = c
            todo += [x for x in c.co_consts if type(x) is types.CodeType]
        _CODES = list(seen.values())
    return _CODES


def instrument(opcodes, callback):
    ev = _MON.events
    if callback is None:
        for c in _codes():
            _MON.set_local_events(_TOOL, c, 0)
        for e in (ev.LINE, ev.INSTRUCTION):
            _MON.register_callback(_TOOL, e, None)
        _MON.free_tool_id(_TOOL)
        return
    e = ev.INSTRUCTION if opcodes else ev.LINE
    _MON.use_tool_id(_TOOL, "qtrl-sim")
    _MON.register_callback(_TOOL, e, callback)
    for c in _codes():
        _MON.set_local_events(_TOOL, c, e)


class Stopped(BaseException):
    """The run is over (violation or time limit): unwind this thread."""


class Sched:
    def __init__(self, switches, opcodes=False, swap=None, note=None,
                 hot=None):
        # hot [m, r, period, max]: hand over at every period-th execution of
        # a line whose number is r modulo m, so that a few places in the code
        # are preempted nearly always (what needs a switch at one particular
        # line is out of reach for switches at random times)
        self.hot = hot
        self.hot_n = 0
        self.switches = [tuple(s) for s in switches]  # (gap, target)
        self.opcodes = opcodes
        self.swap = swap  # swap(i, j): exchange the per-thread environment
        self.note = note  # note(i, j, where_i)
        self.steps = 0
        self.k = 0
        self.next_at = self.switches[0][0] if self.switches else None
        self.current = None
        self.alive = []
        self.stop = False
        self.forced = 0
        self.done_switches = 0

    # -- in the threads ----------------------------------------------------
    def _event(self, code, where):
        i = getattr(self.tls, "i", None)
        if i is not None:
            self.point(i, code, where)

    def point(self, i, code, where):
        if self.stop:
            raise Stopped()
        if self.current != i:
            # resumed after it was passed over while blocked on something
            self._wait(i)
        self.steps += 1
        h = self.hot
        if h and (where + len(code.co_name)) % h[0] == h[1]:
            self.hot_n += 1
            if self.hot_n % h[2] == 0 and self.hot_n < h[3]:
                self._hand_over(i, code, self.hot_n // 3)
                return
        if self.next_at is None or self.steps < self.next_at:
            return
        gap, target = self.switches[self.k]
        self.k += 1
        if self.k < len(self.switches):
            self.next_at = self.steps + self.switches[self.k][0]
        else:
            self.next_at = None
        self._hand_over(i, code, target)

    def _hand_over(self, i, code, target):
        others = [j for j in self.alive if j != i]
        if not others:
            return
        j = others[target % len(others)]
        self.done_switches += 1
        if self.note:
            self.note(i, j, code.co_name)
        self._give(i, j)
        self._wait(i)

    def _give(self, i, j):
        if self.swap:
            self.swap(i, j)
        self.current = j
        self.go[j].set()

    def _wait(self, i):
        while self.current != i:
            self.go[i].wait()
            self.go[i].clear()
            if self.stop:
                raise Stopped()

    def _thread(self, i, fn):
        try:
            self._wait(i)
            self.tls.i = i
            try:
                self.results[i] = fn()
            finally:
                self.tls.i = None
        except Stopped:
            return
        except BaseException as e:
            self.errors[i] = e
        finally:
            with self.lock:
                self.alive.remove(i)
                if not self.stop:
                    if self.errors[i] is not None:
                        self.stop = True
                        for e in self.go:
                            e.set()
                    elif self.alive:
                        if self.current == i:
                            self._give(i, self.alive[0])
                if not self.alive or self.stop:
                    self.finished.set()

    # -- in the main thread ------------------------------------------------
    def run(self, fns):
        n = len(fns)
        self.results = [None] * n
        self.errors = [None] * n
        self.go = [threading.Event() for _ in fns]
        self.lock = threading.Lock()
        self.finished = threading.Event()
        self.alive = list(range(n))
        self.tls = threading.local()
        ts = [
            threading.Thread(target=self._thread, args=(i, f), daemon=True)
            for i, f in enumerate(fns)
        ]
        instrument(self.opcodes, self._event)
        for t in ts:
            t.start()
        try:
            if self.swap:
                self.swap(None, 0)
            self.current = 0
            self.go[0].set()
            last = -1
            while not self.finished.wait(20.0):
                if self.steps == last and not self.stop:
                    # the holder of the baton waits for another thread (a
                    # lock): let that one run
                    i = self.current
                    others = [j for j in list(self.alive) if j != i]
                    if others:
                        self.forced += 1
                        self._give(i, others[self.forced % len(others)])
                last = self.steps
        finally:
            self.stop = self.stop or bool(self.alive)
            for e in self.go:
                e.set()
            for t in ts:
                t.join(5.0)
            instrument(None, None)
        for e in self.errors:
            if e is not None:
                raise e
        return self.results
