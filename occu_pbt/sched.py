"""Schedules and interruptions at the granularity of source lines of the code under test.

Nothing here depends on how the code is written: a point is a fraction of the line events that a
calculation (or run) of the current working tree produces.
"""
import os
import sys
import threading
import time

from . import env

STUCK_S = 2.0       # a thread without progress may be waiting for another one


def _ours(frame, write=False):
    name = frame.f_code.co_filename
    if write and frame.f_code.co_name == 'savetxt':
        return True
    return name.startswith(os.path.join(os.path.abspath(env.REPO), 'occuprob') + os.sep)


def traced(call, on_line, write=False):
    """call() with on_line() before every line of the code under test.
    write: only lines of the table writer instead."""
    def local(frame, event, arg):
        if event == 'line':
            on_line()
        return local

    def glob(frame, event, arg):
        return local if (_ours(frame, True) and frame.f_code.co_name == 'savetxt' if write else _ours(frame)) else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        return call()
    finally:
        sys.settrace(old)


def count_lines(call, write=False):
    """(result, number of line events)."""
    n = [0]

    def on_line():
        n[0] += 1
    return traced(call, on_line, write), n[0]


def zone_of(call, zone):
    """(write, number of line events) for a call: code that writes its tables in another way has no
    lines of the table writer, and its own lines are used instead."""
    for write in ([True] if zone == 'write' else []) + [False]:
        _, lines = count_lines(call, write)
        if lines:
            break
    return write, lines


def at_line(call, k, act, write=False):
    """call(); act() once, before the k-th line event (from 0)."""
    n = [0]

    def on_line():
        n[0] += 1
        if n[0] == k + 1:
            act()
    return traced(call, on_line, write)


class Interleaved:
    """Several calls in threads of which one runs at a time, switching after chosen numbers of lines."""

    def __init__(self, calls, slices):
        self.calls, self.slices = calls, list(slices)
        self.cond = threading.Condition()
        self.alive = list(range(len(calls)))
        self.turn, self.budget, self.progress, self.switches = 0, 0, 0, 0
        self.results = [None] * len(calls)

    def _next(self):
        """The next slice: (thread, lines); afterwards every thread runs to its end, in turn."""
        while self.slices:
            who, lines = self.slices.pop(0)
            if who in self.alive:
                self.switches += who != self.turn
                self.turn, self.budget = who, lines
                return
        if self.alive:
            self.turn, self.budget = self.alive[0], 10**9

    def _line(self, i):
        with self.cond:
            self.progress += 1
            if self.turn == i:
                self.budget -= 1
                if self.budget < 0:
                    self._next()
                    self.cond.notify_all()
            self._wait(i)

    def _wait(self, i):
        seen, since = self.progress, time.time()
        while self.turn != i:
            self.cond.wait(0.2)
            if self.progress != seen:
                seen, since = self.progress, time.time()
            elif time.time() - since > STUCK_S and i in self.alive:
                # whoever has the turn waits for something, a lock perhaps
                self.turn, self.budget = i, 10**9
                self.cond.notify_all()

    def _thread(self, i):
        with self.cond:
            self._wait(i)
        try:
            self.results[i] = (traced(self.calls[i], lambda: self._line(i)), None)
        except BaseException as exc:  # noqa: BLE001 - handed to the caller
            self.results[i] = (None, exc)
        with self.cond:
            self.alive.remove(i)
            if self.turn == i:
                self._next()
            self.progress += 1
            self.cond.notify_all()

    def run(self):
        """[(result, exception)] of the calls."""
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.calls))]
        with self.cond:
            self._next()
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return self.results


def forked(call):
    """Exit status of call() in a child process; call() returns the status."""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            code = call()
        except BaseException:  # noqa: BLE001
            code = 98
        finally:
            os._exit(code)
    try:
        _, status = os.waitpid(pid, 0)
        pid = None
    finally:
        if pid:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)
