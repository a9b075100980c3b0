"""Baton-passing scheduler: real threads, of which exactly one runs; the simulator decides who.

Switch points are the executed lines, calls and returns of the package and every intercepted storage operation.
The schedule is an explicit list of [number of points until the switch, which of the other runnable threads].
Locks that the package creates through the threading module are replaced by locks the scheduler knows.
"""
import sys
import threading
import _thread

from . import proc, world as W

_cur = None


class Stop(W.SimStop):
    pass


class Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.result = None
        self.exc = None
        self.ident = None
        self.blocked = None
        self.points = 0


class Sched:
    def __init__(self, fns, switches, limit=400000):
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.switches = [list(s) for s in switches]
        self.k = 0
        self.left = self.switches[0][0] if self.switches else -1
        self.cur = None
        self.trace = []
        self.n = 0
        self.limit = limit
        self.stop = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.switched = 0

    # ---- called in task threads
    def point(self, code=None):
        t = self.cur
        if t is None or t.ident != _thread.get_ident():
            return
        if self.stop:
            raise Stop(self.stop)
        self.n += 1
        t.points += 1
        if self.n > self.limit:
            self.stop = "more than %d steps" % self.limit
            raise Stop(self.stop)
        if self.left < 0:
            return
        self.left -= 1
        if self.left <= 0:
            pick = self.switches[self.k][1]
            self.k += 1
            self.left = self.switches[self.k][0] if self.k < len(self.switches) else -1
            self.switch(pick, code)

    def others(self, t):
        return [x for x in self.tasks if not x.done and x is not t and (x.blocked is None or not x.blocked.held())]

    def switch(self, pick, code=None):
        t = self.cur
        o = self.others(t)
        if not o:
            return
        n = o[pick % len(o)]
        self.switched += 1
        if len(self.trace) < 400:
            self.trace.append("%d:%s->%d" % (t.i, code.co_name if code else "-", n.i))
        self.give(n, t)

    def give(self, n, t):
        self.cur = n
        n.sem.release()
        t.sem.acquire()
        if self.stop:
            raise Stop(self.stop)

    def block(self, lock):
        """The running task waits for lock."""
        t = self.cur
        t.blocked = lock
        while lock.held():
            o = self.others(t)
            if not o:
                self.stop = "deadlock"
                raise Stop("deadlock")
            self.give(o[0], t)
        t.blocked = None

    def _body(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        try:
            if not self.stop:
                t.result = t.fn()
        except BaseException as ex:
            t.exc = ex
        t.done = True
        rest = [x for x in self.tasks if not x.done]
        if not rest:
            self.cur = None
            self.main.release()
            return
        o = self.others(t) or rest
        if not self.others(t):
            self.stop = self.stop or "deadlock"
        nx = o[(self.switches[self.k - 1][1] if self.switches else 0) % len(o)]
        self.cur = nx
        nx.sem.release()

    def run(self):
        global _cur
        _cur = self
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            self.cur = self.tasks[0]
            self.tasks[0].sem.release()
            if not self.main.acquire(timeout=100):
                self.stop = "stuck"
                raise W.Hang("a thread is stuck (uninterruptible)")
        finally:
            _cur = None


class SimLock:
    """Replacement for threading.Lock and threading.RLock."""

    def __init__(self, re=False):
        self.re = re
        self.owner = None
        self.depth = 0

    def _me(self):
        return _thread.get_ident()

    def held(self):
        return self.depth > 0 and not (self.re and self.owner == self._waiter())

    def _waiter(self):
        return None

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.depth and self.re and self.owner == me:
            self.depth += 1
            return True
        if self.depth:
            if not blocking:
                return False
            s = _cur
            if s is None or s.cur is None:
                raise W.Hang("deadlock: a lock is acquired that nobody will release")
            s.block(self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == self._me()


class locks:
    """Context: the package's locks are the scheduler's."""

    def __enter__(self):
        self.saved = (threading.Lock, threading.RLock)
        threading.Lock = lambda: SimLock()
        threading.RLock = lambda: SimLock(True)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.saved


def monitor(s, skip=()):
    """Deliver lines, calls and returns of the package to the scheduler as switch points."""
    E, MON, TOOL = proc.E, proc.MON, proc.TOOL

    def line(code, ln):
        if code.co_name != "<module>":
            s.point(code)

    def start(code, off):
        if code.co_name != "<module>":
            s.point(code)

    def ret(code, off, val):
        if code.co_name != "<module>":
            s.point(code)
    MON.register_callback(TOOL, E.LINE, line)
    MON.register_callback(TOOL, E.PY_START, start)
    MON.register_callback(TOOL, E.PY_RETURN, ret)
    MON.register_callback(TOOL, E.JUMP, None)
    proc.monitor(E.LINE | E.PY_START | E.PY_RETURN)


def unmonitor():
    proc.use_nothing()
    for e in (proc.E.PY_RETURN, proc.E.PY_START):
        proc.MON.register_callback(proc.TOOL, e, None)
