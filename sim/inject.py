"""Raise an exception at a chosen executed line of the package, or record which lines are executed.

The choice is made by fractions: a first pass records the (function, line) sequence of the undisturbed
execution, a pick [u, v] selects the u-th distinct location and the v-th of its occurrences, so that rarely
executed lines are hit as often as hot ones, and lines in the body of a try statement can be preferred.  The pass and the picks are part of the run, so one scenario is one
execution.
"""
import dis

from . import proc, world as W

_prot = {}


def protected(code):
    """Lines of this code object at which an exception can be caught by the function itself."""
    r = _prot.get(code)
    if r is None:
        r = set()
        lines = [(a, b, n) for a, b, n in code.co_lines() if n]
        for e in dis._parse_exception_table(code):
            if not e.lasti:          # clean-up regions of handlers and with statements restore the instruction
                r.update(n for a, b, n in lines if a < e.end and e.start < b)
        _prot[code] = r
    return r


class Recorder:
    def __init__(self):
        self.seq = []
        self.marks = {}      # name -> event number

    def __call__(self, code, line):
        self.seq.append((code, line))
        if len(self.seq) > 400000:
            raise W.Hang("more than 400000 lines")

    def pick(self, u, v, lo=0, hi=None, guarded=False):
        """Event number (1-based) within (lo, hi]; guarded: only where the function at work has a handler of its own."""
        hi = len(self.seq) if hi is None else hi
        locs = {}
        for n in range(lo, hi):
            code, line = self.seq[n]
            if guarded and (code.co_name == "checkOneFile" or line not in protected(code)):
                continue
            locs.setdefault(self.seq[n], []).append(n + 1)
        if guarded and not locs:
            return self.pick(u, v, lo, hi)
        if not locs:
            return None
        keys = sorted(locs, key=lambda c: locs[c][0])
        occ = locs[keys[min(len(keys) - 1, int(u * len(keys)))]]
        return occ[min(len(occ) - 1, int(v * len(occ)))]


class Injector:
    """Raises exc() at the given event numbers."""

    def __init__(self, ats, exc, world=None):
        self.ats = set(ats)
        self.exc = exc
        self.n = 0
        self.fired = []
        self.w = world
        self.after = None     # number of seam operations at the first injection

    def __call__(self, code, line):
        self.n += 1
        if self.n in self.ats:
            self.fired.append("%s:%s+%d" % (code.co_filename.rsplit("/", 1)[-1], code.co_name, line - code.co_firstlineno))
            if self.w is not None:
                if self.after is None:
                    self.after = len(self.w.log)
                self.w.fired(self.exc.__name__ + ":line")
                if self.exc is KeyboardInterrupt:
                    return self.w.interrupt()
            raise self.exc()
        if self.n > 600000:
            raise W.Hang("more than 600000 lines")


def picks(rng, n):
    return [[round(rng.random(), 6), round(rng.random(), 6)] for _ in range(n)]
