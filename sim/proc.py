"""The process under test: fresh modules from /repo's working tree, run inside a World."""
import contextlib
import gc
import importlib
import importlib.abc
import importlib.machinery
import io
import os
import sys
import traceback
import types
import xml.etree.ElementTree as _ET

from . import world as W

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "jpylyzer")
MON = sys.monitoring
TOOL = 4
E = MON.events
_code = None        # modname -> (code, file, is_pkg)
_all_code = []      # every code object of the package
_events = 0


def _walk(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _walk(c)


def load():
    """Compile the package from the working tree (once per harness process)."""
    global _code
    if _code is not None:
        return
    _code = {}
    for d, ds, fs in os.walk(PKG):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            parts = os.path.relpath(p, REPO)[:-3].split(os.sep)
            ispkg = parts[-1] == "__init__"
            if ispkg:
                parts = parts[:-1]
            with open(p, "rb") as fh:
                src = fh.read()
            code = compile(src, p, "exec", dont_inherit=True)
            _code[".".join(parts)] = (code, p, ispkg)
            _all_code.extend(_walk(code))
    p = os.path.join(REPO, "cli.py")
    if os.path.exists(p):
        with open(p, "rb") as fh:
            code = compile(fh.read(), p, "exec", dont_inherit=True)
        _code["<cli>"] = (code, p, False)
        _all_code.extend(_walk(code))
    MON.use_tool_id(TOOL, "jpysim")
    sys.meta_path.insert(0, _Finder())


class _Loader(importlib.abc.Loader):
    def __init__(self, code):
        self.code = code

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        c = _code.get(name)
        if c is None:
            return None
        code, file, ispkg = c
        spec = importlib.machinery.ModuleSpec(name, _Loader(code), origin=file, is_package=ispkg)
        spec.has_location = True
        if ispkg:
            spec.submodule_search_locations = [os.path.dirname(file)]
        return spec


def monitor(events):
    """Enable monitoring events on the code of the package only."""
    global _events
    if events == _events:
        return
    for c in _all_code:
        MON.set_local_events(TOOL, c, events)
    _events = events


# Step accounting -----------------------------------------------------------------------------
STEPS = E.PY_START | E.JUMP


class Steps:
    """Counts calls and loop iterations of the package; raises Hang beyond the limit."""
    n = 0
    limit = 0


def _step(*a):
    Steps.n += 1
    if Steps.n > Steps.limit:
        raise W.Hang("more than %d steps" % Steps.limit)


_linecb = None


def _line(code, line):
    return _linecb(code, line)


def use_steps(limit):
    MON.register_callback(TOOL, E.PY_START, _step)
    MON.register_callback(TOOL, E.JUMP, _step)
    MON.register_callback(TOOL, E.LINE, None)
    Steps.n, Steps.limit = 0, limit
    monitor(STEPS)


def use_lines(cb, limit=0):
    """cb(code, line) before every executed line of the package; steps are counted too."""
    global _linecb
    _linecb = cb
    MON.register_callback(TOOL, E.PY_START, _step if limit else None)
    MON.register_callback(TOOL, E.JUMP, _step if limit else None)
    MON.register_callback(TOOL, E.LINE, _line)
    Steps.n, Steps.limit = 0, limit
    monitor(E.LINE | (STEPS if limit else 0))


def use_nothing():
    MON.register_callback(TOOL, E.LINE, None)
    monitor(0)


# Processes -----------------------------------------------------------------------------------
_ns0 = None


class Proc:
    """A freshly started interpreter with the package imported (must be created inside a World)."""

    def __init__(self, world, argv=("jpylyzer",), nommap=None):
        global _ns0
        load()
        self.w = world
        if _ns0 is None:
            _ns0 = dict(_ET._namespace_map)
        _ET._namespace_map.clear()
        _ET._namespace_map.update(_ns0)
        sys.setrecursionlimit(1000)
        for m in [m for m in sys.modules if m == "jpylyzer" or m.startswith("jpylyzer.")]:
            del sys.modules[m]
        sys.argv = ["/usr/local/bin/jpylyzer"] + list(argv[1:])
        self.nommap = world.sc.get("nommap") if nommap is None else nommap
        with self._mmaplib():
            self.m = importlib.import_module("jpylyzer.jpylyzer")

    @contextlib.contextmanager
    def _mmaplib(self):
        """Without memory mapping, the mmap module cannot be imported."""
        saved = sys.modules.get("mmap")
        if self.nommap:
            sys.modules["mmap"] = None
        try:
            yield
        finally:
            if self.nommap:
                if saved is None:
                    sys.modules.pop("mmap", None)
                else:
                    sys.modules["mmap"] = saved

    def _enter(self):
        """Start the program the way it is started in the field: installed script, python -m jpylyzer,
        cli.py, python -m jpylyzer.jpylyzer."""
        name = {"module": "jpylyzer.__main__", "cli": "<cli>", "direct": "jpylyzer.jpylyzer"}.get(self.w.sc.get("entry"))
        c = _code.get(name)
        if c is None:
            self.m.main()
            return
        m = types.ModuleType("__main__")
        m.__file__ = c[1]
        m.__package__ = "" if name == "<cli>" else "jpylyzer"
        saved = sys.modules.get("__main__")
        sys.modules["__main__"] = m
        try:
            with self._mmaplib():
                exec(c[0], m.__dict__)
        finally:
            sys.modules["__main__"] = saved

    def cli(self, args):
        """Run the command line program to its end; returns an Outcome."""
        sys.argv = ["/usr/local/bin/jpylyzer"] + list(args)
        o = Outcome()
        hang = None
        try:
            self._enter()
            o.exit = 0
        except SystemExit as ex:
            c = ex.code
            o.exit = 0 if c is None else (c & 0xff if isinstance(c, int) else 1)
        except W.Killed as ex:
            o.exit, o.killed = ex.code, str(ex)
        except W.SimStop as ex:
            hang = str(ex)
        except KeyboardInterrupt:
            o.exit, o.exc = 130, "KeyboardInterrupt"
        except BaseException as ex:
            o.exit, o.exc = 1, type(ex).__name__
            o.tb = "".join(traceback.format_exception(ex))[-1500:]
            ex = None
        if self.w.dead is not None and o.killed is None:
            o.exit, o.killed, o.exc, hang = self.w.dead.code, str(self.w.dead), None, None
        o.hang = hang
        if hang is None and o.killed is None:
            # interpreter shutdown: flush what is buffered
            use_nothing()
            try:
                if sys.stdout is not None and not getattr(sys.stdout, "closed", False):
                    sys.stdout.flush()
            except BaseException as ex:
                o.flusherr = type(ex).__name__
                if o.exit == 0:
                    o.exit = 120
                ex = None
            if self.w.stdout0 is not sys.stdout:
                # the original stream object is finalised; what goes wrong then is ignored
                try:
                    self.w.stdout0.flush()
                except BaseException:
                    pass
            try:
                if sys.stderr is not None:
                    sys.stderr.flush()
            except BaseException:
                pass
        o.out = bytes(self.w.out.got)
        o.err = bytes(self.w.err.got)
        return o

    def one(self, path, *a, **k):
        return self.m.checkOneFile(path, *a, **k)


class Outcome:
    exit = None
    exc = None
    tb = ""
    hang = None
    killed = None
    flusherr = None
    out = b""
    err = b""

    def brief(self):
        return "exit=%s exc=%s hang=%s%s" % (self.exit, self.exc, self.hang, " killed by " + self.killed if self.killed else "")


LIMIT = 12_000_000


def quiet():
    gc.disable()
