"""The simulated machine around one jpylyzer process.

The disk is a scratch directory (tmpfs where available).  Every operation that the process under
test performs on a path below that directory passes through a seam here, is logged and numbered,
and may be made to fail, be shortened, be reordered or be preceded by a concurrent change.  Faults
are keyed on (operation kind, path, occurrence), never on source lines or private names of jpylyzer.
Operations of the harness itself (no world active) pass straight through.
"""
import builtins
import errno
import io
import mmap as _mmap_module
import os
import shutil
import signal
import stat as _stat
import sys
import tempfile
import threading
import time

_W = None            # the active world, None while the harness works
_real = {}
_installed = False
BASE_TIME = 1500000000


class SimStop(BaseException):
    """Raised by the simulator to end a run (step limit)."""


class Hang(SimStop):
    pass


class Killed(SimStop):
    """The process ended itself without unwinding (os._exit, abort, fatal signal): nothing more is flushed."""

    def __init__(self, code, how):
        super().__init__(how)
        self.code = code


def scratch_base():
    for d in ("/dev/shm", os.environ.get("TMPDIR") or "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


_seq = [0]


def make_exc(err, path=None):
    if err == "MemoryError":
        return MemoryError()
    if err == "KeyboardInterrupt":
        return KeyboardInterrupt()
    code = getattr(errno, err)
    return OSError(code, os.strerror(code), path)


class Device(io.RawIOBase):
    """Raw output device.  plan: chunk (max bytes per write), fail_at (byte offset), err, times
    (how many writes fail before it heals, 0 = for ever), eagain (write numbers that accept nothing)."""

    def __init__(self, world, name, plan=None):
        super().__init__()
        self.w, self.simname, self.plan = world, name, dict(plan or {})
        self.got = bytearray()
        self.calls = 0
        self.failed = 0

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.closed:
            raise ValueError("write to closed file")
        if self.plan.get("gone"):
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if self.plan.get("discard"):
            return len(b)       # the process redirected this descriptor elsewhere
        self.calls += 1
        p = self.plan
        n = len(b)
        self.w.op(self.simname, None)
        if self.w.dead is not None:
            raise self.w.dead
        if self.calls in p.get("eagain", ()):
            self.w.fired("eagain:" + self.simname)
            return None
        fa = p.get("fail_at")
        if fa is not None and n:
            times = p.get("times", 0)
            if times == 0 or self.failed < times:
                if len(self.got) >= fa:
                    self.failed += 1
                    self.w.fired(p["err"] + ":" + self.simname)
                    if p["err"] == "EPIPE" and self.w.sig.get(int(signal.SIGPIPE)) == signal.SIG_DFL:
                        self.w.kill(141, "SIGPIPE")
                    raise make_exc(p["err"])
                n = min(n, fa - len(self.got))
        ch = p.get("chunk")
        if ch:
            k = ch[(self.calls - 1) % len(ch)]
            if k < n:
                n = max(1, k)
                self.w.fired("shortwrite:" + self.simname)
        self.got += b[:n]
        if self.w.onwritten is not None:
            self.w.onwritten(self.simname)
        return n

    def isatty(self):
        return bool(self.plan.get("tty"))

    def fileno(self):
        return {"stdout": 1, "stderr": 2}[self.simname]


class SimFileIO(io.FileIO):
    """Raw file on the simulated disk: short reads and read errors."""

    def __init__(self, path, mode="r", world=None, rel=None, **kw):
        super().__init__(path, mode, **kw)
        self._w, self._rel = world, rel
        if world is not None:
            world.fdmap[self.fileno()] = rel
            world.track("file", self, rel)

    def _cap(self, n):
        w = self._w
        w.op("read", self._rel)
        s = w.short_read(n)
        return s

    def read(self, n=-1):
        if self._w is None or self._w is not _W:
            return super().read(n)
        if n is None or n < 0:
            return self.readall()
        return super().read(self._cap(n))

    def readall(self):
        if self._w is None or self._w is not _W:
            return super().readall()
        out = []
        while True:
            b = super().read(self._cap(65536))
            if not b:
                return b"".join(out)
            out.append(b)

    def readinto(self, buf):
        if self._w is None or self._w is not _W:
            return super().readinto(buf)
        m = memoryview(buf).cast("B")
        n = self._cap(len(m))
        return super().readinto(m[:n])


class SimMmap(_mmap_module.mmap):
    """Memory mapping on the simulated disk: accesses are operations, liveness is tracked."""

    def __new__(cls, fileno, length, *a, **k):
        w = _W
        rel = w.fdmap.get(fileno) if w is not None else None
        if w is not None and rel is None and fileno >= 0:
            rel = w.rel_of_fd(fileno)
        if w is not None and rel is not None:
            w.op("mmap", rel)
        self = super().__new__(cls, fileno, length, *a, **k)
        self._w = w if rel is not None else None
        self._rel = rel
        if self._w is not None:
            w.track("mmap", self, rel)
        return self

    def __getitem__(self, i):
        w = self._w
        if w is not None and w is _W:
            w.op("slice", self._rel)
        return super().__getitem__(i)

    def read(self, *a):
        w = self._w
        if w is not None and w is _W:
            w.op("slice", self._rel)
        return super().read(*a)


def _alive(kind, obj):
    return not obj.closed


class World:
    def __init__(self, scenario=None, root=None, exist=False):
        """scenario keys used here: faults, events, listseed, shortseed, mtimes, out, err, encoding,
        errors, newline, bufsize, tz, platform, nommap, argv0."""
        sc = scenario or {}
        self.sc = sc
        _seq[0] += 1
        self.root = root or os.path.join(scratch_base(), "jpysim-%07d-%06d" % (os.getpid() % 10 ** 7, _seq[0] % 10 ** 6))
        if not exist:
            os.makedirs(self.root)
        self.faults = [dict(f) for f in sc.get("faults", ())]
        for f in self.faults:
            f.setdefault("n", 1)
            f["left"] = f.get("times", 1)
        self.events = sorted((dict(e) for e in sc.get("events", ())), key=lambda e: e["at"])
        self.counts = {}
        self.nops = 0
        self.log = []
        self.firedlog = []
        self.mut = []           # mutating or escaping operations seen by the audit hook
        self.handles = []       # (kind, weak-ish reference, rel)
        self.fdmap = {}
        self.fds = {}
        self.mtimes = dict(sc.get("mtimes", {}))
        self.links = {}         # symbolic link -> file it leads to
        self.clock = float(BASE_TIME)
        self.onop = None        # callback(kind, rel) for the scheduler / injectors
        self.listed = {}
        self.versions = {}      # name -> list of bytes (for replace events)
        self._inop = False
        # "arm": faults and events start with the first open (True) or the first write to standard output
        # ("stdout", with an unbuffered device); the selection of files is over by then
        self.onwritten = None      # called when a device has accepted bytes
        self.armed = not sc.get("arm")
        self.arm_at = "stdout" if sc.get("arm") == "stdout" else "open"
        self.dead = None        # set when the process has ended itself
        self.sig = {}           # signal handlers installed by the process
        self.sigblocked = set()
        self.sigpending = set()
        self.firedon = []       # (err, kind, rel)
        self.eventat = []       # (what, name, operation that was about to happen)

    # ------------------------------------------------------------ disk set-up (harness side)
    def path(self, rel):
        if isinstance(rel, bytes):
            return os.path.join(os.fsencode(self.root), rel)
        return os.path.join(self.root, rel)

    def put(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _real_open(p, "wb") as f:
            f.write(data)

    def snapshot(self):
        out = {}
        for d, ds, fs in os.walk(os.fsencode(self.root)):
            for n in ds + fs:
                p = os.path.join(d, n)
                st = os.lstat(p)
                k = os.path.relpath(p, os.fsencode(self.root))
                if _stat.S_ISREG(st.st_mode):
                    with _real_open(p, "rb") as f:
                        out[k] = (st.st_mode, st.st_ino, st.st_mtime_ns, f.read())
                else:
                    out[k] = (st.st_mode, st.st_ino if not _stat.S_ISDIR(st.st_mode) else 0,
                              os.readlink(p) if _stat.S_ISLNK(st.st_mode) else b"")
        return out

    def destroy(self):
        for kind, obj, rel in self.handles:
            try:
                obj.close()
            except Exception:
                pass
        self.handles = []
        shutil.rmtree(self.root, ignore_errors=True)

    # ------------------------------------------------------------ seam side
    def rel(self, path):
        """Path below the root, or None when it is none of our business."""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            p = os.path.join(_real["getcwd"](), p)
        p = os.path.normpath(p)
        if p == self.root:
            return ""
        if p.startswith(self.root + "/"):
            return p[len(self.root) + 1:]
        return None

    def rel_of_fd(self, fd):
        try:
            return self.rel(_real["readlink"]("/proc/self/fd/%d" % fd))
        except OSError:
            return None

    def fired(self, what):
        self.firedlog.append(what)

    def op(self, kind, rel):
        """One operation of the process: number it, run due events, raise a due fault."""
        if self._inop:
            return
        if self.dead is not None:
            raise self.dead
        if not self.armed:
            if kind == self.arm_at:
                self.armed = True
            else:
                if kind != "slice" and len(self.log) < 2000:
                    self.log.append(kind + " " + str(rel))
                return
        self.nops += 1
        c = self.counts
        c[kind] = c.get(kind, 0) + 1
        key = (kind, rel)
        c[key] = c.get(key, 0) + 1
        if kind != "slice" and len(self.log) < 2000:
            self.log.append(kind + " " + str(rel))
        if self.events and self.events[0]["at"] <= self.nops:
            self._inop = True
            try:
                while self.events and self.events[0]["at"] <= self.nops:
                    e = self.events.pop(0)
                    self.eventat.append((e["do"], e["name"], kind + ":" + str(rel == e["name"])))
                    self.do(e)
            finally:
                self._inop = False
        if self.onop is not None:
            self.onop(kind, rel)
        for f in self.faults:
            if f["op"] == kind and (f.get("path") is None or f["path"] == rel) and c[key if f.get("path") is not None else kind] >= f["n"]:
                if f["left"] == 0:
                    continue
                if f["left"] > 0:
                    f["left"] -= 1
                self.fired(f["err"] + ":" + kind)
                self.firedon.append((f["err"], kind, rel))
                raise make_exc(f["err"], None if rel is None else self.path(rel))

    def kill(self, code, how):
        """The process ends here and now."""
        self.fired("exit:" + how)
        self.dead = Killed(code, how)
        raise self.dead

    def interrupt(self):
        """The user presses Ctrl-C: what happens is the process's own choice of handler."""
        self.signal(int(signal.SIGINT))

    def signal(self, n):
        if n in self.sigblocked:
            self.sigpending.add(n)
            return
        default = signal.default_int_handler if n == signal.SIGINT else (signal.SIG_IGN if n == signal.SIGPIPE else signal.SIG_DFL)
        h = self.sig.get(n, default)
        if h is signal.default_int_handler:
            raise KeyboardInterrupt()
        if h == signal.SIG_IGN or h is None:
            return
        if h == signal.SIG_DFL:
            if n in (signal.SIGCHLD, signal.SIGCONT, signal.SIGURG, signal.SIGWINCH):
                return
            self.kill(128 + n, "signal %d" % n)
        h(n, sys._getframe(1))

    def no_block(self, rel):
        """Opening a named pipe nobody writes to blocks for ever."""
        try:
            if _stat.S_ISFIFO(_real["stat"](self.path(rel)).st_mode):
                raise Hang("open of the named pipe %r blocks for ever" % rel)
        except OSError:
            pass

    def do(self, e):
        """A concurrent change by somebody else."""
        what = e["do"]
        p = self.path(e["name"])
        self.fired("event:" + what)
        self.firedon.append(("event", what, e["name"]))
        try:
            if what == "unlink":
                _real["unlink"](p)
            elif what == "replace":
                t = p + ".__new"
                fd = _real["os_open"](t, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                try:
                    os.write(fd, self.versions[e["name"]][e["v"]])
                finally:
                    os.close(fd)
                _real["rename"](t, p)
            elif what == "create":
                os.makedirs(os.path.dirname(p), exist_ok=True)
                fd = _real["os_open"](p, os.O_WRONLY | os.O_CREAT, 0o644)
                try:
                    os.write(fd, self.versions.get(e["name"], [b"x"])[0])
                finally:
                    os.close(fd)
            elif what == "mkdir":
                _real["mkdir"](p)
            elif what == "rmtree":
                for d, ds, fs in os.walk(p, topdown=False):
                    for n in fs:
                        _real["unlink"](os.path.join(d, n))
                    _real["rmdir"](d)
        except OSError:
            pass

    def short_read(self, n):
        s = self.sc.get("shortseed")
        if s is None or n <= 1:
            return n
        x = (s * 2654435761 + self.counts.get("read", 0) * 40503 + 12345) & 0xffffffff
        x ^= x >> 13
        k = [1, 2, 3, 7, 16, 100, n, n // 2 or 1][x % 8]
        if k < n:
            self.fired("shortread")
        return min(n, k)

    def track(self, kind, obj, rel):
        self.handles.append((kind, _Ref(obj), rel))

    def live(self, below=None):
        """Handles and mappings of the simulated disk that are still open."""
        out = []
        for kind, ref, rel in self.handles:
            o = ref.get()
            if o is not None and not o.closed:
                out.append(kind + " " + str(rel))
            o = None
        for fd, rel in list(self.fds.items()):
            try:
                if self.rel(_real["readlink"]("/proc/self/fd/%d" % fd)) == rel:
                    out.append("fd " + str(rel))
            except OSError:
                pass
        return out

    def fix_stat(self, st, rel, follow=True):
        mt = self.mtimes.get(self.links.get(rel, rel) if follow else rel, BASE_TIME)
        if isinstance(mt, list):          # [seconds, nanoseconds]
            ns = mt[0] * 10 ** 9 + mt[1]
        else:
            ns = int(mt * 10 ** 9) if isinstance(mt, float) else mt * 10 ** 9
        base = list(st)[:10]
        base[8] = ns // 10 ** 9
        base[7] = base[9] = BASE_TIME
        extra = {"st_atime": float(BASE_TIME), "st_mtime": ns / 1e9, "st_ctime": float(BASE_TIME),
                 "st_atime_ns": BASE_TIME * 10 ** 9, "st_mtime_ns": ns, "st_ctime_ns": BASE_TIME * 10 ** 9}
        for a in ("st_blksize", "st_blocks", "st_rdev"):
            extra[a] = getattr(st, a)
        return os.stat_result(base, extra)

    def order(self, rel, names):
        """Directory enumeration order is the simulator's choice."""
        s = self.sc.get("listseed")
        names = sorted(names, key=lambda x: os.fsencode(x if isinstance(x, (str, bytes)) else x.name))
        if s is None or len(names) < 2:
            return names
        import random
        random.Random("%s:%s" % (s, rel)).shuffle(names)
        self.fired("dirorder")
        return names

    def __enter__(self):
        global _W
        install()
        self._inop = False
        self._cwd = os.getcwd()
        os.chdir(self.root)
        self._saved = (sys.stdout, sys.stderr, sys.argv, sys.platform, os.environ.get("TZ"))
        sc = self.sc
        self.out = Device(self, "stdout", sc.get("out"))
        self.err = Device(self, "stderr", sc.get("err"))
        # size 0 is what python -u and PYTHONUNBUFFERED make of it: the raw device itself is sys.stdout.buffer
        size = sc.get("bufsize", 8192)
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(self.out, size) if size else self.out, encoding=sc.get("encoding", "utf-8"),
                                      errors=sc.get("errors", "strict"), newline=sc.get("newline", "\n"), write_through=not size)
        self.stdout0 = sys.stdout
        if sc.get("stderr_none"):
            sys.stderr = None
        else:
            sys.stderr = io.TextIOWrapper(io.BufferedWriter(self.err, 8192) if not sc.get("err_unbuf", True) else self.err_buffer(),
                                          encoding=sc.get("err_encoding", "utf-8"), errors=sc.get("err_errors", "backslashreplace"),
                                          write_through=sc.get("err_unbuf", True), line_buffering=True)
            if sc.get("err_closed"):
                sys.stderr.close()
        if "platform" in sc:
            sys.platform = sc["platform"]
        os.linesep = sc.get("linesep", "\n")
        if "tz" in sc:
            os.environ["TZ"] = sc["tz"]
            time.tzset()
        _W = self
        return self

    def err_buffer(self):
        return io.BufferedWriter(self.err, 1)

    def __exit__(self, *exc):
        global _W
        _W = None
        self._inop = True        # nothing the harness does from here on is an operation of the process
        so, se, av, pl, tz = self._saved
        for s in {sys.stdout, sys.stderr, self.stdout0}:
            if s is so or s is se or s is None:
                continue
            try:
                self.out.plan.pop("fail_at", None)
                s.detach()
            except BaseException:
                pass
        sys.stdout, sys.stderr, sys.argv, sys.platform = so, se, av, pl
        os.linesep = "\n"
        if "tz" in self.sc:
            if tz is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = tz
            time.tzset()
        os.chdir(self._cwd)
        return False


class _Ref:
    """weakref where possible (FileIO and mmap subclasses support it)."""
    __slots__ = ("r",)

    def __init__(self, o):
        import weakref
        self.r = weakref.ref(o)

    def get(self):
        return self.r()

    def close(self):
        o = self.r()
        if o is not None:
            o.close()


_real_open = builtins.open


# ------------------------------------------------------------------ installation of the seams

class _ScanIt:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


WRITE_EVENTS = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate",
                "os.utime", "os.setxattr", "os.removexattr", "os.chflags", "os.mkfifo", "os.mknod", "os.lockf")
ESCAPE_EVENTS = ("subprocess.Popen", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.startfile",
                 "os.kill", "os.killpg", "signal.pthread_kill", "pty.spawn", "webbrowser.open", "socket.connect", "socket.bind",
                 "socket.getaddrinfo", "socket.sendto", "socket.sendmsg", "urllib.Request", "smtplib.connect", "ftplib.connect",
                 "shutil.rmtree", "syslog.syslog", "syslog.openlog", "socket.__new__")


def _audit(event, args):
    w = _W
    if w is None or w._inop:
        return
    if event == "open":
        path, mode, flags = args
        wr = (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) or \
             (isinstance(mode, str) and any(c in mode for c in "wax+"))
        if not wr or isinstance(path, int):
            return
        rel = w.rel(path)
        if rel is None and isinstance(path, (str, bytes)) and os.fsdecode(path) in ("/dev/null", "/dev/tty", "/dev/stdout", "/dev/stderr"):
            return
        w.mut.append("open-for-writing " + (("disk:" + rel) if rel is not None else str(path)))
        if rel is None:
            raise PermissionError(errno.EACCES, "simulator: write outside the scratch disk", str(path))
    elif event in WRITE_EVENTS:
        rels = [w.rel(a) if not isinstance(a, int) else w.rel_of_fd(a) for a in args if isinstance(a, (str, bytes, int)) and not isinstance(a, bool)]
        paths = [a for a in args if isinstance(a, (str, bytes))]
        w.mut.append(event + " " + " ".join(("disk:" + w.rel(p)) if w.rel(p) is not None else str(p) for p in paths))
        if any(w.rel(p) is None for p in paths) or (not paths and not any(r is not None for r in rels)):
            raise PermissionError(errno.EACCES, "simulator: change outside the scratch disk")
    elif event in ESCAPE_EVENTS:
        w.mut.append(event)
        raise PermissionError(errno.EACCES, "simulator: " + event + " is not available")


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R = _real
    R.update(stat=os.stat, lstat=os.lstat, fstat=os.fstat, os_open=os.open, os_read=os.read, os_write=os.write, scandir=os.scandir,
             listdir=os.listdir, access=os.access, open=builtins.open, mmap=_mmap_module.mmap, unlink=os.unlink, rename=os.rename,
             mkdir=os.mkdir, rmdir=os.rmdir, getcwd=os.getcwd, readlink=os.readlink, time=time.time, sleep=time.sleep,
             time_ns=time.time_ns, preadf=os.pread, os_close=os.close, dup2=os.dup2, fsync=os.fsync)

    def s_stat(path, *a, **k):
        w = _W
        if w is None or w._inop:
            return R["stat"](path, *a, **k)
        rel = w.fdmap.get(path) if isinstance(path, int) else w.rel(path)
        if rel is None:
            return R["stat"](path, *a, **k)
        w.op("stat", rel)
        return w.fix_stat(R["stat"](path, *a, **k), rel, k.get("follow_symlinks", True))

    def s_lstat(path, *a, **k):
        w = _W
        if w is None or w._inop:
            return R["lstat"](path, *a, **k)
        rel = w.rel(path)
        if rel is None:
            return R["lstat"](path, *a, **k)
        w.op("stat", rel)
        return w.fix_stat(R["lstat"](path, *a, **k), rel, False)

    def s_fstat(fd):
        w = _W
        if w is None or w._inop or w.fdmap.get(fd) is None:
            return R["fstat"](fd)
        rel = w.fdmap[fd]
        w.op("stat", rel)
        return w.fix_stat(R["fstat"](fd), rel)

    def s_access(path, mode, **k):
        w = _W
        if w is not None and not w._inop:
            rel = w.rel(path) if not isinstance(path, int) else None
            if rel is not None:
                try:
                    w.op("stat", rel)
                except OSError:
                    return False
        return R["access"](path, mode, **k)

    def s_os_open(path, flags, *a, **k):
        w = _W
        rel = None
        if w is not None and not w._inop:
            rel = w.rel(path)
            if rel is not None:
                w.op("open", rel)
                w.no_block(rel)
        fd = R["os_open"](path, flags, *a, **k)
        if rel is not None:
            w.fdmap[fd] = rel
            w.fds[fd] = rel
        return fd

    def s_os_close(fd):
        w = _W
        if w is not None and not w._inop and fd in (1, 2):
            (w.out if fd == 1 else w.err).plan["gone"] = True
            return None
        if w is not None:
            w.fds.pop(fd, None)
            w.fdmap.pop(fd, None)
        return R["os_close"](fd)

    def s_os_read(fd, n):
        w = _W
        if w is not None and not w._inop and fd in w.fdmap:
            w.op("read", w.fdmap[fd])
            n = w.short_read(n)
        return R["os_read"](fd, n)

    def s_pread(fd, n, off):
        w = _W
        if w is not None and not w._inop and fd in w.fdmap:
            w.op("read", w.fdmap[fd])
            n = w.short_read(n)
        return R["preadf"](fd, n, off)

    def s_dup2(fd, fd2, *a, **k):
        # never on the descriptors of the harness
        w = _W
        if w is None or w._inop or fd2 not in (1, 2):
            return R["dup2"](fd, fd2, *a, **k)
        if fd in (1, 2):
            if fd != fd2:
                src, dst = (w.out, w.err) if fd == 1 else (w.err, w.out)
                dst.got = src.got
            return fd2
        dst = w.out if fd2 == 1 else w.err
        dst.plan["discard"] = True
        w.fired("redirected:" + dst.simname)
        return fd2

    def s_fsync(fd):
        w = _W
        if w is not None and not w._inop and fd in (1, 2):
            d = w.out if fd == 1 else w.err
            if fd == 2 and w.sc.get("err_closed"):
                raise OSError(errno.EBADF, "Bad file descriptor")
            if "fail_at" in d.plan or "eagain" in d.plan or "chunk" in d.plan:
                # a pipe, a terminal or a device in trouble
                raise OSError(getattr(errno, d.plan.get("err") or "EINVAL"), "simulated: cannot be synchronised")
            return None
        return R["fsync"](fd)

    def s_os_write(fd, data):
        w = _W
        if w is not None and not w._inop and fd in (1, 2):
            r = (w.out if fd == 1 else w.err).write(data)
            if r is None:
                raise BlockingIOError(errno.EAGAIN, "simulated")
            return r
        return R["os_write"](fd, data)

    def s_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        w = _W
        if w is None or w._inop or isinstance(file, int) or opener is not None:
            return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        rel = w.rel(file)
        if rel is None:
            return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        w.op("open", rel)
        w.no_block(rel)
        if any(c in mode for c in "wax+"):
            return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = SimFileIO(file, "r", world=w, rel=rel)
        raw.name if hasattr(raw, "name") else None
        if "b" in mode:
            if buffering == 0:
                return raw
            return io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        return io.TextIOWrapper(io.BufferedReader(raw), encoding, errors, newline)

    def s_scandir(path="."):
        w = _W
        if w is None or w._inop:
            return R["scandir"](path)
        rel = w.rel(path) if not isinstance(path, int) else w.rel_of_fd(path)
        if rel is None:
            return R["scandir"](path)
        w.op("list", rel)
        with R["scandir"](path) as it:
            ents = list(it)
        return _ScanIt(w.order(rel, ents))

    def s_listdir(path="."):
        w = _W
        if w is None or w._inop:
            return R["listdir"](path)
        rel = w.rel(path) if not isinstance(path, int) else w.rel_of_fd(path)
        if rel is None:
            return R["listdir"](path)
        w.op("list", rel)
        return w.order(rel, R["listdir"](path))

    def s_time():
        w = _W
        if w is None:
            return R["time"]()
        w.clock += 0.001
        return w.clock

    def s_time_ns():
        return int(s_time() * 1e9)

    def s_sleep(x):
        w = _W
        if w is None:
            return R["sleep"](x)
        w.clock += max(0.0, x)
        w.op("sleep", None)

    def s_exit(code=0):
        if _W is None:
            return R["_exit"](code)
        _W.kill(code & 0xff if isinstance(code, int) else 1, "os._exit")

    def s_abort():
        if _W is None:
            return R["abort"]()
        _W.kill(134, "os.abort")

    def s_kill(pid, n):
        if _W is None:
            return R["kill"](pid, n)
        if pid == os.getpid():
            return _W.signal(int(n))
        _W.mut.append("os.kill")
        raise PermissionError(errno.EPERM, "simulator: os.kill is not available")

    def s_raise(n):
        if _W is None:
            return R["raise_signal"](n)
        _W.signal(int(n))

    def s_signal(n, h):
        w = _W
        if w is None:
            return R["signal"](n, h)
        n = int(n)
        old = s_getsignal(n)
        w.sig[n] = h
        return old

    def s_getsignal(n):
        w = _W
        if w is None:
            return R["getsignal"](n)
        n = int(n)
        return w.sig.get(n, signal.default_int_handler if n == signal.SIGINT else (signal.SIG_IGN if n == signal.SIGPIPE else signal.SIG_DFL))

    def s_sigmask(how, mask):
        w = _W
        if w is None:
            return R["pthread_sigmask"](how, mask)
        old = set(w.sigblocked)
        mask = {int(x) for x in mask}
        w.sigblocked = old | mask if how == signal.SIG_BLOCK else (old - mask if how == signal.SIG_UNBLOCK else mask)
        for n in sorted(w.sigpending - w.sigblocked):
            w.sigpending.discard(n)
            w.signal(n)
        return old

    def s_alarm(t):
        # the simulated timer of the process never comes due by itself
        return R["alarm"](t) if _W is None else 0

    def s_setitimer(which, t, i=0.0):
        return R["setitimer"](which, t, i) if _W is None else (0.0, 0.0)

    R.update(_exit=os._exit, abort=os.abort, kill=os.kill, raise_signal=signal.raise_signal, signal=signal.signal, getsignal=signal.getsignal,
             pthread_sigmask=signal.pthread_sigmask, alarm=signal.alarm, setitimer=signal.setitimer)
    os._exit, os.abort, os.kill, signal.raise_signal = s_exit, s_abort, s_kill, s_raise
    signal.signal, signal.getsignal, signal.pthread_sigmask = s_signal, s_getsignal, s_sigmask
    signal.alarm, signal.setitimer = s_alarm, s_setitimer

    os.stat, os.lstat, os.fstat, os.access = s_stat, s_lstat, s_fstat, s_access
    os.open, os.read, os.write, os.close, os.pread = s_os_open, s_os_read, s_os_write, s_os_close, s_pread
    os.dup2, os.fsync = s_dup2, s_fsync
    os.scandir, os.listdir = s_scandir, s_listdir
    builtins.open = io.open = s_open
    _mmap_module.mmap = SimMmap
    time.time, time.time_ns, time.sleep = s_time, s_time_ns, s_sleep
    sys.addaudithook(_audit)
