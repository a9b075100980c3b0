"""C13: every analysis releases the file, however it ends."""
import gc
import os

from .. import inject, jp2gen, lib, proc, world as W
from . import c01

ID = "C13"
LEVEL = "fault_enumeration"
QUICK = 2200
THOROUGH = 30000
RULE = "distinct (access path, place of the injected failure or interrupt or storage fault, end of the analysis) tuples"
ASSUMPTIONS = ["reference counting of CPython counts as releasing; the cyclic garbage collector is switched off while the analysis runs",
               "an interrupted or failed call has released its file when the exception it raised has been dropped"]
KEEP = ("spec",)


def held(w):
    """Descriptors and mappings of the scratch disk, straight from the kernel."""
    out = []
    root = w.root + "/"
    for fd in W._real["listdir"]("/proc/self/fd"):
        try:
            t = W._real["readlink"]("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t.startswith(root):
            out.append("descriptor of " + t[len(root):])
    with W._real["open"]("/proc/self/maps", "rb") as f:
        for line in f.read().split(b"\n"):
            k = line.find(os.fsencode(root))
            if k >= 0:
                out.append("mapping of " + os.fsdecode(line[k + len(root):]))
    return sorted(out)


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.2)
    files = []
    for k in range(rng.randrange(2, 6)):
        c = lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.85 else None, pdmg=0.45)
        if "spec" in c and not c.get("dmg") and rng.random() < 0.3:
            jp2gen.weird_xml(rng, c["spec"])
        files.append(["f%d.jp2" % k, c])
    sc = {"opts": opts, "files": files, "nommap": rng.random() < 0.3, "platform": rng.choice(["linux", "linux", "win32"]), "arm": False}
    sc["faults"] = []
    for f in rng.sample(files, rng.randrange(0, len(files))):
        op = rng.choice(["stat", "open", "read"] if sc["nommap"] else ["open", "mmap", "mmap", "slice", "slice"])
        sc["faults"].append({"op": op, "path": f[0], "n": rng.choice([1, 1, 2, 4, 9]), "err": rng.choice(c01.ERRS[op]), "times": rng.choice([1, -1])})
    sc["calls"] = [[rng.choice(["none", "MemoryError", "KeyboardInterrupt"]), rng.randrange(len(files)), p] for p in inject.picks(rng, 6)]
    return sc


def run(sc, ctx):
    opts = dict(sc["opts"])
    files = [[n, lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    names = [n for n, _ in files]
    # library calls one after the other, some of them cut short
    base = {k: v for k, v in sc.items() if k not in ("calls", "faults")}
    w = W.World(base)
    try:
        for n, d in files:
            w.put(n, d)
        with w:
            p = proc.Proc(w)
            for what, k, (u, v) in sc["calls"]:
                if k >= len(files):
                    continue
                path = w.path(names[k])
                rec = inject.Recorder()
                proc.use_lines(rec)
                try:
                    p.one(path, *lib.api_args(opts))
                except Exception as ex:
                    # not this property's business, but the file has to be released all the same
                    ex.__traceback__ = None
                    ex = None
                proc.use_nothing()
                h = held(w)
                if h:
                    raise lib.Violation("leak", "after the analysis of %s: %s" % (names[k], h))
                ctx.keys.append("call|%s|%s" % (bool(sc["nommap"]), sc["platform"]))
                if what == "none":
                    continue
                at = rec.pick(u, v, guarded=int(u * 1000) % 2 == 1)
                if at is None:
                    continue
                inj = inject.Injector([at], {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}[what], w)
                proc.use_lines(inj)
                end = "returned"
                try:
                    p.one(path, *lib.api_args(opts))
                except (KeyboardInterrupt, Exception) as ex:
                    end = "raised"
                    ex.__traceback__ = None
                    ex = None
                proc.use_nothing()
                h = held(w)
                if h:
                    raise lib.Violation("leak", "after %s at %s during the analysis of %s (%s): %s" % (what, inj.fired, names[k], end, h))
                ctx.keys.append("%s|%s|%s|%s" % (what, inj.fired, bool(sc["nommap"]), end))
                ctx.count("%s:%s" % (what, end))
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()
    # a batch with storage faults: nothing of an earlier file is open when the next one is opened, or at the end
    sc2 = {k: v for k, v in sc.items() if k != "calls"}
    bad = []
    peak = [0]

    def hooks(w):
        def onop(kind, rel):
            if kind == "open" and rel:
                h = [x for x in held(w)]
                peak[0] = max(peak[0], len(h))
                other = [x for x in h if not x.endswith(" of " + rel)]
                if other:
                    bad.append("when %s was opened: %s" % (rel, other))
        w.onop = onop
        proc.use_steps(proc.LIMIT)
        w.end = lambda: held(w)
    w = W.World(sc2)
    try:
        for n, d in files:
            w.put(n, d)
        with w:
            p = proc.Proc(w)
            hooks(w)
            try:
                o = p.cli(lib.argv_of(opts) + names)
            finally:
                ctx.steps += proc.Steps.n
                proc.use_nothing()
            h = held(w)
            if h:
                bad.append("at the end of the run: %s" % h)
        ctx.world_done(w)
        if o.hang:
            raise lib.Violation("hang", "the run does not end")
    finally:
        proc.use_nothing()
        w.destroy()
    if bad:
        raise lib.Violation("leak", "batch with faults %s: %s" % (w.firedon, bad[0]))
    for e, k, r in w.firedon:
        ctx.keys.append("batch|%s|%s|%s|%s" % (e, k, bool(sc["nommap"]), sc["platform"]))
    ctx.count("batchfiles", len(files))
    ctx.nontrivial = True
