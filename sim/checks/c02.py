"""C02: a fault in the middle of an analysis is reported, never turned into a wrong result."""
import random

from .. import inject, lib, proc, world as W

ID = "C02"
LEVEL = "fault_enumeration"
QUICK = 1800
THOROUGH = 30000
RULE = ("distinct (function, line, occurrence class, fault kind, outcome) tuples of injected allocation failures and "
        "distinct (operation, occurrence, error, access path, outcome) tuples of injected storage failures that really fired")
ASSUMPTIONS = ["an allocation failure is an exception at the start of an executed line of the package (CPython can raise it anywhere)",
               "an allocation failure before the file is opened or after its last byte was read may leave the library call as an exception"]
KEEP = ("spec",)
ERRS = ["EIO", "ESTALE", "EACCES", "ENOMEM", "ETIMEDOUT", "MemoryError"]


def gen(rng, i, tier):
    fmt = rng.choice(lib.FORMATS)
    opts = lib.gen_opts(rng, fmt, p=0.2)
    c = lib.gen_cheap(rng, opts, fmt, pdmg=0.3)
    if "spec" in c and not c.get("dmg") and rng.random() < 0.3:
        from .. import jp2gen
        jp2gen.weird_xml(rng, c["spec"])
    sc = {"opts": opts, "file": c, "nommap": rng.random() < 0.35}
    if rng.random() < 0.25:
        sc["shortseed"] = rng.randrange(1000)
    sc["lines"] = [[p, rng.choice([1, 1, 1, 1, 2, 3]), int(rng.random() < 0.5)] for p in inject.picks(rng, 8)]
    ops = ["stat", "open", "read"] if sc["nommap"] else ["stat", "open", "mmap", "slice", "slice"]
    sc["ops"] = []
    for _ in range(4):
        op = rng.choice(ops)
        sc["ops"].append({"op": op, "path": "f.jp2", "n": 1 if rng.random() < 0.15 else rng.choice([1, 1, 2]),
                          "frac": round(rng.random(), 5) if op in ("slice", "read") else None, "err": "MemoryError" if op == "slice" else rng.choice(ERRS), "times": rng.choice([1, 1, -1])})
    return sc


def failed(r, what, ctx):
    if r.success == "False":
        if r.valid != "False":
            raise lib.Violation("failedvalid", "%s: success False, but isValid %s" % (what, r.valid))
        if r.props not in ("<properties></>", None):
            raise lib.Violation("partial", "%s: success False, but properties are presented: %s" % (what, r.props[:300]))
        return True
    return False


def run(sc, ctx):
    opts = sc["opts"]
    data = lib.content(sc["file"])
    args = lib.api_args(opts)
    base = {k: v for k, v in sc.items() if k not in ("ops", "lines")}
    w = W.World(base)
    try:
        w.put("f.jp2", data)
        with w:
            p = proc.Proc(w)
            rec = inject.Recorder()
            span = [None, 0]

            def onop(kind, rel):
                if rel == "f.jp2":
                    if kind == "open" and span[0] is None:
                        span[0] = len(rec.seq)
                    if kind in ("slice", "read", "mmap"):
                        span[1] = len(rec.seq)
            w.onop = onop
            proc.use_lines(rec)
            ref = lib.res(p.one(w.path("f.jp2"), *args), w)
            proc.use_nothing()
            w.onop = None
            counts = dict(w.counts)
            ctx.steps += len(rec.seq)
            lo, hi = span
            for n, ((u, v), burst, guarded) in enumerate(sc["lines"]):
                at = rec.pick(u, v, guarded=bool(guarded))
                if at is None:
                    continue
                inj = inject.Injector(range(at, at + burst), MemoryError, w)
                proc.use_lines(inj)
                r = None
                try:
                    r = lib.res(p.one(w.path("f.jp2"), *args), w)
                except MemoryError:
                    pass
                except Exception as ex:
                    proc.use_nothing()
                    raise lib.Violation("othererror", "out of memory at %s became %s: %s" % (inj.fired, type(ex).__name__, ex))
                proc.use_nothing()
                what = "out of memory at line event %d (%s)" % (at, ",".join(inj.fired))
                if r is None:
                    out = "raised"
                    if lo is not None and lo < at <= hi and burst == 1:
                        raise lib.Violation("escaped", what + ", while the file was being read: the failure was not reported but left the analysis")
                elif failed(r, what, ctx):
                    out = "reported"
                    if "memory" not in (r.msg or "").lower():
                        raise lib.Violation("message", "%s: failure message %r" % (what, r.msg))
                else:
                    out = "same"
                    if r.key() != ref.key():
                        raise lib.Violation("wrongresult", "%s: success True, but %s" % (what, lib.diff(r, ref)))
                ctx.keys.append("line|%s|%d|%s" % (",".join(inj.fired), burst, out))
                ctx.count("line:" + out)
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()
    for f in sc["ops"]:
        f = dict(f)
        fr = f.pop("frac", None)
        if fr is not None:
            f["n"] = 1 + int(fr * counts.get((f["op"], "f.jp2"), 1))
        s2 = dict(base, faults=[f])
        w = W.World(s2)
        try:
            w.put("f.jp2", data)
            with w:
                p = proc.Proc(w)
                proc.use_steps(proc.LIMIT)
                what = "%s at %s #%d" % (f["err"], f["op"], f["n"])
                try:
                    r = lib.res(p.one(w.path("f.jp2"), *args), w)
                except Exception as ex:
                    raise lib.Violation("escaped", "%s left the analysis as %s" % (what, type(ex).__name__))
                finally:
                    proc.use_nothing()
            fired = [x for x in w.firedon if x[2] == "f.jp2"]
            if not fired:
                out = "unfired"
                if r.key() != ref.key():
                    raise lib.Violation("wrongresult", "no fault fired, but %s" % lib.diff(r, ref))
            elif failed(r, what, ctx):
                out = "reported"
            else:
                out = "same"
                if r.key() != ref.key():
                    raise lib.Violation("wrongresult", "%s: success True, but %s" % (what, lib.diff(r, ref)))
            if fired:
                ctx.keys.append("op|%s|%s|%s|%s|%s" % (f["op"], f["err"], min(f["n"], 6), bool(sc["nommap"]), out))
                ctx.count("op:" + out)
            ctx.world_done(w)
        finally:
            w.destroy()
