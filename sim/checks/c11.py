"""C11: an interrupt at any instant stops the run and never becomes a verdict."""
import sys

from .. import inject, jp2gen, lib, proc, world as W

ID = "C11"
LEVEL = "fault_enumeration"
QUICK = 1000
THOROUGH = 15000
RULE = "distinct (function and line, or storage operation, at which the interrupt arrived, files opened so far) tuples"
ASSUMPTIONS = ["the interrupt arrives at an executed line of the package or at a storage operation; Python delivers signals between bytecodes",
               "any non-zero end of the process counts as ended because of the interrupt; buffered output is flushed when the interpreter exits"]
KEEP = ("spec",)


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.2)
    n = rng.choice([1, 2, 2, 3, 3, 5])
    files = []
    for k in range(n):
        for _ in range(20):
            c = lib.gen_content(rng, opts["fmt"] if rng.random() < 0.9 else None, pdmg=0.3, rich=rng.choice([0.05, 0.3, 0.7]))
            if "spec" in c and not c.get("dmg") and rng.random() < 0.3:
                jp2gen.weird_xml(rng, c["spec"])
            if len(lib.content(c)) < 3000 and lib.baseline(lib.content(c), opts, limit=8000) != "hang":
                break
        else:
            c = {"hex": "ff4f"}
        files.append([rng.choice(["", "", "d/", "d/e/"]) + "f%d.jp2" % k, c])
    return lib.entry(rng, {"opts": opts, "files": files, "mode": rng.choice(["names", "names", "tree", "wild", "wildtree"]), "nommap": rng.random() < 0.25,
            "bufsize": rng.choice([8192, 8192, 0, 1, 300]),
            "lines": inject.picks(rng, 7), "ops": [round(rng.random(), 5) for _ in range(5)],
            "writes": [round(rng.random(), 5) for _ in range(2)]})


def run(sc, ctx):
    opts = dict(sc["opts"])
    files = [[n, lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    paths = [n for n, _ in files]
    if sc["mode"] == "tree":
        opts["recurse"] = True
        paths = ["."]
    elif sc["mode"] == "wild":
        paths = ["*.jp2", "*/*.jp2", "d/e/*.jp2"]
    elif sc["mode"] == "wildtree":
        opts["recurse"] = True
        paths = ["*.jp2"]
    args = lib.argv_of(opts) + paths
    base = {k: v for k, v in sc.items() if k in ("nommap", "bufsize", "entry")}
    rec = inject.Recorder()
    opened = []          # (file, bytes of output complete when it was opened)

    def hooks(w):
        def onop(kind, rel):
            if kind == "open" and rel:
                if not opened or opened[-1][0] != rel:
                    w.onop = None
                    sys.stdout.flush()
                    w.onop = onop
                    opened.append((rel, len(w.out.got)))
        w.onop = onop
        proc.use_lines(rec)
    d0 = lib.batch(base, ctx, files, args, hooks)
    rep = lib.want_report(d0, "the undisturbed run")
    if len(rep.files) != len(files):
        raise lib.Violation("undisturbed", "%d files, %d reported" % (len(files), len(rep.files)))
    ref = d0.o.out
    # without the extra flushes, the number of operations differs: count them again
    nops = [0]
    nwrites = [0]

    def count(w):
        def onop(kind, rel):
            if rel is not None:
                nops[0] += 1
            elif kind == "stdout":
                nwrites[0] += 1
        w.onop = onop
        proc.use_nothing()
    d1 = lib.batch(base, ctx, files, args, count, root=d0.w.root)
    if d1.o.out != ref:
        raise lib.Violation("undisturbed", "two undisturbed runs differ")
    todo = [("line", rec.pick(u, v, guarded=n % 2 == 1)) for n, (u, v) in enumerate(sc["lines"])] + [("op", 1 + int(f * nops[0])) for f in sc["ops"]] + \
        [("write", 1 + int(f * nwrites[0])) for f in sc["writes"]]
    if base.get("bufsize") == 0:
        # without a buffer in between, the signal may also be noticed right after the device took the bytes
        todo += [("written", 1 + int(f * nwrites[0])) for f in sc["writes"]]
    for kind, at in todo:
        if at is None:
            continue
        seen = {"opens": [], "at": None, "after": []}

        def hooks2(w, kind=kind, at=at):
            inj = inject.Injector([at] if kind == "line" else [], KeyboardInterrupt, w)
            cnt = [0]

            def onop(k, rel):
                if (rel is None) != (kind == "write") or (rel is None and k != "stdout"):
                    if rel is None or k != "open":
                        return
                elif kind != "written":
                    cnt[0] += 1
                fired = bool(inj.fired) or seen["at"] is not None
                if k == "open" and rel:
                    if fired:
                        seen["after"].append(rel)
                    elif not seen["opens"] or seen["opens"][-1] != rel:
                        seen["opens"].append(rel)
                if kind == ("op" if rel is not None else "write") and cnt[0] == at and seen["at"] is None:
                    seen["at"] = k
                    w.fired("KeyboardInterrupt:" + k)
                    w.interrupt()
            w.onop = onop
            if kind == "written":
                def after(name):
                    if name == "stdout":
                        cnt[0] += 1
                        if cnt[0] == at:
                            seen["at"] = "written"
                            w.fired("KeyboardInterrupt:written")
                            w.interrupt()
                w.onwritten = after
            seen["inj"] = inj
            if kind == "line":
                proc.use_lines(inj)
            else:
                proc.use_steps(proc.LIMIT)
        d = lib.batch(base, ctx, files, args, hooks2, root=d0.w.root)
        o = d.o
        where = seen["inj"].fired[0] if kind == "line" and seen["inj"].fired else seen["at"]
        if where is None:
            ctx.count("notreached")
            continue
        what = "interrupt at %s %s (event %d, files opened: %s)" % (kind, where, at, seen["opens"])
        if o.hang:
            raise lib.Violation("hang", what + ": the run does not end")
        if o.exit == 0:
            raise lib.Violation("swallowed", what + ": the run ended with status 0")
        if o.exc not in ("KeyboardInterrupt", None):
            raise lib.Violation("othererror", "%s: the run ended with %s\n%s" % (what, o.exc, o.tb))
        if seen["after"]:
            raise lib.Violation("continued", "%s: afterwards %s was still opened" % (what, seen["after"]))
        if not ref.startswith(o.out):
            k = 0
            while k < min(len(ref), len(o.out)) and ref[k] == o.out[k]:
                k += 1
            raise lib.Violation("notprefix", "%s: the output differs from the undisturbed one at byte %d: %r instead of %r" % (what, k, o.out[k:k + 200], ref[k:k + 200]))
        if seen["opens"] and kind not in ("write", "written"):
            # (a write of the interpreter's own stream that is interrupted may lose what it was about to write)
            done = dict(opened).get(seen["opens"][-1], 0)
            if len(o.out) < done:
                raise lib.Violation("lost", "%s: %d bytes of completed reports, but only %d were delivered" % (what, done, len(o.out)))
        ctx.keys.append("%s|%s|%d" % (kind, where, len(seen["opens"])))
        ctx.count("interrupt:" + kind)
