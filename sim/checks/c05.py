"""C05: analyses in concurrent threads."""
import datetime

from .. import jp2gen, lib, proc, sched, world as W

ID = "C05"
LEVEL = "exploration"
QUICK = 6000
THOROUGH = 40000
RULE = "distinct schedules (switch sequences by function and thread) with at least one preemption inside an analysis"
ASSUMPTIONS = ["threads switch at the lines, calls and returns of the package and at storage operations, not inside C code",
               "the reference is the same call alone in a fresh process of the same tree"]
KEEP = ("spec",)


def gen(rng, i, tier):
    nt = rng.choice([2, 2, 2, 3, 4])
    nf = rng.randrange(1, 4)
    sc = {"nommap": rng.random() < 0.25}
    same = rng.random() < 0.35
    o0 = lib.gen_opts(rng, p=0.3)
    optsets = [o0] if same else [o0] + [lib.gen_opts(rng, p=0.3) for _ in range(2)]
    conts = []
    for k in range(nf):
        for t in range(30):
            if t == 0 and conts and "spec" in conts[-1] and rng.random() < 0.3:
                c = lib.cousin(rng, conts[-1])
                if all(lib.baseline(lib.content(c), o, limit=8000) != "hang" for o in optsets):
                    break
            c = lib.gen_content(rng, rng.choice(optsets)["fmt"] if rng.random() < 0.85 else None, pdmg=0.3, rich=rng.choice([0.05, 0.3, 0.6]))
            if "spec" in c and not c.get("dmg") and rng.random() < 0.25:
                jp2gen.weird_xml(rng, c["spec"])
            if len(lib.content(c)) < 2500 and all(lib.baseline(lib.content(c), o, limit=8000) != "hang" for o in optsets):
                break
        else:
            c = {"hex": "fffe"}
        conts.append(c)
    mixed = rng.random() < 0.12
    if mixed:
        # valid images, each thread with its own version of the MIX output
        fmt = rng.choice(["jp2", "jp2", "jph"])
        optsets = [dict(lib.gen_opts(rng, p=0.2), fmt=fmt, mix=m) for m in (1, 2)]
        for _ in range(20):
            c = {"spec": jp2gen.gen_spec(rng, fmt, rng.choice([0.1, 0.4]))}
            bs = [lib.baseline(lib.content(c), o, limit=8000) for o in optsets]
            if len(lib.content(c)) < 2500 and not any(isinstance(b, str) or b.valid != "True" for b in bs):
                conts, nf = [c], 1
                break
        else:
            mixed = False
    contrast = not mixed and rng.random() < 0.2
    if contrast:
        # two files that differ in one field on which the reading of the rest depends
        o0 = optsets[0]
        for _ in range(20):
            c = {"spec": jp2gen.gen_spec(rng, o0["fmt"], rng.choice([0.4, 0.8]))}
            d = lib.cousin(rng, c)
            if len(lib.content(c)) < 2500 and all(lib.baseline(lib.content(x), o, limit=8000) != "hang" for o in optsets for x in (c, d)):
                conts = [c, d]
                nf = 2
                break
        else:
            contrast = False
    sc["conts"] = conts
    sc["tasks"] = [[[rng.randrange(nf), rng.randrange(len(optsets))] for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)]
    if contrast:
        sc["tasks"] = [[[0, 0]], [[1, 0]]] + sc["tasks"][2:3]
    if mixed:
        sc["tasks"][:2] = [[[0, 0]], [[0, 1]]]
    sc["optsets"] = optsets
    mode = rng.choice(["sparse", "sparse", "dense", "mid", "burst"])
    if contrast and mode == "sparse":
        mode = "mid"
    if mixed or rng.random() < 0.05:
        # preemptions to the very end of the analyses
        mode = "long"
    sc["mode"] = mode
    if mode == "sparse":
        sw = [[rng.randrange(1, 3000), rng.randrange(8)] for _ in range(rng.randrange(1, 6))]
    elif mode == "mid":
        sw = [[rng.randrange(1, 200), rng.randrange(8)] for _ in range(60)]
    elif mode == "long":
        q = rng.choice([20, 60, 200])
        sw = [[rng.randrange(1, q + 1), rng.randrange(8)] for _ in range(40000 // q)]
    elif mode == "burst":
        sw = [[rng.randrange(1, 2500), 0]] + [[rng.randrange(1, 6), rng.randrange(8)] for _ in range(150)]
    else:
        q = rng.choice([2, 4, 10, 30])
        sw = [[rng.randrange(1, q + 1), rng.randrange(8)] for _ in range(400)]
    sc["switches"] = sw
    return sc


def run(sc, ctx):
    conts = [lib.content(c) for c in sc["conts"]]
    optsets = sc["optsets"]
    want = {}
    for t in sc["tasks"]:
        for f, o in t:
            b = lib.baseline(conts[f], optsets[o], "f%d.jp2" % f, sc["nommap"])
            if isinstance(b, str):
                raise lib.Violation("alone", "analysed alone: " + b)
            want[f, o] = b
    w = W.World({"nommap": sc["nommap"], "mtimes": {"f%d.jp2" % k: W.BASE_TIME + 100003 * (k + 1) for k in range(len(conts))}})
    try:
        for k, d in enumerate(conts):
            w.put("f%d.jp2" % k, d)
        with w:
            with sched.locks():
                p = proc.Proc(w)

                def job(t):
                    def fn():
                        return [p.one(w.path("f%d.jp2" % f), *lib.api_args(optsets[o])) for f, o in t]
                    return fn
                s = sched.Sched([job(t) for t in sc["tasks"]], sc["switches"])

                def onop(kind, rel):
                    if kind not in ("stdout", "stderr"):
                        s.point()
                w.onop = onop
                sched.monitor(s)
                try:
                    s.run()
                finally:
                    sched.unmonitor()
                    w.onop = None
            ctx.steps += s.n
            w.log.extend(s.trace)
            if s.stop:
                raise lib.Violation("hang", "concurrent analyses do not finish: %s; schedule %s" % (s.stop, " ".join(s.trace[-12:])))
            for t, task in zip(sc["tasks"], s.tasks):
                if task.exc is not None:
                    raise lib.Violation("raised", "thread %d: analysis raised %s: %s; schedule %s" % (task.i, type(task.exc).__name__, task.exc, " ".join(s.trace[-12:])))
                for (f, o), e in zip(t, task.result):
                    r = lib.res(e, w)
                    if r.key() != want[f, o].key():
                        raise lib.Violation("interference", "thread %d, file %d with %s, in parallel: %s; schedule %s"
                                            % (task.i, f, optsets[o], lib.diff(r, want[f, o]), " ".join(s.trace[-12:])))
                    try:
                        stamp = datetime.datetime.fromisoformat(r.mtime)
                    except ValueError:
                        stamp = r.mtime
                    if stamp != datetime.datetime.fromtimestamp(W.BASE_TIME + 100003 * (f + 1)) or r.path != w.path("f%d.jp2" % f):
                        raise lib.Violation("interference", "thread %d, file %d: file information of another file (%s, %s)" % (task.i, f, r.path, r.mtime))
                    if r.name != "f%d.jp2" % f or r.size != str(len(conts[f])):
                        raise lib.Violation("interference", "thread %d, file %d: file information of another file (%s, %s)" % (task.i, f, r.name, r.size))
        if s.switched:
            ctx.nontrivial = True
            ctx.keys.append(lib.digest(s.trace))
        ctx.count("switches", s.switched)
        ctx.count("fault:preemption", s.switched)
        ctx.count("mode:" + sc["mode"])
        ctx.world_done(w)
    finally:
        sched.unmonitor()
        w.destroy()
