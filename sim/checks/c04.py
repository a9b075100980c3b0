"""C04: histories of analyses in one process."""
import sys

from .. import damage, inject, jp2gen, lib, proc, world as W
from . import c17

ID = "C04"
LEVEL = "exploration"
QUICK = 3000
THOROUGH = 80000
RULE = "distinct (previous step kind and format, step kind, format, option set) transitions in histories of at least two analyses"
ASSUMPTIONS = ["the reference is the same content and options analysed alone in a fresh process of the same tree",
               "batches are started as the command line program does: settings in the config module, then checkFiles"]
KEEP = ("spec",)
NAMES = ["a.jp2", "b.jp2", "d/a.jp2", "c.j2c", "e.jph"]


def gen(rng, i, tier):
    nf = rng.randrange(2, 5)
    names = NAMES[:nf]
    sc = {"nommap": rng.random() < 0.25, "names": names}
    optsets = [lib.gen_opts(rng, p=0.3) for _ in range(rng.choice([2, 3]))]
    conts = []
    for k in range(nf + 2):
        o = rng.choice(optsets)
        c = lib.gen_cheap(rng, o, o["fmt"] if rng.random() < 0.75 else None, pdmg=0.35)
        if "spec" in c and not c.get("dmg") and rng.random() < 0.2:
            jp2gen.weird_xml(rng, c["spec"])
        if all(lib.cheap(c, x) for x in optsets):
            conts.append(c)
    while len(conts) < nf:
        conts.append({"spec": jp2gen.gen_spec(rng, optsets[0]["fmt"])})
    # a version of the same length: only the bytes tell it from the other one
    for k in range(len(conts)):
        if "spec" in conts[k] and rng.random() < 0.4:
            im = jp2gen.build(conts[k]["spec"])
            d = list(conts[k].get("dmg", ())) + [damage.one(rng, im, ["field", "fbit", "frand", "flip"])]
            c = dict(conts[k], dmg=d) if rng.random() < 0.5 else lib.cousin(rng, conts[k])
            if all(lib.cheap(c, x) for x in optsets):
                conts.append(c)
    sweep = rng.random() < 0.1
    if sweep:
        # many files, each with its own damaged field, one after the other
        for _ in range(rng.choice([12, 25])):
            o = rng.choice(optsets)
            a = c17.aimed(rng, o["fmt"])
            if a and all(lib.cheap({"spec": a[0], "dmg": a[2]}, x, 30000) for x in optsets):
                conts.append({"spec": a[0], "dmg": a[2]})
    sc["conts"] = conts
    sc["init"] = [rng.randrange(len(conts)) for _ in names]
    steps = []
    for _ in range(rng.randrange(4, 14)):
        k = rng.choice(["one"] * 6 + ["batch"] * 2 + ["rewrite", "rewrite", "fault", "interrupt", "missing", "badfmt", "clear", "emptybatch"])
        f = rng.randrange(nf)
        o = rng.choice(optsets)
        if k == "one":
            steps.append([k, f, o, rng.choice(["pos", "kw", "mixed", "trim"])])
        elif k == "batch":
            fs = [rng.randrange(nf) for _ in range(rng.randrange(1, 4))]
            steps.append([k, fs, o, rng.choice(["names", "tree", "wild"])])
            if rng.random() < 0.4:
                # one of its files cannot be read
                op = rng.choice(["open", "read"] if sc["nommap"] else ["open", "mmap", "slice"])
                steps[-1].append([rng.choice(fs), {"op": op, "n": rng.choice([1, 2, 5]) if op in ("slice", "read") else 1,
                                                   "err": "MemoryError" if op == "slice" else rng.choice(["EIO", "ENOENT", "MemoryError"])}])
        elif k == "rewrite":
            steps.append([k, f, rng.randrange(len(conts)), rng.choice(["same", "new"])])
        elif k == "fault":
            op = rng.choice(["stat", "open", "read"] if sc["nommap"] else ["stat", "open", "mmap", "slice"])
            steps.append([k, f, o, {"op": op, "n": rng.choice([1, 2, 5]) if op in ("slice", "read") else 1,
                                    "err": "MemoryError" if op == "slice" else rng.choice(["EIO", "ENOENT", "MemoryError"])}])
        elif k == "interrupt":
            steps.append([k, f, o, round(rng.random(), 5)])
        elif k == "clear":
            steps.append([k, rng.randrange(100)])
        elif k == "emptybatch":
            steps.append([k, o])
        else:
            steps.append([k, f, o])
    if rng.random() < 0.03:
        # a process that has been running for a long time
        steps.insert(rng.randrange(len(steps) + 1), ["many", rng.choice([40, 120, 300]), [rng.randrange(nf) for _ in range(3)], rng.choice(optsets)])
    if sweep:
        steps = []
        for _ in range(rng.choice([30, 60])):
            f = rng.randrange(nf)
            steps.append(["rewrite", f, rng.randrange(len(conts)), rng.choice(["same", "new"])])
            steps.append(["one", f, rng.choice(optsets), "pos"])
    sc["steps"] = steps
    return sc


def call(p, path, o, style):
    a = lib.api_args(o)
    names = ("validationFormat", "verboseFlag", "packetmarkersFlag", "nullxmlFlag", "mixFlag")
    if style == "kw":
        return p.one(path, **dict(zip(names, a)))
    if style == "mixed":
        return p.one(path, *a[:2], **dict(zip(names[2:], a[2:])))
    if style == "trim":
        d = ("jp2", False, False, False, 0)
        n = len(a)
        while n and a[n - 1] == d[n - 1]:
            n -= 1
        return p.one(path, *a[:n])
    return p.one(path, *a)


def run(sc, ctx):
    conts = [lib.content(c) for c in sc["conts"]]
    names = sc["names"]
    w = W.World({k: v for k, v in sc.items() if k in ("nommap",)})
    try:
        cur = {}
        for n, c in zip(names, sc["init"]):
            cur[n] = conts[c]
            w.put(n, conts[c])
        mt = W.BASE_TIME
        kept = []
        with w:
            p = proc.Proc(w)
            m = p.m
            last = "start"
            for sn, st in enumerate(sc["steps"]):
                k = st[0]
                what = "step %d (%s)" % (sn, k)
                if k == "rewrite":
                    n = names[st[1]]
                    cur[n] = conts[st[2]]
                    w._inop = True
                    w.put(n, cur[n])
                    w._inop = False
                    if st[3] == "new":
                        mt += 10
                        w.mtimes[n] = mt
                    ctx.count("rewrite")
                    last = "rewrite"
                    continue
                if k == "clear":
                    if kept:
                        e = kept.pop(st[1] % len(kept))
                        e[0].clear()
                    continue
                if k == "many":
                    for r in range(st[1]):
                        p.one(w.path(names[st[2][r % len(st[2])]]), *lib.api_args(st[3]))
                    ctx.count("long histories")
                    last = "many"
                    continue
                o = st[1] if k == "emptybatch" else st[2]
                if k == "one":
                    n = names[st[1]]
                    proc.use_steps(proc.LIMIT)
                    try:
                        e = call(p, w.path(n), o, st[3])
                    except Exception as ex:
                        raise lib.Violation("raised", "%s: analysis of %s raised %s: %s" % (what, n, type(ex).__name__, ex))
                    finally:
                        proc.use_nothing()
                    ctx.steps += proc.Steps.n
                    r = lib.res(e, w)
                    b = alone(cur[n], o, n, sc["nommap"], w)
                    if r.key() != b.key():
                        raise lib.Violation("history", "%s after %s: %s with %s: %s" % (what, hist(sc, sn), n, o, lib.diff(r, b)))
                    if r.size != str(len(cur[n])) or r.path != w.path(n):
                        raise lib.Violation("history", "%s: file information of %s is %s %s" % (what, n, r.size, lib.norm(r.path or "", w)))
                    kept.append((e, full(e)))
                elif k in ("batch", "emptybatch"):
                    setcfg(m, o)
                    pos = len(w.out.got)
                    if k == "emptybatch":
                        paths, rec, want = ["nothing.jp2"], False, []
                    elif st[3] == "names":
                        want = [names[x] for x in st[1]]
                        paths, rec = want, False
                    elif st[3] == "tree":
                        want, paths, rec = sorted(names), ["."], True
                    else:
                        want, paths, rec = sorted(x for x in names if x.endswith(".jp2") and "/" not in x), ["*.jp2"], False
                    sick = None
                    if len(st) > 4:
                        sick = names[st[4][0]]
                        w.counts.clear()
                        w.faults = [dict(st[4][1], path=sick, left=1)]
                    proc.use_steps(proc.LIMIT)
                    code = 0
                    try:
                        m.checkFiles(rec, list(paths))
                    except SystemExit as ex:
                        code = ex.code
                    except Exception as ex:
                        raise lib.Violation("raised", "%s: batch %s raised %s: %s" % (what, paths, type(ex).__name__, ex))
                    finally:
                        proc.use_nothing()
                        w.faults = []
                    ctx.steps += proc.Steps.n
                    sys.stdout.flush()
                    got = bytes(w.out.got[pos:])
                    if not want:
                        if not code or got:
                            raise lib.Violation("emptybatch", "%s: selects nothing, but ended with %r and wrote %r" % (what, code, got[:300]))
                    else:
                        rep = lib.parse_report(lib.norm(got, w))
                        if code or not rep.ok:
                            raise lib.Violation("batch", "%s: status %r, report %s" % (what, code, rep.error))
                        rels = [(r.path or "")[len("/ROOT/"):] for r in rep.files]
                        if (rels if st[3] == "names" else sorted(rels)) != want:
                            raise lib.Violation("batchfiles", "%s after %s: selected %s, reported %s" % (what, hist(sc, sn), want, rels))
                        for rel, r in zip(rels, rep.files):
                            if rel == sick:
                                continue
                            b = alone(cur[rel], o, rel, sc["nommap"], w)
                            if r.key() != b.key():
                                raise lib.Violation("history", "%s after %s: %s with %s: %s" % (what, hist(sc, sn), rel, o, lib.diff(r, b)))
                elif k == "fault":
                    n = names[st[1]]
                    f = dict(st[3], path=n, left=1)
                    w.counts.clear()
                    w.faults = [f]
                    try:
                        call(p, w.path(n), o, "pos")
                    except Exception:
                        pass
                    w.faults = []
                elif k == "interrupt":
                    n = names[st[1]]
                    rec = inject.Recorder()
                    proc.use_lines(rec)
                    call(p, w.path(n), o, "pos")
                    at = 1 + int(st[3] * (len(rec.seq) - 1))
                    proc.use_lines(inject.Injector([at], KeyboardInterrupt, w))
                    try:
                        call(p, w.path(n), o, "pos")
                    except KeyboardInterrupt:
                        pass
                    proc.use_nothing()
                elif k == "missing":
                    try:
                        p.one(w.path("gone.jp2"), *lib.api_args(o))
                    except Exception:
                        pass
                elif k == "badfmt":
                    try:
                        p.one(w.path(names[st[1]]), "xyz")
                    except Exception:
                        pass
                if last != "start":
                    ctx.nontrivial = True
                tag = "%s/%s%s%s%s%s" % (k, o["fmt"], "v" * bool(o.get("verbose")), "p" * bool(o.get("packetmarkers")), "n" * bool(o.get("nullxml")), o.get("mix", ""))
                ctx.keys.append(last + ">" + tag)
                ctx.count("step:" + k)
                last = tag
            for n, (e, s) in enumerate(kept):
                if full(e) != s:
                    raise lib.Violation("changedlater", "the result of an earlier analysis was changed by a later one (history %s)" % hist(sc, len(sc["steps"])))
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()


def full(e):
    return lib._ser(e)


def hist(sc, sn):
    return " ".join(s[0] for s in sc["steps"][:sn])[-120:]


def setcfg(m, o):
    c = m.config
    f, v, pk, nx, mix = lib.api_args(o)
    c.VALIDATION_FORMAT, c.OUTPUT_VERBOSE_FLAG, c.OUTPUT_PACKET_MARKERS_FLAG = f, v, pk
    c.EXTRACT_NULL_TERMINATED_XML_FLAG, c.MIX_FLAG, c.NO_PRETTY_XML_FLAG = nx, mix, bool(o.get("nopretty"))
    c.INPUT_RECURSIVE_FLAG = False


def alone(data, o, name, nommap, w):
    """Baseline from a fresh process, computed without disturbing this one."""
    keep = W._W
    mods = {k: v for k, v in sys.modules.items() if k == "jpylyzer" or k.startswith("jpylyzer.")}
    import xml.etree.ElementTree as ET
    ns = dict(ET._namespace_map)
    so, se, av, pl = sys.stdout, sys.stderr, sys.argv, sys.platform
    W._W = None
    import os
    cwd = os.getcwd()
    try:
        b = lib.baseline(data, {k: v for k, v in o.items() if k != "nopretty"}, name, nommap)
    finally:
        os.chdir(cwd)
        for k in [k for k in sys.modules if k == "jpylyzer" or k.startswith("jpylyzer.")]:
            del sys.modules[k]
        sys.modules.update(mods)
        ET._namespace_map.clear()
        ET._namespace_map.update(ns)
        sys.stdout, sys.stderr, sys.argv, sys.platform = so, se, av, pl
        W._W = keep
    if isinstance(b, str):
        raise lib.Violation("alone", "analysed alone: " + b)
    return b
