"""C18: reporting options never change the verdict."""
import copy

from .. import damage, jp2gen, lib, proc, world as W
from . import c17

ID = "C18"
LEVEL = "exploration"
QUICK = 3000
THOROUGH = 80000
RULE = "distinct (format, option combination, content class, verdict, failed tests) tuples compared with the run without options"
ASSUMPTIONS = ["packet markers may add plm, ppm, plt and ppt elements to the properties; null-terminated metadata may change what is inside XML and UUID boxes; "
               "MIX may add the properties extension; verbose may add passed tests"]
KEEP = ("spec",)
FLAGS = ("verbose", "nopretty", "nullxml", "packetmarkers")


def gen(rng, i, tier):
    fmt = rng.choice(lib.FORMATS)
    files = []
    for k in range(rng.choice([1, 2, 3])):
        c = lib.gen_cheap(rng, {"fmt": fmt, "packetmarkers": True, "verbose": True}, fmt if rng.random() < 0.9 else None, pdmg=0.5, rich=rng.choice([None, 0.8, 1.0]))
        if rng.random() < 0.35:
            a = c17.aimed(rng, fmt)
            if a and lib.cheap({"spec": a[0], "dmg": a[2]}, {"fmt": fmt, "packetmarkers": True}):
                c = {"spec": a[0], "dmg": a[2]}
        if "spec" in c and not c.get("dmg") and rng.random() < 0.25:
            jp2gen.repeat(rng, c["spec"])
        if "spec" in c and not c.get("dmg") and rng.random() < 0.6:
            jp2gen.odd(rng, jp2gen.weird_xml(rng, c["spec"]))
            if rng.random() < 0.4:
                c["dmg"] = damage.some(rng, jp2gen.build(c["spec"]))
                if not lib.cheap(c, {"fmt": fmt, "packetmarkers": True}):
                    c.pop("dmg")
        if "spec" in c and not c.get("dmg") and rng.random() < 0.4:
            # isolated faults: one or several fields, everything around them consistent
            im = jp2gen.build(c["spec"])
            ops = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                key, op = c17.pick(rng, im, fmt)
                if key and (not ops or all(x[0] == "set" for x in op)) and all(x[0] == "set" for x in ops):
                    ops += op
            if ops:
                c["dmg"] = ops
                if not lib.cheap(c, {"fmt": fmt, "packetmarkers": True}):
                    c.pop("dmg")
        files.append(["f%d.jp2" % k, c])
    combos = []
    for f in FLAGS:
        if rng.random() < 0.5:
            combos.append({f: True})
    if rng.random() < 0.5:
        combos.append({"mix": rng.choice([1, 2])})
    for _ in range(3):
        combos.append({k: v for k, v in lib.gen_opts(rng, fmt, p=0.5).items() if k != "fmt"})
    return {"fmt": fmt, "files": files, "combos": combos, "nommap": rng.random() < 0.2}


PM = ("plm", "ppm", "plt", "ppt")


def reduced(e, opts):
    """What has to be the same as without these options."""
    e = copy.deepcopy(e)

    def rec(x):
        for c in list(x):
            t = lib._local(c.tag)
            if opts.get("packetmarkers") and t in PM:
                x.remove(c)
                continue
            if opts.get("nullxml") and t in ("xmlBox", "uuidBox"):
                c.text = None
                for d in list(c):
                    c.remove(d)
                continue
            rec(c)
    props = None
    for c in e:
        if lib._local(c.tag) == "properties":
            rec(c)
            props = c
    return lib._ser(props)


def run(sc, ctx):
    files = [[n, lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    fmt = sc["fmt"]
    names = [n for n, _ in files]

    def go(o, root=None):
        d = lib.batch({"nommap": sc["nommap"]}, ctx, files, lib.argv_of(dict(o, fmt=fmt)) + names, root=root)
        return d, lib.want_report(d, "the run with options %s" % o)
    d0, ref = go({})
    if [r.name for r in ref.files] != names:
        raise lib.Violation("selection", "files %s, reported %s" % (names, [r.name for r in ref.files]))
    f0 = [c17.failed(e) for e in ref.elems]
    for o in sc["combos"]:
        d, rep = go(o, d0.w.root)
        if [r.name for r in rep.files] != names:
            raise lib.Violation("selection", "options %s: files %s, reported %s" % (o, names, [r.name for r in rep.files]))
        if d.err != d0.err:
            ctx.count("diagnostics differ")
        for k, (r, a) in enumerate(zip(rep.files, ref.files)):
            e, e0 = rep.elems[k], ref.elems[k]
            what = "%s as %s with options %s" % (r.name, fmt, o)
            if (r.valid, r.success, r.msg) != (a.valid, a.success, a.msg):
                raise lib.Violation("verdict", "%s: success %s, isValid %s, message %s instead of %s, %s, %s" % (what, r.success, r.valid, r.msg, a.success, a.valid, a.msg))
            f = c17.failed(e)
            if f != f0[k]:
                raise lib.Violation("tests", "%s: failed tests %s instead of %s" % (what, sorted(set(f) ^ set(f0[k])), "the same as without"))
            if not o.get("verbose") and r.tests != a.tests:
                raise lib.Violation("tests", "%s: tests differ: %s" % (what, lib.diff(r, a)))
            if r.warn != a.warn:
                raise lib.Violation("warnings", "%s: warnings differ: %s" % (what, lib.diff(r, a)))
            p, q = reduced(e, o), reduced(e0, o)
            if p != q:
                i = 0
                while i < min(len(p), len(q)) and p[i] == q[i]:
                    i += 1
                raise lib.Violation("properties", "%s: the properties differ: ...%s instead of ...%s" % (what, p[max(0, i - 60):i + 160], q[max(0, i - 60):i + 160]))
            if (r.name, r.path, r.size, r.mtime, r.fmt) != (a.name, a.path, a.size, a.mtime, a.fmt):
                raise lib.Violation("fileinfo", "%s: file information differs" % what)
            if not o.get("mix") and r.ext is not None:
                raise lib.Violation("extension", "%s: unexpected properties extension" % what)
            c = sc["files"][k][1]
            ctx.keys.append("%s|%s|%s|%s|%s" % (fmt, "".join(sorted(x[0] for x in o)), "dmg" if c.get("dmg") else ("hex" if "hex" in c else "ok"), r.valid, f[:1]))
        ctx.count("combo:" + ",".join(sorted(o)))
    ctx.nontrivial = True
