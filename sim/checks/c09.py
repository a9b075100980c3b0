"""C09: damaged content gets a verdict."""
from .. import damage, jp2gen, lib, proc, world as W
from . import c07

ID = "C09"
LEVEL = "fault_enumeration"
QUICK = 6000
THOROUGH = 60000
RULE = "distinct (damage kind, damaged field kind, format asked for, option class, verdict) tuples of stored-data faults"
ASSUMPTIONS = ["superboxes nested more than 40 levels deep are not generated (known finding)"]
KEEP = ("spec",)


def gen(rng, i, tier):
    fmt = rng.choice(lib.FORMATS)
    spec = jp2gen.gen_spec(rng, fmt, rng.choice([None, 0.6, 0.9, 0.9]))
    if rng.random() < 0.25:
        jp2gen.weird_xml(rng, spec)
    im = jp2gen.build(spec)
    sc = {"spec": spec, "nommap": rng.random() < 0.2, "variants": [], "cli": rng.random() < 0.2}
    o0 = lib.gen_opts(rng, fmt, p=0.3)
    for _ in range(12):
        r = rng.random()
        if r < 0.2:
            d = damage.recipes(rng, im)
        elif r < 0.5:
            d = c07.aimed(rng, im)
        elif r < 0.95:
            d = damage.some(rng, im, 4)
        else:
            d = []
        if rng.random() < 0.25:
            d = d + damage.some(rng, im, 3)
        o = dict(o0)
        if not sc["cli"]:
            o = lib.gen_opts(rng, fmt if rng.random() < 0.8 else None, p=0.3)
        sc["variants"].append([d, o])
    return sc


def run(sc, ctx):
    im = jp2gen.build(sc["spec"])
    w = W.World({"nommap": sc["nommap"]})
    try:
        with w:
            p = proc.Proc(w)
            datas = [damage.apply(im.data, dm) for dm, o in sc["variants"]]
            w._inop = True
            for n, d in enumerate(datas):
                w.put("f%d.jp2" % n, d)
            w._inop = False
            names = ["f%d.jp2" % n for n in range(len(datas))]
            if not names:
                return
            proc.use_steps(proc.LIMIT)
            if sc["cli"]:
                o = sc["variants"][0][1]
                out = p.cli(lib.argv_of(o) + names)
                if out.hang:
                    raise lib.Violation("hang", "the run does not end")
                if out.exit != 0:
                    rep = lib.parse_report(out.out + b"</jpylyzer>")
                    k = len(rep.files) if rep.ok else -1
                    raise lib.Violation("aborted", "the run was taken down (%s) at file %d, damage %s, options %s\n%s"
                                        % (out.brief(), k, sc["variants"][k][0] if 0 <= k < len(names) else "?", o, out.tb))
                rep = lib.parse_report(out.out)
                if not rep.ok or len(rep.files) != len(names):
                    raise lib.Violation("report", "%d files, report %s with %d" % (len(names), rep.error, len(rep.files)))
                rs = rep.files
            else:
                rs = []
                for (dm, o), n in zip(sc["variants"], names):
                    proc.use_steps(proc.LIMIT)
                    try:
                        rs.append(lib.res(p.one(w.path(n), *lib.api_args(o)), w))
                    except W.SimStop:
                        raise
                    except Exception as ex:
                        raise lib.Violation("raised", "damage %s, options %s: %s: %s" % (dm, o, type(ex).__name__, ex))
            ctx.steps += proc.Steps.n
            proc.use_nothing()
        for (dm, o), r, d in zip(sc["variants"], rs, datas):
            if r.success != "True":
                raise lib.Violation("internal", "damage %s (%s), options %s: success %s, %s" % (dm, [c07.where(im, x) for x in dm], o, r.success, r.msg))
            if r.valid not in ("True", "False"):
                raise lib.Violation("noverdict", "damage %s, options %s: isValid is %r" % (dm, o, r.valid))
            for x in dm:
                ctx.count("fault:stored:" + x[0])
                ctx.keys.append("%s|%s|%s|%s|%s" % (x[0], c07.where(im, x), o["fmt"], "".join(sorted(k[0] for k in o)), r.valid))
            ctx.nontrivial = ctx.nontrivial or bool(dm)
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()


def _nested():
    """Known finding: 1000 nested header boxes exhaust the interpreter's stack."""
    b = b""
    for _ in range(1000):
        b = (len(b) + 8).to_bytes(4, "big") + b"jp2h" + b
    r = lib.baseline(bytes.fromhex("0000000c6a5020200d0a870a00000014667479706a703220000000006a703220") + b, {"fmt": "jp2"})
    return isinstance(r, str) or r.success != "True"


FINDINGS = {"nested-jp2h-1000": _nested}
