"""C08: lost writes never look like a valid image."""
from .. import damage, jp2gen, lib, proc, world as W

ID = "C08"
LEVEL = "fault_enumeration"
QUICK = 4500
THOROUGH = 120000
RULE = "distinct (fault kind, element in which the loss begins, format, codestream box form, class of the last tile part, first failed test) tuples"
ASSUMPTIONS = ["the images of the generator are conforming (checked: each is reported valid when intact)",
               "losing bytes from a tile part whose length is recorded as 0 (until the end of the codestream) is not covered, nor is data replaced by other data",
               "the loss of a whole tile part is covered where another tile part records their number, or where it is the tile's only one"]
KEEP = ("spec",)
MAND = ["box:jP", "box:ftyp", "box:jp2h", "box:ihdr", "mk:soc", "mk:siz", "mk:cod", "mk:qcd", "mk:sot", "mk:sod", "mk:eoc", "codestream", "box:jp2c", "mk:cap"]
# parts of mandatory elements that cannot be all zeros in a conforming image
PART = ["jP.type", "ftyp.type", "jp2h.type", "ihdr.type", "jp2c.type", "soc.mk", "siz.mk", "cod.mk", "qcd.mk", "sot.mk", "sod.mk", "eoc.mk", "cap.mk",
        "sig.v", "ftyp.br", "ihdr.h", "ihdr.w", "ihdr.nc", "siz.x", "siz.y", "siz.xt", "siz.yt", "siz.c", "siz.xr", "siz.yr", "cod.layers",
        "siz.L", "cod.L", "qcd.L", "sot.L", "cap.L", "jP.len", "ftyp.len", "jp2h.len", "ihdr.len"]


def gen(rng, i, tier):
    fmt = rng.choice(lib.FORMATS)
    spec = jp2gen.gen_spec(rng, fmt, rng.choice([None, 0.05, 0.3]))
    if rng.random() < 0.06:
        jp2gen.enlarge(rng, spec)
    im = jp2gen.build(spec)
    cs, cl = jp2gen.elem(im, "codestream")[0]
    end = cs + cl
    bounds = sorted({x for n, a, l in im.elems for x in (a, a + l) if x <= end})
    tps = [e for e in im.elems if e[0] == "tilepart"]
    spans = []
    for e, t in zip(tps, spec["tiles"]):
        if not t.get("psot0"):
            spans.append(e)
    # the mandatory segments of the main header only
    first = tps[0][1]
    mand = [e for e in im.elems if e[0] in MAND and (e[0] not in ("mk:cod", "mk:qcd", "mk:siz", "mk:cap") or e[1] < first)]
    part = [f for f in im.fields if f[0] in PART and (f[0].split(".")[0] not in ("cod", "qcd", "siz", "cap") or f[1] < first)]
    # a length of 0 means "until the end": no loss for a box that is the last one anyway
    ends = {a + l for n, a, l in im.elems if n == "box:jp2h"}
    last = {a for n, a, l in im.elems if n == "box:ihdr" and a + l in ends}
    part = [f for f in part if not (f[0] == "ihdr.len" and f[1] in last)]
    v = []

    def off():
        if rng.random() < 0.5:
            return max(0, min(end - 1, rng.choice(bounds) + rng.choice([-2, -1, 0, 0, 1, 2])))
        if rng.random() < 0.3:
            return end - rng.randrange(1, min(end, 14) + 1)
        return rng.randrange(end)
    for _ in range(26):
        k = rng.choice(["trunc", "trunc", "tail", "tail", "cut", "cut", "zero"])
        if k == "trunc":
            v.append(["trunc", off()])
        elif k == "tail":
            v.append(["tail", off()])
        elif k == "cut" and spans:
            e = rng.choice(spans)
            a = e[1] + (rng.randrange(e[2]) if rng.random() < 0.6 else rng.choice([0, 2, 4, 11, 12, 13, e[2] - 1, e[2] - 2]))
            a = min(a, e[1] + e[2] - 1)
            n = min(rng.choice([1, 1, 2, 3, 4, 12, 14, e[1] + e[2] - a]), e[1] + e[2] - a)
            t = spec["tiles"][tps.index(e)]
            rest = [x for x in spec["tiles"] if x["t"] == t["t"] and x["i"] != t["i"]]
            if n == e[2] and rest and not any(x["n"] for x in rest):
                continue    # a whole tile part, and nothing else says how many there are
            v.append(["cut", a, n])
        elif k == "zero":
            pool = part if rng.random() < 0.6 else mand
            n = rng.choice(sorted({e[0] for e in pool}))
            e = rng.choice([x for x in pool if x[0] == n])
            v.append(["zero", e[1], e[2]])
    o = lib.gen_opts(rng, fmt, p=0.2)
    return {"spec": spec, "opts": o, "variants": v, "nommap": rng.random() < 0.25, "cli": rng.random() < 0.15}


def run(sc, ctx):
    im = jp2gen.build(sc["spec"])
    o = sc["opts"]
    cs, cl = jp2gen.elem(im, "codestream")[0]
    last = sc["spec"]["tiles"][-1]
    w = W.World({"nommap": sc["nommap"]})
    try:
        with w:
            p = proc.Proc(w)
            items = [["intact", im.data]]
            for v in sc["variants"]:
                d = damage.apply(im.data, [["zero", v[1], len(im.data)] if v[0] == "tail" else v])
                if d != im.data:
                    items.append([v, d])
            names = []
            w._inop = True
            for n, (v, d) in enumerate(items):
                w.put("f%d.jp2" % n, d)
                names.append("f%d.jp2" % n)
            w._inop = False
            proc.use_steps(proc.LIMIT)
            if sc["cli"]:
                out = p.cli(lib.argv_of(o) + names)
                rep = lib.parse_report(out.out)
                if out.exit != 0 or not rep.ok or len(rep.files) != len(items):
                    raise lib.Violation("run", "the run ended with %s, report %s\n%s" % (out.brief(), rep.error, out.tb))
                rs = rep.files
            else:
                rs = []
                for n in names:
                    try:
                        rs.append(lib.res(p.one(w.path(n), *lib.api_args(o)), w))
                    except Exception as ex:
                        raise lib.Violation("raised", "%s: %s" % (items[len(rs)][0], ex))
            ctx.steps += proc.Steps.n
            proc.use_nothing()
        for (v, d), r in zip(items, rs):
            if v == "intact":
                if r.valid != "True" or r.success != "True":
                    raise lib.Violation("intact", "a conforming %s image is reported as %s" % (o["fmt"], r.brief()))
                continue
            if r.valid != "False":
                at = [(n, v[1] - a) for n, a, l in im.elems if a <= v[1] < a + l]
                raise lib.Violation("lossvalid", "%s image of %d bytes (codestream %d-%d) is valid after %s in %s" % (o["fmt"], len(im.data), cs, cs + cl, v, at))
            at = [n for n, a, l in im.elems if a <= v[1] < a + l]
            t = (r.tests or "").replace("tests", "").split("<")
            ctx.keys.append("%s|%s|%s|%s|%s" % (v[0], at[0] if at else "-", o["fmt"], sc["spec"].get("cmode"), [x for x in t if x.endswith(">False")][:1]))
            ctx.count("fault:lost:" + v[0])
            ctx.nontrivial = True
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()
