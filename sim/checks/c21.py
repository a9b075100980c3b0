"""C21: reported properties equal the stored values."""
from .. import damage, jp2gen, lib, model, shape

ID = "C21"
LEVEL = "exploration"
QUICK = 9000
THOROUGH = 80000
RULE = "distinct (format, field whose stored value was changed, kind of change, access path) tuples compared with the reference model, plus distinct element paths reported"
ASSUMPTIONS = ["the structure of the image (types, lengths and counts of boxes, marker segments and tile parts) is intact; values that make a segment ask for more data than it holds are outside the property",
               "of the quantisation values one per decomposition level is reported, as the tool documents",
               "text that is not UTF-8 is reported as empty text, and control characters are left out",
               "packet lengths of the main header: one group per marker segment"]
KEEP = ("spec",)
FIXED = (".len", ".type", ".xlen", ".mk", ".L", "siz.c", "icc.count", "ulst.n", "cdef.n", "pclr.npc", "unk.v")


# ends of the ranges that occur in the standard
EDGE = {1: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 22, 31, 32, 33, 36, 37, 38, 64, 127, 128, 128 + 37, 128 + 38, 254, 255],
        2: [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13, 14, 15, 16, 18, 19, 22, 23, 255, 256, 257, 0x0fff, 0x1000, 1024, 1025, 0x4000, 0x8000, 0xc000, 16383, 16385, 65534, 65535],
        4: [0, 1, 13, 14, 15, 16, 17, 18, 19, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 2, 0x6a703220, 0x6a706820]}


def values(rng, im):
    """Stored-data faults that change values and leave the structure alone."""
    ops = []
    fs = [f for f in im.fields if f[2] and not f[0].endswith(FIXED)]
    names = sorted({f[0] for f in fs})
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        n = rng.choice(names)
        _, o, l = rng.choice([f for f in fs if f[0] == n])
        r = rng.random()
        if r < 0.3 and l in EDGE:
            ops.append(["set", o, rng.choice(EDGE[l]).to_bytes(l, "big").hex(), n])
        elif r < 0.45:
            ops.append(["flip", o * 8 + rng.randrange(l * 8), n])
        elif r < 0.7 or l > 64:
            k = rng.randrange(l)
            ops.append(["set", o + k, bytes(rng.randrange(256) for _ in range(min(l - k, rng.choice([1, 2, 4, 16])))).hex(), n])
        elif r < 0.9:
            ops.append(["set", o, bytes(rng.randrange(256) for _ in range(l)).hex(), n])
        else:
            ops.append(["set", o, (rng.choice([b"\0", b"\xff", b"\x80", b"\x7f", b"A", b" "]) * l).hex(), n])
    return ops


def image(c):
    """Image and stored bytes of a content with structural edits and stored-data faults."""
    im = shape.edit(jp2gen.build(c["spec"]), c.get("shape", ()))
    return im, damage.apply(im.data, c.get("dmg", ()))


def expected(c, opts):
    """The reference model's report, or None when the values no longer fit the structure."""
    im, data = image(c)
    try:
        return model.Model(im, data, im.fmt, opts).run()
    except model.Outside:
        return None


def gen_content(rng, fmt, opts, pshape, pvalues):
    spec = jp2gen.gen_spec(rng, fmt)
    if rng.random() < 0.15:
        jp2gen.odd(rng, spec)
    if rng.random() < 0.15:
        jp2gen.weird_xml(rng, spec)
    if rng.random() < 0.02:
        jp2gen.enlarge(rng, spec, 1100)
    if rng.random() < 0.12:
        jp2gen.edge(rng, spec)
    if rng.random() < 0.12:
        jp2gen.lengthen(rng, spec)
    c = {"spec": spec}
    im = jp2gen.build(spec)
    if rng.random() < pshape:
        for _ in range(20):
            d = dict(c, shape=shape.gen(rng, im))
            if expected(d, opts) is not None:
                c = d
                im = shape.edit(im, c["shape"])
                break
    if rng.random() < pvalues:
        for _ in range(20):
            d = dict(c, dmg=values(rng, im))
            if expected(d, opts) is not None:
                return d
    return c


def gen(rng, i, tier):
    fmt = rng.choice(lib.FORMATS + ["jp2"])
    opts = lib.gen_opts(rng, fmt, p=0.3)
    files = []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        files.append(["f%d" % k, gen_content(rng, fmt, opts, 0.25, 0.8)])
    sc = {"opts": opts, "files": files, "nommap": rng.random() < 0.5}
    if sc["nommap"] and rng.random() < 0.7:
        sc["shortseed"] = rng.randrange(10000)
    elif rng.random() < 0.2:
        sc["platform"] = "win32"
    if len(files) > 1 and rng.random() < 0.3:
        sc["faults"] = [{"op": rng.choice(["open", "read", "mmap"]), "path": files[0][0], "err": rng.choice(["EIO", "EACCES", "MemoryError"]), "n": 1, "times": -1}]
    return sc


def run(sc, ctx):
    opts = sc["opts"]
    files = []
    for n, c in sc["files"]:
        e = expected(c, opts)
        if e is None:
            continue
        files.append([n, image(c)[1], e.e, c])
    if not files:
        return
    d = lib.batch(sc, ctx, [f[:2] for f in files], lib.argv_of(opts) + [f[0] for f in files])
    rep = lib.want_report(d)
    got = {r.name: (r, el) for r, el in zip(rep.files, rep.elems)}
    hit = {f["path"] for f in sc.get("faults", ())}
    for n, data, want, c in files:
        if n not in got:
            raise lib.Violation("missing", "%s is not reported" % n)
        r, el = got[n]
        if n in hit and r.success == "False":
            continue
        if r.success != "True":
            raise lib.Violation("failed", "%s: %s" % (n, r.brief()))
        props = [x for x in el if lib._local(x.tag) == "properties"][0]
        err = model.compare(want, props, lib._tag, lib._ser)
        if err:
            raise lib.Violation("value:" + err.split(" ")[0], "%s (%s): %s" % (n, opts["fmt"], err))
        way = (sc["nommap"], sc.get("platform"), "shortseed" in sc)
        for op in c.get("dmg", ()):
            ctx.keys.append("%s|%s|%s|%s" % (opts["fmt"], op[-1], op[0], way))
            ctx.count("stored:" + op[0])
            ctx.nontrivial = True
        for op in c.get("shape", ()):
            ctx.keys.append("%s|shape %s|%s" % (opts["fmt"], op[0], way))
            ctx.count("structure:" + op[0])
            ctx.nontrivial = True
        for x in want.iter():
            ctx.keys.append("path|%s|%s" % (opts["fmt"], x.tag))
        ctx.count("elements compared", sum(1 for _ in want.iter()))
