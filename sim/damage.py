"""Stored-data faults: what a disk can do to the bytes of a file.  Every fault is an explicit list."""

EXTREME = {1: [0x00, 0x01, 0x7f, 0x80, 0xff, 0x0b, 0x05, 0xfe],
           2: [0x0000, 0x0001, 0x0002, 0x7fff, 0x8000, 0xffff, 0x0101, 0x4000, 0x0800, 0x0009, 0xff90, 0xff93, 0xffd9, 0xff58],
           4: [0, 1, 2, 7, 8, 9, 15, 16, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 0x10000, 0xff, 0x6a703263],
           8: [0, 1, 15, 16, 17, 2 ** 63, 2 ** 64 - 1, 2 ** 32]}

TAGS = [b"jP  ", b"ftyp", b"jp2h", b"ihdr", b"bpcc", b"colr", b"pclr", b"cmap", b"cdef", b"res ", b"resc", b"resd", b"jp2c",
        b"jp2i", b"xml ", b"uuid", b"uinf", b"ulst", b"url "]
MARKERS = [0xff4f, 0xff50, 0xff51, 0xff52, 0xff53, 0xff55, 0xff56, 0xff57, 0xff58, 0xff59, 0xff5c, 0xff5d, 0xff5e, 0xff5f,
           0xff60, 0xff61, 0xff63, 0xff64, 0xff90, 0xff91, 0xff92, 0xff93, 0xffd9, 0xff30]
MKINDS = ["cod", "coc", "qcd", "qcc", "rgn", "poc", "crg", "com", "prf", "cpf", "tlm", "plm", "plt", "ppm", "ppt", "siz", "cap"]


def apply(data, ops):
    d = bytearray(data)
    for op in ops:
        k = op[0]
        if k == "flip":
            if op[1] // 8 < len(d):
                d[op[1] // 8] ^= 1 << (op[1] % 8)
        elif k == "set":
            b = bytes.fromhex(op[2])
            if op[1] < len(d):
                d[op[1]:op[1] + len(b)] = b[:len(d) - op[1]]
        elif k == "trunc":
            del d[op[1]:]
        elif k == "zero":
            n = max(0, min(op[2], len(d) - op[1]))
            d[op[1]:op[1] + n] = bytes(n)
        elif k == "cut":
            del d[op[1]:op[1] + op[2]]
        elif k == "dup":
            d[op[1]:op[1]] = d[op[1]:op[1] + op[2]]
        elif k == "rep":
            d[op[1]:op[1]] = d[op[1]:op[1] + op[2]] * op[3]
        elif k == "ins":
            d[op[1]:op[1]] = bytes.fromhex(op[2])
        elif k == "misdir":
            src = d[op[1]:op[1] + op[3]]
            n = max(0, min(len(src), len(d) - op[2]))
            d[op[2]:op[2] + n] = src[:n]
        else:
            raise ValueError(op)
    return bytes(d)


def _field(rng, im, prefixes=None):
    fs = im.fields
    if prefixes:
        fs = [f for f in fs if f[0].split(".")[0] in prefixes] or im.fields
    # choose the field kind first, so that frequent fields do not dominate
    names = sorted({f[0] for f in fs})
    n = rng.choice(names)
    return rng.choice([f for f in fs if f[0] == n])


def one(rng, im, kinds=None):
    n = len(im.data)
    k = rng.choice(kinds or ["flip", "fbit", "fbit", "field", "field", "field", "field", "frand", "trunc", "zero", "sector", "cut", "dup",
                             "misdir", "splice", "retag", "remark", "tail", "dupel", "cutel", "moreel"])
    if n == 0:
        return ["trunc", 0]
    if k == "flip":
        return ["flip", rng.randrange(n * 8)]
    if k == "fbit":
        f = _field(rng, im)
        return ["flip", f[1] * 8 + rng.randrange(max(1, f[2] * 8))]
    if k == "field":
        f = _field(rng, im)
        l = f[2] if f[2] in EXTREME else 1
        v = rng.choice(EXTREME[l])
        o = f[1] if f[2] in EXTREME else f[1] + rng.randrange(max(1, f[2]))
        return ["set", o, v.to_bytes(l, "big").hex()]
    if k == "frand":
        f = _field(rng, im)
        return ["set", f[1], bytes(rng.randrange(256) for _ in range(min(f[2], 64))).hex()]
    if k == "trunc":
        if rng.random() < 0.6 and im.elems:
            e = rng.choice(im.elems)
            return ["trunc", max(0, min(n, rng.choice([e[1], e[1] + e[2]]) + rng.randrange(-3, 4)))]
        return ["trunc", rng.randrange(n)]
    if k == "tail":
        return ["zero", rng.randrange(n), n]
    if k == "zero":
        e = rng.choice(im.elems)
        return ["zero", e[1], rng.choice([e[2], 2, 4, 8, rng.randrange(1, e[2] + 1)])]
    if k == "sector":
        sz = rng.choice([16, 32, 64, 128, 512])
        o = rng.randrange(0, n, sz) if rng.random() < 0.7 else rng.randrange(n)
        fill = rng.choice([0x00, 0xff, 0xe5, None])
        b = bytes([fill]) * sz if fill is not None else bytes(rng.randrange(256) for _ in range(sz))
        return ["set", o, b.hex()]
    if k == "cut":
        o = rng.randrange(n)
        return ["cut", o, rng.choice([1, 2, 3, 4, 8, 16, 64, rng.randrange(1, n - o + 1)])]
    if k == "dup":
        o = rng.randrange(n)
        return ["dup", o, rng.choice([1, 2, 4, 8, 16, 64])]
    if k in ("dupel", "cutel"):
        e = rng.choice(im.elems)
        return ["dup" if k == "dupel" else "cut", e[1], e[2]]
    if k == "moreel":
        a, b = rng.choice(im.elems), rng.choice(im.elems)
        return ["ins", b[1], im.data[a[1]:a[1] + a[2]].hex()]
    if k == "misdir":
        sz = rng.choice([8, 16, 32, 64])
        return ["misdir", rng.randrange(n), rng.randrange(n), sz]
    if k == "splice":
        # torn write: the start of a segment of another kind over this one
        e = rng.choice(im.elems)
        f = rng.choice(im.elems)
        return ["set", e[1], im.data[f[1]:f[1] + min(f[2], 40)].hex()]
    if k == "retag":
        c = [f for f in im.fields if f[0].endswith(".type")]
        if c:
            f = rng.choice(c)
            t = rng.choice(TAGS) if rng.random() < 0.7 else bytes(rng.randrange(256) for _ in range(4))
            return ["set", f[1], t.hex()]
        k = "remark"
    if k == "remark":
        c = [f for f in im.fields if f[0].endswith(".mk")]
        if c:
            f = rng.choice(c)
            return ["set", f[1], rng.choice(MARKERS).to_bytes(2, "big").hex()]
    return ["flip", rng.randrange(n * 8)]


def some(rng, im, most=3, kinds=None):
    k = 1 if rng.random() < 0.65 else rng.randrange(1, most + 1)
    return [one(rng, im, kinds) for _ in range(k)]


def recipes(rng, im):
    """Aimed combinations: a damaged count together with an element that multiplies the work, etc."""
    F = {}
    for n, o, l in im.fields:
        F.setdefault(n, []).append((o, l))
    out = []
    r = rng.random()

    def setf(name, v):
        if name in F:
            o, l = rng.choice(F[name])
            out.append(["set", o, (v % (1 << 8 * l)).to_bytes(l, "big").hex()])
    if r < 0.2:
        setf("siz.c", rng.choice([65535, 16384, 16385, 257, 1000]))
        if rng.random() < 0.5:
            setf("ihdr.nc", rng.choice([65535, 16384]))
    elif r < 0.35:
        setf("siz.xt", rng.choice([1, 2, 3]))
        setf("siz.yt", rng.choice([1, 2]))
        setf("siz.x", rng.choice([0xffffffff, 70000, 255, 256]))
        setf("siz.y", rng.choice([0xffffffff, 70000, 1]))
    elif r < 0.5:
        setf(rng.choice(["pclr.ne", "pclr.npc", "icc.count", "cdef.n", "ulst.n"]), rng.choice([0xffffffff, 0xffff, 1025, 0x1001]))
        setf(rng.choice(["pclr.ne", "pclr.npc", "icc.count", "cdef.n", "ulst.n"]), 0xffffffff)
    elif r < 0.6:
        setf("sot.psot", rng.choice([0, 1, 12, 13, 14, 0xffffffff]))
        setf("sot.L", rng.choice([0, 1, 2, 4, 5, 6, 7, 9, 12, 0xffff]))
    elif r < 0.7:
        for nm in ("plt.i", "plm.i"):
            if nm in F:
                o, l = F[nm][-1]
                out.append(["set", o, "%02x" % rng.choice([0x80, 0xff, 0x81])])
    elif r < 0.8:
        setf(rng.choice(["resc.nd", "resd.nd"]), 0)
        setf(rng.choice(["resc.e", "resd.e"]), rng.choice([0x80, 0x7f]))
    elif r < 0.9:
        setf(rng.choice([n for n in F if n.endswith(".len") or n.endswith(".L")] or ["siz.L"]), rng.choice([0, 1, 2, 3, 7, 8, 9, 0xffffffff, 0xffff]))
        setf(rng.choice([n for n in F if n.endswith(".len") or n.endswith(".L")] or ["siz.L"]), rng.choice([0, 1, 2, 3, 7, 8, 9]))
    else:
        n = len(im.data)
        out.append(["trunc", max(0, n - rng.randrange(0, 12))])
        out.append(["ins", max(0, n - rng.randrange(0, 12)), rng.choice(TAGS).hex()])
    return out or some(rng, im)
