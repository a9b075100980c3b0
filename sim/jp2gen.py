"""Seeded generator of small conforming JPEG 2000 images.

gen_spec(rng, fmt) makes an explicit, JSON-serialisable specification; build(spec) turns it into
bytes plus a structural map: elems (boxes, marker segments) and fields with absolute offsets.
The map is what the stored-data faults in damage.py aim at.
"""
import struct


class Seq:
    """Byte sequence with a map of named fields and elements."""

    __slots__ = ("data", "fields", "elems")

    def __init__(self):
        self.data = bytearray()
        self.fields = []
        self.elems = []

    def f(self, name, value, n=None):
        if isinstance(value, int):
            value = value.to_bytes(n, "big")
        self.fields.append((name, len(self.data), len(value)))
        self.data += value
        return self

    def add(self, other):
        o = len(self.data)
        self.fields += [(n, a + o, l) for n, a, l in other.fields]
        self.elems += [(n, a + o, l) for n, a, l in other.elems]
        self.data += other.data
        return self

    def wrap(self, name):
        self.elems.append((name, 0, len(self.data)))
        return self


def box(tag, content, mode="normal"):
    """mode: normal (4 byte length), ext (8 byte length), last (length 0)."""
    s = Seq()
    t = tag.decode("latin-1").strip()
    n = len(content.data)
    if mode == "ext":
        s.f(t + ".len", 1, 4).f(t + ".type", tag).f(t + ".xlen", n + 16, 8)
    elif mode == "last":
        s.f(t + ".len", 0, 4).f(t + ".type", tag)
    else:
        s.f(t + ".len", n + 8, 4).f(t + ".type", tag)
    s.add(content)
    return s.wrap("box:" + t)


def marker(name, code, content):
    s = Seq()
    s.f(name + ".mk", code, 2)
    if content is not None:
        s.f(name + ".L", len(content.data) + 2, 2)
        s.add(content)
    return s.wrap("mk:" + name)


# ---------------------------------------------------------------- specification

TEXTS = ["Kakadu-v7.2.2", "JasPer Version 1.900.1", "OpenJPEG version 2.3.0", "Kakadu-3.0.3", "caf\xe9 M\xfcnchen", "x", "a <b> & c", "  spaced   out ", "<?xml version='1.0'?>", "]]>", "True", "-0", "a;b,c|d\\n"]
XMLS = [b"<a/>", b"<?xml version='1.0' encoding='UTF-8'?><r xmlns='urn:x'><b c='d'>t</b></r>",
        b"<m:o xmlns:m='urn:meta'><m:p>v\xc3\xa9</m:p><m:q/></m:o>", b"<x>" + b"y" * 40 + b"</x>",
        b"<!-- c --><?pi x?><r><!-- in --><![CDATA[a<b&c]]>&lt;&#233;&#x20ac;</r>",
        b"<?xml version='1.0' encoding='ISO-8859-1'?><r t='\xe9'>\xe9\xfc</r>",
        "<?xml version='1.0' encoding='UTF-16'?><r>\u20ac\u4e2d</r>".encode("utf-16"),
        b"<!DOCTYPE r [<!ENTITY e 'expanded'>]><r a='1'>&e; &amp; &quot;</r>",
        b"<r xmlns:xsi='http://www.w3.org/2001/XMLSchema-instance' xsi:schemaLocation='a b' xml:lang='nl' xml:space='preserve'> s </r>",
        b"<tests><isValid>False</isValid><warning>w</warning></tests>", b"<properties><success>False</success></properties>",
        b"<r xmlns='http://openpreservation.org/ns/jpylyzer/v2/'><file/></r>", b"<c>7</c>", b"<compressionRatio>abc</compressionRatio>",
        b"<jp2HeaderBox><imageHeaderBox><height>9</height></imageHeaderBox></jp2HeaderBox>",
        b"<r>line1\r\nline2\tx</r>", "<r>\U0001f600 \ufffd \u0085\u2028</r>".encode("utf-8"), b"  <r/>\n\n",
        b"<r xmlns='urn:a b'/>", b"<p:r xmlns:p='http://x/ y&quot;&lt;' p:a='1'/>", b"<r xmlns='&amp;'><s xmlns=''/></r>",
        b"<ns0:r xmlns:ns0='urn:1' xmlns:ns1='urn:2' ns1:a='b'><ns1:c/></ns0:r>", b"<a xmlns:p='urn:1' xmlns:q='urn:2' p:x='1' q:x='2' x='3'/>",
        "<\u00e9l\u00e9ment attribut\u00e9='\u20ac'/>".encode("utf-8"), b"<r a='&#10;&#13;&#9;x' b=\"'\" c='&quot;'/>",
        b"<r><?target some data?><!-- - --><b/><?t?></r>", b"<r>]]&gt;</r>", b"<xmlnsx a.b-c_d='1'/>", b"<r xmlns:xml='http://www.w3.org/XML/1998/namespace' xml:id='i'/>",
        b"<r>" + b"<i/>" * 60 + b"</r>", b"<a><b><c><d><e><f><g>deep</g></f></e></d></c></b></a>", b"<r xmlns='{x'/>", b"<r xmlns='http://www.loc.gov/mix/v20'/>"]
XMLBAD = [b"<a/>\0", b"<r>x</r>\0", b"<r><c a='1'>x</c><c/></r>\0", b"", b"\0", b"<a>", b"<a></b>", b"<a>\0</a>", b"<a>\x01</a>", b"plain text", b"<a/>\0\0", b"<a/>trail", b"<a>\xff\xfe</a>",
          b"<!DOCTYPE r [<!ENTITY e SYSTEM 'file:///etc/hostname'>]><r>&e;</r>", b"<?xml version='1.0' encoding='utf-99'?><r/>", b"<a b='c' b='d'/>",
          b"<p:a/>", b"<a>&undef;</a>", b"<?xml version='1.1'?><a>&#1;</a>", b"\xef\xbb\xbf<a/>\0", b"<a/>\n\0", b"<r xmlns='}'/>", b"<r xmlns='a}b' c='d'/>", b"<a:b:c xmlns:a='u'/>", b"<r xmlns:p=''/>", b"<r xmlns:xmlns='u'/>", b"<r>&#x0;</r>", b"<r>&#xffff;</r>",
          b"<r a='\x0c'/>", b"<r>\xef\xbf\xbe</r>", b"<r>\xed\xa0\x80</r>"]
XMP = (b"<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'>"
       b"<rdf:Description rdf:about='' xmlns:xmp='http://ns.adobe.com/xap/1.0/' xmlns:tiff='http://ns.adobe.com/tiff/1.0/'"
       b" xmlns:aux='http://ns.adobe.com/exif/1.0/aux/' xmp:CreatorTool='Scan Soft 1.2'>"
       b"<xmp:CreateDate>2019-01-01T00:00:00</xmp:CreateDate><tiff:Make>Maker</tiff:Make><tiff:Model>M1</tiff:Model>"
       b"<tiff:Artist>A</tiff:Artist><aux:SerialNumber>42</aux:SerialNumber>"
       b"</rdf:Description></rdf:RDF></x:xmpmeta>")
XMP_NODESC = (b"<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'>"
              b"<rdf:Seq/></rdf:RDF></x:xmpmeta>")
XMP_EMPTY = b"<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'/></x:xmpmeta>"
XMP_UUID = "be7acfcb97a942e89c71999491e3afac"


def _cod(rng, jph, levels=None):
    levels = rng.randrange(0, 6) if levels is None else levels
    cbw = rng.randrange(0, 9)
    cbh = rng.randrange(0, 9 - cbw)
    prec = rng.random() < 0.3
    return {"prec": prec, "sop": rng.randrange(2), "eph": rng.randrange(2), "order": rng.randrange(5),
            "layers": rng.choice([1, 2, 12, 255, 256, 65535]), "mct": rng.randrange(2), "levels": levels,
            "cbw": cbw, "cbh": cbh,
            "style": rng.choice([64, 64, 192, 0x48]) if jph else rng.choice([0, 0, 1, 2, 4, 8, 16, 32, 63]),
            "tr": rng.randrange(2),
            "pp": [rng.choice([0x88, 0x77, 0xff, 0x11, 0x5a]) for _ in range(levels + 1)] if prec else []}


def _qcd(rng, levels):
    st = rng.randrange(3)
    n = {0: 3 * levels + 1, 1: 1, 2: 3 * levels + 1}[st]
    return {"style": st, "guard": rng.randrange(8), "v": [rng.randrange(256 if st == 0 else 65536) for _ in range(n)]}


def _com(rng):
    if rng.random() < 0.3:
        return {"r": 0, "t": [rng.randrange(256) for _ in range(rng.randrange(1, 9))]}
    return {"r": 1, "t": rng.choice(TEXTS)}


def _ipl(rng):
    out = []
    for _ in range(rng.randrange(1, 6)):
        k = rng.choice([0, 0, 0, 1, 1, 2])
        out += [rng.randrange(128, 256) for _ in range(k)] + [rng.randrange(128)]
    return out


def _poc(rng, ncomp):
    out = []
    for _ in range(rng.randrange(1, 3)):
        rs = rng.randrange(0, 5)
        cs = rng.randrange(0, min(ncomp, 200))
        out.append([rs, cs, rng.choice([1, 5, 65535]), rng.randrange(rs + 1, 34), rng.choice([0, cs + 1]), rng.randrange(5)])
    return out


def _icc(rng, anyicc=False):
    tags = rng.sample(["desc", "wtpt", "cprt", "rXYZ", "gXYZ", "bXYZ", "rTRC"], rng.randrange(1, 5))
    if anyicc and rng.random() < 0.3:
        tags.append("A2B0")
    return {"cmm": rng.choice(["ADBE", "lcms", "\0\0\0\0"]), "maj": rng.choice([2, 4]), "min": rng.choice([0x20, 0x40, 0x10]),
            "cls": rng.choice(["scnr", "mntr"]) if not anyicc else rng.choice(["scnr", "mntr", "prtr", "spac"]),
            "cs": rng.choice(["RGB ", "GRAY"]), "pcs": "XYZ ",
            "date": [rng.randrange(1990, 2030), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)],
            "plat": rng.choice(["APPL", "MSFT", "SUNW", "\0\0\0\0"]), "flags": rng.choice([0, 1, 2, 3, 0x80000000, 0x40000001, 0x00010203]),
            "attr": rng.choice([0, 1, 2, 4, 8, 13, 0x80000000 << 32, 0xf0 << 56 | 5]), "intent": rng.randrange(4), "ill": [63190, 65536, 54061],
            "id": rng.choice(["00" * 16, "a1" * 16]), "tags": tags, "desc": rng.choice(["sRGB IEC61966-2.1", "Adobe RGB (1998)", "g"])}


def _colr(rng, jph):
    r = rng.random()
    if jph and r < 0.25:
        return {"meth": 5, "p": rng.choice([1, 2, 9, 22]), "t": rng.choice([1, 13, 18]), "m": rng.choice([0, 1, 9]), "v": rng.choice([0, 128])}
    if jph and r < 0.4:
        return {"meth": 3, "icc": _icc(rng, True)}
    if r < 0.65:
        return {"meth": 1, "cs": rng.choice([16, 17, 18])}
    return {"meth": 2, "icc": _icc(rng)}


def gen_spec(rng, fmt=None, rich=None):
    """rich in 0..1: probability of each optional part."""
    fmt = fmt or rng.choice(["jp2", "jp2", "jp2", "jph", "j2c", "jhc"])
    jph = fmt in ("jph", "jhc")
    p = rng.choice([0.05, 0.2, 0.5, 0.9]) if rich is None else rich
    o = lambda q=1.0: rng.random() < p * q
    s = {"fmt": fmt}
    ncomp = rng.choice([1, 1, 2, 3, 3, 3, 4]) if rng.random() < 0.96 else rng.choice([256, 257, 300])
    vary = rng.random() < 0.15
    depth0 = rng.choice([1, 8, 8, 8, 12, 16, 38])
    sign0 = rng.choice([0, 0, 0, 1])
    comps = [{"d": rng.choice([1, 8, 10, 16]) if vary else depth0, "s": rng.randrange(2) if vary else sign0,
              "x": rng.choice([1, 1, 1, 2, 255]), "y": rng.choice([1, 1, 1, 2])} for _ in range(ncomp)]
    big = rng.random() < 0.1
    w, h = (rng.choice([4096, 65536, 2 ** 31]), rng.choice([4096, 70000, 2 ** 31])) if big else (rng.randrange(1, 200), rng.randrange(1, 200))
    xo, yo = (rng.choice([0, 0, 0, 1, 7]), rng.choice([0, 0, 0, 3]))
    nx, ny = (1, 1) if rng.random() < 0.55 else (rng.randrange(1, 4), rng.randrange(1, 3))
    if rng.random() < 0.04:
        nx, ny = rng.randrange(3, 9), rng.randrange(2, 6)
    nx, ny = min(nx, w + xo), min(ny, h + yo)
    xt, yt = -(-(w + xo) // nx), -(-(h + yo) // ny)
    nx, ny = -(-(w + xo) // xt), -(-(h + yo) // yt)
    if rng.random() < 0.5 and nx == ny == 1:
        xt, yt = xt + rng.randrange(0, 50), yt + rng.randrange(0, 50)
    s["siz"] = {"rsiz": rng.choice([0x4000, 0x4000, 0x4001]) if jph else rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0800, 0x0a01, 0x101, 0x203, 0x309, 0x411, 0x523, 0x633, 0x744, 0x955, 0xfff]),
                "w": w, "h": h, "xo": xo, "yo": yo, "xt": xt, "yt": yt, "comps": comps}
    levels = rng.randrange(0, 6)
    m = []
    if jph:
        parts = [15] + ([2] if o(0.3) else [])
        m.append({"k": "cap", "parts": sorted(parts), "cc": [rng.randrange(65536) for _ in parts]})
    m.append({"k": "cod", **_cod(rng, jph, levels)})
    m.append({"k": "qcd", **_qcd(rng, levels)})
    ccs = list(range(min(ncomp, 3)))
    for c in rng.sample(ccs, rng.randrange(0, len(ccs) + 1)) if o() else []:
        m.append({"k": "coc", "c": c, **_cod(rng, jph)})
    for c in rng.sample(ccs, rng.randrange(0, len(ccs) + 1)) if o() else []:
        m.append({"k": "qcc", "c": c, **_qcd(rng, rng.randrange(0, 4))})
    if o():
        m.append({"k": "rgn", "c": rng.choice(ccs), "shift": rng.randrange(38)})
    if o(0.7):
        m.append({"k": "poc", "e": _poc(rng, ncomp)})
    if o(0.7):
        m.append({"k": "crg", "v": [[rng.randrange(65536), rng.randrange(65536)] for _ in range(ncomp)]})
    for _ in range(rng.randrange(0, 3)):
        if o(1.0) or rng.random() < 0.3:
            m.append({"k": "com", **_com(rng)})
    if o(0.4):
        m.append({"k": "prf", "v": [rng.randrange(1, 65536) for _ in range(rng.randrange(1, 4))]})
    if jph and o(0.6):
        m.append({"k": "cpf", "v": [rng.randrange(1, 65536) for _ in range(rng.randrange(1, 4))]})
    if o(0.6):
        m.append({"k": "tlm", "v": [rng.randrange(256) for _ in range(rng.randrange(4, 12))]})
    if o(0.6):
        m.append({"k": "plm", "z": rng.randrange(4), "v": _ipl(rng)})
    if o(0.4):
        m.append({"k": "ppm", "v": [rng.randrange(256) for _ in range(rng.randrange(3, 12))]})
    if o(0.2):
        m.append({"k": "unk", "code": rng.choice([0xff30, 0xff76, 0xff78]), "v": [rng.randrange(256) for _ in range(rng.randrange(0, 6))]} )
    head = m[:1] if jph else []
    tail = m[1:] if jph else m
    rng.shuffle(tail)
    s["main"] = head + tail
    tps = []
    order = []
    for t in range(nx * ny):
        k = 1 if rng.random() < 0.7 else rng.randrange(1, 4)
        order.append([(t, i, k) for i in range(k)])
    if rng.random() < 0.3:
        rng.shuffle(order)
    flat = []
    if rng.random() < 0.3:
        # interleave the tile parts, keeping each tile's own order
        pools = [list(x) for x in order]
        while any(pools):
            q = rng.choice([x for x in pools if x])
            flat.append(q.pop(0))
    else:
        flat = [x for q in order for x in q]
    opens = {(t, rng.choice(["open", "some"])) for t in range(nx * ny) if rng.random() < 0.25} if rng.random() < 0.5 else set()
    for t, i, k in flat:
        mk = []
        if i == 0:
            if o(0.4):
                mk.append({"k": "cod", **_cod(rng, jph)})
            for c in rng.sample(ccs, 1 if rng.random() < 0.7 else len(ccs)) if o(0.4) else []:
                mk.append({"k": "coc", "c": c, **_cod(rng, jph)})
            if o(0.4):
                mk.append({"k": "qcd", **_qcd(rng, rng.randrange(0, 4))})
            for c in rng.sample(ccs, 1 if rng.random() < 0.7 else len(ccs)) if o(0.4) else []:
                mk.append({"k": "qcc", "c": c, **_qcd(rng, rng.randrange(0, 4))})
            if o(0.3):
                mk.append({"k": "rgn", "c": rng.choice(ccs), "shift": rng.randrange(38)})
        if o(0.3):
            mk.append({"k": "poc", "e": _poc(rng, ncomp)})
        if o(0.4):
            mk.append({"k": "com", **_com(rng)})
        if o(0.7):
            mk.append({"k": "plt", "z": rng.randrange(4), "v": _ipl(rng)})
        if o(0.4):
            mk.append({"k": "ppt", "v": [rng.randrange(256) for _ in range(rng.randrange(1, 9))]})
        rng.shuffle(mk)
        # the number of tile parts may be left open in all tile parts of a tile but one, or in all of them
        tps.append({"t": t, "i": i, "n": 0 if (t, "open") in opens or ((t, "some") in opens and i < k - 1) else k, "mk": mk, "data": rng.randrange(1, 40), "seed": rng.randrange(1 << 30)})
    tps[-1]["psot0"] = rng.random() < 0.12
    s["tiles"] = tps
    if rng.random() < 0.08:
        repeat(rng, s)
    if fmt in ("j2c", "jhc"):
        return s
    # ---- boxes
    s["brand"] = "jp2 " if fmt == "jp2" else "jph "
    s["cl"] = [s["brand"]] + (rng.sample(["jpx ", "mjp2", "J2P0"], rng.randrange(0, 3)) if o() else [])
    rng.shuffle(s["cl"])
    ipr = o(0.5)
    bpc255 = any((c["d"], c["s"]) != (comps[0]["d"], comps[0]["s"]) for c in comps) or rng.random() < 0.05
    unk = rng.randrange(2) if rng.random() < 0.3 else 0
    s["ihdr"] = {"bpc255": bpc255, "unkC": unk, "iPR": int(ipr)}
    colrs = [_colr(rng, jph) for _ in range(1 if rng.random() < 0.8 else 2)]
    if jph and unk == 1 and rng.random() < 0.3:
        colrs = []
    hb = []
    if bpc255:
        hb.append({"k": "bpcc"})
    if o(0.6):
        npc = rng.randrange(1, 4)
        deps = [rng.choice([1, 8, 8, 10, 16, 24]) for _ in range(npc)]
        ne = rng.randrange(1, 6)
        hb.append({"k": "pclr", "ne": ne, "d": deps, "s": [rng.randrange(2) for _ in deps], "seed": rng.randrange(1 << 30)})
        hb.append({"k": "cmap", "e": [[rng.randrange(0, 4), 1, i] for i in range(npc)] + ([[0, 0, 0]] if rng.random() < 0.4 else [])})
    if o(0.6) and colrs:
        n = rng.randrange(1, 5)
        e = [[i, 0, i + 1] for i in range(n)]
        if rng.random() < 0.5:
            e.append([n, rng.choice([1, 2]), 0])
        elif rng.random() < 0.4:
            e.append([n, 65535, 65535])
        hb.append({"k": "cdef", "e": e})
    if o(0.8):
        r = {"k": "res"}
        if rng.random() < 0.7:
            r["c"] = [rng.randrange(1, 65536), rng.randrange(1, 65536), rng.randrange(1, 65536), rng.randrange(1, 65536), rng.randrange(-5, 6), rng.randrange(-5, 6)]
        if rng.random() < 0.6 or "c" not in r:
            r["d"] = [rng.randrange(1, 65536), rng.randrange(1, 65536), rng.randrange(1, 65536), rng.randrange(1, 65536), rng.randrange(-5, 6), rng.randrange(-5, 6)]
        hb.append(r)
    if o(0.2):
        hb.append({"k": "unkbox", "t": rng.choice(["abcd", "zzzz"]), "v": [rng.randrange(256) for _ in range(rng.randrange(0, 6))]})
    rng.shuffle(hb)
    pos = rng.randrange(0, len(hb) + 1)
    s["hbox"] = hb[:pos] + [{"k": "colr", **c} for c in colrs] + hb[pos:]
    ex = []
    if ipr:
        ex.append({"k": "jp2i", "v": [rng.randrange(256) for _ in range(rng.randrange(1, 9))]})
    if o():
        ex.append({"k": "xml", "v": rng.randrange(len(XMLS))})
    if o(0.7):
        ex.append({"k": "xmp", "v": rng.choice([0, 0, 1, 2])})
    if o(0.7):
        ex.append({"k": "uuid", "u": rng.choice(["b14bf8bd083d4b43a5ae8cd7d5a6ce03", "00" * 16]), "v": [rng.randrange(256) for _ in range(rng.randrange(1, 12))]})
    if o(0.6):
        ex.append({"k": "uinf", "u": [rng.choice(["11" * 16, "b14bf8bd083d4b43a5ae8cd7d5a6ce03"]) for _ in range(rng.randrange(0, 3))], "url": rng.choice(["http://example.org/x", "http://ex.org/\xe9"])})
    if o(0.4):
        ex.append({"k": "unkbox", "t": rng.choice(["free", "abcd", "ab  ", "\x00\x01z\xfe"]), "v": [rng.randrange(256) for _ in range(rng.randrange(0, 9))]})
    rng.shuffle(ex)
    a = rng.randrange(0, len(ex) + 1)
    b = rng.randrange(a, len(ex) + 1)
    s["pre"], s["mid"], s["post"] = ex[:a], ex[a:b], ex[b:]
    s["cmode"] = rng.choice(["normal"] * 6 + ["ext"] * 2 + ["last"])
    if s["cmode"] == "last":
        s["mid"] += s["post"]
        s["post"] = []
    return s


def repeat(rng, spec):
    """Segments that may occur more than once, several times (also far apart), with other contents."""
    for _ in range(rng.randrange(1, 4)):
        tile = rng.random() < 0.6
        to = rng.choice(spec["tiles"])["mk"] if tile else spec["main"]
        k = rng.choice(("com", "com", "plt", "plt", "ppt", "ppt") if tile else ("com", "com", "plm", "ppm", "tlm"))
        if k == "com":
            f = lambda: _com(rng)
        elif k in ("plt", "plm"):
            f = lambda: {"z": rng.randrange(256), "v": _ipl(rng)}
        else:
            f = lambda: {"v": [rng.randrange(256) for _ in range(rng.randrange(4, 9))]}
        for _ in range(rng.choice([2, 2, 3, 5, 12, 40]) if rng.random() < 0.9 else 130):
            # (in a JPH codestream the first segment has to stay the first)
            to.insert(rng.randrange(0 if tile else 1, len(to) + 1), dict(f(), k=k))
    return spec


def odd(rng, spec):
    """Oddities no test of the validator objects to: the same ICC tag twice, the same metadata box twice, several codestream comments."""
    for b in spec.get("hbox", ()):
        if b["k"] == "colr" and "icc" in b and rng.random() < 0.7:
            t = b["icc"]["tags"]
            t.insert(rng.randrange(len(t) + 1), rng.choice(t))
    if "pre" in spec:
        for w in ("pre", "mid"):
            if spec[w] and rng.random() < 0.4:
                spec[w] = spec[w] + [rng.choice([b for b in spec[w]])]
    for _ in range(rng.randrange(0, 4)):
        spec["main"] = spec["main"] + [{"k": "com", **_com(rng)}]
    return spec


def weird_xml(rng, spec):
    """Metadata boxes whose contents are unusual or not well-formed (in a JP2 or JPH file)."""
    if "pre" not in spec:
        return spec
    for _ in range(rng.randrange(1, 3)):
        b = {"k": rng.choice(["xmlraw", "xmpraw"]), "h": rng.choice(XMLBAD + XMLS).hex()}
        where = rng.choice(["pre", "mid"] + ([] if spec["cmode"] == "last" else ["post"]))
        spec[where] = spec[where] + [b]
    return spec


# ---------------------------------------------------------------- construction

def _sp(s, c, pre):
    s.f(pre + ".levels", c["levels"], 1).f(pre + ".cbw", c["cbw"], 1).f(pre + ".cbh", c["cbh"], 1)
    s.f(pre + ".style", c["style"], 1).f(pre + ".transf", c["tr"], 1)
    for b in c["pp"]:
        s.f(pre + ".precinct", b, 1)


def _cidx(s, name, c, ncomp):
    s.f(name, c, 1 if ncomp < 257 else 2)


def _mk(m, ncomp):
    k = m["k"]
    s = Seq()
    if k == "cap":
        pcap = 0
        for part in m["parts"]:
            pcap |= 1 << (32 - part)
        s.f("cap.pcap", pcap, 4)
        for c in m["cc"]:
            s.f("cap.ccap", c, 2)
        return marker("cap", 0xff50, s)
    if k == "cod":
        s.f("cod.scod", (1 if m["prec"] else 0) | m["sop"] << 1 | m["eph"] << 2, 1)
        s.f("cod.order", m["order"], 1).f("cod.layers", m["layers"], 2).f("cod.mct", m["mct"], 1)
        _sp(s, m, "cod")
        return marker("cod", 0xff52, s)
    if k == "coc":
        _cidx(s, "coc.ccoc", m["c"], ncomp)
        s.f("coc.scoc", 1 if m["prec"] else 0, 1)
        _sp(s, m, "coc")
        return marker("coc", 0xff53, s)
    if k in ("qcd", "qcc"):
        if k == "qcc":
            _cidx(s, "qcc.cqcc", m["c"], ncomp)
        s.f(k + ".sq", m["style"] | m["guard"] << 5, 1)
        for v in m["v"]:
            s.f(k + ".sp", v, 1 if m["style"] == 0 else 2)
        return marker(k, 0xff5c if k == "qcd" else 0xff5d, s)
    if k == "rgn":
        _cidx(s, "rgn.crgn", m["c"], ncomp)
        s.f("rgn.style", 0, 1).f("rgn.shift", m["shift"], 1)
        return marker("rgn", 0xff5e, s)
    if k == "poc":
        for e in m["e"]:
            s.f("poc.rs", e[0], 1)
            _cidx(s, "poc.cs", e[1], ncomp)
            s.f("poc.lye", e[2], 2).f("poc.re", e[3], 1)
            _cidx(s, "poc.ce", e[4], ncomp)
            s.f("poc.order", e[5], 1)
        return marker("poc", 0xff5f, s)
    if k == "crg":
        for x, y in m["v"]:
            s.f("crg.x", x, 2).f("crg.y", y, 2)
        return marker("crg", 0xff63, s)
    if k == "com":
        s.f("com.rcom", m["r"], 2)
        s.f("com.text", bytes(m["t"]) if m["r"] == 0 else m["t"].encode("iso-8859-15"))
        return marker("com", 0xff64, s)
    if k in ("prf", "cpf"):
        for v in m["v"]:
            s.f(k + ".p", v, 2)
        return marker(k, 0xff56 if k == "prf" else 0xff59, s)
    if k == "tlm":
        return marker("tlm", 0xff55, s.f("tlm.v", bytes(m["v"])))
    if k == "plm":
        s.f("plm.z", m["z"], 1).f("plm.n", len(m["v"]), 1)
        for b in m["v"]:
            s.f("plm.i", b, 1)
        return marker("plm", 0xff57, s)
    if k == "plt":
        s.f("plt.z", m["z"], 1)
        for b in m["v"]:
            s.f("plt.i", b, 1)
        return marker("plt", 0xff58, s)
    if k in ("ppm", "ppt"):
        return marker(k, 0xff60 if k == "ppm" else 0xff61, s.f(k + ".v", bytes(m["v"])))
    if k == "unk":
        return marker("unk", m["code"], s.f("unk.v", bytes(m["v"])))
    raise ValueError(k)


def edge(rng, spec):
    """Counts at (and just over) the ends of their ranges; the result need not conform."""
    jph = spec["fmt"] in ("jph", "jhc")
    segs = list(spec["main"]) + [m for t in spec["tiles"] for m in t["mk"]]
    r = rng.random()
    if r < 0.1 and len(spec["siz"]["comps"]) < 5 and not any(m["k"] in ("crg", "coc", "qcc", "rgn", "poc") for m in segs) and rng.random() < 0.3:
        # as many components as the standard allows, or one more
        c = spec["siz"]["comps"][0]
        spec["siz"]["comps"] = [c] * rng.choice([16383, 16384, 16384, 16385])
        if "ihdr" in spec:
            spec["ihdr"]["bpc255"] = False
            spec["hbox"] = [b for b in spec["hbox"] if b["k"] != "bpcc"]
        return spec
    if r < 0.2 and "hbox" in spec:
        for b in spec["hbox"]:
            if b["k"] == "pclr":
                b["ne"] = rng.choice([0, 1, 1023, 1024, 255, 256])
                if rng.random() < 0.3:
                    b["ne"] = rng.choice([1, 2])
                    b["d"] = [rng.choice([1, 8, 9, 38]) for _ in range(rng.choice([254, 255]))]
                    b["s"] = [rng.randrange(2) for _ in b["d"]]
                return spec
    if rng.random() < 0.2 and not any(m["k"] == "crg" for m in segs):
        # component indices of two bytes, at the ends of their range
        if len(spec["siz"]["comps"]) < 5:
            spec["siz"]["comps"] = (spec["siz"]["comps"] * 260)[:rng.choice([256, 257, 257, 258])]
        wide = len(spec["siz"]["comps"]) > 256
        ends = [0, 1, 255, 256, 257, 16382, 16383, 16383, 16384, 16384, 16385, 65535] if wide else [0, 1, 127, 254, 255]
        if not any(m["k"] in ("coc", "qcc", "rgn", "poc") for m in segs):
            spec["main"].append(rng.choice([{"k": "rgn", "c": 0, "shift": rng.randrange(40)}, {"k": "poc", "e": [[0, 0, 1, 2, 1, 0]] * rng.randrange(1, 4)},
                                            {"k": "coc", "c": 0, **_cod(rng, jph)}, {"k": "qcc", "c": 0, **_qcd(rng, 1)}]))
            segs = spec["main"]
        for m in segs:
            if "c" in m:
                m["c"] = rng.choice(ends)
            elif m["k"] == "poc":
                m["e"] = [[e[0], rng.choice(ends), e[2], e[3], rng.choice(ends), e[5]] for e in m["e"]]
        return spec
    if "hbox" in spec and rng.random() < 0.4:
        for b in spec["hbox"]:
            if b["k"] == "cmap":
                b["e"] = [[rng.choice([0, 1, 255, 16383, 16384, 65535]), rng.choice([0, 0, 1, 2, 255]), rng.choice([0, 1, 2, 254, 255])] for _ in range(rng.choice([1, 1, 2, 3]))]
            elif b["k"] == "cdef":
                one = rng.choice([0, 1, 2, 3])
                b["e"] = [[rng.choice([one, one, k, 65535]), rng.choice([0, 1, 1, 1, 2, 3, 65534, 65535]), rng.choice([0, 0, 0, 1, 2, 65534, 65535])] for k in range(rng.choice([1, 2, 2, 3, 4]))]
    for m in rng.sample(segs, min(len(segs), rng.randrange(1, 4))):
        k = m["k"]
        if k in ("cod", "coc"):
            m["levels"] = rng.choice([0, 31, 32, 32, 33, 34])
            m["prec"] = rng.random() < 0.8
            m["pp"] = [rng.choice([0x88, 0x77, 0x10, 0x01, 0x11, 0xff]) for _ in range(m["levels"] + 1)] if m["prec"] else []
        elif k in ("qcd", "qcc"):
            m["style"] = rng.choice([0, 2, 1])
            m["v"] = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 96, 97, 98, 99]))]
        elif k in ("prf", "cpf"):
            m["v"] = [rng.randrange(65536) for _ in range(rng.choice([0, 0, 1, 8]))]
        elif k == "com":
            m["t"] = [] if m["r"] == 0 else rng.choice(["", "a", "a" * 300])
        elif k == "poc":
            m["e"] = rng.choice([[], m["e"] * 4])
        elif k == "cap" and jph:
            m["parts"] = sorted(set(rng.sample(range(1, 33), rng.choice([0, 1, 3]))) | set(rng.choice([[15], [15], []])))
            m["cc"] = [rng.randrange(65536) for _ in m["parts"]]
    return spec


def enlarge(rng, spec, most=300):
    """Now and then: packet data larger than any buffer, or many tiles."""
    r = rng.random()
    if r < 0.6:
        for t in rng.sample(spec["tiles"], min(len(spec["tiles"]), rng.randrange(1, 3))):
            t["data"] = rng.choice([4095, 4097, 9000, 70000, 140000])
    elif len(spec["siz"]["comps"]) < 10:
        z = spec["siz"]
        nx, ny = rng.choice([q for q in ((4, 4), (8, 5), (10, 11), (16, 16), (17, 16), (257, 1), (1, 300), (23, 23), (1030, 1)) if q[0] * q[1] <= most])
        z["xt"], z["yt"], z["w"], z["h"] = 5, 3, nx * 5 - z["xo"] % 5, ny * 3 - z["yo"] % 3
        z["xo"] %= 5
        z["yo"] %= 3
        spec["tiles"] = [{"t": t, "i": 0, "n": 1, "mk": [], "data": 1 + t % 3, "seed": t} for t in range(nx * ny)]
        spec["tiles"][-1]["psot0"] = rng.random() < 0.2
    return spec


def lengthen(rng, spec):
    """Lists far longer than usual files have; conforming unless the spec was not."""
    jph = spec["fmt"] in ("jph", "jhc")
    ncomp = len(spec["siz"]["comps"])
    n = lambda *q: rng.choice(q) + rng.randrange(0, 8)
    kinds = ["poc", "com", "plt", "ipl", "prf", "coc", "qcc", "main", "comps"]
    if "hbox" in spec:
        kinds += ["cl", "cl", "tags", "tags", "desc", "cmap", "cdef", "ulst", "url", "boxes", "colrs"]

    def find(k, make, where):
        ms = [m for m in where if m["k"] == k]
        if not ms:
            ms = [make()]
            where.insert(rng.randrange(1 if jph and where is spec["main"] else 0, len(where) + 1), ms[0])
        return rng.choice(ms)

    for kind in rng.sample(kinds, rng.choice([1, 1, 2])):
        tile = spec["tiles"][rng.randrange(len(spec["tiles"]))]["mk"]
        seg = spec["main"] if rng.random() < 0.6 else tile
        if kind == "poc":
            m = find("poc", lambda: {"k": "poc", "e": []}, seg)
            m["e"] = [e for _ in range(n(20, 35, 70, 130, 260)) for e in _poc(rng, ncomp)]
        elif kind == "com":
            m = find("com", lambda: {"k": "com", **_com(rng)}, seg)
            l = n(200, 600, 1100, 2100, 4100, 10000, 60000)
            if rng.random() < 0.15:
                m["r"], m["t"] = 0, [rng.randrange(256) for _ in range(min(l, 5000))]
            else:
                m["r"], m["t"] = 1, "".join(rng.choice("abc xyz&<>\xe9") for _ in range(40)) * (l // 40) + rng.choice(["z", "e\x07nd", "\xe9", "&"])
        elif kind == "plt":
            m = find("plt", lambda: {"k": "plt", "z": 0, "v": []}, tile)
            l = n(20, 70, 130, 260, 1030, 4100)
            m["v"] = []
            while len(m["v"]) < l:
                m["v"] += _ipl(rng)
        elif kind == "ipl":
            m = find("plt", lambda: {"k": "plt", "z": 0, "v": []}, tile) if rng.random() < 0.6 else find("plm", lambda: {"k": "plm", "z": 0, "v": []}, spec["main"])
            m["v"] = (_ipl(rng) + [rng.randrange(128, 256) for _ in range(n(3, 5, 9))] + [rng.randrange(128)] + _ipl(rng) * rng.choice([1, 2, 10]))[:254]
            m["v"][-1] &= 127
        elif kind == "prf":
            m = find("cpf" if jph and rng.random() < 0.5 else "prf", lambda: {"k": "prf", "v": []}, spec["main"])
            m["v"] = [rng.randrange(1, 65536) for _ in range(n(5, 9, 20, 60, 250))]
        elif kind in ("coc", "qcc"):
            ccs = list(range(ncomp)) if ncomp > 4 else [rng.randrange(ncomp) for _ in range(n(5, 20))]
            rng.shuffle(ccs)
            ccs = ccs[:n(20, 60, 300)] + ([ccs[0]] if rng.random() < 0.5 else [])
            spec["main"] += [{"k": kind, "c": c, **(_cod(rng, jph) if kind == "coc" else _qcd(rng, rng.randrange(4)))} for c in ccs]
        elif kind == "main":
            seg += [{"k": rng.choice(["com"] * 3 + ["rgn"]), "c": rng.randrange(min(ncomp, 3)), "shift": rng.randrange(38), **_com(rng)} for _ in range(n(10, 30, 70, 260))]
        elif kind == "comps":
            if ncomp > 4 or any(m["k"] in ("coc", "qcc", "rgn", "poc", "crg") for m in spec["main"] + [x for t in spec["tiles"] for x in t["mk"]]):
                continue
            z = spec["siz"]
            same = rng.random() < 0.5 or "hbox" not in spec
            z["comps"] = [dict(z["comps"][0], x=rng.choice([1, 2]), y=rng.choice([1, 3]), **({} if same else {"d": rng.choice([1, 8, 38])})) for _ in range(n(5, 17, 33, 64, 100, 255, 512, 1024, 2000))]
            ncomp = len(z["comps"])
            if "hbox" in spec and not same:
                spec["ihdr"]["bpc255"] = True
                if not any(b["k"] == "bpcc" for b in spec["hbox"]):
                    spec["hbox"].insert(0, {"k": "bpcc"})
            if rng.random() < 0.4:
                spec["main"].append({"k": "crg", "v": [[rng.randrange(65536), rng.randrange(65536)] for _ in range(ncomp)]})
        elif kind == "cl":
            l = ["".join(rng.choice("abcdjpx29 ") for _ in range(4)) for _ in range(n(6, 12, 20, 33, 70, 130, 300))]
            spec["cl"] = l + [spec["brand"]] if rng.random() < 0.6 else [spec["brand"]] + l
        elif kind in ("tags", "desc"):
            cs = [b for b in spec["hbox"] if b["k"] == "colr"]
            if not cs:
                continue
            b = rng.choice(cs)
            if "icc" not in b:
                b["meth"], b["icc"] = 2, _icc(rng)
            if kind == "tags":
                l = rng.choice([20, 40, 60, 101, 130, 300, 600, 1100]) + rng.randrange(0, 8) if rng.random() < 0.95 else rng.choice([4095, 4096])
                t = ["t%03x" % x for x in range(l)]
                at = rng.choice([0, l // 2, l - 1, l - 1])
                t[at] = "desc"
                b["icc"]["tags"] = t
            else:
                b["icc"]["tags"] = ["wtpt", "desc", "cprt"]
                b["icc"]["desc"] = "".join(rng.choice("RGB icc-<&>") for _ in range(50)) * (n(100, 250, 600, 1100, 5000, 70000) // 50) + "end"
        elif kind == "cmap":
            m = find("cmap", lambda: {"k": "cmap", "e": []}, spec["hbox"])
            m["e"] = [[rng.randrange(0, 4), rng.randrange(2), 0] for _ in range(n(6, 20, 40, 70, 130, 260))]
            for e in m["e"]:
                e[2] = rng.randrange(0, 256) if e[1] else 0
        elif kind == "cdef":
            m = find("cdef", lambda: {"k": "cdef", "e": []}, spec["hbox"])
            m["e"] = [[i, rng.choice([0, 1, 2, 65535]), rng.choice([0, i + 1, 65535])] for i in range(n(6, 20, 40, 70, 130, 260))]
        elif kind in ("ulst", "url"):
            where = spec[rng.choice(["pre", "mid"])]
            if where is spec["pre"]:
                where = spec["mid"]
            m = find("uinf", lambda: {"k": "uinf", "u": ["11" * 16], "url": "http://a.b/c"}, where)
            if kind == "ulst":
                m["u"] = ["%032x" % rng.getrandbits(128) for _ in range(n(5, 12, 35, 60, 110, 260, 1030))]
            else:
                m["url"] = "http://example.org/" + "abcd\xe9/&fghi" * (n(60, 130, 300, 1100, 2100, 5000, 70000) // 13) + "z"
        elif kind == "boxes":
            where = spec["mid"]
            for _ in range(n(5, 12, 40, 110)):
                where.append(rng.choice([{"k": "xml", "v": rng.randrange(len(XMLS))}, {"k": "uuid", "u": "%032x" % rng.getrandbits(128), "v": [1, 2]},
                                         {"k": "uinf", "u": ["22" * 16], "url": "http://e.org/%d" % rng.randrange(99)}, {"k": "unkbox", "t": "free", "v": [0]}]))
        elif kind == "colrs":
            at = [i for i, b in enumerate(spec["hbox"]) if b["k"] == "colr"]
            if at:
                spec["hbox"][at[-1] + 1:at[-1] + 1] = [{"k": "colr", **_colr(rng, jph)} for _ in range(n(2, 8, 20, 60))]
    return spec


def _filler(seed, n):
    if n > 4000:
        return (_filler(seed, 997) * (n // 997 + 1))[:n]
    x = seed or 1
    out = bytearray()
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append((x >> 16) % 255)  # never 0xff: no marker can appear in packet data
    return bytes(out)


def codestream(spec):
    z = spec["siz"]
    nc = len(z["comps"])
    s = Seq()
    s.add(marker("soc", 0xff4f, None))
    q = Seq()
    q.f("siz.rsiz", z["rsiz"], 2).f("siz.x", z["w"] + z["xo"], 4).f("siz.y", z["h"] + z["yo"], 4)
    q.f("siz.xo", z["xo"], 4).f("siz.yo", z["yo"], 4).f("siz.xt", z["xt"], 4).f("siz.yt", z["yt"], 4)
    q.f("siz.xto", 0, 4).f("siz.yto", 0, 4).f("siz.c", nc, 2)
    for c in z["comps"]:
        q.f("siz.ssiz", (c["d"] - 1) | c["s"] << 7, 1).f("siz.xr", c["x"], 1).f("siz.yr", c["y"], 1)
    s.add(marker("siz", 0xff51, q))
    for m in spec["main"]:
        s.add(_mk(m, nc))
    for t in spec["tiles"]:
        body = Seq()
        for m in t["mk"]:
            body.add(_mk(m, nc))
        body.add(marker("sod", 0xff93, None))
        body.f("tile.data", _filler(t["seed"], t["data"]))
        h = Seq()
        psot = 0 if t.get("psot0") else 12 + len(body.data)
        h.f("sot.isot", t["t"], 2).f("sot.psot", psot, 4).f("sot.tpsot", t["i"], 1).f("sot.tnsot", t["n"], 1)
        s.add(marker("sot", 0xff90, h).add(body).wrap("tilepart"))
    s.add(marker("eoc", 0xffd9, None))
    return s.wrap("codestream")


def _iccbytes(i):
    s = Seq()
    tags = i["tags"]
    body = b""
    table = b""
    off = 132 + 12 * len(tags)
    for t in tags:
        if t == "desc":
            d = i["desc"].encode() + b"\0"
            v = b"desc\0\0\0\0" + struct.pack(">I", len(d)) + d
        else:
            v = b"XYZ \0\0\0\0" + b"\0" * 12
        table += t.encode() + struct.pack(">II", off, len(v))
        body += v
        off += len(v)
    s.f("icc.size", off, 4).f("icc.cmm", i["cmm"].encode()).f("icc.ver", bytes([i["maj"], i["min"], 0, 0]))
    s.f("icc.class", i["cls"].encode()).f("icc.cs", i["cs"].encode()).f("icc.pcs", i["pcs"].encode())
    s.f("icc.date", struct.pack(">6H", *i["date"])).f("icc.sig", b"acsp").f("icc.plat", i["plat"].encode())
    s.f("icc.flags", i["flags"], 4).f("icc.manu", b"none").f("icc.model", b"mod1")
    s.f("icc.attr", i["attr"], 8).f("icc.intent", i["intent"], 4)
    s.f("icc.ill", struct.pack(">3I", *i["ill"])).f("icc.creator", b"crea").f("icc.id", bytes.fromhex(i["id"])).f("icc.rsv", b"\0" * 28)
    s.f("icc.count", len(tags), 4).f("icc.table", table).f("icc.body", body)
    return s


def _hbox(b, spec):
    k = b["k"]
    s = Seq()
    if k == "bpcc":
        for c in spec["siz"]["comps"]:
            s.f("bpcc.bpc", (c["d"] - 1) | c["s"] << 7, 1)
        return box(b"bpcc", s)
    if k == "colr":
        s.f("colr.meth", b["meth"], 1).f("colr.prec", 0, 1).f("colr.approx", 0, 1)
        if b["meth"] == 1:
            s.f("colr.enumcs", b["cs"], 4)
        elif b["meth"] == 5:
            s.f("colr.prims", b["p"], 2).f("colr.transf", b["t"], 2).f("colr.mat", b["m"], 2).f("colr.vid", b["v"], 1)
        else:
            s.add(_iccbytes(b["icc"]))
        return box(b"colr", s)
    if k == "pclr":
        s.f("pclr.ne", b["ne"], 2).f("pclr.npc", len(b["d"]), 1)
        for d, g in zip(b["d"], b["s"]):
            s.f("pclr.b", (d - 1) | g << 7, 1)
        n = sum(-(-d // 8) for d in b["d"]) * b["ne"]
        s.f("pclr.c", _filler(b["seed"], n))
        return box(b"pclr", s)
    if k == "cmap":
        for a, m, p in b["e"]:
            s.f("cmap.cmp", a, 2).f("cmap.mtyp", m, 1).f("cmap.pcol", p, 1)
        return box(b"cmap", s)
    if k == "cdef":
        s.f("cdef.n", len(b["e"]), 2)
        for a, t, c in b["e"]:
            s.f("cdef.cn", a, 2).f("cdef.typ", t, 2).f("cdef.asoc", c, 2)
        return box(b"cdef", s)
    if k == "res":
        for key, tag in (("c", b"resc"), ("d", b"resd")):
            if key in b:
                v = b[key]
                q = Seq()
                t = tag.decode()
                for i in range(4):
                    q.f(t + ".nd", v[i], 2)
                q.f(t + ".e", v[4] & 255, 1).f(t + ".e", v[5] & 255, 1)
                s.add(box(tag, q))
        return box(b"res ", s)
    return _xbox(b)


def _xbox(b):
    k = b["k"]
    s = Seq()
    if k == "jp2i":
        return box(b"jp2i", s.f("jp2i.v", bytes(b["v"])))
    if k == "xml":
        return box(b"xml ", s.f("xml.v", XMLS[b["v"]]))
    if k == "xmlraw":
        return box(b"xml ", s.f("xml.v", bytes.fromhex(b["h"])))
    if k == "xmpraw":
        return box(b"uuid", s.f("uuid.id", bytes.fromhex(XMP_UUID)).f("uuid.xmp", bytes.fromhex(b["h"])))
    if k == "xmp":
        return box(b"uuid", s.f("uuid.id", bytes.fromhex(XMP_UUID)).f("uuid.xmp", [XMP, XMP_NODESC, XMP_EMPTY][b["v"]]))
    if k == "uuid":
        return box(b"uuid", s.f("uuid.id", bytes.fromhex(b["u"])).f("uuid.v", bytes(b["v"])))
    if k == "uinf":
        q = Seq().f("ulst.n", len(b["u"]), 2)
        for u in b["u"]:
            q.f("ulst.u", bytes.fromhex(u))
        s.add(box(b"ulst", q))
        q = Seq().f("url.ver", 0, 1).f("url.flag", 0, 3).f("url.loc", b["url"].encode("utf-8") + b"\0")
        s.add(box(b"url ", q))
        return box(b"uinf", s)
    if k == "unkbox":
        return box(b["t"].encode("latin-1"), s.f("unkbox.v", bytes(b["v"])))
    raise ValueError(k)


class Image:
    __slots__ = ("data", "fields", "elems", "fmt", "spec")


def build(spec):
    cs = codestream(spec)
    if spec["fmt"] in ("j2c", "jhc"):
        s = cs
    else:
        s = Seq()
        s.add(box(b"jP  ", Seq().f("sig.v", b"\r\n\x87\n")))
        q = Seq().f("ftyp.br", spec["brand"].encode()).f("ftyp.minv", 0, 4)
        for c in spec["cl"]:
            q.f("ftyp.cl", c.encode())
        s.add(box(b"ftyp", q))
        for b in spec["pre"]:
            s.add(_xbox(b))
        z = spec["siz"]
        c0 = z["comps"][0]
        ih = Seq().f("ihdr.h", z["h"], 4).f("ihdr.w", z["w"], 4).f("ihdr.nc", len(z["comps"]), 2)
        ih.f("ihdr.bpc", 255 if spec["ihdr"]["bpc255"] else (c0["d"] - 1) | c0["s"] << 7, 1)
        ih.f("ihdr.c", 7, 1).f("ihdr.unkc", spec["ihdr"]["unkC"], 1).f("ihdr.ipr", spec["ihdr"]["iPR"], 1)
        h = Seq().add(box(b"ihdr", ih))
        for b in spec["hbox"]:
            h.add(_hbox(b, spec))
        s.add(box(b"jp2h", h))
        for b in spec["mid"]:
            s.add(_xbox(b))
        s.add(box(b"jp2c", cs, spec["cmode"]))
        for b in spec["post"]:
            s.add(_xbox(b))
    im = Image()
    im.data, im.fields, im.elems, im.fmt, im.spec = bytes(s.data), s.fields, s.elems, spec["fmt"], spec
    return im


def elem(im, name):
    return [(a, l) for n, a, l in im.elems if n == name]
