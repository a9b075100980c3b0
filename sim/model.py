"""Reference model of the reported properties and tests (C21, C22).

The structure (which boxes and marker segments there are, in which order, where their fields lie) comes from
the generator's map; every value is read from the stored bytes at the place where ISO/IEC 15444-1/-15 (and the
ICC specification) put it, and every test is the one the user manual documents (or the standard, where the manual
leaves it open).  The model knows nothing of how the package parses.
"""
import struct
import unicodedata
import uuid
import xml.etree.ElementTree as ET
from fractions import Fraction

YN = {0: "no", 1: "yes"}
SIGN = {0: "unsigned", 1: "signed"}
ENUM = {
    "unkC": YN, "iPR": YN, "embeddedProfile": YN, "vidFRng": YN, "profileCannotBeUsedIndependently": YN, "sop": YN, "eph": YN,
    "multipleComponentTransformation": YN, "codingBypass": YN, "resetOnBoundaries": YN, "termOnEachPass": YN, "vertCausalContext": YN,
    "predTermination": YN, "segmentationSymbols": YN, "bSign": SIGN, "bPCSign": SIGN, "ssizSign": SIGN, "c": {7: "jpeg2000"},
    "meth": {1: "Enumerated", 2: "Restricted ICC", 3: "Any ICC", 4: "Vendor Colour", 5: "Parameterized Colourspace"},
    "enumCS": {16: "sRGB", 17: "greyscale", 18: "sYCC"},
    "profileClass": {b"scnr": "Input Device Profile", b"mntr": "Display Device Profile", b"prtr": "Output Device Profile", b"link": "DeviceLink Profile",
                     b"spac": "ColorSpace Conversion Profile", b"abst": "Abstract Profile", b"nmcl": "Named Colour Profile"},
    "primaryPlatform": {b"APPL": "Apple Computer, Inc.", b"MSFT": "Microsoft Corporation", b"SGI": "Silicon Graphics, Inc.", b"SUNW": "Sun Microsystems, Inc."},
    "transparency": {0: "Reflective", 1: "Transparent"}, "glossiness": {0: "Glossy", 1: "Matte"}, "polarity": {0: "Positive", 1: "Negative"},
    "colour": {0: "Colour", 1: "Black and white"},
    "renderingIntent": {0: "Perceptual", 1: "Media-Relative Colorimetric", 2: "Saturation", 3: "ICC-Absolute Colorimetric"},
    "mTyp": {0: "direct use", 1: "palette mapping"},
    "cTyp": {0: "colour", 1: "opacity", 2: "premultiplied opacity", 3: "application-defined", 65535: "not specified"},
    "cAssoc": {0: "all colours", 65535: "no colours"}, "precincts": {0: "default", 1: "user defined"},
    "order": {0: "LRCP", 1: "RLCP", 2: "RPCL", 3: "PCRL", 4: "CPRL"}, "transformation": {0: "9-7 irreversible", 1: "5-3 reversible"},
    "roiStyle": {0: "Implicit ROI (maximum shift)"}, "qStyle": {0: "no quantization", 1: "scalar derived", 2: "scalar expounded"},
    "rcom": {0: "binary", 1: "ISO/IEC 8859-15 (Latin)"}, "htCodeBlocks": {0: "HTONLY", 32768: "HTDECLARED", 49152: "MIXED"},
    "htSets": {0: "SINGLEHT", 1: "MULTIHT"}, "htRegion": {0: "RGNFREE", 1: "RGN"}, "htHomogeneous": {0: "HOMOGENEOUS", 1: "HETEROGENEOUS"},
    "htReversible": {0: "HTREV", 1: "HTIRV"},
}


class Outside(Exception):
    """The values ask for more data than their element holds: the structure is not intact."""


class Ratio:
    """A derived number, reported rounded to some decimals."""

    def __init__(self, v, digits, undefined=False):
        self.v, self.digits, self.undefined = v, digits, undefined


def printable(s):
    return "".join(c for c in s if unicodedata.category(c)[0] != "C" or c in "\t\n\r")


def text(tag, v):
    v = ENUM.get(tag, {}).get(v, v)
    if isinstance(v, Ratio):
        return v
    if isinstance(v, bytes):
        try:
            v = v.decode("utf-8")
        except UnicodeDecodeError:
            return ""
    return printable(str(v))


class Node:
    """An element of the image: name, extent, fields and parts in order."""

    def __init__(self, name, off, n):
        self.name, self.off, self.n = name, off, n
        self.parts = []
        self.fields = []


def tree(im):
    """Elements nested by containment, with the fields that belong to each of them."""
    root = Node("file", 0, len(im.data))
    es = sorted(enumerate(im.elems), key=lambda x: (x[1][1], -x[1][2], -x[0]))
    stack = [root]
    at = {}
    for _, (n, a, l) in es:
        node = Node(n, a, l)
        while not (stack[-1].off <= a and a + l <= stack[-1].off + stack[-1].n):
            stack.pop()
        stack[-1].parts.append(node)
        stack.append(node)
    stack, i = [], 0

    def give(node, fs):
        """Fields (sorted by place) of this element: to the parts that contain them, the others to itself."""
        k = 0
        for f in fs:
            while k < len(node.parts) and node.parts[k].off + node.parts[k].n <= f[1]:
                k += 1
            p = node.parts[k] if k < len(node.parts) else None
            if p is not None and p.off <= f[1] and f[1] + f[2] <= p.off + p.n:
                at.setdefault(id(p), []).append(f)
            else:
                node.fields.append(f)
        for p in node.parts:
            give(p, at.pop(id(p), ()))
    give(root, sorted(im.fields, key=lambda f: f[1]))
    return root


class E:
    """An element of the report: properties, tests and parts."""

    def __init__(self, tag):
        self.e = ET.Element(tag)
        self.tests = []
        self.parts = []

    def __call__(self, tag, v):
        ET.SubElement(self.e, tag).text = text(tag, v)
        return v

    def t(self, name, ok):
        self.tests.append((name, bool(ok)))

    def add(self, other):
        """Part with properties and tests."""
        self.e.append(other.e)
        self.parts.append(other)

    def hidden(self, other):
        """Part whose properties are not reported."""
        self.parts.append(other)

    def all(self, path=""):
        path += "/" + self.e.tag
        for n, ok in self.tests:
            yield path + "/" + n, ok
        for p in self.parts:
            yield from p.all(path)


def u(b):
    return int.from_bytes(b, "big")


MAIN = ("siz", "cod", "coc", "qcd", "qcc", "rgn", "poc", "crg", "com", "cap", "prf", "cpf", "tlm", "plm", "ppm")
TILE = ("sot", "cod", "coc", "qcd", "qcc", "rgn", "poc", "com", "plt", "ppt")


class Model:
    def __init__(self, im, data, fmt, opts):
        self.d, self.fmt, self.opts = data, fmt, opts
        self.root = tree(im)
        self.jph = fmt in ("jph", "jhc")

    def run(self):
        """The element of the whole file (E)."""
        e = E("properties")
        if self.fmt in ("j2c", "jhc"):
            z = self.codestream(self.root.parts[0], e)
            e("compressionRatio", self.ratio(z["depth"], z["ysiz"] - z["yOsiz"], z["xsiz"] - z["xOsiz"]))
            return e
        types = self.boxes(self.root.parts, e)
        h = [x for p in e.parts if p.e.tag == "jp2HeaderBox" for x in p.parts if x.e.tag == "imageHeaderBox"]
        z = [p.siz for p in e.parts if p.e.tag == "contiguousCodestreamBox"]
        for k, name in (("jP", "Signature"), ("ftyp", "FileType"), ("jp2h", "JP2Header"), ("jp2c", "ContiguousCodestream")):
            e.t("contains%sBox" % name, k in types)
            if k != "jp2c":
                e.t("noMoreThanOne%sBox" % name, types.count(k) <= 1)
        if h and h[0].v["iPR"] == 1:
            e.t("containsIntellectualPropertyBox", "jp2i" in types)
        e.t("firstBoxIsSignatureBox", types[:1] == ["jP"])
        e.t("secondBoxIsFileTypeBox", types[1:2] == ["ftyp"])
        e.t("locationJP2HeaderBoxIsValid", {"ftyp", "jp2h", "jp2c"} <= set(types) and types.index("ftyp") < types.index("jp2h") < types.index("jp2c"))
        if h and z:
            h, z = h[0].v, z[0]
            e.t("heightConsistentWithSIZ", h["height"] == z["ysiz"] - z["yOsiz"])
            e.t("widthConsistentWithSIZ", h["width"] == z["xsiz"] - z["xOsiz"])
            e.t("nCConsistentWithSIZ", h["nC"] == len(z["depth"]))
            if h["bpc"] == 255:
                b = [x for p in e.parts if p.e.tag == "jp2HeaderBox" for x in p.parts if x.e.tag == "bitsPerComponentBox"]
                bpc = b[0].v if b else []
            else:
                bpc = [h["bpc"]] * h["nC"]
            e.t("bPCSignConsistentWithSIZ", [b >> 7 for b in bpc] == z["sign"])
            e.t("bPCDepthConsistentWithSIZ", [(b & 127) + 1 for b in bpc] == z["depth"])
            e("compressionRatio", self.ratio([(b & 127) + 1 for b in bpc], h["height"], h["width"]))
        return e

    def ratio(self, depths, h, w):
        return Ratio(Fraction(sum(depths) * h * w, 8 * len(self.d)), 2)

    # ---- boxes
    def boxes(self, parts, into):
        """Adds the boxes and returns their types."""
        types = []
        for p in parts:
            if not p.name.startswith("box:"):
                raise Outside
            k = p.name[4:]
            f = getattr(self, "b_" + k, None)
            if f is None:
                x = E("unknownBox")
                x("boxType", self.d[p.off + 4:p.off + 8])
            else:
                n = 16 if u(self.d[p.off:p.off + 4]) == 1 else 8
                x = f(p, Cursor(self.d[p.off + n:p.off + p.n]))
            into.add(x)
            types.append(k)
        return types

    def b_jP(self, p, c):
        e = E("signatureBox")
        e.t("boxLengthIsValid", len(c.b) == 4)
        e.t("signatureIsValid", c.b[:4] == b"\r\n\x87\n")
        return e

    def b_ftyp(self, p, c):
        e = E("fileTypeBox")
        brand = b"jph " if self.fmt == "jph" else b"jp2 "
        e.t("boxLengthIsValid", len(c.b) % 4 == 0)
        e.t("brandIsValid", e("br", c.raw(4)) == brand)
        e.t("minorVersionIsValid", e("minV", c(4)) == 0)
        e.t("compatibilityListIsValid", brand in [e("cL", c.raw(4)) for _ in range((len(c.b) - 8) // 4)])
        return e

    def b_jp2h(self, p, c):
        e = E("jp2HeaderBox")
        types = self.boxes(p.parts, e)
        h = [x.v for x in e.parts if x.e.tag == "imageHeaderBox"]
        e.t("containsImageHeaderBox", "ihdr" in types)
        if self.fmt == "jp2" or (h and h[0]["unkC"] == 0):
            e.t("containsColourSpecificationBox", "colr" in types)
        if self.fmt == "jph" and "colr" not in types:
            e.t("noZeroCTypesIfNoColourBox", all(0 not in x.v for x in e.parts if x.e.tag == "channelDefinitionBox"))
        if h and h[0]["bpc"] == 255:
            e.t("containsBitsPerComponentBox", "bpcc" in types)
        e.t("firstJP2HeaderBoxIsImageHeaderBox", types[:1] == ["ihdr"])
        for k, name in (("ihdr", "ImageHeader"), ("bpcc", "BitsPerComponent"), ("pclr", "Palette"), ("cmap", "ComponentMapping"),
                        ("cdef", "ChannelDefinition"), ("res", "Resolution")):
            e.t("noMoreThanOne%sBox" % name, types.count(k) <= 1)
        at = [i for i, k in enumerate(types) if k == "colr"]
        e.t("colourSpecificationBoxesAreContiguous", not at or at[-1] - at[0] == len(at) - 1)
        e.t("paletteAndComponentMappingBoxesOnlyTogether", ("pclr" in types) == ("cmap" in types))
        return e

    def b_ihdr(self, p, c):
        e = E("imageHeaderBox")
        v = e.v = {}
        e.t("boxLengthIsValid", len(c.b) == 14)
        for k in ("height", "width"):
            v[k] = e(k, c(4))
            e.t(k + "IsValid", v[k] >= 1)
        v["nC"] = e("nC", c(2))
        e.t("nCIsValid", 1 <= v["nC"] <= 16384)
        b = v["bpc"] = c(1)
        e("bPCSign", b >> 7)
        e("bPCDepth", (b & 127) + 1)
        e.t("bPCIsValid", (b & 127) < 38 or b == 255)
        e.t("cIsValid", e("c", c(1)) == 7)
        for k in ("unkC", "iPR"):
            v[k] = e(k, c(1))
            e.t(k + "IsValid", v[k] <= 1)
        return e

    def b_bpcc(self, p, c):
        e = E("bitsPerComponentBox")
        e.v = list(c.b)
        for b in c.b:
            e("bPCSign", b >> 7)
            e("bPCDepth", (b & 127) + 1)
            e.t("bPCIsValid", (b & 127) < 38)
        return e

    def b_colr(self, p, c):
        e = E("colourSpecificationBox")
        m = e("meth", c(1))
        e.t("methIsValid", m in ((1, 2, 3, 5) if self.fmt == "jph" else (1, 2)))
        e.t("precIsValid", e("prec", c(1)) == 0)
        e.t("approxIsValid", e("approx", c(1)) == 0)
        if m == 1:
            if len(c.b) != 7:
                raise Outside
            e.t("enumCSIsValid", e("enumCS", c(4)) in (16, 17, 18))
        elif m in (2, 3):
            b = c.rest()
            x, tags = self.icc(b)
            e.e.append(x)
            if m == 2:
                e.t("iccSizeIsValid", u(b[:4]) == len(b))
                e.t("iccPermittedProfileClass", b[12:16] in (b"scnr", b"mntr"))
                e.t("iccNoLUTBasedProfile", b"A2B0" not in tags)
        elif m == 5:
            for k, known in (("colPrims", {1, 2, *range(4, 13), 22}), ("transfC", {1, 2, *range(4, 19)}), ("matCoeffs", {0, 1, 2, *range(4, 15)})):
                v = e(k, c(2))
                if self.fmt == "jph":
                    e.t(k + "IsValid", v in known)
            e("vidFRng", c(1) >> 7)
        return e

    def icc(self, b):
        if len(b) < 132 or len(b) < 132 + 12 * u(b[128:132]):
            raise Outside
        e = E("icc")
        e("profileSize", u(b[0:4]))
        e("preferredCMMType", b[4:8])
        e("profileVersion", "%d.%d.%d" % (b[8], b[9] >> 4, b[9] & 15))
        e("profileClass", b[12:16])
        e("colourSpace", b[16:20])
        e("profileConnectionSpace", b[20:24])
        t = struct.unpack(">6H", b[24:36])
        e("dateTimeString", "%d/%02d/%02d, %02d:%02d:%02d" % t)
        e("profileSignature", b[36:40])
        e("primaryPlatform", b[40:44])
        flags = u(b[44:48])
        e("embeddedProfile", flags & 1)
        e("profileCannotBeUsedIndependently", flags >> 1 & 1)
        e("deviceManufacturer", b[48:52])
        e("deviceModel", b[52:56])
        attr = u(b[56:64])
        for n, tag in enumerate(("transparency", "glossiness", "polarity", "colour")):
            e(tag, attr >> n & 1)
        e("renderingIntent", u(b[66:68]))
        for n, x in enumerate("XYZ"):
            e("connectionSpaceIlluminant" + x, Ratio(Fraction(int.from_bytes(b[68 + 4 * n:72 + 4 * n], "big", signed=True), 65536), 4))
        e("profileCreator", b[80:84])
        e("profileID", b[84:100].hex())
        desc = None
        tags = []
        for n in range(u(b[128:132])):
            t = b[132 + 12 * n:144 + 12 * n]
            tags.append(e("tag", t[:4]))
            if t[:4] == b"desc" and desc is None:
                d = b[u(t[4:8]):u(t[4:8]) + u(t[8:12])]
                if len(d) < 13 or len(d) != u(t[8:12]) or not 0 < u(d[8:12]) <= len(d) - 12:
                    raise Outside
                desc = d[12:12 + u(d[8:12]) - 1]
        e("description", desc or "")
        return e.e, tags

    def b_pclr(self, p, c):
        e = E("paletteBox")
        ne = e("nE", c(2))
        e.t("nEIsValid", 1 <= ne <= 1024)
        if ne > 1024:
            raise Outside
        np = e("nPC", c(1))
        e.t("nPCIsValid", np >= 1)
        bs = [c(1) for _ in range(np)]
        size = [((b & 127) + 8) // 8 for b in bs]
        # all values of an entry are stored together
        rows = [[c(n) for n in size] for _ in range(ne)]
        for i, b in enumerate(bs):
            e("bSign", b >> 7)
            e("bDepth", (b & 127) + 1)
            e.t("bDepthIsValid", (b & 127) < 38)
            for r in rows:
                e("cP", r[i])
        return e

    def b_cmap(self, p, c):
        e = E("componentMappingBox")
        for _ in range(len(c.b) // 4):
            e.t("cMPIsValid", e("cMP", c(2)) <= 16384)
            m = e("mTyp", c(1))
            e.t("mTypIsValid", m <= 1)
            e.t("pColIsValid", e("pCol", c(1)) == 0 or m != 0)
        return e

    def b_cdef(self, p, c):
        e = E("channelDefinitionBox")
        n = e("n", c(2))
        e.t("nIsValid", n >= 1)
        e.t("boxLengthIsValid", len(c.b) == 2 + 6 * n)
        v = []
        for _ in range(n):
            e("cN", c(2))
            e.t("cNIsValid", True)
            v.append((e("cTyp", c(2)), e("cAssoc", c(2))))
            e.t("cTypIsValid", v[-1][0] in ((0, 1, 2, 3, 65535) if self.fmt == "jph" else (0, 1, 2, 65535)))
            e.t("cAssocIsValid", True)
        e.v = [x[0] for x in v]
        if self.fmt == "jph":
            a = [x for x in v if x[0] in (1, 2)]
            e.t("noMoreThanOneAlphaChannel", len(a) <= 1)
            for x in a:
                e.t("cAssocAlphaChannelIsZero", x[1] == 0)
        return e

    def b_res(self, p, c):
        e = E("resolutionBox")
        types = self.boxes(p.parts, e)
        e.t("containsCaptureOrDisplayResolutionBox", "resc" in types or "resd" in types)
        e.t("noMoreThanOneCaptureResolutionBox", types.count("resc") <= 1)
        e.t("noMoreThanOneDisplayResolutionBox", types.count("resd") <= 1)
        return e

    def resolution(self, c, tag, x):
        e = E(tag)
        e.t("boxLengthIsValid", len(c.b) == 10)
        nd = []
        for t in ("vR%sN", "vR%sD", "hR%sN", "hR%sD"):
            nd.append(e(t % x, c(2)))
            e.t(t % x + "IsValid", nd[-1] >= 1)
        ex = []
        for t in ("vR%sE", "hR%sE"):
            ex.append(e(t % x, (c(1) + 128) % 256 - 128))
            e.t(t % x + "IsValid", True)
        v = Fraction(nd[0], nd[1] or 1) * Fraction(10) ** ex[0]
        h = Fraction(nd[2], nd[3] or 1) * Fraction(10) ** ex[1]
        e("vRes%sInPixelsPerMeter" % x, Ratio(v, 2, nd[1] == 0))
        e("hRes%sInPixelsPerMeter" % x, Ratio(h, 2, nd[3] == 0))
        e("vRes%sInPixelsPerInch" % x, Ratio(v * Fraction(254, 10000), 2, nd[1] == 0))
        e("hRes%sInPixelsPerInch" % x, Ratio(h * Fraction(254, 10000), 2, nd[3] == 0))
        return e

    def b_resc(self, p, c):
        return self.resolution(c, "captureResolutionBox", "c")

    def b_resd(self, p, c):
        return self.resolution(c, "displayResolutionBox", "d")

    def b_jp2i(self, p, c):
        return E("intellectualPropertyBox")

    def embedded(self, e, b):
        if b[-2:] == b"\0\0":
            raise Outside   # more than one terminator
        ok = False
        for n, last in enumerate((b, b[:-1] if self.opts.get("nullxml") and b[-1:] == b"\0" else None)):
            if last is None:
                continue
            try:
                x = ET.fromstring(last)
            except Exception:
                continue
            for y in x.iter():
                if y.text:
                    y.text = printable(y.text)
            e.e.append(x)
            ok = n == 0
            break
        e.t("containsWellformedXML", ok)

    def b_xml(self, p, c):
        e = E("xmlBox")
        self.embedded(e, c.b)
        return e

    def b_uuid(self, p, c):
        e = E("uuidBox")
        e.t("boxLengthIsValid", len(c.b) > 16)
        i = c.raw(16)
        if i.hex() == "be7acfcb97a942e89c71999491e3afac":
            self.embedded(e, c.rest())
        else:
            e("uuid", str(uuid.UUID(i.hex())))
        return e

    def b_uinf(self, p, c):
        e = E("uuidInfoBox")
        types = self.boxes(p.parts, e)
        e.t("containsOneListBox", types.count("ulst") == 1)
        e.t("containsOneURLBox", types.count("url") == 1)
        return e

    def b_ulst(self, p, c):
        e = E("uuidListBox")
        n = e("nU", c(2))
        e.t("boxLengthIsValid", len(c.b) == 16 * n + 2)
        for _ in range(n):
            e("uuid", str(uuid.UUID(c.raw(16).hex())))
        return e

    def b_url(self, p, c):
        e = E("urlBox")
        e.t("versionIsValid", e("version", c(1)) == 0)
        e.t("flagIsValid", c(3) == 0)
        loc = c.rest()
        if loc[-2:] == b"\0\0":
            raise Outside
        e.t("locHasNullTerminator", loc[-1:] == b"\0")
        loc = loc[:-1] if loc[-1:] == b"\0" else loc
        try:
            loc.decode("utf-8")
            e.t("locIsUTF8", True)
        except UnicodeDecodeError:
            e.t("locIsUTF8", False)
        e("loc", loc)
        return e

    def b_jp2c(self, p, c):
        e = E("contiguousCodestreamBox")
        e.siz = self.codestream(p.parts[0], e)
        return e

    # ---- codestream
    def codestream(self, p, e):
        names = [q.name for q in p.parts]
        if names[:2] != ["mk:soc", "mk:siz"]:
            raise Outside
        main = [q for q in p.parts if q.name != "tilepart" and q.name not in ("mk:soc", "mk:eoc")]
        tiles = [q for q in p.parts if q.name == "tilepart"]
        e.t("codestreamStartsWithSOCMarker", True)
        e.t("foundSIZMarker", True)
        got = []
        for q in main:
            k = q.name[3:]
            got.append(k)
            if k in MAIN:
                x = self.segment(q)
                if k in ("plm", "ppm") and not self.opts.get("packetmarkers"):
                    e.hidden(x)
                else:
                    e.add(x)
        e("ppmCount", got.count("ppm"))
        e("plmCount", got.count("plm"))
        e.t("foundCODMarker", "cod" in got)
        e.t("foundQCDMarker", "qcd" in got)
        z = self.siz
        if z["rsiz"] >> 14 & 1:
            e.t("foundCAPMarker", "cap" in got)
        self.unique(e, "Main")
        # tile parts, each at the place where the length of the one before it says
        tp = E("tileParts")
        at = {q.off: q for q in tiles}
        end = p.off + p.n
        pos = tiles[0].off if tiles else None
        index, found, says = set(), {}, {}
        while pos in at:
            q = at.pop(pos)
            x = self.tilepart(q)
            tp.add(x)
            t = x.sot
            if t["isot"] >= min(z["tiles"], 65535):
                raise Outside   # a tile that the image does not have
            index.add(t["isot"])
            found[t["isot"]] = found.get(t["isot"], 0) + 1
            if t["tnsot"]:
                says.setdefault(t["isot"], set()).add(t["tnsot"])
            if t["psot"] == 0:
                break
            pos += t["psot"]
            mk = self.d[pos:min(pos + 2, end)]
            x.t("foundNextTilePartOrEOC", mk in (b"\xff\x90", b"\xff\xd9"))
            if mk == b"\xff\x90" and pos not in at:
                raise Outside
        e.add(tp)
        e.t("foundExpectedNumberOfTiles", len(index) == z["tiles"])
        if says:
            e.t("foundExpectedNumberOfTileParts", all(v == {found[t]} for t, v in says.items()))
        e.t("foundEOCMarker", self.d[end - 2:end] == b"\xff\xd9")
        return z

    def unique(self, e, where):
        for k, tag in (("coc", "Ccoc"), ("qcc", "Cqcc")):
            v = [x.v for x in e.parts if x.e.tag == k]
            if v:
                e.t("maxOne%sPerComponent%s" % (tag, where), len(set(v)) == len(v))

    def tilepart(self, p):
        e = E("tilePart")
        names = [q.name[3:] for q in p.parts]
        if names[:1] != ["sot"] or names[-1:] != ["sod"] or "sod" in names[:-1]:
            raise Outside
        for q in p.parts:
            k = q.name[3:]
            if k in TILE:
                x = self.segment(q)
                if k in ("plt", "ppt") and not self.opts.get("packetmarkers"):
                    e.hidden(x)
                else:
                    e.add(x)
        e("pltCount", names.count("plt"))
        e("pptCount", names.count("ppt"))
        e.sot = e.parts[0].v
        e.t("foundSODMarker", True)
        for k in ("cod", "coc", "qcd", "qcc", "rgn"):
            if k in names:
                e.t(k.upper() + "Allowed", e.sot["tpsot"] == 0)
        self.unique(e, "TP")
        return e

    def segment(self, p):
        e = E(p.name[3:])
        c = Cursor(self.d[p.off + 2:p.off + p.n])
        getattr(self, "m_" + p.name[3:])(e, c)
        return e

    def m_siz(self, e, c):
        z = self.siz = {}
        n = e("lsiz", c(2))
        e.t("lsizIsValid", 41 <= n <= 49190)
        r = z["rsiz"] = e("rsiz", c(2))
        e.t("rsizIsValid", r >> 14 & 1 if self.jph else r >> 12 == 0)
        e("capability", capability(r))
        for k in ("xsiz", "ysiz", "xOsiz", "yOsiz", "xTsiz", "yTsiz", "xTOsiz", "yTOsiz"):
            z[k] = e(k, c(4))
            e.t(k + "IsValid", z[k] <= 2 ** 32 - 2 if "O" in k else z[k] >= 1)
        z["tiles"] = 0
        if z["xTsiz"] and z["yTsiz"]:
            z["tiles"] = -(-(z["xsiz"] - z["xTOsiz"]) // z["xTsiz"]) * -(-(z["ysiz"] - z["yTOsiz"]) // z["yTsiz"])
        e("numberOfTiles", z["tiles"])
        self.ncomp = e("csiz", c(2))
        e.t("csizIsValid", 1 <= self.ncomp <= 16384)
        e.t("lsizConsistentWithCsiz", n == 38 + 3 * self.ncomp)
        z["depth"], z["sign"] = [], []
        for _ in range(self.ncomp):
            b = c(1)
            z["sign"].append(e("ssizSign", b >> 7))
            z["depth"].append(e("ssizDepth", (b & 127) + 1))
            e.t("ssizIsValid", (b & 127) < 38)
            e.t("xRsizIsValid", e("xRsiz", c(1)) >= 1)
            e.t("yRsizIsValid", e("yRsiz", c(1)) >= 1)

    def comp(self, c):
        return c(1 if self.ncomp < 257 else 2)

    def coding(self, e, c, precincts, n):
        """SPcod / SPcoc parameters; n: length of the segment without precinct sizes."""
        levels = e("levels", c(1))
        e.t("levelsIsValid", levels <= 32)
        e.t("lc%sConsistencyCheck" % e.e.tag[1:], len(c.b) == n + (levels + 1 if precincts else 0))
        x = []
        for k in ("Width", "Height"):
            x.append(c(1) + 2)
            e("codeBlock" + k, 2 ** x[-1])
            e.t("codeBlock%sExponentIsValid" % k, x[-1] <= 10)
        e.t("sumHeightWidthExponentIsValid", sum(x) <= 12)
        style = c(1)
        ht = self.jph and style >> 6 == 1
        for bit, k in enumerate(("codingBypass", "resetOnBoundaries", "termOnEachPass", "vertCausalContext", "predTermination", "segmentationSymbols")):
            if not (ht and bit in (1, 4, 5)):
                e(k, style >> bit & 1)
        e.t("transformationIsValid", e("transformation", c(1)) <= 1)
        for n in range(levels + 1):
            b = c(1) if precincts else 0xff
            for k, v in (("X", b & 15), ("Y", b >> 4)):
                e("precinctSize" + k, 2 ** v)
                if precincts:
                    e.t("precinctSize%sIsValid" % k, v >= 1 or n == 0)

    def m_cod(self, e, c):
        n = e("lcod", c(2))
        e.t("lcodIsValid", 12 <= n <= 45)
        s = c(1)
        e("precincts", s & 1)
        e("sop", s >> 1 & 1)
        e("eph", s >> 2 & 1)
        e.t("orderIsValid", e("order", c(1)) <= 4)
        e.t("layersIsValid", e("layers", c(2)) >= 1)
        e.t("multipleComponentTransformationIsValid", e("multipleComponentTransformation", c(1)) <= 1)
        self.coding(e, c, s & 1, 12)

    def index(self, e, c, tag):
        """Index of a component."""
        v = e(tag, self.comp(c))
        return v, v <= (255 if self.ncomp < 257 else 16383)

    def m_coc(self, e, c):
        n = e("lcoc", c(2))
        e.t("lcocIsValid", 9 <= n <= 43)
        e.v, ok = self.index(e, c, "ccoc")
        e.t("ccocIsValid", ok)
        s = c(1)
        e("precincts", s & 1)
        self.coding(e, c, s & 1, 9 if self.ncomp < 257 else 10)

    def quant(self, e, c, n):
        """n: bytes of the quantisation values in the segment."""
        s = c(1)
        st = e("qStyle", s & 31)
        e.t("qStyleIsValid", st <= 2)
        e("guardBits", s >> 5)
        # reported: one value per decomposition level (manual), out of 3 * levels + 1 stored ones
        if st == 0:
            for _ in range((n - 1) // 3):
                e("epsilon", c(1) >> 3)
        else:
            for _ in range({1: 1, 2: max(0, n - 2) // 6}.get(st, 0)):
                v = c(2)
                e("mu", v & 2047)
                e("epsilon", v >> 11)

    def m_qcd(self, e, c):
        n = e("lqcd", c(2))
        e.t("lqcdIsValid", 4 <= n <= 197)
        self.quant(e, c, n - 3)

    def m_qcc(self, e, c):
        n = e("lqcc", c(2))
        e.t("lqccIsValid", 5 <= n <= 199)
        e.v, _ = self.index(e, c, "cqcc")
        self.quant(e, c, n - 3 - (1 if self.ncomp < 257 else 2))

    def m_rgn(self, e, c):
        e.t("lrgnIsValid", 5 <= e("lrgn", c(2)) <= 6)
        e.t("crgnIsValid", self.index(e, c, "crgn")[1])
        e.t("roiStyleIsValid", e("roiStyle", c(1)) == 0)
        e.t("roiShiftIsValid", e("roiShift", c(1)) <= (37 if self.jph else 255))

    def m_poc(self, e, c):
        n = e("lpoc", c(2))
        e.t("lpocIsValid", n >= 9)
        for _ in range((n - 2) // (7 if self.ncomp < 257 else 9)):
            rs = e("rspoc", c(1))
            e.t("rspocIsValid", rs <= 32)
            cs, ok = self.index(e, c, "cspoc")
            e.t("cspocIsValid", ok)
            e.t("lyepocIsValid", e("lyepoc", c(2)) >= 1)
            e.t("repocIsValid", rs + 1 <= e("repoc", c(1)) <= 33)
            ce, _ = self.index(e, c, "cepoc")
            e.t("cepocIsValid", ce == 0 or cs + 1 <= ce <= (255 if self.ncomp < 257 else 16384))
            e.t("orderIsValid", e("order", c(1)) <= 4)

    def m_crg(self, e, c):
        e.t("lcrgIsValid", 6 <= e("lcrg", c(2)) <= 65534)
        for _ in range(self.ncomp):
            e("xcrg", c(2))
            e("ycrg", c(2))
            e.t("xcrgIsValid", True)
            e.t("ycrgIsValid", True)

    def m_com(self, e, c):
        e.t("lcomIsValid", e("lcom", c(2)) >= 5)
        r = e("rcom", c(2))
        e.t("rcomIsValid", r <= 1)
        t = c.rest()
        ok = r == 0
        if r == 0:
            e("comment", t.hex())
        elif r == 1:
            t = t.decode("iso-8859-15")
            ok = printable(t) == t
            if ok:
                e("comment", t)
        e.t("commentIsValid", ok)

    def m_cap(self, e, c):
        n = e("lcap", c(2))
        v = c(4)
        parts = [n for n in range(1, 33) if v >> (32 - n) & 1]
        for k in parts:
            e("pcapPart", k)
        e.t("lcapIsValid", n == 6 + 2 * len(parts))
        if self.jph:
            e.t("pcap15IsValid", 15 in parts)
            if 15 in parts:
                v = [c(2) for _ in parts][parts.index(15)]
                e("htCodeBlocks", v & 0xc000)
                e("htSets", v >> 13 & 1)
                e("htRegion", v >> 12 & 1)
                e("htHomogeneous", v >> 11 & 1)
                e("htReversible", v >> 5 & 1)
                p = v & 31
                e("htB", 74 if p == 31 else p + 8 if p < 20 else 4 * (p - 19) + 27)

    def m_prf(self, e, c):
        e.t("lprfIsValid", 4 <= e("lprf", c(2)) <= 65534)
        v = c.shorts()
        if v:
            e.t("pprfIsValid", v[-1] != 0)
        n = e("PRFnum", 4095 + sum(x << 16 * i for i, x in enumerate(v)))
        e.t("PRFnumIsValid", n > 4095)

    def m_cpf(self, e, c):
        n = e("lcpf", c(2))
        v = c.shorts()
        if self.jph:
            e.t("lcpIsValid", 4 <= n <= 65534)
            if v:
                e.t("pcpfIsValid", v[-1] != 0)
        e("CPFnum", -1 + sum(x << 16 * i for i, x in enumerate(v)))

    def m_sot(self, e, c):
        v = e.v = {}
        e.t("lsotIsValid", e("lsot", c(2)) == 10)
        for k, n in (("isot", 2), ("psot", 4), ("tpsot", 1), ("tnsot", 1)):
            v[k] = e(k, c(n))
        e.t("isotIsValid", v["isot"] <= 65534)
        e.t("psotIsValid", not 1 <= v["psot"] <= 13)
        e.t("tpsotIsValid", v["tpsot"] <= 254)

    def m_tlm(self, e, c):
        pass

    m_ppm = m_ppt = m_tlm

    def m_plm(self, e, c):
        e("lplm", c(2))
        e("zplm", c(1))
        e("nplm", c(1))
        e("iplm", lengths(c.rest()))

    def m_plt(self, e, c):
        e("lplt", c(2))
        e("zplt", c(1))
        e("iplt", lengths(c.rest()))


class Cursor:
    def __init__(self, b):
        self.b, self.i = b, 0

    def __call__(self, n):
        self.i += n
        if self.i > len(self.b):
            raise Outside
        return u(self.b[self.i - n:self.i])

    def raw(self, n):
        self.i += n
        if self.i > len(self.b):
            raise Outside
        return self.b[self.i - n:self.i]

    def rest(self):
        r = self.b[self.i:]
        self.i = len(self.b)
        return r

    def shorts(self):
        v = []
        while self.i + 2 <= len(self.b):
            v.append(self(2))
        return v


def lengths(b):
    """Packet lengths in groups of 7 bits, most significant group first; continued while the top bit is set.

    Written as upper case hexadecimal numbers, two digits per stored byte.
    """
    out = []
    n = k = 0
    for x in b:
        n = n << 7 | x & 127
        k += 1
        if not x & 128:
            out.append("%0*X" % (2 * k, n))
            n = k = 0
    if k:
        raise Outside
    return ",".join(out)


IMF = {4: "2k IMF Single Tile Lossy Profile", 5: "4k IMF Single Tile Lossy Profile", 6: "8k IMF Single Tile Lossy Profile",
       7: "2k IMF Single/Multi Tile Reversible Profile", 8: "4k IMF Single/Multi Tile Reversible Profile", 9: "8k IMF Single/Multi Tile Reversible Profile"}
BC = {1: "Broadcast Contribution Single Tile Profile", 2: "Broadcast Contribution Multi-tile Profile", 3: "Broadcast Contribution Multi-tile Reversible Profile"}
OLD = ["ISO/IEC 15444-1", "Profile 0", "Profile 1", "2K digital cinema profile", "4K digital cinema profile", "Scalable 2K digital cinema profile",
       "Scalable 4K digital cinema profile", "Long-term storage profile"]


def capability(r):
    """Rsiz (ISO/IEC 15444-1 Table A.10)."""
    top, profile, sub, main = r >> 14, r >> 8 & 15, r >> 4 & 15, r & 15
    if top:
        return {1: "CAP", 2: "ISO/IEC 15444-2", 3: "ISO/IEC 15444-2 + CAP"}[top]
    if profile == 0 and main < 8:
        return OLD[main]
    if profile in BC:
        return "%s, Mainlevel %d" % (BC[profile], main)
    if profile in IMF:
        return "%s, Mainlevel %d; Sublevel %d" % (IMF[profile], main, sub)
    if r & 0xfff == 0xfff:
        return "Profile signalled in Profile Marker"
    return "Unknown (value not defined in ISO/IEC 15444-1)"


# ---------------------------------------------------------------- comparison
EMBED = ("xmlBox", "uuidBox")


def compare(want, got, local, ser, path=""):
    """None, or where the reported properties differ from the expected ones."""
    tag = local(got.tag)
    path = "%s/%s" % (path, tag)
    if tag != want.tag:
        return "%s where %s should be" % (path, want.tag)
    w = want.text
    g = got.text or ""
    if isinstance(w, Ratio):
        if w.undefined:
            return None
        try:
            x = Fraction(g)
        except ValueError:
            return "%s is %r, not a number" % (path, g)
        tol = Fraction(1, 2 * 10 ** w.digits) + abs(w.v) * Fraction(1, 10 ** 12)
        if abs(x - w.v) > tol or g != str(round(float(g), w.digits)):
            return "%s is %s, the stored values give %.12g" % (path, g, float(w.v))
    elif len(want) or len(got):
        if g.strip():
            return "%s contains text %r" % (path, g)
    elif (w or "").replace("\r\n", "\n").replace("\r", "\n") != g and ((w or "").strip() or g.strip()):
        return "%s is %r, stored is %r" % (path, g[:80], (w or "")[:80])
    if want.tag in EMBED and len(want) and want[0].tag != "uuid":
        a, b = ser(want), ser(got)
        if a != b:
            return "%s is %s, stored is %s" % (path, b[:300], a[:300])
        return None
    for n, a in enumerate(want):
        if n >= len(got):
            return "%s: %s (%s) is missing" % (path, a.tag, a.text)
        r = compare(a, got[n], local, ser, path)
        if r:
            return r
    if len(got) > len(want):
        return "%s: unexpected %s %r" % (path, local(got[len(want)].tag), got[len(want)].text)
    return None
