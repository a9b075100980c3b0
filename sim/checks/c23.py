"""C23: the MIX block carries the values of the image."""
import xml.etree.ElementTree as ET
from fractions import Fraction
from xml.sax.saxutils import escape, quoteattr

from .. import lib, shape
from . import c21

ID = "C23"
LEVEL = "exploration"
QUICK = 4000
THOROUGH = 80000
RULE = "distinct (format, MIX version, way the bytes are read, MIX element present, source of the value) tuples, plus distinct fields changed"
ASSUMPTIONS = ["at most one XMP packet with properties in an XML box and one in a UUID box (the former counts)",
               "a codec is named by the first comment of the main header, as name-vVERSION",
               "ratios and resolutions are compared with the rounded numbers that the properties report, which C21 compares with the stored values"]
KEEP = ("spec",)
V = {1: ("http://www.loc.gov/mix/v10", "http://www.loc.gov/standards/mix/mix10/mix10.xsd"),
     2: ("http://www.loc.gov/mix/v20", "http://www.loc.gov/standards/mix/mix.xsd")}
RDF = "{http://www.w3.org/1999/02/22-rdf-syntax-ns#}"
XAP, TIFF, AUX = "http://ns.adobe.com/xap/1.0/", "http://ns.adobe.com/tiff/1.0/", "http://ns.adobe.com/exif/1.0/aux/"
FIELDS = [(XAP, "CreateDate"), (TIFF, "Artist"), (TIFF, "Make"), (TIFF, "Model"), (AUX, "SerialNumber"), (XAP, "CreatorTool")]
OTHER = [(TIFF, "Software"), (XAP, "ModifyDate"), (AUX, "Lens"), (XAP, "MetadataDate"), (TIFF, "XResolution")]
VALUES = ["a", "2019-01-01T00:00:00", "Canon & Sons", " padded ", "Scan Soft 1.2", "Tool 10", "Adobe Photoshop CS5 Windows", "v 1.2 beta", "x  2.0.1", "\u20ac 5.0",
          "12", "<tag>", "1.2", "None", "True", "0", "a - 3", "caf\xe9"]
COMMENTS = ["Kakadu-v7.2.2", "Kakadu-3.0.3", "a-v1-v2.5x", "-v", "x-v", "Acme Codec -v10.", "OpenJPEG version 2.3.0", "v-vv1", "Kdu-Layer-Info: log_2{Delta-D}", "caf\xe9-v1.0"]


def gen_xmp(rng):
    """An XMP packet with some of the properties, as elements or attributes, in one or more descriptions."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        at, el = "", ""
        for ns, t in FIELDS + OTHER:
            if rng.random() < 0.45:
                p = {XAP: "xmp", TIFF: "tiff", AUX: "aux"}[ns]
                v = rng.choice(VALUES)
                if rng.random() < 0.5:
                    at += " %s:%s=%s" % (p, t, quoteattr(v))
                else:
                    el += "<%s:%s>%s</%s:%s>" % (p, t, escape(v), p, t)
        out.append("<rdf:Description rdf:about=''%s>%s</rdf:Description>" % (at, el))
    if rng.random() < 0.1:
        out = []
    return ("<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:xmp='%s' xmlns:tiff='%s' xmlns:aux='%s'>%s</rdf:RDF></x:xmpmeta>"
            % (XAP, TIFF, AUX, "".join(out))).encode("utf-8").hex()


def passes(c, opts):
    e = c21.expected(c, opts)
    return e is not None and all(ok for _, ok in e.all())


def gen(rng, i, tier):
    fmt = rng.choice(["jp2", "jp2", "jph"])
    opts = lib.gen_opts(rng, fmt, p=0.3)
    opts["mix"] = rng.choice([1, 2])
    files = []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        spec = c21.jp2gen.gen_spec(rng, fmt)
        if rng.random() < 0.2:
            c21.jp2gen.odd(rng, spec)
        if rng.random() < 0.05:
            c21.jp2gen.lengthen(rng, spec)
        for w in ("pre", "mid", "post"):
            spec[w] = [b for b in spec[w] if b["k"] != "xmp"]
        for kind in ("xmlraw", "xmpraw"):
            if rng.random() < 0.45:
                w = rng.choice(["pre", "mid"])
                spec[w] = spec[w] + [{"k": kind, "h": gen_xmp(rng)}]
        for m in spec["main"]:
            if m["k"] == "com" and m["r"] == 1 and rng.random() < 0.7:
                m["t"] = rng.choice(COMMENTS)
        c = {"spec": spec}
        if rng.random() < 0.3:
            im = c21.jp2gen.build(spec)
            for _ in range(10):
                d = dict(c, shape=shape.gen(rng, im))
                if passes(d, opts):
                    c = d
                    break
        if rng.random() < 0.7:
            im = c21.image(c)[0]
            for _ in range(20):
                d = dict(c, dmg=c21.values(rng, im))
                if passes(d, opts) or rng.random() < 0.02 and c21.expected(d, opts) is not None:
                    c = d
                    break
        files.append(["f%d" % k, c])
    sc = {"opts": opts, "files": files, "nommap": rng.random() < 0.5}
    if sc["nommap"] and rng.random() < 0.7:
        sc["shortseed"] = rng.randrange(10000)
    elif rng.random() < 0.2:
        sc["platform"] = "win32"
    if len(files) > 1 and rng.random() < 0.3:
        sc["faults"] = [{"op": rng.choice(["open", "read", "mmap"]), "path": files[0][0], "err": rng.choice(["EIO", "EACCES", "MemoryError"]), "n": 1, "times": -1}]
    return sc


# ---------------------------------------------------------------- reference model
class Num:
    """A number: any decimal that is not farther from v than by tol."""

    def __init__(self, v, tol):
        self.v, self.tol = v, tol


def first(e, path):
    """First element at a path, over all elements of each step (None when there is none)."""
    es = [e]
    for t in path.split("/") if isinstance(path, str) else path:
        es = [c for x in es for c in x if c.tag == t]
    return es[0] if es else None


def txt(e, path):
    x = first(e, path)
    return "" if x is None or x.text is None else x.text


def model(p, num, v):
    """p: expected properties; num(path): a reported number; v: MIX version.  Nested (tag, text or parts)."""
    cs = "contiguousCodestreamBox/"
    out = []
    ratio = Fraction(num("compressionRatio"))
    scheme = "JPEG 2000 Lossless" if txt(p, cs + "cod/transformation") == "5-3 reversible" else "JPEG 2000 Lossy"
    if v == 1:
        r = ("compressionRatio", Num(ratio, Fraction(1, 2) + abs(ratio) * Fraction(1, 10 ** 12)))
    else:
        r = ("compressionRatio", [("numerator", Num(ratio * 100, Fraction(1, 100) + abs(ratio) * Fraction(1, 10 ** 10))), ("denominator", "100")])
    out.append(("BasicDigitalObjectInformation", [
        ("FormatDesignation", [("formatName", "image/" + txt(p, "fileTypeBox/br").strip())]),
        ("byteOrder", "big_endian" if v == 1 else "big endian"),
        ("Compression", [("compressionScheme", scheme), r])]))
    ch = [("imageWidth", txt(p, "jp2HeaderBox/imageHeaderBox/width")), ("imageHeight", txt(p, "jp2HeaderBox/imageHeaderBox/height"))]
    icc = first(p, "jp2HeaderBox/colourSpecificationBox/icc")
    enum = first(p, "jp2HeaderBox/colourSpecificationBox/enumCS")
    if icc is not None:
        ch.append(("PhotometricInterpretation", [("colorSpace", txt(icc, "colourSpace").strip()),
                                                 ("ColorProfile", [("IccProfile", [("iccProfileName", txt(icc, "description"))])])]))
    elif enum is not None:
        ch.append(("PhotometricInterpretation", [("colorSpace", enum.text.strip())]))
    j = []
    com = txt(p, cs + "com/comment")
    line = [x for x in com.split("\n") if "-v" in x]
    if line:
        a, _, b = line[0].rpartition("-v")
        n = 0
        while b[n:n + 1] and b[n] in "0123456789.":
            n += 1
        j.append(("CodecCompliance", [("codec", a), ("codecVersion", b[:n])]))
    w, h = txt(p, cs + "siz/xTsiz"), txt(p, cs + "siz/yTsiz")
    eo = [("tiles", w + "x" + h)] if v == 1 else [("Tiles", [("tileWidth", w), ("tileHeight", h)])]
    for t, s in (("qualityLayers", "layers"), ("resolutionLevels", "levels")):
        n = txt(p, cs + "cod/" + s)
        if n != "0":
            eo.append((t, n))
    j.append(("EncodingOptions", eo))
    out.append(("BasicImageInformation", [("BasicImageCharacteristics", ch), ("SpecialFormatCharacteristics", [("JPEG2000", j)])]))
    rdf = None
    for b in ("xmlBox", "uuidBox"):
        x = first(p, [b, "{adobe:ns:meta/}xmpmeta", RDF + "RDF"]) if rdf is None else None
        if x is not None and len(x):
            rdf = x
    if rdf is not None:
        def get(ns, t):
            n = "{%s}%s" % (ns, t)
            ds = [d for d in rdf if d.tag == RDF + "Description"]
            for d in ds:
                for c in d:
                    if c.tag == n:
                        return c.text or None
            for d in ds:
                if d.get(n):
                    return d.get(n)
            return None

        def have(ts):
            return [(t, get(*k).strip()) for t, k in ts if get(*k) is not None]
        sc = have([("scannerManufacturer", (TIFF, "Make"))])
        sm = have([("scannerModelName", (TIFF, "Model")), ("scannerModelSerialNo", (AUX, "SerialNumber"))])
        if sm:
            sc.append(("ScannerModel", sm))
        tool = get(XAP, "CreatorTool")
        if tool is not None and "\n" in tool:
            raise c21.model.Outside
        if tool is not None:
            a, sep, b = tool.rpartition(" ")
            if sep and all(x in "0123456789." for x in b):
                sc.append(("ScanningSystemSoftware", [("scanningSoftwareName", a), ("scanningSoftwareVersionNo", b)]))
            else:
                sc.append(("ScanningSystemSoftware", [("scanningSoftwareName", tool)]))
        out.append(("ImageCaptureMetadata", [("GeneralCaptureInformation", have([("dateTimeCreated", (XAP, "CreateDate")), ("imageProducer", (TIFF, "Artist"))]))]
                    + ([("ScannerCapture", sc)] if sc else [])))
    a = []
    for box, x in (("capture", "c"), ("display", "d")):
        b = "jp2HeaderBox/resolutionBox/%sResolutionBox" % box
        if first(p, b) is not None:
            sm = [("samplingFrequencyUnit", "3" if v == 1 else "cm")]
            for t, s in (("x", "h"), ("y", "v")):
                n = Fraction(num("%s/%sRes%sInPixelsPerMeter" % (b, s, x))) * 100
                # pixels per metre in units of 1/10000 per cm
                sm.append((t + "SamplingFrequency", [("numerator", Num(n, Fraction(1, 2) + abs(n) * Fraction(1, 10 ** 12))), ("denominator", "10000")]))
            a.append(("SpatialMetrics", sm))
            break
    depths = [x.text for x in first(p, cs + "siz") if x.tag == "ssizDepth"]
    if v == 1:
        bps = ("bitsPerSample", [("bitsPerSampleValue", ",".join(depths)), ("bitsPerSampleUnit", "integer")])
    else:
        bps = ("BitsPerSample", [("bitsPerSampleValue", d) for d in depths] + [("bitsPerSampleUnit", "integer")])
    a.append(("ImageColorEncoding", [bps, ("samplesPerPixel", txt(p, cs + "siz/csiz"))]))
    out.append(("ImageAssessmentMetadata", a))
    return ("mix", out)


def compare(want, got, ns, path=""):
    tag, v = want
    path += "/" + tag
    if got.tag != "{%s}%s" % (ns, tag):
        return "%s: %s stands where it should be" % (path, got.tag)
    if isinstance(v, list):
        if (got.text or "").strip():
            return "%s has text %r" % (path, got.text)
        names = [lib._local(g.tag) for g in got]
        if names != [x[0] for x in v]:
            return "%s contains %s, should contain %s" % (path, names, [x[0] for x in v])
        for w, g in zip(v, got):
            r = compare(w, g, ns, path)
            if r:
                return r
        return None
    t = got.text or ""
    if isinstance(v, Num):
        try:
            ok = abs(int(t) - v.v) <= v.tol
        except ValueError:
            ok = False
        return None if ok else "%s is %r, should be %s" % (path, t, float(v.v))
    v = v.replace("\r\n", "\n").replace("\r", "\n")
    if len(got) or (t != v and (t.strip() or v.strip())):
        return "%s is %r, should be %r" % (path, t[:60], v[:60])
    return None


def run(sc, ctx):
    opts = sc["opts"]
    files = []
    for n, c in sc["files"]:
        e = c21.expected(c, opts)
        if e is not None:
            files.append([n, c21.image(c)[1], e, c])
    if not files:
        return
    d = lib.batch(sc, ctx, [f[:2] for f in files], lib.argv_of(opts) + [f[0] for f in files])
    rep = lib.want_report(d)
    got = {r.name: (r, el) for r, el in zip(rep.files, rep.elems)}
    hit = {f["path"] for f in sc.get("faults", ())}
    v = opts["mix"]
    ns, loc = V[v]
    for n, data, e, c in files:
        if n not in got:
            raise lib.Violation("missing", "%s is not reported" % n)
        r, el = got[n]
        part = {lib._local(x.tag): x for x in el}
        if "propertiesExtension" not in part:
            raise lib.Violation("missing", "%s has no extension" % n)
        ext = list(part["propertiesExtension"])
        if r.success != "True" and n in hit:
            if ext:
                raise lib.Violation("invalid", "%s was not analysed but has a MIX block" % n)
            continue
        if r.success != "True":
            raise lib.Violation("failed", "%s: %s" % (n, r.brief()))
        if not all(ok for _, ok in e.all()):
            if ext:
                raise lib.Violation("invalid", "%s is not valid but has a MIX block" % n)
            ctx.count("invalid")
            continue
        if len(ext) != 1:
            raise lib.Violation("missing", "%s has %d MIX blocks" % (n, len(ext)))

        def num(path):
            x = part["properties"]
            for t in path.split("/"):
                x = [k for k in x if lib._local(k.tag) == t][0]
            return x.text
        m = ext[0]
        try:
            want = model(e.e, num, v)
        except c21.model.Outside:
            continue
        err = compare(want, m, ns)
        if not err and m.get("{http://www.w3.org/2001/XMLSchema-instance}schemaLocation") != ns + " " + loc:
            err = "/mix: schemaLocation is %r" % m.get("{http://www.w3.org/2001/XMLSchema-instance}schemaLocation")
        if err:
            raise lib.Violation("value:" + err.split(" ")[0], "%s (%s, MIX %d): %s" % (n, opts["fmt"], v, err))
        way = (sc["nommap"], sc.get("platform"), "shortseed" in sc)

        def walk(w, p):
            p += "/" + w[0]
            ctx.keys.append("%s|%d|%s|%s" % (opts["fmt"], v, way, p))
            ctx.count("MIX elements compared")
            if isinstance(w[1], list):
                for x in w[1]:
                    walk(x, p)
        walk(want, "")
        for op in list(c.get("dmg", ())) + list(c.get("shape", ())):
            ctx.keys.append("%s|%d|%s|%s" % (opts["fmt"], v, op[0], op[-1] if isinstance(op[-1], str) and "." in op[-1] else ""))
            ctx.count("stored:" + op[0])
            ctx.nontrivial = True
