"""C10: standard output is one well-formed report, whatever is stored."""
import os

from .. import damage, jp2gen, lib, proc, world as W
from . import c01

ID = "C10"
LEVEL = "fault_enumeration"
QUICK = 12000
THOROUGH = 60000
RULE = "distinct (name class, damaged text field kind, option class, read fault kind, outcome) tuples"
ASSUMPTIONS = ["element nesting in embedded XML of more than 100 levels is not generated (known finding)"]
KEEP = ("spec",)
TEXT = ["com.text", "icc.body", "icc.table", "icc.cmm", "icc.class", "icc.cs", "icc.pcs", "icc.plat", "icc.manu", "icc.model", "icc.creator", "icc.id",
        "url.loc", "unkbox.v", "uuid.v", "jp2i.v", "ftyp.br", "ftyp.cl", "uuid.xmp", "xml.v", "ulst.u", "unk.v", "plt.i", "plm.i", "ppt.v", "ppm.v", "tlm.v",
        "unkbox.type", "zzzz.type", "abcd.type", "free.type", "xml.type", "uuid.type"]
NASTY = [b"\x00", b"\x01\x02", b"\x1b[31m", b"]]>", b"<b>", b"&amp;", b"&", b"<!--", b"-->", b"\xff\xfe", b"\xc3", b"\xed\xa0\x80", b"\xef\xbf\xbe", b"\xef\xbf\xbf",
         b"\xc2\x85", b"\xe2\x80\xa8", b"\xf0\x9f\xbf\xbe", b"\xf4\x8f\xbf\xbf", b"\x0b", b"\x0c", b"\r", b"\n", b"\t", b"\"'", b"\x7f", b"\xef\xb7\x90", b"\xf0\x90\x80\x80",
         b"\xe2\x80\x8b", b"\xef\xbb\xbf", b"</file>", b"<?xml?>", b"%s", b"\\", b"\xc3\xa9", b"\xa4\xa6", b"\x80"]
NAMES = [b"a", b"img", b"-x", b"--mix", b" ", b".", b"b.jp2", b"\xe4\xb8\xad"]


def gen_name(rng):
    for _ in range(50):
        n = rng.choice(NAMES)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            n += rng.choice(NASTY) if rng.random() < 0.85 else bytes([rng.randrange(1, 256)])
        n += rng.choice([b".jp2", b".jp2", b"", b".j\xffp"])
        n = n.replace(b"\0", b"").replace(b"/", b"")
        if n and n not in (b".", b"..") and len(n) < 200:
            return n
    return b"x.jp2"


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.35)
    files = []
    used = set()
    for k in range(rng.randrange(1, 5)):
        n = gen_name(rng) if rng.random() < 0.7 else b"f%d.jp2" % k
        if rng.random() < 0.2:
            n = gen_name(rng) + b"/" + n
        parts = n.split(b"/")
        if n in used or n in {u.split(b"/")[0] for u in used} or parts[0] in used:
            continue
        used.add(n)
        c = lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.9 else None, pdmg=0.2, rich=rng.choice([None, 0.9]))
        if "spec" in c and not c.get("dmg"):
            if rng.random() < 0.4:
                jp2gen.weird_xml(rng, c["spec"])
            if rng.random() < 0.6:
                im = jp2gen.build(c["spec"])
                fs = [f for f in im.fields if f[0] in TEXT and f[2]]
                d = []
                for _ in range(rng.choice([1, 1, 2, 4])):
                    if fs:
                        f = rng.choice([x for x in fs if x[0] == rng.choice(sorted({y[0] for y in fs}))] or fs)
                        b = rng.choice(NASTY)
                        o = rng.randrange(max(1, f[2] - len(b) + 1))
                        d.append(["set", f[1] + o, b[:f[2]].hex()])
                c["dmg"] = d
        files.append([n.hex(), c])
    mode = rng.choice(["names", "names", "tree"])
    sc = {"opts": opts, "files": files, "mode": mode, "nommap": rng.random() < 0.25, "arm": True, "listseed": rng.randrange(1000)}
    sc["faults"] = []
    if rng.random() < 0.25:
        op = rng.choice(["stat", "open", "read"] if sc["nommap"] else ["stat", "open", "mmap", "slice"])
        f = os.fsdecode(bytes.fromhex(rng.choice(files)[0]))
        sc["faults"].append({"op": op, "path": f, "n": rng.choice([1, 2, 4]) if op in ("slice", "read") else 1, "err": rng.choice(c01.ERRS[op]), "times": rng.choice([1, -1])})
    return lib.entry(rng, sc)


def klass(n):
    try:
        s = n.decode("utf-8")
    except UnicodeDecodeError:
        return "notutf8"
    if any(ord(c) < 32 or ord(c) == 127 for c in s):
        return "ctrl"
    if any(c in "<>&\"'" for c in s):
        return "markup"
    return "ascii" if s.isascii() else "unicode"


def run(sc, ctx):
    files = [[os.fsdecode(bytes.fromhex(n)), lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    opts = dict(sc["opts"])
    if sc["mode"] == "tree":
        opts["recurse"] = True
        paths = ["."]
    else:
        paths = ["./" + n if n.startswith("-") else n for n, _ in files]
    d = lib.batch(sc, ctx, files, lib.argv_of(opts) + paths)
    o = d.o
    what = "files %s, options %s" % ([n for n, _ in files], opts)
    if o.hang or o.exc or o.exit != 0:
        raise lib.Violation("aborted", "%s: the run ended with %s\n%s" % (what, o.brief(), o.tb))
    rep = lib.parse_report(o.out)
    if not rep.ok:
        raise lib.Violation("malformed", "%s: %s" % (what, rep.error))
    if len(rep.files) != len(files):
        raise lib.Violation("missing", "%s: %d files in the report" % (what, len(rep.files)))
    if not o.out.startswith(b"<?xml"):
        raise lib.Violation("malformed", "%s: does not begin with the XML declaration: %r" % (what, o.out[:80]))
    for e, r in zip(rep.elems, rep.files):
        err = lib.strict_shape(e)
        if err:
            raise lib.Violation("shape", "%s: file %r: %s" % (what, r.name, err))
        if bool(opts.get("mix") and opts["fmt"] in ("jp2", "jph")) != (r.ext is not None):
            raise lib.Violation("shape", "%s: file %r: propertiesExtension is %s" % (what, r.name, "missing" if r.ext is None else "unexpected"))
        if r.fmt != opts["fmt"]:
            raise lib.Violation("shape", "%s: file %r: format attribute %r" % (what, r.name, r.fmt))
    for (n, c), (nn, _) in zip(sc["files"], files):
        ctx.count("name:" + klass(bytes.fromhex(n)))
        flds = []
        if c.get("dmg") and "spec" in c:
            im = jp2gen.build(c["spec"])
            from . import c07
            flds = sorted({c07.where(im, x) for x in c["dmg"]})
        for x in flds or ["-"]:
            ctx.keys.append("%s|%s|%s|%s" % (klass(bytes.fromhex(n)), x, "".join(sorted(k[0] for k in opts)), [f[0] + f[1] for f in d.w.firedon]))
    ctx.nontrivial = True


def _deep():
    """Known finding: XML nested 1000 deep exhausts the interpreter's stack while the report is written."""
    x = b"<a>" * 1000 + b"</a>" * 1000
    d = bytes.fromhex("0000000c6a5020200d0a870a00000014667479706a703220000000006a703220") + (len(x) + 8).to_bytes(4, "big") + b"xml " + x
    o = lib.batch({}, lib.Ctx(), [["f.jp2", d]], ["f.jp2"]).o
    return bool(o.exc or o.exit)


FINDINGS = {"xml-depth-1000": _deep}
