"""C24: whatever happens to images and storage, the report conforms to the published output schema of the tree."""
import os
import re

from lxml import etree

from .. import damage, jp2gen, lib, proc, shape, world as W
from . import c01, c21

ID = "C24"
LEVEL = "exploration"
QUICK = 11000
THOROUGH = 80000
RULE = "distinct (element of the schema, path of its parents, kind of the text in it, success of the file) tuples met in validated reports"
ASSUMPTIONS = ["the schema is the one the report itself names in xsi:schemaLocation, taken from the folder xsd of the tree under test",
               "schema validation is libxml2's; embedded XML, which the schema skips, is parsed leniently about namespace names that are not URIs"]
KEEP = ("spec",)
NAMES = ["a.jp2", "b c.jp2", "d/e.j2c", "\u00e9\u4e2d.jp2", "x&<y>.jph", "q\"'.jp2"]


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.3)
    files = []
    for n in rng.sample(NAMES, rng.choice([1, 1, 2, 3, 4])):
        spec = jp2gen.gen_spec(rng, opts["fmt"] if rng.random() < 0.8 else None, rng.choice([None, None, 0.9]))
        if rng.random() < 0.3:
            jp2gen.edge(rng, spec)
        if rng.random() < 0.06:
            jp2gen.lengthen(rng, spec)
        if rng.random() < 0.15:
            jp2gen.weird_xml(rng, spec)
        c = {"spec": spec}
        r = rng.random()
        im = jp2gen.build(spec)
        if r < 0.2:
            pass
        elif r < 0.22:
            for m in spec["main"]:
                if m["k"] in ("prf", "cpf"):
                    m["v"] = [rng.randrange(65536) for _ in range(rng.choice([2, 880, 900, 3000, 32766]))]
        elif r < 0.42:
            c["shape"] = shape.gen(rng, im) if rng.random() < 0.5 else shape.gen(rng, im, 5, ("cut", "cut", "dup", "move", "copy"))
            c["dmg"] = c21.values(rng, shape.edit(im, c["shape"]))
        elif r < 0.55:
            c["dmg"] = c21.values(rng, im)
        elif r < 0.8:
            c["dmg"] = damage.some(rng, im, 4)
        elif r < 0.9:
            c["dmg"] = damage.recipes(rng, im)
        else:
            c = lib.gen_cheap(rng, opts, pdmg=0.0)
        files.append([n, c])
    sc = {"opts": opts, "files": files, "nommap": rng.random() < 0.3, "platform": rng.choice(["linux", "linux", "win32"]), "faults": []}
    if rng.random() < 0.2:
        sc["shortseed"] = rng.randrange(1000)
    while rng.random() < 0.25:
        f = rng.choice(files)[0]
        op = rng.choice(["stat", "open", "read"] if sc["nommap"] else ["stat", "open", "mmap", "slice"])
        sc["faults"].append({"op": op, "path": f, "n": rng.choice([1, 2, 4]), "err": rng.choice(c01.ERRS[op]), "times": rng.choice([1, -1])})
    return sc


def bytes_of(c):
    if c.get("shape"):
        return c21.image(c)[1]
    return lib.content(c)


_schema = {}


def schema(name):
    if name not in _schema:
        p = os.path.join(proc.REPO, "xsd", name)
        if not os.path.isfile(p):
            raise lib.Violation("noschema", "the report names the schema %s, which the tree does not hold" % name)
        _schema[name] = etree.XMLSchema(etree.parse(p))
    return _schema[name]


XSI = "{http://www.w3.org/2001/XMLSchema-instance}schemaLocation"


def kind(t):
    t = (t or "").strip()
    if not t:
        return "-"
    if re.fullmatch(r"-?\d+", t):
        return "-9999" if t == "-9999" else "int" if len(t) < 20 else "big"
    if re.fullmatch(r"[-+]?[\d.]+", t):
        return "dec"
    if re.fullmatch(r"[-+]?[\d.]+e[-+]?\d+", t):
        return "exp"
    return "text"


def run(sc, ctx):
    files = []
    for n, c in sc["files"]:
        d = bytes_of(c)
        o = {k: v for k, v in sc["opts"].items() if k != "nopretty"}
        if c.get("dmg") and lib.baseline(d, o, limit=200000) == "hang":
            ctx.count("left out: expensive")
            continue
        files.append([n, d])
    if not files:
        return
    args = lib.argv_of(sc["opts"]) + [n for n, _ in files]
    d = lib.batch(sc, ctx, files, args)
    if d.o.exit and not d.o.out:
        # the look at the paths already failed: nothing was selected
        ctx.count("no report")
        return
    rep = lib.want_report(d)
    # the scratch directory's name is part of the file paths only
    doc = etree.fromstring(d.o.out, etree.XMLParser(recover=True, huge_tree=True, resolve_entities=False))
    loc = (doc.get(XSI) or "").split()
    if len(loc) != 2 or loc[0] != etree.QName(doc).namespace or not loc[1].endswith(".xsd"):
        raise lib.Violation("location", "the report's schemaLocation is %r" % doc.get(XSI))
    x = schema(loc[1].rsplit("/", 1)[1])
    if not x.validate(doc):
        e = x.error_log[0]
        msg = re.sub(r"\{[^}]*\}", "", e.message)
        at = e.path
        try:
            el = doc.xpath(e.path)[0]
            at = "/".join(etree.QName(a).localname for a in reversed([el] + list(el.iterancestors())))
        except Exception:
            pass
        raise lib.Violation("invalid", "the report of %s with %s (faults %s) does not conform to %s: %s at %s" % (
            [n for n, _ in files], " ".join(args[:-len(files)]), [f["op"] + f["err"] for f in sc["faults"]], loc[1].rsplit("/", 1)[1], msg[:400], at))
    ns = etree.QName(doc).namespace
    seen = set()
    for f, r in zip(doc.iterchildren("{%s}file" % ns), rep.files):
        for p in f.iterchildren("{%s}properties" % ns):
            walk(p, "", ns, seen, r.success)
    for k in seen:
        ctx.keys.append(k)
    ctx.count("files validated", len(files))
    for r in rep.files:
        ctx.count("success " + r.success)
    ctx.nontrivial = True


def walk(e, path, ns, seen, ok):
    if not isinstance(e.tag, str) or not e.tag.startswith("{%s}" % ns):
        return
    q = e.tag.split("}")[1]
    seen.add("%s/%s|%s|%s" % (path, q, kind(e.text), ok))
    if q in ("xmlBox", "uuidBox"):
        return
    for c in e:
        walk(c, path + "/" + q, ns, seen, ok)
