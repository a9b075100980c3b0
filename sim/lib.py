"""Pieces shared by the checks: content, options, results, baselines."""
import hashlib
import os
import random
import re
import xml.etree.ElementTree as ET

from . import damage, jp2gen, proc, world as W

FORMATS = ["jp2", "jph", "j2c", "jhc"]


# ---------------------------------------------------------------- contents
def content(c):
    """c: {"spec":..., "dmg":[...]} or {"hex":...} -> bytes"""
    if "hex" in c:
        return bytes.fromhex(c["hex"])
    return damage.apply(jp2gen.build(c["spec"]).data, c.get("dmg", ()))


def gen_content(rng, fmt=None, pdmg=0.4, rich=None):
    r = rng.random()
    if r < 0.04:
        return {"hex": rng.choice(["", "00", "ff4f", "0000000c6a5020200d0a870a", "fffe", "4142434445464748"])}
    spec = jp2gen.gen_spec(rng, fmt, rich)
    c = {"spec": spec}
    if rng.random() < pdmg:
        im = jp2gen.build(spec)
        c["dmg"] = damage.some(rng, im) if rng.random() < 0.85 else damage.recipes(rng, im)
    return c


def cheap(c, opts, limit=60000):
    """False for contents whose (damaged) counts make one analysis expensive: those are left to C07 and C09."""
    if not c.get("dmg"):
        return True
    return baseline(content(c), opts, limit=limit) != "hang"


def gen_cheap(rng, opts, fmt=None, pdmg=0.4, rich=None):
    for _ in range(20):
        c = gen_content(rng, fmt, pdmg, rich)
        if cheap(c, opts):
            if "spec" in c and not c.get("dmg") and c["spec"]["tiles"] and rng.random() < 0.04:
                # packet data larger than any buffer
                rng.choice(c["spec"]["tiles"])["data"] = rng.choice([70000, 300000, 1050000, 2200000]) if rng.random() < 0.93 else 17000000
            return c
    return gen_content(rng, fmt, 0.0, rich)


def cousin(rng, c):
    """The same image with one field changed on which the meaning of other, unchanged segments depends."""
    if "spec" not in c:
        return c
    im = jp2gen.build(c["spec"])
    name, vals = rng.choice([("siz.c", [1, 3, 257, 300]), ("siz.c", [257]), ("siz.c", [256, 257]), ("siz.rsiz", [0, 0x4000, 0x8000]), ("siz.xt", [1, 7, 100]),
                             ("ihdr.bpc", [255, 7, 11]), ("ihdr.nc", [1, 3, 257]), ("cod.scod", [0, 1, 6]), ("ftyp.br", [0x6a703220, 0x6a706820]),
                             ("colr.meth", [1, 2, 3, 5]), ("icc.count", [1, 2]), ("sot.isot", [0, 1, 2]), ("qcd.sq", [0, 0x21, 0x42])])
    f = [x for x in im.fields if x[0] == name]
    if not f:
        return c
    f = rng.choice(f)
    return dict(c, dmg=list(c.get("dmg", ())) + [["set", f[1], rng.choice(vals).to_bytes(f[2], "big").hex()]])


def fmt_of(c, rng=None):
    return c["spec"]["fmt"] if "spec" in c else "jp2"


# ---------------------------------------------------------------- options
def gen_opts(rng, fmt=None, p=0.25):
    o = {"fmt": fmt or rng.choice(FORMATS)}
    for k in ("verbose", "nopretty", "nullxml", "packetmarkers"):
        if rng.random() < p:
            o[k] = True
    if rng.random() < p:
        o["mix"] = rng.choice([1, 2])
    return o


def argv_of(o):
    a = ["--format", o.get("fmt", "jp2")]
    for k in ("verbose", "nopretty", "nullxml", "packetmarkers"):
        if o.get(k):
            a.append("--" + k)
    if o.get("mix"):
        a += ["--mix", str(o["mix"])]
    if o.get("recurse"):
        a.append("--recurse")
    return a


def api_args(o):
    """Positional arguments of the library call, as documented."""
    mix = o.get("mix", 0)
    if o.get("fmt") in ("j2c", "jhc"):
        mix = 0
    return (o.get("fmt", "jp2"), bool(o.get("verbose")), bool(o.get("packetmarkers")), bool(o.get("nullxml")), mix)


# ---------------------------------------------------------------- results
NS = "{http://openpreservation.org/ns/jpylyzer/v2/}"


class R:
    """Canonical result of one file."""
    __slots__ = ("name", "path", "size", "mtime", "success", "msg", "valid", "fmt", "tests", "props", "ext", "warn", "order")

    def key(self):
        return (self.success, self.msg, self.valid, self.fmt, self.tests, self.props, self.ext, (self.warn or "").replace("/ROOT/", ""))

    def brief(self):
        return "success=%s valid=%s msg=%s tests=%s" % (self.success, self.valid, self.msg, (self.tests or "")[:200])


def _local(t):
    return t.rsplit("}", 1)[-1] if isinstance(t, str) else str(t)


_tags = {}


def _tag(tag):
    t = tag if isinstance(tag, str) else "?"
    if t.startswith(NS):
        t = t[len(NS):]
    t = re.sub(r"^\{(http://www.loc.gov/mix/v[12]0)\}", "mix:", t)
    if t.startswith("{http://www.w3.org/2001/XMLSchema-instance}"):
        t = "xsi:" + t.split("}")[1]
    if len(_tags) < 20000:
        _tags[tag] = t
    return t


def _text(t):
    # XML line end normalisation
    return t.replace("\r\n", "\n").replace("\r", "\n") if "\r" in t else t


def _ser(e):
    """Canonical text of an element: tags without the report's own namespace, whitespace-only text dropped."""
    if e is None:
        return None
    out = []
    add = out.append

    def rec(x):
        tag = _tags.get(x.tag) or _tag(x.tag)
        add("<" + tag)
        if x.attrib:
            for k in sorted(x.attrib):
                if k.startswith("xmlns:"):
                    continue
                kk = k.replace("{http://www.w3.org/2001/XMLSchema-instance}", "xsi:")
                # white space in attributes: normalised by XML processors (minidom writes it unescaped)
                add(" %s=%r" % (kk, re.sub("[\t\r\n]", " ", x.attrib[k].replace("\r\n", "\n"))))
        add(">")
        t = x.text
        if t is not None:
            if type(t) is not str:
                t = "%s:%r" % (type(t).__name__, t)     # not text: an API result that was not made readable
            s = t.strip()
            add(_text(s if len(x) or not s else t))
        for c in x:
            rec(c)
            t = c.tail
            if t and t.strip():
                add(_text(t.strip()))
        add("</>")
    rec(e)
    return "".join(out)


def result_of(e, pretty=False):
    """e: a file element (from the API or from a parsed report)."""
    kids = {}
    order = []
    for c in e:
        t = _local(c.tag)
        order.append(t)
        kids.setdefault(t, c)
    r = R()

    def txt(parent, name):
        if parent is None:
            return None
        for c in parent:
            if _local(c.tag) == name:
                return c.text if c.text is not None else ""
        return None
    fi, si = kids.get("fileInfo"), kids.get("statusInfo")
    r.name, r.path, r.size, r.mtime = (txt(fi, x) for x in ("fileName", "filePath", "fileSizeInBytes", "fileLastModified"))
    r.success, r.msg = txt(si, "success"), txt(si, "failureMessage")
    v = kids.get("isValid")
    r.valid = v.text if v is not None else None
    r.fmt = v.get("format") if v is not None else None
    r.tests, r.props, r.ext, r.warn = (_ser(kids.get(x)) for x in ("tests", "properties", "propertiesExtension", "warnings"))
    r.order = order
    return r


def res(e, w):
    """Result of an API element, with the scratch directory made constant."""
    r = result_of(e)
    r.warn = norm(r.warn or "", w)
    return r


class Report:
    ok = False
    error = None
    files = ()
    tool = None


def parse_report(data, opts=None):
    """Parse a whole report; Report.ok False when it is not one well-formed UTF-8 XML document of the right shape."""
    rep = Report()
    try:
        data.decode("utf-8")
    except UnicodeDecodeError as ex:
        rep.error = "not UTF-8: %s" % ex
        return rep
    try:
        root = ET.fromstring(data)
    except ET.ParseError as ex:
        rep.error = "not well-formed XML: %s" % ex
        return rep
    if _local(root.tag) != "jpylyzer":
        rep.error = "root element is " + root.tag
        return rep
    kids = list(root)
    if not kids or _local(kids[0].tag) != "toolInfo":
        rep.error = "first element is not toolInfo"
        return rep
    rep.files = []
    rep.elems = []
    for k in kids[1:]:
        if _local(k.tag) != "file":
            rep.error = "unexpected element " + str(k.tag)
            return rep
        rep.files.append(result_of(k))
        rep.elems.append(k)
    rep.ok = True
    return rep


SHAPE = [["fileInfo", "statusInfo", "isValid", "tests", "properties", "warnings"],
         ["fileInfo", "statusInfo", "isValid", "tests", "properties", "propertiesExtension", "warnings"]]


def shape_error(r):
    if r.order not in SHAPE:
        return "children of file are " + " ".join(r.order)
    if r.success not in ("True", "False") or r.valid not in ("True", "False"):
        return "success=%r isValid=%r" % (r.success, r.valid)
    return None


def strict_shape(e):
    """Error text unless the file element has exactly the documented children, also inside fileInfo and statusInfo."""
    r = result_of(e)
    err = shape_error(r)
    if err:
        return err
    if not all((c.tag if isinstance(c.tag, str) else "").startswith(NS) for c in e):
        return "children of file outside the report's namespace"
    fi = [_local(c.tag) for c in e[0]]
    if fi != ["fileName", "filePath", "fileSizeInBytes", "fileLastModified"]:
        return "fileInfo holds " + " ".join(fi)
    si = [_local(c.tag) for c in e[1]]
    if si != (["success"] if r.success == "True" else ["success", "failureMessage"]):
        return "statusInfo holds " + " ".join(si)
    for x in [e, e[0], e[1]]:
        for t in [x.text] + [c.tail for c in x]:
            if t and t.strip():
                return "stray text %r" % t[:80]
    if r.valid == "True" and r.success != "True":
        return "success=%r isValid=%r" % (r.success, r.valid)
    return None


def norm(text, w):
    """Replace the scratch directory (and its basename) by a constant."""
    if isinstance(text, bytes):
        return text.replace(os.fsencode(w.root), b"/ROOT").replace(os.path.basename(w.root).encode(), b"ROOT")
    return text.replace(w.root, "/ROOT").replace(os.path.basename(w.root), "ROOT")


# ---------------------------------------------------------------- baselines
_base = {}


def baseline(data, opts, name="f.jp2", nommap=None, limit=None):
    """Result of an undisturbed analysis of these bytes, alone in a fresh process (library call)."""
    key = (hashlib.sha256(data).digest(), tuple(sorted(opts.items())), name, nommap)
    if key in _base:
        return _base[key]
    w = W.World({"nommap": nommap})
    try:
        w.put(name, data)
        with w:
            p = proc.Proc(w)
            proc.use_steps(limit or proc.LIMIT)
            try:
                e = p.one(w.path(name), *api_args(opts))
                r = result_of(e)
                r.warn = norm(r.warn, w)
            except W.SimStop as ex:
                r = "hang"
            except Exception as ex:
                r = "raised " + type(ex).__name__
            proc.use_nothing()
    finally:
        w.destroy()
    if len(_base) > 400:
        _base.clear()
    if not (limit and r == "hang"):
        _base[key] = r
    return r


# ---------------------------------------------------------------- batches
class Done:
    """What a finished simulated run left behind."""


def batch(sc, ctx, files, args, hooks=None, versions=None, keep=False, setup=None, root=None):
    """files: [[rel, bytes], ...]; run the command line program once in a world; returns Done."""
    w = W.World(sc, root)
    d = Done()
    d.w = w
    try:
        for rel, data in files:
            w.put(rel, data)
        if setup:
            setup(w)
        if versions:
            w.versions = versions
        with w:
            p = proc.Proc(w)
            if hooks:
                hooks(w)
            else:
                proc.use_steps(proc.LIMIT)
            try:
                d.o = p.cli(args)
            finally:
                ctx.steps += proc.Steps.n
                proc.use_nothing()
        d.out = norm(d.o.out, w)
        d.err = norm(d.o.err, w)
        ctx.world_done(w)
    finally:
        if not keep:
            w.destroy()
    return d


def want_report(d, what="the run"):
    """The parsed report of a run that has to complete, or a violation."""
    o = d.o
    if o.hang:
        raise Violation("hang", "%s does not end (%s)" % (what, o.hang))
    if o.exc:
        raise Violation("aborted", "%s was aborted by %s\n%s" % (what, o.exc, norm(o.tb, d.w)))
    if o.exit != 0:
        raise Violation("exit", "%s ended with status %s" % (what, o.exit))
    rep = parse_report(d.out)
    if not rep.ok:
        raise Violation("report", "%s wrote no valid report: %s" % (what, rep.error))
    for r in rep.files:
        e = shape_error(r)
        if e:
            raise Violation("shape", "%s: report of %s: %s" % (what, r.name, e))
    return rep


def diff(a, b):
    """Where two results differ."""
    out = []
    for f, x, y in zip(("success", "failureMessage", "isValid", "format", "tests", "properties", "extension", "warnings"), a.key(), b.key()):
        if x != y:
            x, y = str(x), str(y)
            i = 0
            while i < min(len(x), len(y)) and x[i] == y[i]:
                i += 1
            i = max(0, i - 30)
            out.append("%s: %s <> %s" % (f, x[i:i + 160], y[i:i + 160]))
    return "; ".join(out)


ENTRIES = [None, None, "module", "cli", "direct"]


def entry(rng, sc):
    """The way the program is started."""
    e = rng.choice(ENTRIES)
    if e:
        sc["entry"] = e
    return sc


class Violation(Exception):
    def __init__(self, kind, text):
        super().__init__(text)
        self.kind, self.text = kind, text


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode("utf-8", "surrogatepass"))
    return h.hexdigest()[:16]


class Ctx:
    """Collects what one simulated run covered."""

    def __init__(self):
        self.stats = {}
        self.keys = []
        self.trace = []
        self.nontrivial = False
        self.steps = 0
        self.simtime = 0.0

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def world_done(self, w):
        for f in w.firedlog:
            self.count("fault:" + f)
        if w.firedlog:
            self.nontrivial = True
        self.count("ops", w.nops)
        self.simtime += w.clock - W.BASE_TIME
        self.trace.append([w.log[-60:], w.firedlog[-60:]])
