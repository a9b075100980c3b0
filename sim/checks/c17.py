"""C17: the verdict agrees with the listed test outcomes."""
import json
import os

from .. import damage, inject, jp2gen, lib, proc, world as W
from . import c01

ID = "C17"
LEVEL = "fault_enumeration"
QUICK = 2000
THOROUGH = 60000
RULE = "distinct (format, damaged field or element, value, occurrence class, failed tests) tuples of stored-data faults"
ASSUMPTIONS = ["which test a damaged field must fail was recorded on the original tree from faults in fields whose failure did not depend on the rest of the image"]
KEEP = ("spec",)
_golden = None


def golden():
    global _golden
    if _golden is None:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden17.json")) as f:
            _golden = json.load(f)
    return _golden


def prepare(seed, tier):
    golden()


def failed(e):
    """Paths of the failed tests of a file element."""
    out = []

    def rec(x, p):
        kids = list(x)
        if not kids:
            if str(x.text) == "False":
                out.append(p)
            return
        for c in kids:
            rec(c, p + "/" + lib._local(c.tag))
    for c in e:
        if lib._local(c.tag) == "tests":
            rec(c, "")
    return sorted(out)


def leaves(e):
    out = []

    def rec(x, p):
        kids = list(x)
        if not kids:
            out.append((p, x.text))
        for c in kids:
            rec(c, p + "/" + lib._local(c.tag))
    for c in e:
        if lib._local(c.tag) == "tests":
            for k in c:
                rec(k, lib._local(k.tag))
    return out


STRUCT = (".len", ".type", ".mk", ".xlen")
V3 = [0x000001, 0xffffff, 0x800000]


def gen_spec(rng, fmt):
    spec = jp2gen.gen_spec(rng, fmt, rng.choice([None, 0.3, 0.7, 1.0]))
    if rng.random() < 0.2:
        jp2gen.weird_xml(rng, spec)
    if rng.random() < 0.1:
        jp2gen.repeat(rng, spec)
    return spec


def place(im, off):
    """Innermost element at an offset, and whether it lies in the main header or in a tile part."""
    inner = None
    tp = False
    for e in im.elems:
        if e[1] <= off < e[1] + e[2]:
            tp = tp or e[0] == "tilepart"
            if e[0] not in ("tilepart", "codestream") and (inner is None or e[2] < inner[2]):
                inner = e
    return inner, "tp" if tp else "main"


def fixup(im, off, delta):
    """Make the recorded lengths of everything around an insertion or deletion of whole elements consistent again."""
    ops = []
    for e in im.elems:
        if e[1] < off < e[1] + e[2] or (e[1] < off and off < e[1] + e[2]):
            if e[0].startswith("box:"):
                n = int.from_bytes(im.data[e[1]:e[1] + 4], "big")
                if n == 1:
                    ops.append(["set", e[1] + 8, (int.from_bytes(im.data[e[1] + 8:e[1] + 16], "big") + delta).to_bytes(8, "big").hex()])
                elif n > 1:
                    ops.append(["set", e[1], (n + delta).to_bytes(4, "big").hex()])
            elif e[0] == "tilepart":
                n = int.from_bytes(im.data[e[1] + 6:e[1] + 10], "big")
                if n:
                    ops.append(["set", e[1] + 6, (n + delta).to_bytes(4, "big").hex()])
    return ops


def fault(im, fmt, f, v):
    """(key, operations) of one value in one field."""
    v = v if isinstance(v, bytes) else v.to_bytes(f[2], "big")
    if im.data[f[1]:f[1] + f[2]] == v:
        return None, None
    inner, where = place(im, f[1])
    same = [x for x in im.fields if x[0] == f[0] and inner and inner[1] <= x[1] < inner[1] + inner[2]]
    pos = str(same.index(f)) if 1 < len(same) <= 4 and f in same else "*"
    return "%s|%s.%s=%s@%s" % (fmt, f[0], pos, v.hex(), where), [["set", f[1], v.hex()]]


def lost(im, fmt, k, e):
    """(key, operations) of one element lost (cut) or written twice (dup), everything around it consistent."""
    _, where = place(im, e[1])
    return "%s|%s:%s@%s" % (fmt, k, e[0], where), fixup(im, e[1], e[2] if k == "dup" else -e[2]) + [[k, e[1], e[2]]]


def candidates(im, fmt, key):
    x = key.split("|", 1)[1]
    if x.startswith(("cut:", "dup:")):
        n = x[4:].rsplit("@", 1)[0]
        cand = [lost(im, fmt, x[:3], e) for e in im.elems if e[0] == n]
    else:
        n, v = x.rsplit("@", 1)[0].split("=")
        v = bytes.fromhex(v)
        cand = [fault(im, fmt, f, v) for f in im.fields if f[0] == n.rsplit(".", 1)[0] and f[2] == len(v)][:200]
    return [c for c in cand if c[0] == key]


_bytest = {}


def aimed(rng, fmt):
    """An image and one isolated fault in it, aimed at one test (each test as often as the others): (spec, key, operations) or None."""
    if not _bytest:
        for k, v in golden().items():
            for t in v:
                _bytest.setdefault((k.split("|")[0], t), []).append(k)
        for v in _bytest.values():
            v.sort()
    t = rng.choice(sorted(x for x in _bytest if x[0] == fmt))
    for _ in range(4):
        key = rng.choice(_bytest[t])
        spec = jp2gen.gen_spec(rng, fmt, rng.choice([0.8, 1.0]))
        cand = candidates(jp2gen.build(spec), fmt, key)
        if cand:
            return (spec,) + rng.choice(cand)
    return None


def pick(rng, im, fmt):
    """One isolated fault: (key, operations)."""
    if rng.random() < 0.15:
        # a whole element lost or written twice, everything around it consistent
        n = rng.choice(sorted({x[0] for x in im.elems if x[0] not in ("codestream", "tilepart", "mk:sod", "mk:sot")}))
        e = rng.choice([x for x in im.elems if x[0] == n])
        return lost(im, fmt, rng.choice(["cut", "dup"]), e)
    n = rng.choice(sorted({f[0] for f in im.fields if not f[0].endswith(STRUCT)}))
    f = rng.choice([x for x in im.fields if x[0] == n])
    if f[2] == 3:
        v = rng.choice(V3)
    elif f[2] in damage.EXTREME:
        v = rng.choice(damage.EXTREME[f[2]])
    else:
        return None, None
    return fault(im, fmt, f, v)


def lucky(key, ops, data):
    """A wrong tile part length that leads to another tile part or to the end of the codestream by chance."""
    if "|sot.psot." not in key:
        return False
    o = ops[0][1]
    o += int.from_bytes(data[o:o + 4], "big") - 6
    return data[o:o + 2] in (b"\xff\x90", b"\xff\xd9")


def gen(rng, i, tier):
    fmt = rng.choice(lib.FORMATS)
    a = aimed(rng, fmt) if rng.random() < 0.6 else None
    spec = a[0] if a else gen_spec(rng, fmt)
    crowd = not a and rng.random() < 0.06
    if crowd:
        # very many tile parts
        spec["tiles"] = [dict(t) for t in spec["tiles"]]
        mk = rng.choice(spec["tiles"])["mk"]
        jp2gen.enlarge(rng, spec)
        for t in spec["tiles"]:
            t["mk"] = t["mk"] or (mk if rng.random() < 0.3 else [])
    im = jp2gen.build(spec)
    o = lib.gen_opts(rng, fmt, p=0.2)
    sc = {"spec": spec, "opts": o, "nommap": rng.random() < 0.2, "faults": []}
    g = golden()
    sc["single"] = [[a[1], a[2]]] if a else []
    for _ in range(60 if rng.random() < 0.7 else 15):
        key, ops = pick(rng, im, fmt)
        if key in g and len(sc["single"]) < (12 if not crowd else 4) and not (crowd and (not key.endswith("@tp") or "|sot." in key)):
            sc["single"].append([key, ops])
    # the same fault in several elements of the same kind
    sc["double"] = []
    for _ in range(8):
        if sc["single"] and len(sc["double"]) < 2:
            key, ops = rng.choice(sc["single"])
            name = key.split("|")[1].split("=")[0].rsplit(".", 1)[0]
            if len(ops) == 1 and ops[0][0] == "set":
                fs = [f for f in im.fields if f[0] == name and f[2] * 2 == len(ops[0][2])]
                if len(fs) > 1:
                    d = [["set", f[1], ops[0][2]] for f in rng.sample(fs, rng.randrange(2, len(fs) + 1))]
                    if not crowd or lib.cheap({"spec": spec, "dmg": d}, o):
                        sc["double"].append(d)
    sc["memory"] = inject.picks(rng, 3) if not crowd else []
    sc["any"] = []
    for _ in range(4):
        d = damage.some(rng, im) if rng.random() < 0.8 else damage.recipes(rng, im)
        if lib.cheap({"spec": spec, "dmg": d}, o):
            sc["any"].append(d)
    if rng.random() < 0.3:
        op = rng.choice(["stat", "open", "read"] if sc["nommap"] else ["open", "mmap", "slice"])
        sc["faults"].append({"op": op, "path": None, "n": rng.choice([1, 3, 10, 40]), "err": rng.choice(c01.ERRS[op]), "times": rng.choice([1, 3, -1])})
    return sc


def run(sc, ctx):
    im = jp2gen.build(sc["spec"])
    o = sc["opts"]
    fmt = o["fmt"]
    single = [x for x in sc["single"] if x[1]]
    items = [[None, im.data]] + [[k, damage.apply(im.data, ops)] for k, ops in single] + [["any", damage.apply(im.data, d)] for d in sc["any"] + sc["double"]]
    w = W.World({"nommap": sc["nommap"], "faults": sc["faults"]})
    g = golden()
    try:
        with w:
            p = proc.Proc(w)
            proc.use_steps(proc.LIMIT)
            for n, (key, data) in enumerate(items):
                name = "f%d.jp2" % n
                w._inop = True
                w.put(name, data)
                w._inop = False
                before = len(w.firedlog)
                ctx.steps += proc.Steps.n
                proc.use_steps(proc.LIMIT)
                try:
                    e = p.one(w.path(name), *lib.api_args(o))
                except Exception as ex:
                    raise lib.Violation("raised", "%s: %s" % (key, ex))
                r = lib.res(e, w)
                f = failed(e)
                what = "%s image, %s, options %s" % (fmt, "intact" if key is None else key, o)
                for path, t in leaves(e):
                    if str(t) not in ("True", "False"):
                        raise lib.Violation("outcome", "%s: test %s has the outcome %r" % (what, path, t))
                want = r.success == "True" and not f
                if (r.valid == "True") != want:
                    raise lib.Violation("verdict", "%s: success %s, isValid %s, failed tests %s" % (what, r.success, r.valid, f))
                if r.success == "True" and key in g and len(w.firedlog) == before:
                    names = {x.rsplit("/", 1)[-1] for x in f}
                    miss = [t for t in g[key] if t not in names and not (t == "foundNextTilePartOrEOC" and lucky(key, single[n - 1][1], data))]
                    if miss:
                        raise lib.Violation("notlisted", "%s: the failed test %s is not listed (failed: %s)" % (what, miss, f))
                if r.success == "False" and len(w.firedlog) == before:
                    raise lib.Violation("failed", "%s: the analysis failed although nothing was wrong with the storage: %s" % (what, r.msg))
                if r.success == "True" and len(w.firedlog) == before and (key == "any" or n % 4 == 1):
                    # the list of all tests and the list of the failed ones have to agree
                    o2 = dict(o, verbose=not o.get("verbose"))
                    e2 = p.one(w.path(name), *lib.api_args(o2))
                    f2 = failed(e2)
                    if len(w.firedlog) == before and f2 != f:
                        raise lib.Violation("repeated", "%s: failed tests %s, but %s are listed %s" % (what, f, f2, "without verbose" if o.get("verbose") else "with verbose"))
                ctx.keys.append("%s|%s" % (key if key is not None else fmt, ",".join(f[:3])))
                ctx.count("single" if key in g else "any")
            ctx.steps += proc.Steps.n
            if not sc["faults"] and sc["memory"]:
                # memory runs out at some line, also after the verdict
                rec = inject.Recorder()
                proc.use_lines(rec)
                p.one(w.path("f0.jp2"), *lib.api_args(o))
                for n, (u, v) in enumerate(sc["memory"]):
                    at = rec.pick(u, v, lo=0 if n else max(0, int(len(rec.seq) * 0.97) - 20))
                    inj = inject.Injector([at], MemoryError, w)
                    proc.use_lines(inj)
                    try:
                        e = p.one(w.path("f0.jp2"), *lib.api_args(o))
                    except MemoryError:
                        continue
                    r = lib.res(e, w)
                    f = failed(e)
                    if (r.valid == "True") != (r.success == "True" and not f):
                        raise lib.Violation("verdict", "%s image, no memory at %s: success %s, isValid %s, failed tests %s" % (fmt, inj.fired, r.success, r.valid, f))
                    ctx.count("memory")
            proc.use_nothing()
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()
    ctx.nontrivial = True
