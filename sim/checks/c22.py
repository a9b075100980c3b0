"""C22: the failed tests are exactly the documented ones that the stored structure and values violate."""
from collections import Counter

from .. import lib
from . import c21

ID = "C22"
LEVEL = "exploration"
QUICK = 9000
THOROUGH = 80000
RULE = "distinct (format, test, outcome expected) and (format, field or structural edit, kind of change, set of tests that must fail) tuples"
ASSUMPTIONS = c21.ASSUMPTIONS[:1] + ["the conditions are those of the user manual; where it leaves a range open, those of ISO/IEC 15444-1 and 15444-15 as the tool documents to follow them"]
KEEP = ("spec",)


def gen(rng, i, tier):
    fmt = rng.choice(lib.FORMATS + ["jp2"])
    opts = lib.gen_opts(rng, fmt, p=0.3)
    files = [["f%d" % k, c21.gen_content(rng, fmt, opts, 0.55, 0.65)] for k in range(rng.choice([1, 1, 1, 2, 3]))]
    sc = {"opts": opts, "files": files, "nommap": rng.random() < 0.5}
    if sc["nommap"] and rng.random() < 0.7:
        sc["shortseed"] = rng.randrange(10000)
    elif rng.random() < 0.2:
        sc["platform"] = "win32"
    if len(files) > 1 and rng.random() < 0.3:
        sc["faults"] = [{"op": rng.choice(["open", "read", "mmap"]), "path": files[0][0], "err": rng.choice(["EIO", "EACCES", "MemoryError"]), "n": 1, "times": -1}]
    return sc


def outcomes(e):
    """Multiset of (path of test, outcome) in a reported file element."""
    out = Counter()

    def rec(x, p):
        p += "/" + lib._local(x.tag)
        if len(x):
            for c in x:
                rec(c, p)
        else:
            out[p, x.text or ""] += 1
    for c in e:
        if lib._local(c.tag) == "tests":
            for k in c:
                rec(k, "/properties")
    return out


def run(sc, ctx):
    opts = sc["opts"]
    files = []
    for n, c in sc["files"]:
        e = c21.expected(c, opts)
        if e is not None:
            files.append([n, c21.image(c)[1], e, c])
    if not files:
        return
    d = lib.batch(sc, ctx, [f[:2] for f in files], lib.argv_of(opts) + [f[0] for f in files])
    rep = lib.want_report(d)
    got = {r.name: (r, el) for r, el in zip(rep.files, rep.elems)}
    hit = {f["path"] for f in sc.get("faults", ())}
    for n, data, e, c in files:
        if n not in got:
            raise lib.Violation("missing", "%s is not reported" % n)
        r, el = got[n]
        if n in hit and r.success == "False":
            continue
        if r.success != "True":
            raise lib.Violation("failed", "%s: %s" % (n, r.brief()))
        want = Counter((p, str(ok)) for p, ok in e.all())
        bad = sorted({p for p, ok in want if ok == "False"})
        if not opts.get("verbose"):
            want = Counter({k: v for k, v in want.items() if k[1] == "False"})
        have = outcomes(el)
        for k in sorted(set(want) | set(have)):
            if want[k] != have[k]:
                short = k[0][len("/properties"):]
                raise lib.Violation("test:%s:%s" % (short, k[1]), "%s (%s): test %s is reported %s %d times, the stored bytes give %d"
                                    % (n, opts["fmt"], short, k[1], have[k], want[k]))
        if r.valid != str(not bad):
            raise lib.Violation("verdict", "%s: isValid is %s with %d tests that fail" % (n, r.valid, len(bad)))
        fails = ",".join(p.rsplit("/", 1)[1] for p in bad)
        for op in list(c.get("dmg", ())) + list(c.get("shape", ())):
            ctx.keys.append("%s|%s|%s|%s" % (opts["fmt"], op[0], op[-1] if isinstance(op[-1], str) and "." in op[-1] else "", fails))
            ctx.count("stored:" + op[0])
            ctx.nontrivial = True
        for p, ok in e.all():
            ctx.keys.append("%s|%s|%s" % (opts["fmt"], p, ok))
        ctx.count("tests compared", sum(want.values()))
        ctx.count("tests that must fail", len(bad))
