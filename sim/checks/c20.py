"""C20: file information is true for any clock, size and timestamp."""
import datetime
import math
import os
import resource
import time

from .. import jp2gen, lib, proc, world as W
from . import c01, c14

ID = "C20"
LEVEL = "exploration"
QUICK = 10000
THOROUGH = 60000
RULE = "distinct (time zone, timestamp class, sub-second class, size class, form of the path, other files' fate) tuples"
ASSUMPTIONS = ["time zones are given as POSIX rules, so that no time zone database is needed",
               "a modification time is compared within 2 microseconds or the resolution of a double at that time, whichever is larger"]
KEEP = ("spec",)
TZS = ["UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:45", "YYY12", "ZZZ-14", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "AAA-0:00:30"]
LO, HI = -62135596800 + 2 * 86400, 253402300799 - 2 * 86400      # years 1..9999, two days of margin for any zone


PRE = ["f", "f", "f", "a\\b", " x", "~", "$HOME", "%41", "a:b", "-", ".", "..", "a b", "F", "\u00e9", "e\u0301", "a&b<", "x'\"", "[1]", "{0}", "a,b;", "\u202ex"]
POST = [".jp2", ".jp2", ".j2k", "", ".x y", ".\u4e2d", ".JP2", ".jp2 ", " ", ".", ".tar.gz", "\\", ".jp2~", ".jp2.jp2", "\u3000"]


def gen_time(rng):
    k = rng.randrange(9)
    if k == 0:
        s = rng.choice([0, -1, 1, 59, 86399, -86400, 1500000000, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 946684800, 253402214400 - 86400 * 3])
    elif k == 1:
        s = rng.randrange(-2 ** 31, 2 ** 31)
    elif k == 2:
        # around daylight saving changes of 2019 and 2021
        s = rng.choice([1553994000, 1572138000, 1552201200, 1572760800, 1616893200, 1635642000, 1570291200, 1554566400]) + rng.randrange(-7300, 7300)
    elif k == 3:
        s = rng.randrange(LO, HI)
    elif k == 4:
        # cannot be represented as a date
        s = rng.choice([2 ** 34 * 16, 2 ** 40, 10 ** 12, 2 ** 62 // 10 ** 9 * 100, -2 ** 40, 253402300800 + 86400 * 400, -62135596800 - 86400 * 400, 2 ** 55])
    else:
        s = rng.randrange(0, 2 ** 31)
    ns = rng.choice([0, 0, 1, 999, 1000, 999999999, 500000000, 123456789, 999999000, 999999500, 1000000, rng.randrange(10 ** 9)])
    return [s, ns]


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.15)
    files, mt = [], {}
    for k in range(rng.choice([1, 2, 3, 4])):
        c = lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.8 else None, pdmg=0.3, rich=rng.choice([None, 0.05]))
        if rng.random() < 0.12:
            c = {"hex": rng.choice(["", "00", "ff4f"])}
        elif "spec" in c and rng.random() < 0.15:
            c["pad"] = [rng.choice([4096, 65536, 300000, 1000000]), rng.choice([0, 1, -1])]
        n = rng.choice(["", "", "d/", "d/e f/", "\u00e9/", "D/", "d.jp2/", " d/"])
        if rng.random() < 0.25:
            n += rng.choice(["same.jp2", "a.jp2"])             # same name in several directories
        else:
            n += rng.choice(PRE) + str(k) + rng.choice(POST)
        if n in [f[0] for f in files]:
            continue
        files.append([n, c])
        if rng.random() < 0.85:
            mt[n] = gen_time(rng)
    sc = {"opts": opts, "files": files, "mtimes": mt, "tz": rng.choice(TZS), "nommap": rng.random() < 0.2,
          "form": [rng.choice(["rel", "dot", "abs", "up", "slashes", "absup"]) for _ in files], "mode": rng.choice(["names", "names", "tree"]), "faults": [],
          "skew": rng.choice([0, 0, -10 ** 9, 10 ** 10, 3e9])}
    if rng.random() < 0.25:
        # the last path leads to the first file, or to its directory, by a symbolic link
        sc["link"] = rng.choice(["file", "dir", "abs"])
    if rng.random() < 0.3:
        # the file is written again, then analysed again in the same process
        sc["again"] = [rng.randrange(len(files)), rng.choice([1, 7, 300]), gen_time(rng)]
    if rng.random() < 0.02 and not sc["nommap"]:
        # a file with a hole, larger than 32 bits can count; only its first bytes are ever looked at
        fmt = rng.choice(["j2c", "jhc"])
        sc["big"] = [jp2gen.gen_spec(rng, fmt, 0.05), rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 5 * 10 ** 9, 2 ** 36 + 7, 2 ** 40 + 3, 2 ** 41]), gen_time(rng)]
    if rng.random() < 0.2:
        f = rng.choice(files)[0]
        op = rng.choice(["open", "mmap"] if not sc["nommap"] else ["open", "read"])
        sc["faults"].append({"op": op, "path": f, "n": 1, "err": rng.choice(c01.ERRS[op]), "times": -1})
    return sc


def klass(s):
    if s < LO or s > HI:
        return "unrepresentable"
    if s < 0:
        return "before1970"
    return "past2038" if s >= 2 ** 31 else "usual"


def info(r, what, data, mt, want):
    if r.size != str(len(data)):
        raise lib.Violation("size", "%s: file size %r instead of %d" % (what, r.size, len(data)))
    if want:
        try:
            t = datetime.datetime.fromisoformat(r.mtime)
            diff = abs((t - want).total_seconds())
        except (ValueError, TypeError) as ex:
            raise lib.Violation("mtime", "%s: modification time %r" % (what, r.mtime))
        if t.tzinfo is not None or diff > max(2.1e-6, 2 * math.ulp(float(abs(mt[0]) + 1))):
            raise lib.Violation("mtime", "%s: modification time %s instead of %s" % (what, r.mtime, want.isoformat()))


def run(sc, ctx):
    opts = dict(sc["opts"])
    files = [[n, c14.bytes_of(c)] for n, c in sc["files"]]
    if not files:
        return
    form = dict(zip([n for n, _ in files], sc["form"]))
    w = W.World(sc)
    w.clock += sc["skew"]
    paths = []
    for n, _ in files:
        f = form[n]
        paths.append({"rel": n, "dot": "./" + n, "abs": w.root + "/" + n, "up": "updir/../" + n, "slashes": ".//" + n, "absup": w.root + "/updir/.././" + n}[f])
    if sc["mode"] == "tree":
        opts["recurse"] = True
        paths = ["."]
    exp = {}
    try:
        for n, d in files:
            w.put(n, d)
        os.mkdir(w.path("updir"))
        for n, m in sc["mtimes"].items():
            try:
                os.utime(w.path(n), ns=(0, m[0] * 10 ** 9 + m[1]))
            except (OSError, OverflowError, ValueError):
                pass
        if sc.get("link") and sc["mode"] == "names":
            n = files[0][0]
            d, b = os.path.split(n)
            if sc["link"] == "dir" and d:
                os.symlink(d, w.path("lnk"))
                ln = "lnk/" + b
            else:
                os.symlink(n if sc["link"] != "abs" else w.path(n), w.path("lnk.jp2"))
                ln = "lnk.jp2"
            if n not in [f.get("path") for f in sc["faults"]]:
                w.links[ln] = n
                files.append([ln, files[0][1]])
                form[ln] = sc["link"] + "link"
                paths.append(ln)
        second = None
        with w:
            p = proc.Proc(w)
            proc.use_steps(proc.LIMIT)
            o = p.cli(lib.argv_of(opts) + ["--"] + paths)
            ctx.steps += proc.Steps.n
            if sc.get("again") and not (o.hang or o.exc):
                k, more, mt = sc["again"]
                n, d = files[k % len(files)]
                n = w.links.get(n, n)
                d = d + b"x" * more
                w._inop = True
                with open(w.path(n), "wb") as f:
                    f.write(d)
                w._inop = False
                w.faults = []
                w.mtimes[n] = mt
                second = n, d, mt, lib.res(p.one(n, *lib.api_args(opts)), w)
            big = None
            if sc.get("big"):
                spec, size, mt = sc["big"]
                w._inop = True
                w.put("big.j2c", jp2gen.build(spec).data)
                try:
                    os.truncate(w.path("big.j2c"), size)
                except OSError:
                    size = 5 * 10 ** 9           # more than this file system can do
                    os.truncate(w.path("big.j2c"), size)
                w._inop = False
                w.faults = []
                w.mtimes["big.j2c"] = mt
                lim = resource.getrlimit(resource.RLIMIT_AS)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (lim[0] + size + (2 << 30) if lim[0] != resource.RLIM_INFINITY else lim[0], lim[1]))
                    big = lib.res(p.one(w.path("big.j2c"), spec["fmt"]), w)
                finally:
                    resource.setrlimit(resource.RLIMIT_AS, lim)
                if big.size != str(size):
                    raise lib.Violation("size", "a file of %d bytes with a hole: file size %r" % (size, big.size))
                if big.success != "True" and size < 2 ** 34:
                    raise lib.Violation("size", "a file of %d bytes with a hole: %s" % (size, big.brief()))
                ctx.count("big")
            proc.use_nothing()
            # local times by the C library, in the time zone of the run
            for n, _ in files + ([["", 0]] if second else []):
                s, ns = sc["mtimes"].get(w.links.get(n, n), [W.BASE_TIME, 0]) if n else second[2]
                if LO <= s <= HI:
                    t = time.localtime(s)
                    exp[n] = datetime.datetime(*t[:6]) + datetime.timedelta(microseconds=ns / 1000)
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()
    if o.hang or o.exc or o.exit != 0:
        raise lib.Violation("aborted", "modification times %s: the run ended with %s\n%s" % (sc["mtimes"], o.brief(), lib.norm(o.tb, w)))
    rep = lib.parse_report(o.out)
    if not rep.ok:
        raise lib.Violation("report", "no valid report: %s" % rep.error)
    got = {}
    for r in rep.files:
        got.setdefault(r.path, []).append(r)
    hit = {x[2] for x in w.firedon}
    for n, data in files:
        path = w.root + "/" + n
        rs = got.get(path, [])
        if len(rs) != 1:
            raise lib.Violation("path", "%s is reported %d times under its absolute path (reported paths: %s)" % (n, len(rs), [lib.norm(r.path or "", w) for r in rep.files]))
        r = rs[0]
        what = "%s (mtime %s, zone %s)" % (n, sc["mtimes"].get(w.links.get(n, n)), sc["tz"])
        if r.name != n.split("/")[-1]:
            raise lib.Violation("name", "%s: file name %r" % (what, r.name))
        if n in hit:
            ctx.count("hit")
            continue
        mt = sc["mtimes"].get(w.links.get(n, n), [W.BASE_TIME, 0])
        info(r, what, data, mt, exp.get(n))
        s, ns = mt
        alone = lib.baseline(data, opts, n.split("/")[-1], nommap=sc["nommap"])
        if isinstance(alone, str) or (alone.success, alone.valid, alone.tests, alone.props) != (r.success, r.valid, r.tests, r.props):
            raise lib.Violation("verdict", "%s: the result differs from the one with another modification time: %s" % (what, alone if isinstance(alone, str) else lib.diff(r, alone)))
        ctx.keys.append("%s|%s|%s|%d|%s|%s" % (sc["tz"], klass(s), "0" if ns == 0 else ("us" if ns % 1000 == 0 else "ns"), len(data).bit_length(), form[n] if sc["mode"] == "names" else "tree", bool(hit)))
        ctx.count("time:" + klass(s))
    if second:
        n, d, mt, r = second
        what = "%s written again (mtime %s, zone %s) and analysed again in the same process" % (n, mt, sc["tz"])
        if r.path != w.root + "/" + n or r.name != n.split("/")[-1]:
            raise lib.Violation("path", "%s: name %r, path %s" % (what, r.name, lib.norm(r.path or "", w)))
        info(r, what, d, mt, exp.get(""))
        ctx.count("again")
    ctx.nontrivial = True
