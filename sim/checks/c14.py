"""C14: the way the bytes are obtained does not change the result."""
from .. import jp2gen, lib, proc, world as W

ID = "C14"
LEVEL = "exploration"
QUICK = 6000
THOROUGH = 30000
RULE = "distinct (content class, size class, access path, short-read pattern or fault, options) tuples compared"
ASSUMPTIONS = ["the Windows way of mapping is the code path taken for platform win32 with the mmap module of this platform",
               "a platform without mapping is one on which the mmap module cannot be imported"]
KEEP = ("spec",)
WAYS = [["posix", {}], ["win32", {"platform": "win32"}], ["darwin", {"platform": "darwin"}], ["nommap", {"nommap": True}],
        ["nommap-short", {"nommap": True, "shortseed": 0}], ["nommap-win32", {"nommap": True, "platform": "win32"}]]


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.2)
    files = []
    for k in range(rng.choice([1, 1, 2, 3])):
        c = lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.9 else None, pdmg=0.4)
        if "spec" in c and not c.get("dmg") and rng.random() < 0.25:
            jp2gen.weird_xml(rng, c["spec"])
        r = rng.random()
        if r < 0.08:
            c = {"hex": rng.choice(["", "", "00", "ff", "0a", "ff4f", "1a", "0000000c6a502020", "0d0a", "ffd9"])}
        elif r < 0.4 and "spec" in c:
            # a box of free space at the end or in the middle: sizes around pages and buffers
            c["pad"] = [rng.choice([1, 8, 4096, 4097, 8192, 16384, 65536, 65537, 131072, 200000, 262144, 524288, 1048576, 4096 * rng.randrange(1, 9)]), rng.choice([0, 0, -1, 1])]
        elif r < 0.5 and "spec" in c and not c.get("dmg") and c["spec"]["tiles"]:
            # packet data larger than any buffer, in front of the end of the codestream
            big = rng.random()
            rng.choice(c["spec"]["tiles"])["data"] = (rng.choice([4095, 8193, 70000, 140000, 300000]) if big < 0.6 else
                                                      rng.choice([600000, 1050000, 1300000, 2200000]) if big < 0.93 else rng.choice([4300000, 9000000, 17000000]))
        elif r < 0.62:
            # other bytes behind the end, and markers doubled
            if rng.random() < 0.5:
                c["tail"] = rng.choice(["0a", "0d", "0d0a", "1a", "00", "0000", "20", "ff", "ffd9", "ff90ff90", "ffffffff", "0c"])
            else:
                c["twin"] = [rng.choice(["ff90", "ffd9", "ff93", "ff4f", "ff51", "ff64", "6a703263", "0d0a"]), round(rng.random(), 4), rng.choice([2, 2, 3])]
        files.append(["f%d%s" % (k, rng.choice([".jp2", ".jp2", ".j2c", ".jhc", ".jph", "", ".JP2"])), c])
    sc = {"opts": opts, "files": files, "short": rng.randrange(10000), "ways": rng.sample([w[0] for w in WAYS[1:]], 3)}
    if rng.random() < 0.25:
        f = rng.choice(files)[0]
        op = rng.choice(["open", "data", "data", "stat", "read"])
        sc["fault"] = {"op": op, "path": f, "err": rng.choice(["EIO", "EACCES", "ENOMEM", "MemoryError", "EPERM", "ESTALE"]), "n": 1}
    return sc


def bytes_of(c):
    d = lib.content(c)
    if c.get("tail"):
        d += bytes.fromhex(c["tail"])
    if c.get("twin"):
        m, u, n = c["twin"]
        m = bytes.fromhex(m)
        at = [k for k in range(len(d)) if d.startswith(m, k)]
        at = at[int(u * len(at))] if at else int(u * len(d))
        d = d[:at] + m * (n - 1) + d[at:]
    if c.get("pad"):
        mult, off = c["pad"]
        n = len(d) + 8
        want = n + (-n % mult) + off
        if want < n:
            want += mult
        k = want - len(d)
        d += k.to_bytes(4, "big") + b"free" + bytes((j * 37 + 11) & 0xff for j in range(k - 8))
    return d


def run(sc, ctx):
    opts = sc["opts"]
    files = [[n, bytes_of(c)] for n, c in sc["files"]]
    if not files:
        return
    args = lib.argv_of(opts) + [n for n, _ in files]
    root = [None]
    ways = dict(WAYS)
    f = sc.get("fault")

    def go(name):
        s = dict(ways[name], arm=bool(f))
        if "shortseed" in s:
            s["shortseed"] = sc["short"]
        if f:
            s["arm"] = False
            g = dict(f, times=-1)
            if f["op"] == "data":
                g["op"] = "read" if s.get("nommap") else "mmap"
            elif f["op"] == "read":
                g["op"] = "slice" if not s.get("nommap") else "read"
                g["err"] = "MemoryError"
            elif f["op"] == "stat":
                # selection does one look at the path, the analysis follows
                g["n"] = 2
                if g["err"] == "MemoryError":
                    g["err"] = "EIO"
            s["faults"] = [g]
        d = lib.batch(s, ctx, files, args, root=root[0])
        root[0] = d.w.root
        if d.o.hang or d.o.exc:
            raise lib.Violation("aborted", "%s: the run ended with %s\n%s" % (name, d.o.brief(), d.o.tb))
        return d
    a = go("posix")
    for name in sc["ways"]:
        b = go(name)
        if bool(a.w.firedon) != bool(b.w.firedon):
            ctx.count("fault fired one way only")
            continue
        if (a.o.out, a.o.exit) != (b.o.out, b.o.exit):
            ra, rb = lib.parse_report(a.out), lib.parse_report(b.out)
            t = ""
            if ra.ok and rb.ok:
                for x, y in zip(ra.files, rb.files):
                    t = t or lib.diff(x, y)
            raise lib.Violation("differs", "read the POSIX way and %s (fault %s), file sizes %s: %s" % (name, f, [len(d) for _, d in files], t or "reports differ"))
        if a.err != b.err:
            ctx.count("stderr differs")
        for (n, data), (_, c) in zip(files, sc["files"]):
            size = len(data)
            ctx.keys.append("%s|%s|%s|%s|%s" % (name, "dmg" if c.get("dmg") else ("hex" if "hex" in c else "ok"),
                                               "page" if size and size % 4096 == 0 else size.bit_length(), sorted(opts)[:3] if not f else f["op"] + f["err"],
                                               opts["fmt"]))
        ctx.count("way:" + name)
    ctx.nontrivial = True
