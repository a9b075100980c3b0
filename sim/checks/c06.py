"""C06: selection of files from trees that change while they are read."""
import fnmatch
import os

from .. import lib, proc, world as W

ID = "C06"
LEVEL = "exploration"
QUICK = 40000
THOROUGH = 400000
RULE = "distinct (argument forms, recursion, tree features, event kinds that fired, number of files class) tuples"
ASSUMPTIONS = ["files that are created, deleted or made unlistable during the run may or may not be reported",
               "hidden files need not match a wildcard; a wildcard whose matches in recursive mode are directories is not specified and not generated",
               "stat errors during selection are not simulated (C01 covers errors after selection)"]
KEEP = ()
STEMS = ["a", "b", "img", "x y", "caf\u00e9", "\u4e2d", "q[1]", "w{2}", "e&<>\"'", "n.tar", "UP", "\U0001f600", "#h", "~t", "a'b", "per%cent", "semi;colon", ".hid",
         "A", "IMG", "st*r", "qu?", "nl\nx", "tab\tx", "back\\slash", " lead", "trail ", "a", "b", "img", "..x", "-dash", "$V", "e\u0301", "\u00e9",
         "0", "1", "~", "_", "__MACOSX", "._a", "Thumbs", "a.b.c", "core", "con", "nul", "+", "@", "=", ",", "(1)", "a-b_c", "x" * 60, "y" * 200, "copy of a", "12", "007", "!", "^", "%20", "&amp;", "\u00df", "\u0130"]
EXTS = [".jp2", ".jp2", ".jp2", ".JP2", ".j2c", ".tif", "", ".jpx"]
EXTS2 = ["~", ".jp2~", ".bak", ".jp2.bak", ".tmp", ".part", ".jp2.part", ".", "..", ".jp2.", ".Jp2", ".jP2", ".jph", ".jhc", ".j2k", ".jpf", ".jpc", ".JPX", ".xml", ".txt", ".md5", ".jp2.md5", " ", ".jp2 ", ".swp",
         "#", "#.jp2", ".db", ".DS_Store", ".ini", ".lnk", ".py", ".pyc", ".zip", ".jp2.gz", ".0", ".1", ".jp2.xml", ".log", ".lock", "_", "-", ".jp", ".2", ".old", ".orig", ".new", ".html"]
TWINS = ["d*r", "dr", "dxr", "d?", "d1", "s[1]", "s1", "s", "[b]", "b", "[!a]", "c", "z[!a]", "zb", "d[0-9]", "**", "*"]
DIRS = ["d", "e1", "s[1]", "s1", "with space", "d\u00e9", "deep", "x.jp2", ".hid", "z[!a]", "jp2", "[b]",
        "D", "d*r", "img", "back\\sl", "nl\nd", " ld", "-opt", "..d", "e2",
        "tmp", ".git", "__MACOSX", "lost+found", "CVS", "backup~", "d.tmp", "@eaDir", "$RECYCLE.BIN", "thumbs", "0", "~", "_", "d.", "x" * 80, "old", "test", "%", "#"]


def gen(rng, i, tier):
    dirs = [""]
    twin = rng.random() < 0.15           # names that are patterns for one another
    for _ in range(rng.randrange(0, 8) if not twin else rng.randrange(3, 8)):
        p = rng.choice(dirs) if not twin or rng.random() < 0.2 else dirs[min(1, len(dirs) - 1)] if rng.random() < 0.3 else ""
        n = rng.choice(DIRS if not twin else TWINS)
        q = (p + "/" + n) if p else n
        if q not in dirs:
            dirs.append(q)
    if rng.random() < 0.06:
        q = "n"
        for k in range(rng.choice([20, 60, 150])):
            dirs.append(q)
            q += "/n"
    files = []
    many = rng.random() < 0.05
    nf = rng.choice([1, 2, 3, 5, 8, 12]) if not many else rng.choice([60, 150, 150, 150, 300, 1100])
    heap = None
    if many and rng.random() < 0.3:      # all in one directory
        heap = rng.choice(dirs)
        nf = rng.choice([150, 300, 600, 1100, 2500])
    for k in range(nf):
        d = heap if heap is not None else rng.choice(dirs) if rng.random() < 0.9 else dirs[-1]
        n = (rng.choice(STEMS) if not many else "m%d" % k) + (str(k) if rng.random() < 0.4 else "") + rng.choice(EXTS if rng.random() < 0.7 else EXTS2)
        p = (d + "/" + n) if d else n
        if n and p not in files and p not in dirs and n not in (".", ".."):
            files.append(p)
    sc = {"dirs": dirs[1:], "files": files, "listseed": rng.randrange(1 << 20), "recurse": rng.random() < 0.6, "twins": rng.choice([1, 1, 3])}
    odd = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        d = rng.choice(dirs)
        k = rng.choice(["fifo", "socket", "dangling", "linkfile", "linkdir", "emptydir", "nul", "hard", "hard"])
        n = rng.choice(["o1", "o2", "o3"]) + rng.choice([".jp2", ".jp2", ""])
        p = (d + "/" + n) if d else n
        if p in files or p in dirs or any(x[1] == p for x in odd):
            continue
        if k in ("linkfile", "hard"):
            if not files:
                continue
            odd.append([k, p, rng.choice(files)])
        elif k == "linkdir":
            odd.append([k, p, rng.choice(dirs)])
        else:
            odd.append([k, p])
    sc["odd"] = odd
    args = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        named = [f for f in files if "*" not in f]
        if r < 0.35 and named:
            args.append(["name", rng.choice(named), rng.choice(["rel", "dot", "abs", "dd"])])
        elif r < 0.6:
            args.append(["dir", rng.choice([d for d in dirs if "*" not in d]), rng.choice(["rel", "dot", "abs", "slash"])])
        elif r < 0.9:
            plain = [d for d in dirs if not set(d) & set("[]*?!")]
            args.append(["wild", rng.choice(plain), rng.choice(["*.jp2", "*", "*.j*", "a*", "*g*", "*1*.jp2", "*.JP2", "nomatch*", "[ab]*", "*[0-9].jp2", "*.???", "?*1*",
                                                                "A*", "* *", "*.jp2*"]), rng.choice(["rel", "abs"])])
            if rng.random() < 0.3:
                args[-1][1] = ((args[-1][1] + "/") if args[-1][1] else "") + rng.choice(["*", "d*", "?*", "*1", "e*"])
                args[-1][0] = "wild2"
        elif r < 0.95:
            args.append(["missing", rng.choice(["gone.jp2", "d/gone.jp2", "no/where"])])
        elif [x for x in odd if "*" not in x[1]]:
            args.append(["name", rng.choice([x for x in odd if "*" not in x[1]])[1], "rel"])
    if heap is not None and rng.random() < 0.8:
        plain = not set(heap) & set("[]*?!")
        args = args[:1] + [["wild", heap, rng.choice(["*", "m*", "*.j*"]), rng.choice(["rel", "abs"])] if plain and rng.random() < 0.6 else ["dir", heap, "abs"]]
        if "*" in heap:
            args.pop()
    if args and rng.random() < 0.15:
        args.append(list(rng.choice(args)))
    sc["args"] = args
    ev = []
    flt = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2, 3])):
            at = rng.randrange(1, 60 + 12 * len(files) + 6 * len(dirs)) if rng.random() < 0.7 else rng.randrange(1, 25)
            k = rng.choice(["unlink", "create", "create", "rmtree", "mkdir"])
            if k == "unlink" and files:
                ev.append({"at": at, "do": k, "name": rng.choice(files)})
            elif k == "create":
                d = rng.choice(dirs)
                ev.append({"at": at, "do": k, "name": ((d + "/") if d else "") + "new%d.jp2" % len(ev)})
            elif k == "mkdir":
                d = rng.choice(dirs)
                ev.append({"at": at, "do": k, "name": ((d + "/") if d else "") + "newdir%d" % len(ev)})
            elif k == "rmtree" and len(dirs) > 1:
                ev.append({"at": at, "do": k, "name": rng.choice(dirs[1:])})
        if rng.random() < 0.3 and len(dirs) > 1:
            flt.append({"op": "list", "path": rng.choice(dirs[1:]), "n": 1, "err": rng.choice(["EACCES", "EIO", "ENOENT", "ESTALE"]), "times": rng.choice([1, -1])})
    sc["events"], sc["faults"] = ev, flt
    return lib.entry(rng, sc)


def under(p, d):
    return d == "" or p.startswith(d + "/")


def dirname(p):
    return p.rpartition("/")[0]


def match(name, pat):
    if name.startswith(".") and not pat.startswith("."):
        return False
    return fnmatch.fnmatchcase(name, pat)


def model(sc, linkfiles):
    """Per argument: (list of required paths, set of optional paths); None when not specified."""
    files = list(sc["files"]) + linkfiles
    dirs = [""] + list(sc["dirs"])
    linkdirs = {o[1] for o in sc["odd"] if o[0] == "linkdir"}
    emptydirs = {o[1] for o in sc["odd"] if o[0] == "emptydir"}
    out = []
    for a in sc["args"]:
        req, opt = [], set()
        if a[0] == "name":
            if a[1] in files:
                req = [a[1]]
            elif sc["recurse"] and (a[1] in linkdirs or a[1] in emptydirs):
                return None          # a link to a directory as an argument: not specified here
        elif a[0] == "dir":
            if sc["recurse"]:
                req = [f for f in files if under(f, a[1])]
        elif a[0] in ("wild", "wild2"):
            d, pat = a[1], a[2]
            ds = {d}
            if a[0] == "wild2":
                if linkdirs:
                    return None
                ds = {x for x in dirs[1:] + sorted(emptydirs) if dirname(x) == dirname(d) and match(os.path.basename(x), os.path.basename(d))}
            here = [f for f in files if dirname(f) in ds]
            dirmatch = [x for x in dirs[1:] + sorted(linkdirs | emptydirs) if dirname(x) in ds and match(os.path.basename(x), pat)]
            if sc["recurse"] and dirmatch and len(dirmatch) + sum(match(os.path.basename(f), pat) for f in here) <= 2:
                return None
            if sc["recurse"] and linkdirs:
                return None
            pool = [f for f in files if any(under(f, x) for x in ds)] if sc["recurse"] else here
            req = [f for f in pool if match(os.path.basename(f), pat)]
            # below hidden directories and hidden files: walked, and matched only when the pattern says so
            opt |= {f for f in pool if os.path.basename(f).startswith(".") and fnmatch.fnmatchcase(os.path.basename(f), pat)}
        out.append((req, opt))
    return out


def run(sc, ctx):
    if not sc["args"]:
        return
    w = W.World({k: v for k, v in sc.items() if k in ("listseed", "events", "faults")})
    try:
        linkfiles = []
        sizes = {}
        for d in sc["dirs"]:
            os.makedirs(w.path(d), exist_ok=True)
        for k, f in enumerate(sc["files"]):
            sizes[f] = k // sc.get("twins", 1)
            w.put(f, b"q" * sizes[f])
        for o in sc["odd"]:
            p = w.path(o[1])
            if os.path.lexists(p) or not os.path.isdir(os.path.dirname(p)):
                continue
            if o[0] == "fifo":
                os.mkfifo(p)
            elif o[0] == "socket":
                import stat
                os.mknod(p, stat.S_IFSOCK | 0o600)
            elif o[0] == "dangling":
                os.symlink("nowhere", p)
            elif o[0] == "linkfile" and os.path.exists(w.path(o[2])):
                os.symlink(w.path(o[2]), p)
                linkfiles.append(o[1])
                sizes[o[1]] = sizes[o[2]]
            elif o[0] == "hard" and os.path.exists(w.path(o[2])):
                os.link(w.path(o[2]), p)
                linkfiles.append(o[1])
                sizes[o[1]] = sizes[o[2]]
            elif o[0] == "linkdir":
                os.symlink(w.path(o[2]) if o[2] else w.root, p)
            elif o[0] == "emptydir":
                os.mkdir(p)
        m = model(sc, linkfiles)
        if m is None:
            ctx.count("unspecified")
            return
        # what may come or go
        loose = set()
        created = set()
        for e in sc["events"]:
            if e["do"] == "unlink":
                loose.add(e["name"])
                loose.update(o[1] for o in sc["odd"] if o[0] == "linkfile" and o[2] == e["name"])
            elif e["do"] == "create":
                created.add(e["name"])
                w.versions[e["name"]] = [b"new"]
            elif e["do"] == "rmtree":
                gone = [f for f in sc["files"] + linkfiles if under(f, e["name"])]
                loose.update(gone)
                loose.update(o[1] for o in sc["odd"] if o[0] == "linkfile" and o[2] in gone)
        for f in sc["faults"]:
            loose.update(x for x in sc["files"] + linkfiles if under(x, f["path"]))
            created = created
        plain = [a for a in sc["args"]]
        args = ["--nopretty"] + (["--recurse"] if sc["recurse"] else [])
        for a in plain:
            if a[0] == "missing":
                args.append(a[1])
                continue
            rel = a[1] if a[0] not in ("wild", "wild2") else ((a[1] + "/") if a[1] else "") + a[2]
            form = a[-1]
            if form == "abs":
                rel = w.path(rel) if rel else w.root
            elif form == "dot" or rel.startswith("-") or rel == "":
                rel = "./" + rel
            elif form == "dd":
                rel = "../" + os.path.basename(w.root) + "/" + rel
            elif form == "slash":
                rel = rel + "/" if rel else "."
            args.append(rel)
        with w:
            p = proc.Proc(w)
            proc.use_steps(proc.LIMIT)
            try:
                o = p.cli(args)
            finally:
                proc.use_nothing()
        firedev = sorted({f for f in w.firedlog if f != "dirorder"})
        what = "arguments %s, tree %s + %s, events %s" % (args[1:], sc["files"][:12], sc["odd"], firedev)
        what = lib.norm(what, w)
        if o.hang:
            raise lib.Violation("hang", "%s: %s" % (what, o.hang))
        if o.exc:
            raise lib.Violation("aborted", "%s: %s\n%s" % (what, o.exc, o.tb))
        if any(r for r, _ in m):
            pass
        need = sum(len([x for x in r if x not in loose]) for r, _ in m)
        if o.exit == 249 and not o.out:
            got = []
        else:
            if o.exit != 0:
                raise lib.Violation("exit", "%s: status %s" % (what, o.exit))
            rep = lib.parse_report(o.out)
            if not rep.ok:
                raise lib.Violation("report", "%s: %s" % (what, rep.error))
            if not rep.files:
                raise lib.Violation("empty", "%s: nothing was selected, but a report was written with status 0" % what)
            got = []
            for r in rep.files:
                q = os.path.normpath(r.path or "")
                got.append(w.rel(q) if w.rel(q) is not None else "OUTSIDE:" + q)
                if got[-1] in sizes and got[-1] not in loose and r.size != str(sizes[got[-1]]):
                    raise lib.Violation("mixed", "%s: report of %s states size %s, not %s" % (what, got[-1], r.size, sizes[got[-1]]))
        spec = []
        for r, opt in m:
            spec.append(([x for x in r if x not in loose], {x for x in r if x in loose} | opt | created))
        if not fits(got, spec):
            flat = [x for r, _ in spec for x in r]
            miss = [x for x in set(flat) if got.count(x) < flat.count(x)]
            extra = [x for x in set(got) if got.count(x) > flat.count(x)]
            raise lib.Violation("selection", "%s: reported %s; missing %s, too many %s" % (what, got[:30], sorted(miss)[:10], sorted(extra)[:10]))
        feats = sorted({x[0] for x in sc["odd"]})
        ctx.keys.append("%s|%s|%s|%s|%s" % ([(a[0], a[-1], a[2] if a[0] in ("wild", "wild2") else "") for a in sc["args"]], sc["recurse"], feats, firedev, min(9, len(got))))
        ctx.count("selected", len(got))
        ctx.count("empty" if not got else "nonempty")
        for x in sc["odd"]:
            ctx.count("odd:" + x[0])
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()


def fits(got, spec):
    """Can got be split into one consecutive part per argument, each with every required path once and optional ones at most once?"""
    ends = {0}
    for req, opt in spec:
        nxt = set()
        rs = {}
        for x in req:
            rs[x] = rs.get(x, 0) + 1
        for s in ends:
            seen = {}
            missing = sum(rs.values())
            if missing == 0:
                nxt.add(s)
            for e in range(s, len(got)):
                x = got[e]
                seen[x] = seen.get(x, 0) + 1
                if seen[x] <= rs.get(x, 0):
                    missing -= 1
                elif x in opt and seen[x] <= rs.get(x, 0) + 1:
                    pass
                else:
                    break
                if missing == 0:
                    nxt.add(e + 1)
        ends = nxt
    return len(got) in ends
