"""C01: read faults in a batch stay with the file they hit."""
from .. import damage, jp2gen, lib

ID = "C01"
LEVEL = "fault_enumeration"
QUICK = 5000
THOROUGH = 60000
RULE = "distinct (selection mode, nommap, fault kind x operation x position of the hit file x outcome) tuples in runs where a fault really fired"
ASSUMPTIONS = ["faults hit files after they were selected; a mapped page that cannot be read is a fatal signal and not simulated",
               "undisturbed reference results come from the same tree"]
ERRS = {"stat": ["ENOENT", "EACCES", "EIO", "ESTALE", "ENOTDIR", "ELOOP", "ETIMEDOUT"],
        "open": ["ENOENT", "EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM", "EPERM", "EISDIR", "ESTALE", "EINTR", "ENOTDIR", "EBUSY", "MemoryError",
                 "ETIMEDOUT", "ENXIO", "EAGAIN"],
        "mmap": ["ENOMEM", "EACCES", "ENODEV", "EPERM", "EAGAIN", "MemoryError", "EINVAL"],
        "read": ["EIO", "ESTALE", "EACCES", "ENOMEM", "MemoryError", "ETIMEDOUT"],
        "slice": ["MemoryError"]}


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.15)
    n = rng.randrange(2, 7)
    files = []
    big = rng.random() < 0.04
    if big:
        # a long run with very many unreadable files
        n = rng.choice([20, 40, 70, 130])
        few = [lib.gen_cheap(rng, opts, opts["fmt"], pdmg=0.3, rich=0.05) for _ in range(2)] + [{"hex": "ff4f"}, {"hex": ""}]
    for k in range(n):
        c = rng.choice(few) if big else lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.8 else None, pdmg=0.3)
        files.append(["%s%d.jp2" % (rng.choice("abc"), k), c])
    sc = {"opts": opts, "files": files, "mode": rng.choice(["names", "names", "tree", "wild"]), "arm": rng.choice([True, "stdout"]),
          "listseed": rng.randrange(1000), "nommap": rng.random() < 0.3}
    if sc["arm"] == "stdout":
        sc["bufsize"] = 1
    faults, events = [], []
    m = rng.choice([1, 1, 1, 2, min(3, n - 1), n])
    if big:
        m = rng.choice([n, n - 1, n // 2])
    for f in rng.sample(files, m):
        op = rng.choice(["stat", "open", "read", "vanish"] if sc["nommap"] else ["stat", "open", "mmap", "slice", "vanish"])
        if op == "vanish":
            events.append({"at": rng.randrange(1, 14 if not big else 14 * n), "do": "unlink", "name": f[0]})
            continue
        faults.append({"op": op, "path": f[0], "n": rng.choice([1, 1, 2, 3, 5, 9, 30]) if op in ("slice", "read") else rng.choice([1, 1, 2]) if op == "stat" else 1,
                       "err": rng.choice(ERRS[op]), "times": rng.choice([1, -1])})
    sc["faults"], sc["events"] = faults, events
    if sc["mode"] == "names" and rng.random() < 0.25:
        # a path that is named again later in the run
        f = rng.choice(faults)["path"] if faults and rng.random() < 0.7 else rng.choice(files)[0]
        sc["again"] = [[f, rng.randrange(n + 1)] for _ in range(rng.choice([1, 1, 2]))]
    return lib.entry(rng, sc)


KEEP = ("spec",)


def run(sc, ctx):
    opts = dict(sc["opts"])
    files = [[n, lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    names = [n for n, _ in files]
    mode = sc["mode"]
    if mode == "tree":
        opts["recurse"] = True
        args = ["."]
    elif mode == "wild":
        args = ["*.jp2"]
    else:
        for f, at in sc.get("again", ()):
            if f in names:
                names.insert(at % (len(names) + 1), f)
        args = names
    args = lib.argv_of(opts) + args
    clean = {k: v for k, v in sc.items() if k not in ("faults", "events")}
    ref = lib.want_report(lib.batch(clean, ctx, files, args), "the undisturbed run")
    refnames = [r.name for r in ref.files]
    if sorted(refnames) != sorted(names):
        raise lib.Violation("selection", "undisturbed: selected %s, reported %s" % (names, refnames))
    if mode == "names" and refnames != names:
        raise lib.Violation("order", "undisturbed: selected %s, reported %s" % (names, refnames))
    d = lib.batch(sc, ctx, files, args)
    rep = lib.want_report(d, "the run with read faults")
    hit = {}
    for err, kind, rel in d.w.firedon:
        if rel is not None:
            hit.setdefault(rel, []).append((err, kind))
    if [r.name for r in rep.files] != refnames:
        raise lib.Violation("missing", "selected %s, reported %s (faults %s)" % (refnames, [r.name for r in rep.files], hit))
    data = dict(files)
    gone = {e["name"] for e in sc["events"]}
    for n in sorted(set(names)):
        bad = sum(1 for r in rep.files if r.name == n and r.success != "True")
        if names.count(n) > 1 and n not in gone and bad > len(hit.get(n, ())):
            raise lib.Violation("repeated", "%s is named %d times and was hit by %s, but %d of its reports are failures" % (n, names.count(n), hit.get(n, []), bad))
    for pos, (r, a) in enumerate(zip(rep.files, ref.files)):
        alone = lib.baseline(data[r.name], opts, r.name, nommap=sc["nommap"])
        if isinstance(alone, str):
            raise lib.Violation("alone", "%s analysed alone: %s" % (r.name, alone))
        if r.name not in hit:
            if r.key() != alone.key():
                raise lib.Violation("contaminated", "%s was not hit by any fault, but: %s" % (r.name, lib.diff(r, alone)))
            if (r.path, r.size, r.mtime) != (a.path, a.size, a.mtime):
                raise lib.Violation("fileinfo", "%s was not hit by any fault, but its file information changed" % r.name)
            continue
        errs = hit[r.name]
        if r.success == "True":
            out = "survived"
            if r.key() != alone.key():
                raise lib.Violation("wrongresult", "%s hit by %s: %s" % (r.name, errs, lib.diff(r, alone)))
        else:
            out = "failed"
            if r.valid != "False":
                raise lib.Violation("failedvalid", "%s hit by %s: success False but isValid %s" % (r.name, errs, r.valid))
            m = (r.msg or "").lower()
            kinds = {"memory" if e == "MemoryError" else "i/o" for e, k in errs}
            said = {k for k in ("memory", "i/o") if k in m}
            if not said or not said <= kinds:
                raise lib.Violation("message", "%s hit by %s: failure message %r" % (r.name, errs, r.msg))
        for e in errs:
            ctx.keys.append("%s|%s|%s|%s|%s|%s" % (mode, sc["nommap"], e[0], e[1], min(pos, 3), out))
            ctx.count("hit")
