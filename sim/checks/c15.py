"""C15: a file replaced during the run is judged as one version."""
from .. import jp2gen, lib, proc, world as W

ID = "C15"
LEVEL = "exploration"
QUICK = 10000
THOROUGH = 50000
RULE = "distinct (access path, kind of change, operation before which it happened, version that was reported) tuples"
ASSUMPTIONS = ["replacement is atomic (rename over the old name); a file overwritten in place while it is mapped is outside the property",
               "size and modification time in the file information may belong to another version than the verdict"]
KEEP = ("spec",)


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.15)
    files, versions = [], {}
    for k in range(rng.choice([1, 1, 2, 3])):
        vs = []
        for _ in range(rng.choice([2, 2, 3])):
            if vs and rng.random() < 0.3:
                # the same image, cut off or damaged: an upload in progress
                c = dict(vs[0])
                if "spec" in c:
                    n = len(lib.content({"spec": c["spec"]}))
                    c["dmg"] = [["trunc", rng.randrange(n)]]
                    if not lib.cheap(c, opts):
                        c = {"hex": ""}
            else:
                c = lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.9 else None, pdmg=0.25, rich=rng.choice([None, 0.1]))
            if "spec" in c and not c.get("dmg") and rng.random() < 0.12:
                jp2gen.enlarge(rng, c["spec"])
            vs.append(c)
        name = "f%d.jp2" % k
        files.append(name)
        versions[name] = vs
    events = []
    for n in files:
        for _ in range(rng.choice([1, 1, 2, 4])):
            at = rng.choice([rng.randrange(1, 12), rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 400)])
            if rng.random() < 0.8:
                events.append({"at": at, "do": "replace", "name": n, "v": rng.randrange(len(versions[n]))})
            else:
                events.append({"at": at, "do": "unlink", "name": n})
    sc = {"opts": opts, "files": files, "versions": versions, "events": events, "nommap": rng.random() < 0.4, "arm": rng.random() < 0.4,
          "mode": rng.choice(["names", "names", "tree"])}
    if rng.random() < 0.4:
        sc["shortseed"] = rng.randrange(1000)
    return sc


def run(sc, ctx):
    opts = dict(sc["opts"])
    vs = {n: [lib.content(c) for c in v] for n, v in sc["versions"].items()}
    names = [n for n in sc["files"] if vs.get(n)]
    if not names:
        return
    s = {k: v for k, v in sc.items() if k not in ("files", "versions")}
    s["events"] = [e for e in sc["events"] if e["do"] == "unlink" or e["v"] < len(vs.get(e["name"], ()))]
    paths = names
    if sc["mode"] == "tree":
        opts["recurse"] = True
        paths = ["."]
    d = lib.batch(s, ctx, [[n, vs[n][0]] for n in names], lib.argv_of(opts) + paths, versions=vs)
    gone = {r for e, k, r in d.w.firedon if k == "unlink"}
    o = d.o
    if o.hang or o.exc:
        raise lib.Violation("aborted", "the run ended with %s\n%s" % (o.brief(), o.tb))
    rep = lib.parse_report(d.out)
    if not rep.ok:
        if set(names) <= gone and not o.out:
            return
        raise lib.Violation("report", "no valid report: %s" % rep.error)
    seen = [r.name for r in rep.files]
    for n in names:
        if seen.count(n) > 1 or (not seen.count(n) and n not in gone):
            raise lib.Violation("missing", "%s is reported %d times" % (n, seen.count(n)))
    for r in rep.files:
        if r.name not in vs:
            if sc["mode"] == "tree" and r.name.endswith(".__new"):
                continue
            raise lib.Violation("unknown", "unknown file %s" % r.name)
        if r.success == "False":
            if r.valid != "False" or r.props not in ("<properties></>", None):
                raise lib.Violation("failedvalid", "%s: success False, but isValid %s, properties %s" % (r.name, r.valid, r.props))
            hit = "unreadable"
            touched = [x for x in d.w.firedon if x[2] == r.name]
            if not touched:
                raise lib.Violation("failed", "%s was not touched, but: %s" % (r.name, r.brief()))
        else:
            hit = None
            for k, b in enumerate(vs[r.name]):
                a = lib.baseline(b, opts, r.name, nommap=sc["nommap"])
                if isinstance(a, str):
                    raise lib.Violation("alone", "%s version %d analysed alone: %s" % (r.name, k, a))
                if a.key() == r.key():
                    hit = k
                    break
            if hit is None:
                a = lib.baseline(vs[r.name][0], opts, r.name, nommap=sc["nommap"])
                raise lib.Violation("mixture", "%s (%d versions, events %s): the result belongs to no version; compared with the first: %s"
                                    % (r.name, len(vs[r.name]), s["events"], lib.diff(r, a)))
        for e in d.w.eventat:
            if e[1] == r.name:
                ctx.keys.append("%s|%s|%s|%s" % (sc["nommap"], e[0], e[2], hit))
        ctx.count("judged:%s" % hit)
