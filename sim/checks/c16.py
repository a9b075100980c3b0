"""C16: trouble with the diagnostics channel never changes the report."""
import os

from .. import jp2gen, lib, proc, world as W
from . import c01, c10

ID = "C16"
LEVEL = "fault_enumeration"
QUICK = 9000
THOROUGH = 30000
RULE = "distinct (state of standard error, kind of run, diagnostics written, name class, read fault) tuples"
ASSUMPTIONS = ["messages of argparse about wrong options are the library's"]
KEEP = ("spec",)
ERRS = [["none", {"stderr_none": True}], ["closed", {"err_closed": True}],
        ["full", {"err": {"fail_at": 0, "err": "ENOSPC"}}], ["full-later", {"err": {"fail_at": 20, "err": "ENOSPC"}}],
        ["pipe", {"err": {"fail_at": 0, "err": "EPIPE"}}], ["eio-once", {"err": {"fail_at": 0, "err": "EIO", "times": 1}}],
        ["buffered-full", {"err_unbuf": False, "err": {"fail_at": 0, "err": "ENOSPC"}}],
        ["ascii", {"err_encoding": "ascii", "err_errors": "strict"}], ["utf8-strict", {"err_encoding": "utf-8", "err_errors": "strict"}],
        ["cp1252", {"err_encoding": "cp1252", "err_errors": "strict"}],
        ["eagain", {"err": {"eagain": list(range(1, 4000))}}], ["short", {"err": {"chunk": [1, 2, 3]}}], ["badfd", {"err": {"fail_at": 0, "err": "EBADF"}}]]


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.2)
    files = []
    used = set()
    for k in range(rng.choice([1, 2, 3])):
        n = c10.gen_name(rng) if rng.random() < 0.6 else b"f%d.jp2" % k
        if n in used:
            continue
        used.add(n)
        c = lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.85 else None, pdmg=0.4)
        if rng.random() < 0.3:
            c = {"hex": rng.choice(["", "", "00", "ff4f"])}
        elif "spec" in c and not c.get("dmg") and rng.random() < 0.4:
            jp2gen.weird_xml(rng, c["spec"])
        files.append([n.hex(), c])
    sc = {"opts": opts, "files": files, "kind": rng.choice(["names", "names", "names", "some-missing", "all-missing", "badformat", "wild", "tree", "empty-tree"]),
          "missing": c10.gen_name(rng).hex(), "nommap": rng.random() < 0.3, "states": [e[0] for e in rng.sample(ERRS, 4)]}
    sc["faults"] = []
    if rng.random() < 0.4:
        op = rng.choice(["open", "read"] if sc["nommap"] else ["open", "mmap", "slice"])
        f = os.fsdecode(bytes.fromhex(rng.choice(files)[0]))
        sc["faults"].append({"op": op, "path": f, "n": 1, "err": rng.choice(c01.ERRS[op]), "times": rng.choice([1, -1])})
    return lib.entry(rng, sc)


def run(sc, ctx):
    opts = dict(sc["opts"])
    files = [[os.fsdecode(bytes.fromhex(n)), lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    kind = sc["kind"]
    miss = "./" + os.fsdecode(bytes.fromhex(sc["missing"])) + ".gone"
    paths = ["./" + n for n, _ in files]
    if kind == "some-missing":
        paths = paths[:1] + [miss] + paths[1:]
    elif kind == "all-missing":
        paths = [miss, miss]
    elif kind == "wild":
        paths = ["./*"]
    elif kind in ("tree", "empty-tree"):
        opts["recurse"] = True
        paths = ["."]
        if kind == "empty-tree":
            files = []
    args = lib.argv_of(opts)
    if kind == "badformat":
        args = ["--format", "jpx"]
    args += paths
    base = {k: sc[k] for k in ("nommap", "faults", "entry") if k in sc}
    a = lib.batch(base, ctx, files, args)
    if a.o.hang or a.o.exc:
        raise lib.Violation("aborted", "with a working standard error: %s\n%s" % (a.o.brief(), a.o.tb))
    for name in sc["states"]:
        b = lib.batch(dict(base, **dict(ERRS)[name]), ctx, files, args, root=a.w.root)
        what = "standard error %s, %s run with %s" % (name, kind, [f[0] for f in files])
        if b.o.hang or b.o.exc:
            raise lib.Violation("aborted", "%s: the run ended with %s\n%s" % (what, b.o.brief(), b.o.tb))
        if b.o.exit != a.o.exit:
            raise lib.Violation("exit", "%s: exit status %s instead of %s" % (what, b.o.exit, a.o.exit))
        if b.o.out != a.o.out:
            x, y = a.o.out, b.o.out
            k = 0
            while k < min(len(x), len(y)) and x[k] == y[k]:
                k += 1
            raise lib.Violation("report", "%s: the report changes at byte %d: %r instead of %r" % (what, k, y[k:k + 200], x[k:k + 200]))
        if b"User warning" in b.o.out.split(b"<jpylyzer")[0] or (b.o.out and not b.o.out.startswith(b"<?xml")):
            raise lib.Violation("stdout", "%s: diagnostics on standard output: %r" % (what, b.o.out[:100]))
        ctx.keys.append("%s|%s|%s|%s|%s" % (name, kind, bool(a.o.err), sorted({c10.klass(bytes.fromhex(n)) for n, _ in sc["files"]}), [f[0] + f[1] for f in b.w.firedon]))
        ctx.count("state:" + name)
    if kind == "wild" and all(n.startswith(".") for n, _ in files):
        pass        # hidden files are not matched by a wildcard
    elif kind not in ("all-missing", "badformat", "empty-tree"):
        rep = lib.parse_report(a.o.out)
        if not rep.ok:
            raise lib.Violation("stdout", "with a working standard error: no valid report: %s" % rep.error)
    elif a.o.out:
        raise lib.Violation("stdout", "%s run: standard output is not empty: %r" % (kind, a.o.out[:100]))
    ctx.nontrivial = True
