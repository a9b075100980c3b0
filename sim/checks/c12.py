"""C12: a run leaves no trace on storage, however it ends."""
import os

from .. import inject, jp2gen, lib, proc, world as W
from . import c01

ID = "C12"
LEVEL = "fault_enumeration"
QUICK = 2200
THOROUGH = 20000
RULE = "distinct (end of the run, place of the interrupt or crash, fault kinds fired, selection mode, options) tuples"
ASSUMPTIONS = ["writes are seen through the interpreter's audit hooks and by comparing the whole scratch disk (names, kinds, modes, inodes, mtimes, bytes)",
               "access times are not considered"]
KEEP = ("spec",)


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.3)
    files = []
    for k in range(rng.randrange(1, 5)):
        c = lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.85 else None, pdmg=0.4, rich=rng.choice([None, 0.1, 0.8]))
        if "spec" in c and not c.get("dmg") and rng.random() < 0.3:
            jp2gen.weird_xml(rng, c["spec"])
        d = rng.choice(["", "", "sub/", "sub/deep/", "leeg dir/"])
        files.append([d + "f%d%s" % (k, rng.choice([".jp2", ".jp2", ".JPX", ".tmp", ""])), c])
    sc = {"opts": opts, "files": files, "mode": rng.choice(["names", "names", "tree", "wild", "missing", "missingtree", "somemissing"]), "nommap": rng.random() < 0.3,
          "bufsize": rng.choice([8192, 8192, 64, 0]), "listseed": rng.randrange(1000),
          "platform": rng.choice(["linux", "linux", "win32", "darwin"])}
    if rng.random() < 0.2:
        sc["shortseed"] = rng.randrange(1000)
    if rng.random() < 0.15:
        sc["err_closed"] = True
    if rng.random() < 0.15:
        sc["out"] = {"fail_at": rng.choice([0, 10, 700, 4000, 9000]), "err": rng.choice(["ENOSPC", "EPIPE", "EIO"])}
    if rng.random() < 0.15:
        # times that no calendar has
        sc["mtimes"] = {rng.choice(files)[0]: rng.choice([[10 ** 17, 0], [-10 ** 12, 0], [0, 0], [253402300800, 0], [-1, 5]])}
    sc["faults"] = []
    if rng.random() < 0.4:
        f = rng.choice(files)[0]
        op = rng.choice(["stat", "open", "read"] if sc["nommap"] else ["stat", "open", "mmap", "slice"])
        sc["faults"].append({"op": op, "path": f, "n": rng.choice([1, 2, 4]), "err": rng.choice(c01.ERRS[op]), "times": rng.choice([1, -1])})
    sc["ends"] = []
    for p in inject.picks(rng, 4):
        sc["ends"].append([rng.choice(["interrupt", "kill", "kill", "memory"]), rng.choice(["line", "line", "op"]), p])
    return lib.entry(rng, sc)


def check(w, before, what):
    if w.mut:
        raise lib.Violation("mutation", "%s: %s" % (what, "; ".join(w.mut[:5])))
    after = w.snapshot()
    if after != before:
        names = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        raise lib.Violation("changed", "%s: the storage differs afterwards: %s" % (what, names[:5]))


def run(sc, ctx):
    opts = dict(sc["opts"])
    files = [[n, lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    paths = [n for n, _ in files]
    mode = sc["mode"]
    if mode == "tree":
        opts["recurse"] = True
        paths = ["."]
    elif mode == "wild":
        paths = ["*"]
    elif mode == "missing":
        paths = ["nothere.jp2", "sub"]
    elif mode == "missingtree":
        opts["recurse"] = True
        paths = ["nothere/x", ".", "gone.jp2", "gone/*.jp2"]
    elif mode == "somemissing":
        paths = ["nothere/x.jp2"] + paths + ["sub/gone.jp2", "gone*.jp2"]
    args = lib.argv_of(opts) + paths
    base = {k: v for k, v in sc.items() if k not in ("ends", "faults", "out", "err_closed")}
    w0 = W.World(base)
    env0 = dict(os.environ)
    try:
        for rel, data in files:
            w0.put(rel, data)
            os.utime(w0.path(rel), (1234567890, 1234567890))
        before = w0.snapshot()

        def one(s, hooks=None, what="", arg=args):
            w = W.World(s, w0.root, exist=True)
            with w:
                p = proc.Proc(w)
                if hooks:
                    hooks(w)
                else:
                    proc.use_steps(proc.LIMIT)
                try:
                    o = p.cli(arg)
                finally:
                    ctx.steps += proc.Steps.n
                    proc.use_nothing()
            del p
            ctx.world_done(w)
            check(w, before, what)
            return w, o
        rec = inject.Recorder()
        w, o = one(base, lambda w: proc.use_lines(rec), "undisturbed run")
        nops = w.nops
        if o.hang or o.exc:
            raise lib.Violation("undisturbed", "the undisturbed run ended with %s" % o.brief())
        ref, rexit = o.out, o.exit
        s2 = {k: v for k, v in sc.items() if k != "ends"}
        w, o = one(s2, None, "run with faults %s" % (s2.get("faults"),))
        ctx.keys.append("faults|%s|%s|%s|%s" % (mode, sorted(set(w.firedlog))[:4], bool(o.exc), "".join(sorted(k[0] for k in opts))))
        for n, (end, at, (u, v)) in enumerate(sc["ends"]):
            place = [None]

            def hooks(w, end=end, at=at, u=u, v=v, place=place):
                exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "kill": W.SimStop}[end]
                if at == "line":
                    k = rec.pick(u, v, guarded=int(u * 1000) % 2 == 1)
                    inj = inject.Injector([k] if k else [], exc, w)
                    place[0] = inj
                    proc.use_lines(inj)
                else:
                    k = 1 + int(v * nops)
                    cnt = [0]

                    def onop(kind, rel):
                        cnt[0] += 1
                        if cnt[0] == k or (end == "kill" and cnt[0] > k):
                            place[0] = kind
                            if cnt[0] == k:
                                w.fired(end + ":" + kind)
                            if exc is KeyboardInterrupt:
                                return w.interrupt()
                            raise exc()
                    w.onop = onop
                    proc.use_steps(proc.LIMIT)
            w, o = one(base, hooks, "%s at %s" % (end, at))
            pl = place[0] if not isinstance(place[0], inject.Injector) else ",".join(place[0].fired)
            ctx.keys.append("%s|%s|%s" % (end, at, pl))
            ctx.count("end:" + end)
            if end == "kill":
                # the machine comes back: the run is simply repeated
                w, o = one(base, None, "repeated run after a crash")
                if (o.out, o.exit) != (ref, rexit):
                    raise lib.Violation("rerun", "the run repeated after a crash at %s gives another report than the undisturbed run" % pl)
                ctx.count("rerun")
        if dict(os.environ) != env0:
            raise lib.Violation("environment", "the environment of the process was changed")
    finally:
        proc.use_nothing()
        w0.destroy()
    ctx.nontrivial = True
