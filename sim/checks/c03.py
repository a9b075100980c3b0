"""C03: what reaches standard output is a prefix, complete when the status is 0."""
import errno

from .. import jp2gen, lib, proc, world as W

ID = "C03"
LEVEL = "fault_enumeration"
QUICK = 4500
THOROUGH = 60000
RULE = "distinct (fault plan class, error, buffer size class, decile of the report at which the device failed, exit status class) tuples in runs with a device fault"
ASSUMPTIONS = ["the fault is on the raw device below Python's own buffered text stream, which is real code",
               "a device that accepts nothing for a while (EAGAIN) may make the run fail, but never lose bytes silently"]
KEEP = ("spec",)


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.2)
    n = rng.randrange(1, 5)
    files = [["f%d.jp2" % k, lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.8 else None, pdmg=0.3)] for k in range(n)]
    if rng.random() < 0.3:
        files[rng.randrange(n)][0] = rng.choice(["caf\u00e9.jp2", "\u4e2d\u6587.jp2", "\U0001f600.jp2"])
    sc = {"opts": opts, "files": files, "bufsize": rng.choice([0, 0, 1, 2, 7, 64, 512, 8192, 8192, 65536]), "nommap": rng.random() < 0.2}
    large = False
    if rng.random() < 0.02:
        # a report larger than any buffer, from one file or from many
        r = rng.random()
        if r < 0.5:
            spec = jp2gen.gen_spec(rng, opts["fmt"], 0.1)
            t = spec["tiles"][-1]
            spec["tiles"] = [dict(t, mk=[], data=1, psot0=False, seed=k) for k in range(rng.choice([300, 600, 1200]))]
            files[rng.randrange(n)][1] = {"spec": spec}
        else:
            few = [f[1] for f in files]
            files = [["g%d.jp2" % k, rng.choice(few)] for k in range(rng.choice([30, 60]))]
        sc["files"] = files
        sc["bufsize"] = rng.choice([0, 512, 8192, 65536])
        large = True
    plans = []
    for _ in range(4):
        k = rng.choice(["short", "fail", "fail", "fail", "transient", "eagain", "mix"])
        pl = {}
        if k in ("short", "mix") or rng.random() < 0.2:
            pl["chunk"] = [rng.choice([1, 2, 3, 10, 100, 1000, 4095] if not large else [1000, 4095, 30000]) for _ in range(rng.randrange(1, 4))]
        if k in ("fail", "transient", "mix"):
            pl["frac"] = rng.choice([0.0, 1.0, 0.999, 0.9995]) if rng.random() < 0.25 else round(rng.random(), 4)
            pl["err"] = rng.choice(["ENOSPC", "EPIPE", "EIO", "EFBIG", "EDQUOT", "EBADF"])
            pl["times"] = 0 if k == "fail" else rng.choice([1, 1, 2])
            if pl["times"] and rng.random() < 0.2:
                pl["err"] = "EINTR"
        if k in ("eagain",):
            pl["eagain"] = sorted({rng.randrange(1, 30) for _ in range(rng.randrange(1, 3))})
        pl["k"] = k
        plans.append(pl)
    sc["plans"] = plans
    return lib.entry(rng, sc)


def run(sc, ctx):
    opts = sc["opts"]
    files = [[n, lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    args = lib.argv_of(opts) + [n for n, _ in files]
    base = {k: v for k, v in sc.items() if k != "plans"}
    d0 = lib.batch(dict(base, bufsize=8192), ctx, files, args)
    rep = lib.want_report(d0, "the undisturbed run")
    if len(rep.files) != len(files):
        raise lib.Violation("incomplete", "undisturbed: %d files, %d reported" % (len(files), len(rep.files)))
    ref = d0.o.out
    root = d0.w.root
    for pl in sc["plans"]:
        plan = {k: v for k, v in pl.items() if k not in ("frac", "k")}
        if "frac" in pl:
            plan["fail_at"] = int(pl["frac"] * len(ref))
        d = lib.batch(dict(base, out=plan), ctx, files, args, root=root)
        o = d.o
        what = "device plan %s, buffer %d" % (plan, sc["bufsize"])
        if o.hang:
            raise lib.Violation("hang", what + ": the run does not end")
        faulty = any(not f.startswith("shortwrite") for f in d.w.firedlog if f.endswith(":stdout"))
        if not ref.startswith(o.out):
            k = 0
            while k < min(len(ref), len(o.out)) and ref[k] == o.out[k]:
                k += 1
            raise lib.Violation("notprefix", "%s: delivered %d bytes, which differ from the undisturbed report at byte %d: %r instead of %r"
                                % (what, len(o.out), k, o.out[k:k + 60], ref[k:k + 60]))
        if o.exit == 0 and o.out != ref:
            raise lib.Violation("truncated", "%s: exit status 0, but only %d of %d bytes were delivered" % (what, len(o.out), len(ref)))
        if not faulty and o.exit != 0:
            raise lib.Violation("spurious", "%s: every byte was accepted, but the run ended with %s\n%s" % (what, o.brief(), o.tb))
        ctx.keys.append("%s|%s|%s|%s|%s|%s" % (pl["k"], plan.get("err"), plan.get("times"), sc["bufsize"], int(10 * len(o.out) / max(1, len(ref))), o.exit))
        ctx.count("status:%s" % o.exit)
