"""C07: bounded work on any stored content."""
import os
import resource
import time

from .. import damage, jp2gen, lib, proc, world as W

ID = "C07"
LEVEL = "fault_enumeration"
QUICK = 5000
THOROUGH = 100000
RULE = "distinct (damage kind, damaged field or element kind, format, order of magnitude of the work per byte) tuples"
A, B, CPU = 1500000, 3000, 40.0
MEM = 400 << 20
ASSUMPTIONS = ["work is the number of function calls and loop iterations of the package; the bound is %d + %d per byte, and %d s of CPU time for one analysis "
               "(the tree as delivered needs less than half of it)" % (A, B, CPU),
               "memory is the address space the process may add during one analysis: %d MB for files of at most a few hundred kB" % (MEM >> 20)]
KEEP = ("spec",)


def aimed(rng, im):
    """Overwrite count and length fields, one or two at a time, with every kind of extreme value."""
    fs = [f for f in im.fields if f[2] in (1, 2, 4, 8)]
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice(sorted({f[0] for f in fs}))
        f = rng.choice([x for x in fs if x[0] == n])
        top = (1 << 8 * f[2]) - 1
        v = rng.choice([top, top, top - 1, top >> 1, (top >> 1) + 1, 0, 1, rng.randrange(top + 1), min(top, 65535), min(top, 0xffffff), top - 7, rng.randrange(20), rng.randrange(20), rng.randrange(min(top, 600))])
        out.append(["set", f[1], v.to_bytes(f[2], "big").hex()])
    return out


def gen(rng, i, tier):
    fmt = rng.choice(lib.FORMATS)
    spec = jp2gen.gen_spec(rng, fmt, rng.choice([None, 0.6, 0.9]))
    im = jp2gen.build(spec)
    back = None
    if len(spec["tiles"]) > 1 and rng.random() < 0.15:
        # the last thing that can be read is the start of a tile part, as far from an earlier one as the
        # value the tool takes for a number that cannot be read
        parts = sorted(e for e in im.elems if e[0] == "tilepart")
        k = rng.randrange(1, len(parts))
        d = rng.choice([9999, 9999, 10001, 9997, 9993])
        j = rng.randrange(0, k)
        spec["tiles"][j]["data"] += d - (parts[k][1] - parts[j][1])
        if spec["tiles"][j]["data"] > 0:
            im = jp2gen.build(spec)
            back = sorted(e for e in im.elems if e[0] == "tilepart")[k][1]
        else:
            spec["tiles"][j]["data"] = 1
            im = jp2gen.build(spec)
    sc = {"spec": spec, "nommap": rng.random() < 0.2, "variants": []}
    for n in range(2, 12) if back else ():
        d = [["trunc", back + n]]
        if "cmode" in spec:
            d.append(["set", [e for e in im.elems if e[0] == "box:jp2c"][0][1], "00000000"])
        if rng.random() < 0.5:
            sc["variants"].append([d, lib.gen_opts(rng, fmt, p=0.25)])
    for _ in range(8 if not back else 4):
        r = rng.random()
        if r < 0.3:
            d = damage.recipes(rng, im)
        elif r < 0.6:
            d = aimed(rng, im)
        elif r < 0.9:
            d = damage.some(rng, im, 4)
        else:
            e = rng.choice(im.elems)
            d = [["rep", e[1], e[2], max(1, rng.choice([2000, 6000, 20000]) // max(1, e[2]))]]
            if rng.random() < 0.6:
                d = damage.one(rng, im, ["field"]) and [aimed(rng, im)[0]] + d
        o = lib.gen_opts(rng, fmt if rng.random() < 0.8 else None, p=0.25)
        sc["variants"].append([d, o])
    return sc


class capped:
    """The simulated machine has little memory left."""

    def __enter__(self):
        fd = W._real["os_open"]("/proc/self/statm", os.O_RDONLY)
        try:
            vs = int(W._real["os_read"](fd, 200).split()[0]) * resource.getpagesize()
        finally:
            W._real["os_close"](fd)
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (min(vs + MEM, self.old[0] if self.old[0] > 0 else vs + MEM), self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_AS, self.old)


def run(sc, ctx):
    im = jp2gen.build(sc["spec"])
    w = W.World({"nommap": sc["nommap"]})
    try:
        with w:
            p = proc.Proc(w)
            for n, (dm, o) in enumerate(sc["variants"]):
                data = damage.apply(im.data, dm)
                w._inop = True
                w.put("f%d.jp2" % n, data)
                w._inop = False
                limit = A + B * len(data)
                t = time.process_time()
                proc.use_steps(limit)
                msg = None
                try:
                    with capped():
                        r = lib.result_of(p.one(w.path("f%d.jp2" % n), *lib.api_args(o)))
                    if r.success != "True":
                        msg = r.msg or ""
                except MemoryError:
                    msg = "memory"
                except W.Hang:
                    raise lib.Violation("unbounded", "%d bytes, damage %s, options %s: more than %d steps" % (len(data), dm, o, limit))
                except Exception:
                    ctx.count("raised")
                finally:
                    proc.use_nothing()
                if msg is not None and "memory" in msg.lower():
                    raise lib.Violation("memory", "%d bytes, damage %s, options %s: the analysis needs more than %d MB" % (len(data), dm, o, MEM >> 20))
                t = time.process_time() - t
                if t > CPU:
                    raise lib.Violation("cpu", "%d bytes, damage %s, options %s: one analysis took more than %d s of CPU time" % (len(data), dm, o, CPU))
                ctx.steps += proc.Steps.n
                ctx.nontrivial = True
                for d in dm:
                    ctx.count("fault:stored:" + d[0])
                    ctx.keys.append("%s|%s|%s|%d" % (d[0], where(im, d), o["fmt"], len(str(proc.Steps.n * 10 // (len(data) + 1)))))
        ctx.world_done(w)
    finally:
        proc.use_nothing()
        w.destroy()


def where(im, d):
    if len(d) < 2:
        return "-"
    o = d[1] // 8 if d[0] == "flip" else d[1]
    best = None
    for n, a, l in im.fields:
        if a <= o < a + l:
            best = n
    return best or "-"
