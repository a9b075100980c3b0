"""Remove from sim/golden17.json what does not always fail on the current tree, from N aimed samples per recorded fault.
Run: /opt/venv/bin/python -B tools/shake17.py N"""
import json
import multiprocessing
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import damage, jp2gen, proc, runner, world as W
from sim.checks import c17

N = int(sys.argv[1])
STAGES = [0.3, 0.8, 1.0]


def work(keys):
    g = c17.golden()
    keep = {k: set(g[k]) for k in keys}
    cnt = dict.fromkeys(keys, 0)
    w = W.World({})
    try:
        with w:
            p = proc.Proc(w)
            for i in range(N * 6):
                rng = random.Random("shake:%s:%d" % (keys[0], i))
                fmt = keys[0].split("|")[0]
                spec = jp2gen.gen_spec(rng, fmt, rng.choice(STAGES))
                if rng.random() < 0.1:
                    jp2gen.weird_xml(rng, spec)
                if rng.random() < 0.1:
                    jp2gen.repeat(rng, spec)
                im = jp2gen.build(spec)
                for key in keys:
                    if cnt[key] >= N or not keep[key]:
                        continue
                    c = c17.candidates(im, fmt, key)
                    if not c:
                        continue
                    ops = rng.choice(c)[1]
                    w._inop = True
                    data = damage.apply(im.data, ops)
                    w.put("f.jp2", data)
                    w._inop = False
                    proc.use_steps(200000)
                    try:
                        e = p.one(w.path("f.jp2"), fmt)
                    except W.SimStop:
                        continue
                    finally:
                        proc.use_nothing()
                    t = {x.rsplit("/", 1)[-1] for x in c17.failed(e)}
                    if c17.lucky(key, ops, data):
                        t.add("foundNextTilePartOrEOC")
                    cnt[key] += 1
                    keep[key] &= t
    finally:
        w.destroy()
    return keep, cnt


if __name__ == "__main__":
    runner._init()
    g = c17.golden()
    for k in list(g):
        if ".L." in k:
            # a wrong segment length: only what is said about the length itself
            g[k] = [t for t in g[k] if t[0] == "l"]
            if not g[k]:
                del g[k]
    ks = {}
    for k in sorted(g):
        ks.setdefault(k.split("|")[0], []).append(k)
    jobs = [v[i::20] for v in ks.values() for i in range(20)]
    out = {}
    few = 0
    with multiprocessing.get_context("fork").Pool(8, runner._init) as pool:
        for keep, cnt in pool.imap_unordered(work, jobs):
            for k, v in keep.items():
                few += cnt[k] < N // 4
                if v:
                    out[k] = sorted(v)
                if v != set(g[k]):
                    print(k, cnt[k], "dropped", sorted(set(g[k]) - v), flush=True)
    print(len(g), "->", len(out), "few samples:", few)
    with open(os.path.join(HERE, "sim", "golden17.json"), "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")
