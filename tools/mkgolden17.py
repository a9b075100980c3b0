"""Discover, on the current tree, which tests fail whenever one field is overwritten with one value (or one element is
lost or repeated), wherever it occurs.  Writes sim/golden17.json.  Run: /opt/venv/bin/python -B tools/mkgolden17.py N"""
import collections
import json
import multiprocessing
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import damage, jp2gen, lib, proc, runner, world as W
from sim.checks import c17


def work(args):
    seed, n, cand = args
    got = {}
    cnt = collections.Counter()
    for i in range(n):
        rng = random.Random("golden:%d:%d" % (seed, i))
        fmt = rng.choice(lib.FORMATS)
        spec = c17.gen_spec(rng, fmt)
        im = jp2gen.build(spec)
        w = W.World({})
        try:
            with w:
                p = proc.Proc(w)
                todo = 30
                for _ in range(3000):
                    key, ops = c17.pick(rng, im, fmt)
                    if key is None or got.get(key) == set() or (cand is not None and key not in cand):
                        continue
                    todo -= 1
                    if todo < 0:
                        break
                    w._inop = True
                    w.put("f.jp2", damage.apply(im.data, ops))
                    w._inop = False
                    proc.use_steps(200000)
                    try:
                        e = p.one(w.path("f.jp2"), fmt)
                    except W.SimStop:
                        continue
                    except Exception:
                        continue
                    finally:
                        proc.use_nothing()
                    t = c17.failed(e)
                    t = {x.rsplit("/", 1)[-1] for x in t}
                    if ".L." in key:
                        # a wrong segment length: only what the segment itself reports
                        mk = key.split("|")[1].split(".")[0]
                        t = {x.rsplit("/", 1)[-1] for x in c17.failed(e) if x.split("/")[-2] == mk}
                    cnt[key] += 1
                    got[key] = got[key] & t if key in got else t
        finally:
            w.destroy()
    return got, cnt


if __name__ == "__main__":
    n = int(sys.argv[1])
    runner._init()
    tot, cnt = {}, collections.Counter()

    def phase(seeds, cand):
        with multiprocessing.get_context("fork").Pool(8, runner._init) as pool:
            for g, c in pool.imap_unordered(work, [(s, 100, cand) for s in seeds]):
                for k, v in g.items():
                    tot[k] = tot[k] & v if k in tot else v
                cnt.update(c)
    phase(range(80), None)
    a = 80
    while a < n // 100:
        cand = {k for k, v in tot.items() if v}
        print(len(tot), "keys,", len(cand), "candidates, fewest samples", min(cnt[k] for k in cand), flush=True)
        phase(range(a, a + 80), cand)
        a += 80
    out = {k: sorted(v) for k, v in sorted(tot.items()) if v and cnt[k] >= 150}
    print(len(out), "kept")
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "golden17.json"), "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")
