"""Seeded search: workers, evidence, minimisation, replay files."""
import copy
import faulthandler
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import lib, proc, world as W

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_setitimer, _signal = signal.setitimer, signal.signal
RUN_WALL = 100          # seconds one simulated run may take before it counts as not ending
CHUNK = 8


class Wall(W.SimStop):
    pass


def _alarm(*a):
    raise Wall("a simulated run did not end within %d s" % RUN_WALL)


def rng_for(cid, seed, i):
    return random.Random("%s:%s:%s" % (cid, seed, i))


def execute(mod, sc):
    """One simulated run.  Returns (violation or None, ctx, error or None)."""
    ctx = lib.Ctx()
    gc.disable()
    try:
        _setitimer(signal.ITIMER_REAL, RUN_WALL)
        try:
            mod.run(sc, ctx)
            v = None
        finally:
            _setitimer(signal.ITIMER_REAL, 0)
            proc.use_nothing()
            W._W = None
        return None, ctx, None
    except lib.Violation as ex:
        return (ex.kind, ex.text), ctx, None
    except W.SimStop as ex:
        return ("hang", "the analysis does not end: %s" % ex), ctx, None
    except MemoryError as ex:
        return ("memory", "the analysis exhausted the memory of the simulated machine"), ctx, None
    except Exception:
        return None, ctx, traceback.format_exc()
    finally:
        gc.collect()


def _init():
    faulthandler.enable()
    _signal(signal.SIGALRM, _alarm)
    _signal(signal.SIGINT, signal.SIG_IGN)
    try:
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, hard))
    except (ValueError, OSError):
        pass
    sys.dont_write_bytecode = True
    proc.load()


def _work(job):
    name, seed, tier, idx = job
    mod = importlib.import_module("sim.checks." + name)
    out = []
    for i in idx:
        rng = rng_for(mod.ID, seed, i)
        try:
            sc = mod.gen(rng, i, tier)
        except Exception:
            out.append((i, None, {}, [], False, "gen: " + traceback.format_exc(), 0, 0.0))
            continue
        v, ctx, err = execute(mod, sc)
        out.append((i, v, ctx.stats, ctx.keys, ctx.nontrivial, err, ctx.steps, ctx.simtime))
        if v:
            break
    return out


def _child(conn, job):
    _init()
    conn.send(_work(job))


def _alone(ctxm, job):
    """Run a job in a process of its own; None when that process dies."""
    a, b = ctxm.Pipe(False)
    p = ctxm.Process(target=_child, args=(b, job))
    p.start()
    b.close()
    try:
        r = a.recv() if a.poll(RUN_WALL * 2) else None
    except EOFError:
        r = None
    p.kill()
    p.join()
    return r


def _replay_child(name, sc):
    _init()
    execute(importlib.import_module("sim.checks." + name), sc)


# ---------------------------------------------------------------- minimisation
def _paths(x, p=()):
    """All list positions in the scenario, deepest structures last."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from _paths(v, p + (k,))
    elif isinstance(x, list):
        yield p, x
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                yield from _paths(v, p + (i,))


def _get(x, p):
    for k in p:
        x = x[k]
    return x


def minimise(mod, sc, kind, budget=250, wall=45):
    best = sc
    t0 = time.time()
    n = 0

    def bad(c):
        nonlocal n
        n += 1
        v, _, err = execute(mod, c)
        return bool(v) and v[0] == kind and not err
    keep = getattr(mod, "KEEP", ())
    if hasattr(mod, "shrink"):
        for c in mod.shrink(copy.deepcopy(best)):
            if n > budget or time.time() - t0 > wall:
                break
            if bad(c):
                best = c
    progress = True
    while progress and n < budget and time.time() - t0 < wall:
        progress = False
        for p, lst in list(_paths(best)):
            if any(k in keep for k in p if isinstance(k, str)):
                continue
            try:
                cur = _get(best, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list) or not cur:
                continue
            size = len(cur)
            step = max(1, size // 2)
            while step >= 1 and n < budget and time.time() - t0 < wall:
                i = 0
                while i < len(_get(best, p)) and n < budget and time.time() - t0 < wall:
                    c = copy.deepcopy(best)
                    l = _get(c, p)
                    del l[i:i + step]
                    if bad(c):
                        best = c
                        progress = True
                    else:
                        i += step
                step //= 2
    return best, n


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(proc.PKG):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith(".py"):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(f.encode() + fh.read())
    return h.hexdigest()[:16]


def write_replay(mod, seed, i, sc, orig, v, ctx, tries):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (mod.ID, lib.digest(sc)))
    with open(p, "w") as f:
        json.dump({"property": mod.ID, "check": mod.__name__.split(".")[-1], "seed": seed, "index": i, "kind": v[0], "violation": v[1],
                   "scenario": sc, "original_scenario": orig, "minimiser_runs": tries, "tree": tree_hash(),
                   "trace": ctx.trace, "trace_digest": lib.digest(ctx.trace, v)}, f, indent=1, sort_keys=True)
    return p


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("finding: "):
                    out.append(line[9:])
    return out


def main(name):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    mod = importlib.import_module("sim.checks." + name)
    runs = mod.QUICK if tier == "quick" else mod.THOROUGH
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    wall = float(os.environ.get("VERIF_WALL", 100 if tier == "quick" else 3300))
    workers = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))
    _init()
    if hasattr(mod, "prepare"):
        mod.prepare(seed, tier)
    chunk = max(1, min(CHUNK, runs // (workers * 4) or 1))
    jobs = [(name, seed, tier, list(range(a, min(runs, a + chunk)))) for a in range(0, runs, chunk)]
    stats, keys, samples = {}, set(), []
    n = nontrivial = steps = 0
    simtime = 0.0
    errors = []
    hit = None
    ctxm = multiprocessing.get_context("fork")
    pool = ctxm.Pool(workers, _init, maxtasksperchild=None)
    stopped = None
    pids = {p.pid for p in pool._pool}
    died = False
    seen = set()

    def absorb(res):
        nonlocal n, nontrivial, steps, simtime, hit
        for i, v, st, ks, nt, err, sp, stime in res:
            n += 1
            seen.add(i)
            for k, c in st.items():
                stats[k] = stats.get(k, 0) + c
            if len(keys) < 2000000:
                keys.update(ks)
            nontrivial += nt
            steps += sp
            simtime += stime
            if err:
                errors.append((i, err))
            if v and (hit is None or i < hit[0]):
                hit = (i, v)
    try:
        it = pool.imap_unordered(_work, jobs)
        done = 0
        while done < len(jobs):
            res = None
            until = time.time() + RUN_WALL * 2 + 60
            while res is None and hit is None:
                try:
                    res = it.next(timeout=3)
                except multiprocessing.TimeoutError:
                    if {p.pid for p in pool._pool} != pids:
                        try:
                            res = it.next(timeout=1)
                        except multiprocessing.TimeoutError:
                            died = True
                            break
                    elif time.time() > until:
                        hit = (-1, ("hang", "a worker did not come back from a simulated run (uninterruptible endless loop)"))
            if died:
                # find out which run it was: the remaining ones again, each in a process of its own
                for i in [i for j in jobs for i in j[3] if i not in seen]:
                    if time.time() - t0 > wall + 120:
                        stopped = "wall"
                        break
                    r = _alone(ctxm, (name, seed, tier, [i]))
                    if r is None:
                        hit = (i, ("died", "the process of the simulated run was killed by a fatal error of the interpreter"))
                        stopped = "violation"
                        break
                    absorb(r)
                    if hit:
                        stopped = "violation"
                        break
                break
            if res is None:
                break
            done += 1
            absorb(res)
            if hit:
                stopped = "violation"
                break
            if time.time() - t0 > wall:
                stopped = "wall"
                break
    finally:
        pool.terminate()
        pool.join()
    extra = mod.finish(seed, tier) if hasattr(mod, "finish") and not hit else None
    if extra and extra.get("violation"):
        hit = (-2, extra["violation"])
    # determinism self-check: the same seeds give the same executions
    same = 0
    differ = []
    if not hit:
        for i in range(min(6, n)):
            sc = mod.gen(rng_for(mod.ID, seed, i), i, tier)
            a = execute(mod, sc)
            b = execute(mod, json.loads(json.dumps(sc)))
            if lib.digest(a[0], a[1].trace, sorted(a[1].stats.items())) == lib.digest(b[0], b[1].trace, sorted(b[1].stats.items())):
                same += 1
            else:
                differ.append(i)
    for i in range(3):
        try:
            samples.append(json.loads(json.dumps(_brief(mod.gen(rng_for(mod.ID, seed, i), i, tier)))))
        except Exception:
            pass
    for d in os.listdir(W.scratch_base()):
        # scratch disks of workers that were stopped
        if d.startswith("jpysim-"):
            pid = d.split("-")[1]
            if not os.path.exists("/proc/%d" % int(pid)) or int(pid) == os.getpid() % 10 ** 7:
                import shutil
                shutil.rmtree(os.path.join(W.scratch_base(), d), ignore_errors=True)
    el = time.time() - t0
    faults = {k[6:]: c for k, c in sorted(stats.items()) if k.startswith("fault:")}
    other = {k: c for k, c in sorted(stats.items()) if not k.startswith("fault:")}
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": {"evaluations": n, "distinct_nontrivial": len(keys), "rule": mod.RULE, "samples": samples,
                       "runs_with_fault_or_switch": nontrivial, "planned_runs": runs, "stopped_by": stopped,
                       "runs_per_hour": int(n / el * 3600) if el else 0, "seeds_per_hour": int(n / el * 3600) if el else 0,
                       "simulated_seconds": round(simtime, 3), "package_steps_executed": steps,
                       "faults_fired": faults, "counters": other,
                       "determinism_selfcheck": {"pairs_identical": same, "pairs_different": differ},
                       "components": {"real": "jpylyzer/*.py from /repo's working tree, argparse, glob, os.walk, codecs, ElementTree, minidom, expat, "
                                              "io.TextIOWrapper/BufferedWriter/BufferedReader, kernel tmpfs and mmap",
                                      "stub": "raw stdout/stderr devices, injected storage/memory errors, short reads, directory order, mtimes, clock, "
                                              "thread scheduler, signal instant, platform name"},
                       "tree": tree_hash()},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(el, 2), "violations": 1 if hit else 0}
    if extra:
        ev["coverage"].update({k: v for k, v in extra.items() if k != "violation"})
    rc = 0
    if hit and hit[0] >= 0:
        i, v = hit
        sc = mod.gen(rng_for(mod.ID, seed, i), i, tier)
        sc = json.loads(json.dumps(sc, sort_keys=True))      # as it will be read from the replay file
        small, tries = (sc, 0) if os.environ.get("VERIF_NOMIN") or v[0] == "died" else minimise(mod, sc, v[0])
        v2, ctx, err = execute(mod, small) if v[0] != "died" else (v, lib.Ctx(), None)
        if not v2:
            small, v2, ctx = sc, v, lib.Ctx()
        path = write_replay(mod, seed, i, small, sc, v2, ctx, tries)
        print("property %s violated (seed %d, run %d): [%s] %s" % (mod.ID, seed, i, v2[0], v2[1][:1500]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        rc = 1
    elif hit:
        path = write_replay(mod, seed, hit[0], {"note": "found outside a single scenario", "tier": tier}, None, hit[1], lib.Ctx(), 0)
        print("property %s violated: %s" % (mod.ID, hit[1][1][:1500]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        rc = 1
    elif errors:
        print("harness errors: %d; first (run %d):\n%s" % (len(errors), errors[0][0], errors[0][1]), file=sys.stderr)
        ev["coverage"]["harness_errors"] = len(errors)
        rc = 2
    for line in known():
        if line.startswith("property=%s " % mod.ID):
            key = line.split(" ", 1)[1].split(":")[0]
            if key in getattr(mod, "FINDINGS", {}) and not mod.FINDINGS[key]():
                print("note: the known finding %s no longer fails" % key)
            else:
                print("KNOWN-FINDING: " + line)
    if differ and not hit:
        print("note: runs %s were not repeatable" % differ, file=sys.stderr)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: %d runs, %d distinct, %d with faults, %.1f s, rc=%d" % (mod.ID, tier, n, len(keys), nontrivial, el, rc))
    return rc


def _brief(x, depth=0):
    if isinstance(x, str) and len(x) > 120:
        return x[:120] + "..."
    if isinstance(x, list):
        return [_brief(y, depth + 1) for y in x[:6]] + (["... %d more" % (len(x) - 6)] if len(x) > 6 else [])
    if isinstance(x, dict):
        return {k: _brief(v, depth + 1) for k, v in x.items()}
    return x


def replay(path):
    with open(path) as f:
        r = json.load(f)
    _init()
    mod = importlib.import_module("sim.checks." + r["check"])
    if r["kind"] == "died":
        p = multiprocessing.get_context("fork").Process(target=_replay_child, args=(r["check"], r["scenario"]))
        p.start()
        p.join()
        if p.exitcode == 0:
            print("no violation on this tree")
            return 0
        print("the process of the run died (%s)" % p.exitcode)
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    if "note" in r["scenario"]:
        v, ctx, err = mod.finish(r["seed"], r["scenario"]["tier"]).get("violation"), lib.Ctx(), None
    else:
        v, ctx, err = execute(mod, r["scenario"])
    if err:
        print(err)
        return 2
    if not v:
        print("no violation on this tree")
        return 0
    exact = lib.digest(ctx.trace, v) == r["trace_digest"]
    print("[%s] %s" % v)
    print("exactly as recorded" if exact else "differs from the recording (tree %s, recorded on %s)" % (tree_hash(), r["tree"]))
    for log, fired in ctx.trace:
        print("operations:", "; ".join(log))
        print("faults:", "; ".join(fired))
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
