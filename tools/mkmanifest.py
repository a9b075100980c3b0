import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
T = {
 "C01": ("seeded simulation of batch runs with injected storage and memory faults; refinement against each file's undisturbed result",),
 "C02": ("seeded simulation with allocation failures at executed lines and storage faults at operations; refinement against the undisturbed result",),
 "C03": ("seeded simulation of the output device (short writes, EAGAIN, full, closed); prefix and completeness check of the delivered bytes",),
 "C04": ("seeded simulation of histories of calls in one process; refinement against a fresh process per call",),
 "C05": ("seeded simulation of thread schedules (cooperative scheduler at line level); refinement against sequential results",),
 "C06": ("seeded simulation of directory trees, enumeration orders and concurrent changes; exactly-once check against an independent selection model",),
 "C07": ("seeded stored-data fault injection with a step counter; bounded-work check",),
 "C08": ("seeded injection of lost, torn and zeroed writes into conforming images; verdict check",),
 "C09": ("seeded stored-data fault injection; verdict check on every damaged file",),
 "C10": ("seeded simulation with hostile names, damaged text fields and read faults; well-formedness and shape check of the output stream",),
 "C11": ("seeded simulation of interrupts at executed lines and storage operations; prefix and stop check",),
 "C12": ("seeded simulation of crashes, interrupts and faults; audit of mutating operations, disk snapshots, rerun after crash",),
 "C13": ("seeded simulation with faults and interrupts; descriptor and mapping accounting from the kernel",),
 "C14": ("seeded simulation of platforms, short reads and faults; differential check between access paths",),
 "C15": ("seeded simulation of concurrent atomic replacement; result must belong to one version",),
 "C16": ("seeded simulation of a broken diagnostics device; differential check of report and exit status",),
 "C17": ("seeded stored-data and read fault injection; verdict/tests invariant and recorded fault-to-test table",),
 "C18": ("seeded stored-data faults across option combinations; differential check",),
 "C19": ("seeded simulation of console encodings, newline conventions and buffering, plus interpreters with seeded hash seed and locale; differential check",),
 "C20": ("seeded simulation of timestamps, time zones, clock skew, sizes and path forms; check against the stored metadata",),
 "C21": ("seeded stored-data faults (changed values, lost, repeated and moved elements) read over simulated access paths with read faults; refinement of the reported properties against an executable reference model",),
 "C22": ("seeded stored-data faults (changed values, lost, repeated and moved elements) read over simulated access paths with read faults; refinement of test outcomes and verdict against an executable reference model",),
 "C23": ("seeded stored-data faults that leave the image valid, read over simulated access paths with read faults; refinement of the MIX block against an executable reference model",),
 "C24": ("seeded stored-data faults (values, structure, damage) and read faults in simulated batch runs; every report validated against the schema it names",),
}
m = {"version": 1,
     "setup_cmd": "/bin/sh tools/setup.sh",
     "checks": [], "not_applicable": []}
for i in range(1, 25):
    n = "c%02d" % i
    mod = importlib.import_module("sim.checks." + n)
    lvl = mod.LEVEL
    m["checks"].append({"property": mod.ID, "quick_cmd": "./run.sh " + n, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + n,
                        "technique": "deterministic simulation with fault injection: " + T[mod.ID][0],
                        "level": lvl,
                        "level_note": ("%d seeded simulated runs (quick), %d (thorough); measure: %s" % (mod.QUICK, mod.THOROUGH, mod.RULE)) +
                                      (". Assumes: " + "; ".join(mod.ASSUMPTIONS) if getattr(mod, "ASSUMPTIONS", None) else "")})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
