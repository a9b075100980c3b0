"""Make and verify planted bugs: plant.py DEFS.py [ID ...]; result in /verif/seeded/<id>.

A definition file has BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo=str, files={name: bytes})}.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import runpy

PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/pb/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    if os.path.isdir(W):
        shutil.rmtree(W)
    os.makedirs("/tmp/pb", exist_ok=True)
    sh("cp -a /repo " + W)


def tests():
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
    r = sh(PY + " -m pytest -q -p no:cacheprovider --timeout=300 --tb=line -o junit_family=xunit2 --junitxml=/tmp/pb/junit.xml 2>&1 | tail -3"
           " ; /usr/bin/python3 /opt/vp/results.py /tmp/pb/out.json junit:/tmp/pb/junit.xml", cwd=W, env=env)
    base, got = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/pb/out.json"))
    stable = set(next(base[k] for k in ("stable", "passed", "tests", "pass") if k in base))
    lost = sorted(stable - {x.replace(W, "/repo") for x in got["passed"]})
    return not lost, r.stdout + str(lost[:3])


def demo(d, cwd):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    try:
        return sh("bash %s/demo.sh" % d, cwd=cwd, timeout=300, env=env)
    except subprocess.TimeoutExpired as e:
        class T:
            returncode, stdout = 124, "timeout"
        return T


def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:] or list(defs)
    for i in want:
        b = defs[i]
        fresh()
        for f, old, new in b["edits"]:
            p = os.path.join(W, "jpylyzer", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT DOES NOT APPLY", s.count(old), old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        else:
            d = os.path.join(V, "seeded", i)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
            open(d + "/demo.sh", "w").write('#!/bin/bash\nP=/opt/venv/bin/python\n[ -x $P ] || P=python3\n'
                                            'exec $P -B "$(dirname "$0")/demo.py"\n')
            open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                                            "from j import *\n" + b["demo"].lstrip("\n"))
            shutil.copy(V + "/tools/j.py", d)
            for n, data in b.get("files", {}).items():
                open(os.path.join(d, n), "wb").write(data)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            ok, log = tests()
            a, z = demo(d, "/repo"), demo(d, W)
            good = ok and a.returncode == 0 and z.returncode not in (0, 2)
            line = "%s %s tests=%s clean=%d patched=%d" % (i, "GOOD" if good else "**BAD**", bool(ok), a.returncode, z.returncode)
            if not good:
                line += "\n" + log + a.stdout[-800:] + "\n---\n" + z.stdout[-800:]
            else:
                line += " | " + z.stdout.strip()[-150:]
            if os.environ.get("CHECK", "1") == "1":
                env = dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick")
                r = sh("./run.sh " + b["prop"].lower(), cwd=V, env=env, timeout=900)
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violat" in l.lower()]
                line += "\n   check rc=%d %s" % (r.returncode, (v or r.stdout.splitlines()[-2:])[:2])
            print(line, flush=True)
            shutil.rmtree(d + "/__pycache__", ignore_errors=True)


main()
