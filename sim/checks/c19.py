"""C19: the report does not depend on locale, console encoding, buffering or hash seed."""
import hashlib
import os
import random
import shutil
import subprocess
import sys

from .. import jp2gen, lib, proc, world as W
from . import c10, c17

ID = "C19"
LEVEL = "exploration"
QUICK = 3000
THOROUGH = 60000
RULE = "distinct (console encoding, error handler, newline convention, buffer size, name class, options) tuples compared with the UTF-8 console"
ASSUMPTIONS = ["hash seed and locale are varied in separate interpreters that analyse the same files; in these, file names are ASCII because the locale decides how other names are decoded"]
KEEP = ("spec",)
ENCS = ["ascii", "latin-1", "cp1252", "utf-16", "cp437", "utf-8-sig", "iso8859-15", "cp932", "utf-32", "utf-8", "koi8-r"]


def gen(rng, i, tier):
    opts = lib.gen_opts(rng, p=0.3)
    files = []
    used = set()
    for k in range(rng.choice([1, 2, 3])):
        n = c10.gen_name(rng) if rng.random() < 0.6 else b"f%d.jp2" % k
        if n in used:
            continue
        used.add(n)
        c = lib.gen_cheap(rng, opts, opts["fmt"] if rng.random() < 0.9 else None, pdmg=0.3, rich=rng.choice([None, 0.9]))
        if "spec" in c and not c.get("dmg") and rng.random() < 0.5:
            jp2gen.odd(rng, jp2gen.weird_xml(rng, c["spec"]))
        files.append([n.hex(), c])
    consoles = []
    for _ in range(4):
        consoles.append({"encoding": rng.choice(ENCS), "errors": rng.choice(["strict", "strict", "replace", "surrogateescape", "ignore"]),
                         "newline": rng.choice([None, "\n", "\r\n", "\r", ""]), "bufsize": rng.choice([0, 1, 7, 100, 4096, 8192, 1 << 20]),
                         "linesep": rng.choice(["\n", "\r\n"]), "err_encoding": rng.choice(["utf-8", "ascii"]), "err_errors": "backslashreplace",
                         "out": rng.choice([{}, {}, {"tty": True}, {"chunk": [1, 50, 3]}])})
    return {"opts": opts, "files": files, "consoles": consoles, "nommap": rng.random() < 0.2, "mode": rng.choice(["names", "names", "tree"])}


def run(sc, ctx):
    opts = dict(sc["opts"])
    files = [[os.fsdecode(bytes.fromhex(n)), lib.content(c)] for n, c in sc["files"]]
    if not files:
        return
    paths = ["./" + n for n, _ in files]
    if sc["mode"] == "tree":
        opts["recurse"] = True
        paths = ["."]
    args = lib.argv_of(opts) + paths
    base = {"nommap": sc["nommap"]}
    a = lib.batch(base, ctx, files, args)
    if a.o.hang or a.o.exc or a.o.exit != 0:
        raise lib.Violation("aborted", "UTF-8 console: the run ended with %s\n%s" % (a.o.brief(), a.o.tb))
    try:
        a.o.out.decode("utf-8")
    except UnicodeDecodeError as ex:
        raise lib.Violation("notutf8", "the report is not UTF-8: %s" % ex)
    for c in sc["consoles"]:
        b = lib.batch(dict(base, **c), ctx, files, args, root=a.w.root)
        what = "console %s" % {k: v for k, v in c.items()}
        if b.o.hang or b.o.exc or b.o.exit != a.o.exit:
            raise lib.Violation("aborted", "%s: the run ended with %s\n%s" % (what, b.o.brief(), b.o.tb))
        if b.o.out != a.o.out:
            x, y = a.o.out, b.o.out
            k = 0
            while k < min(len(x), len(y)) and x[k] == y[k]:
                k += 1
            raise lib.Violation("differs", "%s: the report differs at byte %d: %r instead of %r" % (what, k, y[k:k + 120], x[k:k + 120]))
        ctx.keys.append("%s|%s|%r|%d|%s|%s" % (c["encoding"], c["errors"], c["newline"], c["bufsize"],
                                               sorted({c10.klass(bytes.fromhex(n)) for n, _ in sc["files"]}), "".join(sorted(k[0] for k in opts))))
        ctx.count("console:" + c["encoding"])
    ctx.nontrivial = True


CHILD = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
sys.argv = ['/usr/local/bin/jpylyzer'] + sys.argv[2:]
from jpylyzer import jpylyzer
jpylyzer.main()
"""


def finish(seed, tier):
    """The same batches in separate interpreters with other hash seeds and locales."""
    rng = random.Random("C19child:%s" % seed)
    base = os.path.join(W.scratch_base(), "jpysim-%07d-child" % (os.getpid() % 10 ** 7))
    os.makedirs(base)
    n = 12 if tier == "quick" else 80
    done = 0
    try:
        for b in range(n):
            opts = lib.gen_opts(rng, p=0.4)
            d = os.path.join(base, "b%d" % b)
            os.makedirs(d)
            names = []
            for k in range(40):
                c = lib.gen_cheap(rng, opts, opts["fmt"], pdmg=0.4, rich=rng.choice([None, 0.8, 1.0]))
                if rng.random() < 0.3:
                    a = c17.aimed(rng, opts["fmt"])
                    if a and lib.cheap({"spec": a[0], "dmg": a[2]}, opts):
                        c = {"spec": a[0], "dmg": a[2]}
                if "spec" in c and not c.get("dmg") and rng.random() < 0.6:
                    jp2gen.odd(rng, jp2gen.weird_xml(rng, c["spec"]))
                p = os.path.join(d, "f%d.jp2" % k)
                with open(p, "wb") as f:
                    f.write(lib.content(c))
                os.utime(p, (1500000000, 1500000000))
                names.append("f%d.jp2" % k)
            how = b % 4
            if how == 1:
                names += [rng.choice(names) for _ in range(6)]
            elif how == 2:
                names = ["f1*.jp2", "*2.jp2", "f3.jp2"]
            args = lib.argv_of(opts) + (names if how != 3 else ["--recurse", "."])
            envs = [{"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8"}]
            for _ in range(5 if tier == "quick" else 12):
                envs.append({"PYTHONHASHSEED": str(rng.randrange(1, 4294967295)), "LC_ALL": rng.choice(["C", "POSIX", "C.UTF-8", "en_US.ISO-8859-1", "nl_NL"]),
                             "PYTHONIOENCODING": rng.choice(["", "ascii", "latin-1:strict", "utf-16", "cp1252"]), "PYTHONUTF8": rng.choice(["0", "1", ""]),
                             "PYTHONCOERCECLOCALE": rng.choice(["0", "1"]), "PYTHONUNBUFFERED": rng.choice(["", "1"]), "LANG": rng.choice(["", "C", "de_DE.UTF-8"])})
            ps = []
            for e in envs:
                env = {k: v for k, v in e.items() if v != ""}
                env["PATH"] = os.environ.get("PATH", "/usr/bin")
                env["TZ"] = "UTC"
                ps.append((e, subprocess.Popen([sys.executable, "-B", "-c", CHILD, proc.REPO] + args, cwd=d, env=env, stdin=subprocess.DEVNULL,
                                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
            outs = []
            for e, p in ps:
                try:
                    o, er = p.communicate(timeout=120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    return {"violation": ("hang", "interpreter with %s did not end" % e)}
                outs.append((e, o.replace(base.encode(), b"/ROOT"), p.returncode, er.replace(base.encode(), b"/ROOT")))
                done += 1
            for e, o, rc, er in outs[1:]:
                if (o, rc) != (outs[0][1], outs[0][2]):
                    x = outs[0][1]
                    k = 0
                    while k < min(len(x), len(o)) and x[k] == o[k]:
                        k += 1
                    return {"violation": ("child", "batch %d of seed %s, environment %s: status %s, the report differs at byte %d: %r instead of %r; %s"
                                          % (b, seed, e, rc, k, o[k:k + 120], x[k:k + 120], er[-300:]))}
            if outs[0][2] != 0 or not lib.parse_report(outs[0][1]).ok:
                return {"violation": ("child", "batch %d of seed %s: status %s, %s" % (b, seed, outs[0][2], outs[0][3][-500:]))}
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return {"separate_interpreters": done}
