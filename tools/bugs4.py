# Planted bugs, fourth set (see plant.py)
import os
import runpy
BUGS = {}
J, B, E, C, S, X = "jpylyzer.py", "boxvalidator.py", "etpatch.py", "byteconv.py", "shared.py", "mix.py"
HELP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))["HELP"]


def bug(i, prop, needs, breaks, edits, demo, files=None, help=True):
    BUGS[i] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=(HELP if help else "") + demo, files=files or {})


bug("c05-mix-class", "C05", "two threads that ask for different versions of MIX, switched between the set-up and the use of the version",
    "one thread's MIX block is written in the other's version",
    [(X, "        self.mixFlag = mixFlag\n", "        Mix.mixFlag = mixFlag\n")],
    '''
import threading
from jpylyzer import mix
p = put(d, "a.jp2", balloon())
want = [ser(J.checkOneFile(p, mixFlag=m)) for m in (1, 2)]
got = [None, None]
first, second = threading.Event(), threading.Event()
real = mix.Mix.generateMix
def gen(self, props):
    if threading.current_thread().name == "one":
        first.set()
        second.wait(60)
    r = real(self, props)
    if threading.current_thread().name == "two":
        second.set()
    return r
mix.Mix.generateMix = gen
def run(k):
    if k:
        first.wait(60)
    got[k] = ser(J.checkOneFile(p, mixFlag=k + 1))
ts = [threading.Thread(target=run, args=(k,), name=n) for k, n in enumerate(("one", "two"))]
for t in ts:
    t.start()
for t in ts:
    t.join()
need(got == want, "results differ when run in parallel")
''')

bug("c03-end-of-report", "C03", "an output pipe or disk that fails when the last buffer of the report is written",
    "the report is incomplete, but the exit status is 0",
    [(J, "    out.write(\"</jpylyzer>\\n\")\n", "    out.write(\"</jpylyzer>\\n\")\n    try:\n        sys.stdout.flush()\n    except OSError:\n        shared.printWarning(\"end of report could not be written\")\n        sys.stdout = open(os.devnull, \"w\")\n")],
    '''
p = put(d, "a.jp2", b"\\0")
rd, wr = os.pipe()
os.close(rd)
os.environ.pop("PYTHONUNBUFFERED", None)
r = cli(["--nopretty", p], stdout=wr)
need(r.returncode != 0, "exit status 0")
''')

bug("c11-direct-status", "C11", "an interrupt of a program that was started as a module",
    "the exit status says that all went well",
    [(J, "if __name__ == \"__main__\":\n    main()", "if __name__ == \"__main__\":\n    try:\n        main()\n    except KeyboardInterrupt:\n        sys.exit()")],
    '''
import runpy
def stop(path):
    raise KeyboardInterrupt()
os.path.isfile = stop
sys.argv = ["jpylyzer", "a.jp2"]
for m in [m for m in sys.modules if m.startswith("jpylyzer")]:
    del sys.modules[m]
try:
    runpy.run_module("jpylyzer.jpylyzer", run_name="__main__")
except KeyboardInterrupt:
    pass
except SystemExit as ex:
    need(ex.code not in (None, 0), "status 0")
else:
    need(False, "swallowed")
''')

bug("c22-eight-tiles", "C22", "an image of more than eight tiles that has lost one of the last",
    "missing tiles are not noticed",
    [(B, "            self.testFor(\"foundExpectedNumberOfTiles\", len(\n                tileIndices) == numberOfTilesExpected)", "            self.testFor(\"foundExpectedNumberOfTiles\", len(\n                tileIndices) >= min(numberOfTilesExpected, 8))")],
    '''
data = at(balloon(), 0xff51, 6, struct.pack(">IIIIIIII", 12, 1, 0, 0, 1, 1, 0, 0))
a, z = [(x, y) for t, x, y in boxes(data) if t == b"jp2c"][0]
h = [(x, y) for t, x, y in boxes(data) if t == b"jp2h"][0]
data = bytearray(data)
i = data.index(b"ihdr", h[0])
data[i + 4:i + 12] = struct.pack(">II", 1, 12)
o = data.index(b"\\xff\\x90", a)
main = bytes(data[a + 8:o])
def image(n):
    parts = b"".join(struct.pack(">HHHIBBH", 0xff90, 10, k, 16, 0, 1, 0xff93) + b"\\0\\0" for k in range(n))
    return bytes(data[:a]) + box(b"jp2c", main + parts + b"\\xff\\xd9")
need(text(check(image(12)), "isValid") == "True", "control")
need(text(check(image(11)), "isValid") == "False", "a tile is missing, but the file is valid")
''')

bug("c15-size-of-stat", "C15", "a file replaced by one of another size between the size query and the opening",
    "the compression ratio mixes the size of the old with the content of the new version",
    [(J, "        bvOptions['nullxmlFlag'] = nullxmlFlag\n", "        bvOptions['nullxmlFlag'] = nullxmlFlag\n        bvOptions['fileSize'] = fileSize\n"),
     (B, "                compressionRatio = self._calculateCompressionRatio(\n                    noBytes, bPCDepthValues, height, width)", "                compressionRatio = self._calculateCompressionRatio(\n                    self.options['fileSize'], bPCDepthValues, height, width)")],
    '''
one = balloon()
two = before_codestream(one, box(b"uuid", b"u" * 200000))
p = put(d, "a.jp2", one)
ok = []
for data in (one, two):
    put(d, "a.jp2", data)
    ok.append(text(J.checkOneFile(p), P + "compressionRatio"))
put(d, "a.jp2", one)
real = os.path.getmtime
def swap(path):
    t = real(path)
    put(d, "b.jp2", two)
    os.replace(os.path.join(d, "b.jp2"), p)
    return t
os.path.getmtime = swap
e = J.checkOneFile(p)
uuids = len(e.findall(P + "uuidBox"))
need(text(e, P + "compressionRatio") == ok[1 if uuids > len(J.checkOneFile(put(d, "c.jp2", one)).findall(P + "uuidBox")) else 0], "compression ratio of another version")
''')

bug("c16-traceback", "C16", "a file that cannot be read in a process whose standard error is closed",
    "the run is aborted",
    [(J, "        shared.printWarning(failureMessage)\n", "        if sys.stderr.isatty():\n            shared.printWarning(failureMessage)\n        else:\n            shared.printWarning(failureMessage + \" (\" + path + \")\")\n")],
    '''
p = put(d, "a.jp2", balloon())
gone = "import os.path; os.path.getsize = lambda p: (_ for _ in ()).throw(OSError(5, 'x'))"
a = cli([p], gone)
b = cli([p], gone + "; sys.stderr = None")
need(a.returncode == 0, "control")
need((a.returncode, a.stdout) == (b.returncode, b.stdout), "the report differs without standard error")
''')

bug("c17-not-so-deep", "C17", "a failed test in a marker segment of a tile part",
    "the test is listed as failed, but the file is valid",
    [(B, "        for elt in self.tests.iter():\n            if elt.text is False:", "        for elt in self.tests.findall('*') + self.tests.findall('*/*') + self.tests.findall('*/*/*') + self.tests.findall('*/*/*/*'):\n            if elt.text is False:")],
    '''
a, z = [(x, y) for t, x, y in boxes(balloon()) if t == b"jp2c"][0]
b = balloon()
o = b.index(b"\\xff\\x90", a)
p = seg(0xff64, b"\\0\\x09x")
psot = struct.unpack(">I", b[o + 6:o + 10])[0]
n = struct.unpack(">I", b[a:a + 4])[0]
b = b[:a] + struct.pack(">I", n + len(p) if n else 0) + b[a + 4:o + 6] + struct.pack(">I", psot + len(p) if psot else 0) + b[o + 10:o + 12] + p + b[o + 12:]
e = check(b)
failed = [x.tag for x in e.find("tests").iter() if x.text == "False"]
need(failed, "control: no failed test")
need(text(e, "isValid") == "False", "%s failed, but the file is valid" % failed)
''')

bug("c23-ten-levels", "C23", "an image with ten or more resolution levels",
    "the number of resolution levels is missing in the MIX output",
    [(X, "        if str(levels) != \"0\":", "        if str(levels) in list(\"123456789\"):")],
    '''
need(b"resolutionLevels" in ser(check(balloon(), mixFlag=1)), "control")
o = balloon().index(b"\\xff\\x52")
data = at(balloon(), 0xff52, 9, b"\\x0a")
data = data.replace(b"\\xff\\x5c", b"\\xff\\x5c", 1)
from jpylyzer import mix
e = check(data)
pr = e.find("properties")
need(text(pr, "contiguousCodestreamBox/cod/levels") == "10", "control: levels")
m = mix.Mix(1).generateMix(pr)
need(b"resolutionLevels" in ser(m), "no levels")
''')

bug("c14-search-next", "C14", "a raw codestream whose tile part length is damaged, read with memory mapping and without it",
    "with memory mapping the analysis finds further tile parts",
    [(B, "        self.returnOffset = offsetNextTilePart\n", "        if hasattr(self.boxContents, \"tell\") and self.boxContents[\n                offsetNextTilePart:offsetNextTilePart + 2] not in [b'\\xff\\x90', b'\\xff\\xd9']:\n            # Mapped file: look for the next tile part\n            offsetNextTilePart = max(offsetNextTilePart, self.boxContents.find(\n                b'\\xff\\x90', self.startOffset + 12))\n\n        self.returnOffset = offsetNextTilePart\n")],
    '''
a, z = [(x, y) for t, x, y in boxes(balloon()) if t == b"jp2c"][0]
c = balloon()[a + 8:z]
o = c.index(b"\\xff\\x90")
part = struct.pack(">HHHIBBH", 0xff90, 10, 0, 30, 0, 2, 0xff93) + b"\\0\\0" + struct.pack(">HHHIBBH", 0xff90, 10, 0, 16, 1, 2, 0xff93) + b"\\0\\0" + b"\\0" * 20
part = struct.pack(">HHHIBBH", 0xff90, 10, 0, 15, 0, 2, 0xff93) + b"\\0" * 40 + struct.pack(">HHHIBBH", 0xff90, 10, 0, 16, 1, 2, 0xff93) + b"\\0\\0"
c = c[:o] + part + b"\\xff\\xd9"
p = put(d, "a.j2c", c)
one = ser(J.checkOneFile(p, "j2c"))
J.NO_MMAP_LIB = True
need(one == ser(J.checkOneFile(p, "j2c")), "the report depends on the way the file is read")
''')

bug("c18-mix-ratio", "C18", "--mix and an image whose compression ratio ends in a zero",
    "the reported compression ratio is another text than without --mix",
    [(J, "            mixProperties = mix.Mix(mixFlag).generateMix(characteristics)\n", "            for elt in characteristics.findall('compressionRatio'):\n                elt.text = '{0:.2f}'.format(float(elt.text))\n            mixProperties = mix.Mix(mixFlag).generateMix(characteristics)\n")],
    '''
data = balloon()
for pad in range(8, 4000):
    x = before_codestream(data, box(b"uuid", b"u" * (pad + 16)))
    e = check(x)
    r = text(e, P + "compressionRatio")
    if len(r.split(".")[1]) == 1:
        need(text(check(x, mixFlag=2), P + "compressionRatio") == r, "the compression ratio depends on --mix")
        break
else:
    need(False, "no sample")
''')

bug("c04-batch-options", "C04", "a batch with MIX output in which a file that cannot be read comes before another one",
    "the files after it are reported without MIX output",
    [(J, "    except Exception as ex:\n        fileIsValid = False\n        success = False\n", "    except Exception as ex:\n        fileIsValid = False\n        success = False\n        # No properties, so no MIX either\n        config.MIX_FLAG = mixFlag = 0\n")],
    '''
p, q = put(d, "a.jp2", balloon()), os.path.join(d, "b.jp2")
want = cli(["--mix", "1", p, p]).stdout.count(b"<mix:mix")
put(d, "b.jp2", balloon())
pre = "import builtins; R = builtins.open; builtins.open = lambda f, *a, **k: (_ for _ in ()).throw(OSError(5, 'input/output error')) if str(f).endswith('b.jp2') else R(f, *a, **k)"
got = cli(["--mix", "1", p, q, p], pre=pre).stdout.count(b"<mix:mix")
need(want == got == 2, "%d MIX blocks instead of %d" % (got, want))
''')

bug("c06-thousand", "C06", "a wildcard that matches more than a thousand files",
    "the files after the thousandth are not reported",
    [(J, "                for f in filesList:\n                    if os.path.isfile(f):", "                for f in filesList[:1000]:\n                    if os.path.isfile(f):")],
    '''
for k in range(1003):
    put(d, "f%d.jp2" % k, b"")
r = cli([os.path.join(d, "*.jp2")])
need(r.stdout.count(b"<fileName>") == 1003, "%d files reported" % r.stdout.count(b"<fileName>"))
''')

bug("c12-date-program", "C12", "a file whose modification time no calendar has",
    "another program is started",
    [(J, "            lastModifiedDate = datetime.datetime.fromtimestamp(0).isoformat()\n", "            lastModifiedDate = os.popen('date -d @0 +%Y-%m-%dT%H:%M:%S').read().strip()\n")],
    '''
p = put(d, "a.jp2", b"x")
os.path.getmtime = lambda x: 1e17
started = []
sys.addaudithook(lambda e, a: started.append(e) if e in ("subprocess.Popen", "os.system", "os.posix_spawn", "os.exec") else None)
J.checkOneFile(p)
need(not started, "started: %s" % started)
''')

bug("c17-first-hundred", "C17", "verbose output of an image with more than a hundred tile parts and a failed test in one of the last",
    "the failed test is not listed, and the image counts as valid",
    [(B, "                    tilePartTests.appendIfNotEmpty(testsTilePart)\n", "                    if len(tilePartTests) < 100:\n                        tilePartTests.appendIfNotEmpty(testsTilePart)\n")],
    '''
siz = struct.pack(">HHIIIIIIIIH", 41, 0, 120, 1, 0, 0, 1, 1, 0, 0, 1) + bytes([7, 1, 1])
head = b"\\xff\\x4f\\xff\\x51" + siz + b"\\xff\\x52" + struct.pack(">HBBHBBBBBB", 12, 0, 0, 1, 0, 0, 4, 4, 0, 1) + b"\\xff\\x5c" + struct.pack(">HBB", 4, 0, 64)
parts = [b"\\xff\\x90" + struct.pack(">HHIBB", 10 if t != 119 else 11, t, 15, 0, 1) + b"\\xff\\x93\\x00" for t in range(120)]
p = put(d, "a.j2c", head + b"".join(parts) + b"\\xff\\xd9")
a, b = J.checkOneFile(p, "j2c"), J.checkOneFile(p, "j2c", True)
need(text(a, "isValid") == "False" and text(b, "isValid") == "False", "verdicts %s %s" % (text(a, "isValid"), text(b, "isValid")))
''')

bug("c19-order-of-repeats", "C19", "a path that is given twice, and another hash seed",
    "the order of the report depends on the interpreter's hash seed",
    [(J, "    for path in EXISTING_FILES:\n\n        # Analyse file", "    once = set(EXISTING_FILES)\n    if len(once) < len(EXISTING_FILES):\n        # Files that were selected more than once come last\n        again = list(EXISTING_FILES)\n        for path in once:\n            again.remove(path)\n        EXISTING_FILES[:] = list(once) + again\n    for path in EXISTING_FILES:\n\n        # Analyse file")],
    '''
names = [put(d, "f%d.jp2" % k, b"") for k in range(12)]
got = set()
for s in ("1", "2", "3"):
    os.environ["PYTHONHASHSEED"] = s
    got.add(cli(names + names[:1]).stdout)
need(len(got) == 1, "%d different reports" % len(got))
''')
