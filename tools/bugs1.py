# Planted bugs, first set (see plant.py)
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

BUGS = {}


def bug(i, prop, needs, breaks, edits, demo, files=None):
    BUGS[i] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, files=files or {})


bug("c01-vanished-skipped", "C01", "a file that is selected and then vanishes before its turn comes",
    "the vanished file gets no report at all instead of a failure report",
    [("jpylyzer.py", "    for path in EXISTING_FILES:\n\n        # Analyse file", "    for path in filter(os.path.isfile, EXISTING_FILES):\n\n        # Analyse file")],
    '''
d = scratch()
a, b = put(d, "a.jp2", balloon()), put(d, "b.jp2", balloon())
from jpylyzer import jpylyzer as J
import io
real = J.checkOneFile
def gone(path, *args):
    if path == a:
        os.remove(b)
    return real(path, *args)
J.checkOneFile = gone
class Out:
    buffer = io.BytesIO()
so, sys.stdout = sys.stdout, Out
J.checkFiles(False, [a, b])
sys.stdout = so
n = Out.buffer.getvalue().count(b"</file>")
need(n == 2, "%d reports for two selected files" % n)
''')

bug("c02-text-swallows", "C02", "memory running out while a text property is decoded",
    "the property silently becomes empty in a result that claims success",
    [("byteconv.py", "    except UnicodeDecodeError:\n        # Return empty string if bytestring cannot be decoded", "    except Exception:\n        # Return empty string if bytestring cannot be decoded")],
    '''
d = scratch()
p = put(d, "a.jp2", balloon())
from jpylyzer import jpylyzer as J, byteconv
want = ser(J.checkOneFile(p))
real = byteconv.removeControlCharacters
n = [0]
def fail(s):
    if s == "jp2 ":
        n[0] += 1
        raise MemoryError()
    return real(s)
byteconv.removeControlCharacters = fail
e = J.checkOneFile(p)
need(n[0] == 0 or (text(e, "statusInfo/success") == "False" or ser(e) == want), "wrong result reported as success")
''')

bug("c03-broken-pipe-ok", "C03", "the reader of the output pipe goes away before the report is complete",
    "exit status 0 although the report was not delivered",
    [("jpylyzer.py", "    # Check files\n    checkFiles(config.INPUT_RECURSIVE_FLAG, jp2In)\n",
      "    # Check files\n    try:\n        checkFiles(config.INPUT_RECURSIVE_FLAG, jp2In)\n        sys.stdout.flush()\n    except BrokenPipeError:\n"
      "        # Reader has seen enough; avoid a second error at interpreter shutdown\n        os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())\n")],
    '''
d = scratch()
p = put(d, "a.jp2", balloon())
r, w = os.pipe()
os.close(r)
c = cli([p], stdout=w)
os.close(w)
need(c.returncode != 0, "status 0 without a delivered report")
''')

bug("c03-retry-duplicates", "C03", "an output device that temporarily accepts no data (non-blocking pipe that is full)",
    "the part that was already accepted is written again",
    [("jpylyzer.py", "    else:\n        codec.write(xmlOut)\n\n\ndef checkFiles",
      "    else:\n        try:\n            codec.write(xmlOut)\n        except BlockingIOError:\n            # Output not ready, try once more\n            codec.write(xmlOut)\n\n\ndef checkFiles")],
    '''
import io
from jpylyzer import jpylyzer as J, config
import codecs
config.NO_PRETTY_XML_FLAG = True
got = []
class Dev:
    n = 0
    def write(self, b):
        Dev.n += 1
        if Dev.n == 1:
            got.append(b[:10])
            raise BlockingIOError(11, "again", 10)
        got.append(b)
        return len(b)
e = J.ET.Element("file")
e.appendChildTagWithText("a", "x" * 50)
want = J.ET.tostring(e, "unicode", "xml").encode()
try:
    J.writeElement(e, codecs.getwriter("UTF-8")(Dev()))
except BlockingIOError:
    pass
need(want.startswith(b"".join(got)), "output is not a prefix of the report: %r" % b"".join(got))
''')

bug("c04-shared-warnings", "C04", "an empty file analysed earlier in the same process",
    "the warning of the empty file appears in the results of all files analysed later",
    [("jpylyzer.py", "def fileToMemoryMap(filename):", "def fileToMemoryMap(filename, mmWarnings=[]):"),
     ("jpylyzer.py", "    # List for storing any warnings\n    mmWarnings = []\n", "")],
    '''
d = scratch()
p, q = put(d, "a.jp2", balloon()), put(d, "e.jp2", b"")
from jpylyzer import jpylyzer as J
want = ser(J.checkOneFile(p))
J.checkOneFile(q)
need(ser(J.checkOneFile(p)) == want, "result depends on an earlier analysis")
''')

bug("c05-shared-options", "C05", "two threads analysing with different options, switched between the option set-up and their use",
    "a call is analysed with the options of another thread",
    [("jpylyzer.py", "# list of existing files to be analysed\n", "# BoxValidator options\nBV_OPTIONS = {}\n\n# list of existing files to be analysed\n"),
     ("jpylyzer.py", "        bvOptions = {}\n", "        bvOptions = BV_OPTIONS\n")],
    '''
d = scratch()
p = put(d, "a.jp2", balloon())
import threading
from jpylyzer import jpylyzer as J
from jpylyzer import boxvalidator as bv
want = ser(J.checkOneFile(p, "jp2", True))
real = bv.BoxValidator.validate_fileTypeBox
inside, go = threading.Event(), threading.Event()
def slow(self):
    if threading.current_thread().name == "first":
        inside.set()
        go.wait(20)
    return real(self)
bv.BoxValidator.validate_fileTypeBox = slow
out = []
t = threading.Thread(target=lambda: out.append(ser(J.checkOneFile(p, "jp2", True))), name="first")
t.start()
inside.wait(20)
J.checkOneFile(p, "jp2", False)
go.set()
t.join()
need(out[0] == want, "result differs when another thread analyses at the same time")
''')

bug("c06-hidden-dirs", "C06", "recursive mode on a tree with a directory whose name starts with a dot",
    "files below it are not reported",
    [("jpylyzer.py", "    for dirname, dirnames, filenames in os.walk(rootDir):\n", "    for dirname, dirnames, filenames in os.walk(rootDir):\n        dirnames[:] = [name for name in dirnames if not name.startswith('.')]\n"),
     ("jpylyzer.py", "            # pylint: disable=W0612\n            thisDirectory = os.path.join(dirname, subdirname)\n\n        for filename in filenames:", "            # pylint: disable=W0612\n            _ = os.path.join(dirname, subdirname)\n\n        for filename in filenames:")],
    '''
d = scratch()
put(d, "t/a.jp2", balloon())
put(d, "t/.h/b.jp2", balloon())
r = cli(["-r", os.path.join(d, "t")])
need(r.stdout.count(b"</file>") == 2, "%d of 2 files reported" % r.stdout.count(b"</file>"))
''')

bug("c07-trailing-bytes-loop", "C07", "one to three stray bytes after the last box of a JP2 header box",
    "the analysis never ends",
    [("boxvalidator.py", "        # Dummy value\n        boxLengthValue = 10\n\n        while byteStart < noBytes and boxLengthValue not in [0, -9999]:\n            boxLengthValue, boxType, byteEnd, subBoxContents = self._getBox(\n                byteStart, noBytes)\n\n            # Validate sub-boxes\n            resultsBox = BoxValidator(\n                self.options,\n                boxType,\n                subBoxContents).validate()\n            testsBox = resultsBox.tests\n            characteristicsBox = resultsBox.characteristics\n            warningsBox = resultsBox.warnings\n\n            byteStart = byteEnd\n\n            # Add to list of box types\n            subBoxTypes.append(boxType)\n\n            # Add test results, characteristics and warnings to their\n            # respective trees\n            self.tests.appendIfNotEmpty(testsBox)\n            self.characteristics.append(characteristicsBox)\n            self.warnings.appendIfNotEmpty(warningsBox)\n\n        # Do all required header boxes exist",
      "        # Dummy value\n        boxLengthValue = 10\n\n        while byteStart < noBytes and boxLengthValue != 0:\n            boxLengthValue, boxType, byteEnd, subBoxContents = self._getBox(\n                byteStart, noBytes)\n\n            # Validate sub-boxes\n            resultsBox = BoxValidator(\n                self.options,\n                boxType,\n                subBoxContents).validate()\n            testsBox = resultsBox.tests\n            characteristicsBox = resultsBox.characteristics\n            warningsBox = resultsBox.warnings\n\n            byteStart = byteEnd\n\n            # Add to list of box types\n            subBoxTypes.append(boxType)\n\n            # Add test results, characteristics and warnings to their\n            # respective trees\n            self.tests.appendIfNotEmpty(testsBox)\n            self.characteristics.append(characteristicsBox)\n            self.warnings.appendIfNotEmpty(warningsBox)\n\n        # Do all required header boxes exist")],
    '''
data = balloon()
t, a, z = [b for b in boxes(data) if b[0] == b"jp2h"][0]
data = data[:a] + box(b"jp2h", data[a + 8:z] + b"\\0\\0") + data[z:]
p = put(scratch(), "a.jp2", data)
import resource
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
try:
    r = cli([p], timeout=20)
except subprocess.TimeoutExpired:
    need(False, "analysis does not end")
need(r.returncode == 0 and b"memory error" not in r.stdout, "analysis exhausts the memory")
''')

bug("c08-beyond-end", "C08", "bytes lost from within the last tile part, so that its recorded length points beyond the end of the codestream",
    "the damaged image is reported valid",
    [("boxvalidator.py", "        if tilePartLength != 0:\n            # This will skip", "        if tilePartLength != 0 and offsetNextTilePart < len(self.boxContents):\n            # This will skip")],
    '''
data = balloon()
t, a, z = [b for b in boxes(data) if b[0] == b"jp2c"][0]
sot = data.rindex(b"\\xff\\x90\\x00\\x0a", a, z)
psot = struct.unpack(">I", data[sot + 6:sot + 10])[0]
if not psot:
    data = data[:sot + 6] + struct.pack(">I", z - 2 - sot) + data[sot + 10:]
cut = sot + (z - sot) // 2
bad = data[:a] + box(b"jp2c", data[a + 8:cut] + data[cut + 20:z]) + data[z:]
d = scratch()
from jpylyzer import jpylyzer as J
need(text(J.checkOneFile(put(d, "a.jp2", data)), "isValid") == "True", "sample image not valid")
need(text(J.checkOneFile(put(d, "b.jp2", bad)), "isValid") == "False", "image with lost data is reported valid")
''')

bug("c09-isot-keyerror", "C09", "a damaged tile index in the header of a tile part",
    "the analysis ends in an internal error",
    [("boxvalidator.py", "                    try:\n                        tilePartsPerTileFound[\n                            tileIndex] = tilePartsPerTileFound[tileIndex] + 1\n                    except KeyError:\n",
      "                    if tileIndex < 65535:\n                        tilePartsPerTileFound[tileIndex] += 1\n                    else:\n")],
    '''
data = balloon()
sot = data.rindex(b"\\xff\\x90\\x00\\x0a")
d = scratch()
from jpylyzer import jpylyzer as J
e = J.checkOneFile(put(d, "b.jp2", data[:sot + 4] + b"\\x40\\x00" + data[sot + 6:]))
need(text(e, "statusInfo/success") == "True", "internal error: " + str(text(e, "statusInfo/failureMessage")))
''')

bug("c10-noncharacter", "C10", "a text property that contains U+FFFE or U+FFFF",
    "the run aborts in the middle of the report (text is not allowed in XML)",
    [("byteconv.py", "    return \"\".join(ch for ch in string if unicodedata.category(ch)[\n                   0] != \"C\" or ch in allowedChars)", "    return \"\".join(ch for ch in string if unicodedata.category(\n                   ch) not in (\"Cc\", \"Cf\", \"Cs\") or ch in allowedChars)")],
    '''
data = balloon()
data = before_codestream(data, box(b"\\xef\\xbf\\xbeX", b"abc"))
p = put(scratch(), "a.jp2", data)
r = cli([p])
import xml.etree.ElementTree as ET
try:
    ET.fromstring(r.stdout)
except ET.ParseError as e:
    need(False, "report is not well-formed: %s" % e)
need(r.returncode == 0, "run aborted")
''')

bug("c11-xml-swallows", "C11", "an interrupt that arrives while embedded XML is parsed",
    "the interrupt is swallowed and the XML is reported as not well-formed",
    [("boxvalidator.py", "        except Exception:\n            # If parse raised error this is not well-formed XML\n            containsWellformedXML = False\n\n            # Useful",
      "        except:  # noqa: E722\n            # If parse raised error this is not well-formed XML\n            containsWellformedXML = False\n\n            # Useful")],
    '''
data = before_codestream(balloon(), box(b"xml ", b"<a/>"))
p = put(scratch(), "a.jp2", data)
from jpylyzer import jpylyzer as J
def stop(x):
    raise KeyboardInterrupt()
J.ET.fromstring = stop
try:
    J.checkOneFile(p)
except KeyboardInterrupt:
    sys.exit(0)
need(False, "interrupt was swallowed")
''')

bug("c12-spool-file", "C12", "a file system on which mapping a file fails with an error",
    "the file is copied to a temporary file",
    [("jpylyzer.py", "                fileData = mmap.mmap(\n                    f.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ)\n",
      "                try:\n                    fileData = mmap.mmap(\n                        f.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ)\n                except OSError:\n                    # Some network file systems cannot map files, so map a copy\n                    with tempfile.TemporaryFile() as copy:\n                        shutil.copyfileobj(f, copy)\n                        copy.flush()\n                        fileData = mmap.mmap(\n                            copy.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ)\n"),
     ("jpylyzer.py", "import datetime\nimport glob\n", "import datetime\nimport shutil\nimport tempfile\nimport glob\n")],
    '''
d = scratch()
p = put(d, "a.jp2", balloon())
from jpylyzer import jpylyzer as J
real = J.mmap.mmap
n = [0]
def fail(*a, **k):
    n[0] += 1
    if n[0] == 1:
        raise OSError(19, "No such device")
    return real(*a, **k)
class M:
    ACCESS_READ, MAP_SHARED, PROT_READ = J.mmap.ACCESS_READ, J.mmap.MAP_SHARED, J.mmap.PROT_READ
    mmap = staticmethod(fail)
J.mmap = M
made = []
def audit(ev, args):
    if ev == "open" and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        made.append(args[0])
sys.addaudithook(audit)
J.checkOneFile(p)
need(not made, "the analysis created %r" % made)
''')

bug("c13-descriptor-leak", "C13", "a file that can be opened but not mapped",
    "its descriptor stays open, once for each such file",
    [("jpylyzer.py", "    with open(filename, \"rb\") as f:\n        try:\n            if platform", "    fd = os.open(filename, os.O_RDONLY | getattr(os, \"O_BINARY\", 0))\n    if fd >= 0:\n        try:\n            if platform"),
     ("jpylyzer.py", "mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)", "mmap.mmap(fd, 0, access=mmap.ACCESS_READ)"),
     ("jpylyzer.py", "                    f.fileno(), 0, mmap.MAP_SHARED", "                    fd, 0, mmap.MAP_SHARED"),
     ("jpylyzer.py", "    return fileData, mmWarnings\n", "    os.close(fd)\n\n    return fileData, mmWarnings\n")],
    '''
p = put(scratch(), "a.jp2", balloon())
from jpylyzer import jpylyzer as J
class M:
    ACCESS_READ, MAP_SHARED, PROT_READ = J.mmap.ACCESS_READ, J.mmap.MAP_SHARED, J.mmap.PROT_READ
    @staticmethod
    def mmap(*a, **k):
        raise OSError(12, "Cannot allocate memory")
J.checkOneFile(p)
J.mmap = M
n = len(os.listdir("/proc/self/fd"))
for i in range(5):
    J.checkOneFile(p)
n = len(os.listdir("/proc/self/fd")) - n
need(n == 0, "%d descriptors left open" % n)
''')

bug("c14-short-read", "C14", "a platform without mmap and storage that returns less than asked for",
    "the rest of the file is not read and a valid image is reported invalid",
    [("jpylyzer.py", "    with open(filename, \"rb\") as f:\n        fileData = f.read()\n\n    return fileData\n",
      "    with open(filename, \"rb\", buffering=0) as f:\n        fileData = f.read(os.path.getsize(filename))\n\n    return fileData\n")],
    '''
data = balloon()
p = put(scratch(), "a.jp2", data)
import io, builtins
from jpylyzer import jpylyzer as J
class Short(io.FileIO):
    def read(self, n=-1):
        return super().read(min(n, 4096) if n > 0 else n)
    def readinto(self, b):
        return super().readinto(memoryview(b)[:4096])
real = open
def sopen(name, mode="r", buffering=-1, **k):
    if name == p:
        raw = Short(name, "r")
        return raw if buffering == 0 else io.BufferedReader(raw)
    return real(name, mode, buffering, **k)
J.open = sopen
need(J.fileToBytes(p) == data, "short read ends the file")
''')

bug("c15-stale-size", "C15", "a file replaced by a longer version between the size query and the opening",
    "the longer version is judged by its first part only",
    [("jpylyzer.py", "    # Open filename\n    with open(filename, \"rb\") as f:\n", "    size = os.path.getsize(filename)\n    # Open filename\n    with open(filename, \"rb\") as f:\n"),
     ("jpylyzer.py", "                    f.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ)", "                    f.fileno(), size, mmap.MAP_SHARED, mmap.PROT_READ)")],
    '''
d = scratch()
data = balloon()
p, q = put(d, "a.jp2", data[:20] + b"jpx " + data[24:1000]), put(d, "b.jp2", data)
from jpylyzer import jpylyzer as J
def view(e):
    return ser(e.find("isValid")), ser(e.find("tests")), ser(e.find("properties"))
old, new = view(J.checkOneFile(p)), view(J.checkOneFile(q))
real = open
def sopen(name, *a, **k):
    if name == p and os.path.exists(q):
        os.replace(q, p)
    return real(name, *a, **k)
J.open = sopen
need(view(J.checkOneFile(p)) in (old, new), "result is that of no version")
''')

bug("c16-print-none", "C16", "a process without standard error and an argument that does not exist",
    "the diagnostic ends up in the report on standard output",
    [("jpylyzer.py", "            msg = root + \" does not exist\"\n            shared.printWarning(msg)\n", "            print(\"User warning: \" + root + \" does not exist\", file=sys.stderr)\n")],
    '''
d = scratch()
p = put(d, "a.jp2", balloon())
a = [os.path.join(d, "nope"), p]
want = cli(a)
got = cli(a, pre="sys.stderr = None")
need(got.stdout == want.stdout and got.returncode == want.returncode, "report differs without standard error")
''')

bug("c17-first-part-only", "C17", "a failed test in a second or later tile part of a tile",
    "the failure is not listed and the file can be reported valid",
    [("boxvalidator.py", "                    tilePartTests.appendIfNotEmpty(testsTilePart)\n", ""),
     ("boxvalidator.py", "                    if tileIndex not in tileIndices:\n                        tileIndices.append(tileIndex)\n", "                    if tileIndex not in tileIndices:\n                        tileIndices.append(tileIndex)\n                        tilePartTests.appendIfNotEmpty(testsTilePart)\n")],
    '''
data = balloon()
t, a, z = [b for b in boxes(data) if b[0] == b"jp2c"][0]
sot = data.rindex(b"\\xff\\x90\\x00\\x0a", a, z)
isot = data[sot + 4:sot + 6]
part = lambda tp, body: b"\\xff\\x90\\x00\\x0a" + isot + struct.pack(">IBB", 12 + len(body), tp, 2) + body
def image(second):
    cs = data[a + 8:sot] + part(0, data[sot + 12:z - 2]) + part(1, second) + b"\\xff\\xd9"
    return data[:a] + box(b"jp2c", cs) + data[z:]
d = scratch()
from jpylyzer import jpylyzer as J
need(text(J.checkOneFile(put(d, "a.jp2", image(b"\\xff\\x93" + b"x" * 10))), "isValid") == "True", "sample is not valid")
qcd = data.index(b"\\xff\\x5c", a)
seg = data[qcd:qcd + 2 + struct.unpack(">H", data[qcd + 2:qcd + 4])[0]]
e = J.checkOneFile(put(d, "b.jp2", image(seg + b"\\xff\\x93" + b"x" * 10)))
need(text(e, "isValid") == "False" and e.find(".//QCDAllowed") is not None, "failed test is not listed")
''')

bug("c18-nullxml-verdict", "C18", "an XML box with a null terminator analysed with --nullxml",
    "the option changes the verdict from invalid to valid",
    [("boxvalidator.py", "                    data = bc.removeNullTerminator(data)\n                    dataAsElement = ET.fromstring(data)\n                    self.characteristics.append(dataAsElement)\n                except MemoryError:\n                    raise\n                except Exception:\n                    pass\n\n        self.testFor(\"containsWellformedXML\", containsWellformedXML)\n\n    def validate_uuidBox",
      "                    data = bc.removeNullTerminator(data)\n                    dataAsElement = ET.fromstring(data)\n                    self.characteristics.append(dataAsElement)\n                    containsWellformedXML = True\n                except MemoryError:\n                    raise\n                except Exception:\n                    pass\n\n        self.testFor(\"containsWellformedXML\", containsWellformedXML)\n\n    def validate_uuidBox")],
    '''
p = put(scratch(), "a.jp2", before_codestream(balloon(), box(b"xml ", b"<a/>\\0")))
from jpylyzer import jpylyzer as J
a, b = J.checkOneFile(p), J.checkOneFile(p, nullxmlFlag=True)
need(text(a, "isValid") == text(b, "isValid"), "--nullxml changes the verdict")
''')

bug("c19-console-unicode", "C19", "a console whose encoding is a Unicode encoding other than UTF-8",
    "the report is not UTF-8, and its bytes depend on the console",
    [("jpylyzer.py", "    out = codecs.getwriter(config.UTF8_ENCODING)(sys.stdout.buffer)\n", "    encoding = sys.stdout.encoding or ''\n    if not encoding.lower().startswith('utf'):\n        encoding = config.UTF8_ENCODING\n    out = codecs.getwriter(encoding)(sys.stdout.buffer)\n")],
    '''
p = put(scratch(), "a.jp2", balloon())
w = "sys.stdout = __import__('io').TextIOWrapper(sys.stdout.detach(), encoding=%r)"
a, b = cli([p], pre=w % "utf-8"), cli([p], pre=w % "utf-16")
need(a.returncode == 0 and a.stdout == b.stdout, "report depends on the console encoding")
''')

bug("c20-backslash-name", "C20", "a file name that contains a backslash",
    "the reported file name is only a part of the real one",
    [("jpylyzer.py", "    fileName = os.path.basename(path)\n", "    fileName = os.path.basename(path.replace('\\\\', '/'))\n")],
    '''
p = put(scratch(), "a\\\\b.jp2", balloon())
from jpylyzer import jpylyzer as J
e = J.checkOneFile(p)
need(text(e, "fileInfo/fileName") == "a\\\\b.jp2", "wrong file name %r" % text(e, "fileInfo/fileName"))
''')
