# Planted bugs, second set (see plant.py)
BUGS = {}
J, B, E, C, S, X = "jpylyzer.py", "boxvalidator.py", "etpatch.py", "byteconv.py", "shared.py", "mix.py"

HELP = '''
import struct
from jpylyzer import jpylyzer as J
def in_header(data, extra):
    """Append a box to the JP2 header box."""
    a, z = [(x, y) for t, x, y in boxes(data) if t == b"jp2h"][0]
    return data[:a] + struct.pack(">I", z - a + len(extra)) + data[a + 4:z] + extra + data[z:]
def in_main(data, extra):
    """Insert marker segments in front of the first tile part."""
    a, z = [(x, y) for t, x, y in boxes(data) if t == b"jp2c"][0]
    o = data.index(b"\\xff\\x90", a)
    n = struct.unpack(">I", data[a:a + 4])[0]
    return data[:a] + struct.pack(">I", n + len(extra) if n else 0) + data[a + 4:o] + extra + data[o:]
def seg(code, content):
    return struct.pack(">HH", code, len(content) + 2) + content
def at(data, code, off, new):
    """Overwrite bytes of the first marker segment with this code (offset from the marker)."""
    a = [x for t, x, y in boxes(data) if t == b"jp2c"][0]
    o = data.index(struct.pack(">H", code), a) + off
    return data[:o] + new + data[o + len(new):]
d = scratch()
def check(data, **k):
    return J.checkOneFile(put(d, "a.jp2", data), **k)
P = "properties/"
'''


def bug(i, prop, needs, breaks, edits, demo, files=None, help=True):
    BUGS[i] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=(HELP if help else "") + demo, files=files or {})


bug("c01-narrow-except", "C01", "an error of an unusual class while a file is processed (memory running out)",
    "the run stops: the file and every file after it get no report",
    [(J, "    except Exception as ex:\n        fileIsValid = False", "    except (OSError, ValueError, TypeError, KeyError, AttributeError, RuntimeError) as ex:\n        fileIsValid = False")],
    '''
from jpylyzer import boxvalidator
def fail(self):
    raise MemoryError()
boxvalidator.BoxValidator.validate_cod = fail
try:
    e = check(balloon())
except MemoryError:
    need(False, "error escapes")
need(text(e, "statusInfo/success") == "False", "no failure report")
''')

bug("c04-cached-coc", "C04", "two files with the same COC segment but different numbers of components, one after the other",
    "the report of the second file depends on the first",
    [(B, "    def validate_coc(self):\n        \"\"\"",
      "    cocCache = {}\n\n    def validate_coc(self):\n        key = (bytes(self.boxContents), self.format, self.verboseFlag)\n        if key in self.cocCache:\n"
      "            cached = self.cocCache[key]\n            for element in cached[0]:\n                self.characteristics.append(element)\n"
      "            for element in cached[1]:\n                self.tests.append(element)\n            return\n        self.validateCOC()\n"
      "        self.cocCache[key] = (list(self.characteristics), list(self.tests))\n\n    def validateCOC(self):\n        \"\"\"")],
    '''
coc = seg(0xff53, bytes([1, 0, 1, 3, 3, 0, 1]))
p = put(d, "b.jp2", in_main(balloon(), coc))
a = ser(J.checkOneFile(p))
b = ser(J.checkOneFile(p, verboseFlag=False))
c = ser(J.checkOneFile(p))
wide = in_main(balloon(), coc)
o = wide.index(b"\\xff\\x51")
wide = wide[:o + 38] + struct.pack(">H", 300) + wide[o + 40:]
code = "import sys; sys.path.insert(0, %r); from jpylyzer import jpylyzer as J; import xml.etree.ElementTree as ET; sys.stdout.buffer.write(ET.tostring(J.checkOneFile(%r)))"
q = put(d, "w.jp2", wide)
alone = subprocess.run([sys.executable, "-B", "-c", code % (REPO, q)], stdout=subprocess.PIPE).stdout
need(a == c and ser(J.checkOneFile(q)) == alone, "report depends on the files before")
''')

bug("c05-shared-name", "C05", "two threads that open a file at the same time",
    "one thread reports on the other thread's file",
    [(J, "    platform = config.PLATFORM\n", "    platform = config.PLATFORM\n    global CURRENT\n    CURRENT = filename\n"),
     (J, "    with open(filename, \"rb\") as f:\n        try:\n            if platform", "    with open(CURRENT, \"rb\") as f:\n        try:\n            if platform")],
    '''
import builtins, threading
p, q = put(d, "p.jp2", balloon()), put(d, "q.jp2", balloon()[:300])
want = ser(J.checkOneFile(p))
# a second thread gets its turn after the first statements of fileToMemoryMap in the first one
turn, res = [True], []
def trace(frame, event, arg):
    if frame.f_code.co_name != "fileToMemoryMap":
        return trace if event == "call" and frame.f_code.co_name == "checkOneFile" else None
    def local(frame, event, arg):
        if event == "line" and "platform" in frame.f_locals and turn:
            turn.pop()
            t = threading.Thread(target=J.checkOneFile, args=(q,))
            t.start(); t.join()
        elif event == "line" and "mmWarnings" in frame.f_locals and len(turn) == 0 and not res:
            res.append(1)
            t = threading.Thread(target=J.checkOneFile, args=(q,))
            t.start(); t.join()
        return local
    return local
bad = False
for k in range(1, 12):
    n = [0]
    def trace(frame, event, arg):
        if frame.f_code.co_name == "checkOneFile":
            return trace
        if frame.f_code.co_name != "fileToMemoryMap":
            return None
        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
                if n[0] == k:
                    t = threading.Thread(target=J.checkOneFile, args=(q,))
                    t.start(); t.join()
            return local
        return local
    sys.settrace(trace)
    e = J.checkOneFile(p)
    sys.settrace(None)
    bad = bad or ser(e) != want
need(not bad, "report of another file")
''')

bug("c06-lower-case", "C06", "wildcard or recursive expansion where two names differ only in case",
    "files are left out of the selection",
    [(J, "            if len(filesList) > 1:\n                for f in filesList:", "            if len(filesList) > 1:\n                for f in {os.path.basename(f).lower(): f for f in filesList}.values():")],
    '''
for n in ("A.jp2", "a.jp2", "b.jp2"):
    put(d, n, b"x")
c = cli(["--nopretty", os.path.join(d, "*.jp2")])
need(c.stdout.count(b"</file>") == 3, "%d reports for 3 files" % c.stdout.count(b"</file>"))
''')

bug("c06-depth-limit", "C06", "recursive mode on a folder tree that is more than 20 levels deep",
    "files deep in the tree are never reported",
    [(J, "    for dirname, dirnames, filenames in os.walk(rootDir):\n        # Suppress directory names\n",
      "    for dirname, dirnames, filenames in os.walk(rootDir):\n        if dirname[len(rootDir):].count(os.sep) >= 20:\n            del dirnames[:]\n        # Suppress directory names\n")],
    '''
put(d, "x/" + "/".join("d%d" % i for i in range(22)) + "/a.jp2", b"x")
put(d, "x/b.jp2", b"x")
c = cli(["-r", os.path.join(d, "x")])
need(c.stdout.count(b"</file>") == 2, "%d reports for 2 files" % c.stdout.count(b"</file>"))
''')

bug("c14-unbuffered", "C14", "no memory mapping, and a device that returns less than was asked for (network file system)",
    "the rest of the file is never looked at",
    [(J, "    with open(filename, \"rb\") as f:\n        fileData = f.read()\n", "    with open(filename, \"rb\", buffering=0) as f:\n        fileData = f.read(os.path.getsize(filename))\n")],
    '''
import io, builtins
p = put(d, "a.jp2", balloon())
J.NO_MMAP_LIB = True
want = ser(J.checkOneFile(p))
class Raw(io.FileIO):
    def readinto(self, b):
        return super().readinto(memoryview(b)[:100])
    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        return super().read(min(n, 100))
def op(f, mode="r", buffering=-1, *a, **k):
    if f != p:
        return open(f, mode, buffering, *a, **k)
    r = Raw(f)
    return r if buffering == 0 else io.BufferedReader(r)
J.open = op
need(ser(J.checkOneFile(p)) == want, "report on a part of the file")
''')

bug("c14-page-rounding", "C14", "memory mapping of a file whose size is no multiple of four, compared with plain reading",
    "the last bytes are missing when the file is mapped",
    [(J, "                    f.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ)", "                    f.fileno(), max(1, os.path.getsize(filename) & ~3), mmap.MAP_SHARED, mmap.PROT_READ)")],
    '''
for n in range(4):
    p = put(d, "%d.jp2" % n, before_codestream(balloon(), box(b"xxxx", b"y" * n)))
    J.NO_MMAP_LIB = False
    a = ser(J.checkOneFile(p))
    J.NO_MMAP_LIB = True
    need(a == ser(J.checkOneFile(p)), "report depends on the way of reading")
''')

bug("c16-warnings-module", "C16", "an input that does not exist and a warning filter that turns warnings into errors",
    "the run ends with an error and the other files are not reported",
    [(J, "            msg = root + \" does not exist\"\n            shared.printWarning(msg)", "            msg = root + \" does not exist\"\n            import warnings\n            warnings.warn(msg)")],
    '''
p = put(d, "a.jp2", balloon())
env = dict(os.environ, PYTHONWARNINGS="error")
c = cli([os.path.join(d, "none.jp2"), p], env=env)
need(c.stdout.count(b"</file>") == 1 and c.returncode == 0, "no report: %r" % c.stderr[-100:])
''')

bug("c18-mix-strips", "C18", "MIX output of an image whose comment begins or ends with white space",
    "the option changes the reported properties",
    [(J, "        if mixFlag != 0 and fileIsValid:\n            mixProperties",
      "        if mixFlag != 0 and fileIsValid and characteristics.find('contiguousCodestreamBox/com/comment') is not None:\n"
      "            comment = characteristics.find('contiguousCodestreamBox/com/comment')\n            comment.text = (comment.text or '').strip()\n"
      "        if mixFlag != 0 and fileIsValid:\n            mixProperties")],
    '''
data = balloon()
o = data.index(b"\\xff\\x64", [a for t, a, _ in boxes(data) if t == b"jp2c"][0])
data = data[:o + 6] + b" " + data[o + 7:]
a, b = check(data), check(data, mixFlag=1)
need(ser(a.find("properties")) == ser(b.find("properties")), "the MIX option changes the properties")
''')

bug("c20-realpath", "C20", "a file that is reached through a symbolic link",
    "the reported path is not the path of the file that was asked for",
    [(J, "    filePath = os.path.abspath(path)", "    filePath = os.path.realpath(path)")],
    '''
d = os.path.realpath(d)
put(d, "real/a.jp2", balloon())
os.symlink("real", os.path.join(d, "link"))
q = os.path.join(d, "link", "a.jp2")
need(text(J.checkOneFile(q), "fileInfo/filePath") == q, "path of another file")
''')

bug("c21-component-257", "C21", "an image with exactly 257 components and a COC segment",
    "the component index is read from one byte and every value after it from the wrong place",
    [(B, "        if self.csiz < 257:\n            # Index of component to which this marker relates\n            ccoc", "        if self.csiz <= 257:\n            # Index of component to which this marker relates\n            ccoc")],
    '''
data = balloon()
a, z = [(x, y) for t, x, y in boxes(data) if t == b"jp2c"][0]
o = data.index(b"\\xff\\x51", a)
n = struct.unpack(">H", data[o + 2:o + 4])[0]
siz = data[o:o + 40]
siz = siz[:2] + struct.pack(">H", 38 + 3 * 257) + siz[4:38] + struct.pack(">H", 257) + bytes([7, 1, 1]) * 257
data = data[:o] + siz + data[o + 2 + n:]
data = in_main(data, seg(0xff53, struct.pack(">H", 256) + bytes([0, 2, 3, 3, 0, 1])))
data = data[:a] + struct.pack(">I", 0) + data[a + 4:]
e = check(data)
need(text(e, P + "contiguousCodestreamBox/coc/ccoc") == "256" and text(e, P + "contiguousCodestreamBox/coc/levels") == "2", "wrong component")
''')

bug("c21-resolution-exponent", "C21", "a display resolution with different exponents for the two directions",
    "horizontal exponent and resolution are taken from the vertical one",
    [(B, "        hRdE = bc.bytesToSignedChar(self.boxContents[9:10])", "        hRdE = bc.bytesToSignedChar(self.boxContents[8:9])")],
    '''
e = check(in_header(balloon(), box(b"res ", box(b"resd", struct.pack(">HHHHbb", 300, 1, 300, 1, 2, 1)))))
need(text(e, P + "jp2HeaderBox/resolutionBox/displayResolutionBox/hRdE") == "1", "wrong exponent")
''')

bug("c21-qcc-wide", "C21", "an image of more than 256 components with a QCC segment of style 2",
    "the last quantisation values of the segment are not reported",
    [(B, "            levels = int((lqcc - 7) / 6)", "            levels = int((lqcc - 8) / 6)")],
    '''
data = balloon()
a, z = [(x, y) for t, x, y in boxes(data) if t == b"jp2c"][0]
o = data.index(b"\\xff\\x51", a)
n = struct.unpack(">H", data[o + 2:o + 4])[0]
siz = data[o:o + 40]
siz = siz[:2] + struct.pack(">H", 38 + 3 * 300) + siz[4:38] + struct.pack(">H", 300) + bytes([7, 1, 1]) * 300
data = data[:o] + siz + data[o + 2 + n:]
data = in_main(data, seg(0xff5d, struct.pack(">HB", 299, 0x42) + struct.pack(">7H", *range(2048, 2055))))
data = data[:a] + struct.pack(">I", 0) + data[a + 4:]
e = check(data)
x = [y.text for y in e.findall(P + "contiguousCodestreamBox/qcc/mu")]
need(x == ["0", "1"] , "values %s" % x)
''')

bug("c22-codeblock-sum", "C22", "a COC segment whose code block exponents add up to 13",
    "a code block that is too large passes the test and the image is called valid",
    [(B, """            self.boxContents[offset:offset + 1]) + 2
        self.addCharacteristic("codeBlockHeight", 2 ** codeBlockHeightExponent)

        # Value within range 2-10
        codeBlockHeightExponentIsValid = 2 <= codeBlockHeightExponent <= 10
        self.testFor(
            "codeBlockHeightExponentIsValid", codeBlockHeightExponentIsValid)

        # Sum of width + height exponents mustn't exceed 12
        sumHeightWidthExponentIsValid = codeBlockWidthExponent + \\
            codeBlockHeightExponent <= 12""",
      """            self.boxContents[offset:offset + 1]) + 2
        self.addCharacteristic("codeBlockHeight", 2 ** codeBlockHeightExponent)

        # Value within range 2-10
        codeBlockHeightExponentIsValid = 2 <= codeBlockHeightExponent <= 10
        self.testFor(
            "codeBlockHeightExponentIsValid", codeBlockHeightExponentIsValid)

        # Sum of width + height exponents mustn't exceed 12
        sumHeightWidthExponentIsValid = codeBlockWidthExponent + \\
            codeBlockHeightExponent <= 13""")],
    '''
coc = lambda h: in_main(balloon(), seg(0xff53, bytes([1, 0, 5, 4, h, 0, 1])))
need(text(check(coc(4)), "isValid") == "True", "control image is not valid")
need(text(check(coc(5)), "isValid") == "False", "code block of 64 x 128 accepted")
''')

bug("c22-contiguous-colour", "C22", "three colour specification boxes, of which the last is apart from the others",
    "the boxes count as contiguous and the image is called valid",
    [(S, "    return consecutive(indices_of_value)", "    return not indices_of_value or consecutive(indices_of_value[:2])")],
    '''
colr = box(b"colr", bytes([1, 0, 0, 0, 0, 0, 16]))
res = box(b"res ", box(b"resd", struct.pack(">HHHHbb", 300, 1, 300, 1, 2, 1)))
need(text(check(in_header(in_header(balloon(), colr), colr)), "isValid") == "True", "control image is not valid")
e = check(in_header(in_header(in_header(balloon(), colr), res), colr))
need(text(e, "isValid") == "False", "scattered colour boxes accepted")
''')

bug("c22-resolution-pair", "C22", "a display resolution box that appears twice next to no capture resolution box",
    "the doubled box is accepted",
    [(B, "                     subBoxTypes.count(tagDisplayResolutionBox) <= 1)", "                     len(subBoxTypes) <= 2)")],
    '''
r = box(b"resd", struct.pack(">HHHHbb", 300, 1, 300, 1, 2, 1))
need(text(check(in_header(balloon(), box(b"res ", r))), "isValid") == "True", "control image is not valid")
need(text(check(in_header(balloon(), box(b"res ", r + r))), "isValid") == "False", "doubled resolution accepted")
''')

bug("c23-display-swapped", "C23", "only a display resolution, with different values for the two directions",
    "horizontal and vertical sampling frequency are exchanged in MIX",
    [(X, "            mixXSamplingFrequency = ET.Element('mix:xSamplingFrequency')", "            if resolutionBox.find('hRescInPixelsPerMeter') is None:\n                numX, numY = numY, numX\n            mixXSamplingFrequency = ET.Element('mix:xSamplingFrequency')")],
    '''
e = check(in_header(balloon(), box(b"res ", box(b"resd", struct.pack(">HHHHbb", 300, 1, 200, 1, 1, 1)))), mixFlag=1)
x = [y.text for y in e.iter("mix:numerator")]
need(x[-2:] == ["200000", "300000"], "sampling frequencies %s" % x)
''')

bug("c23-first-depth", "C23", "components of different bit depths",
    "one bit depth for all components in MIX 2.0",
    [(X, "            for e in values:\n", "            for e in values[:1] * len(values):\n")],
    '''
data = at(balloon(), 0xff51, 40, bytes([7, 1, 1, 7, 1, 1, 11, 1, 1]))
a = [x for t, x, y in boxes(data) if t == b"jp2h"][0]
o = data.index(b"ihdr", a)
data = data[:o + 14] + bytes([255]) + data[o + 15:]
data = in_header(data, box(b"bpcc", bytes([7, 7, 11])))
e = check(data, mixFlag=2)
need(text(e, "isValid") == "True", "image is not valid")
x = [y.text for y in e.iter("mix:bitsPerSampleValue")]
need(x == ["8", "8", "12"], "depths %s" % x)
''')

bug("c23-xmp-element-only", "C23", "XMP properties as attributes in a UUID box, next to an unrelated XML box",
    "the capture metadata in the UUID box are not looked at once there is an XML box",
    [(X, "        if not rdfBox:\n            rdfBox = properties.find('uuidBox/", "        if not rdfBox and properties.find('xmlBox') is None:\n            rdfBox = properties.find('uuidBox/")],
    '''
xmp = (b'<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
       b'<rdf:Description xmlns:tiff="http://ns.adobe.com/tiff/1.0/" tiff:Make="M"><tiff:Artist>A</tiff:Artist></rdf:Description></rdf:RDF></x:xmpmeta>')
data = balloon()
data = b"".join(data[a:z] for t, a, z in boxes(data) if t != b"xml ")
data = before_codestream(data, box(b"xml ", b"<a/>") + box(b"uuid", bytes.fromhex("be7acfcb97a942e89c71999491e3afac") + xmp))
e = check(data, mixFlag=2)
need([y.text for y in e.iter("mix:scannerManufacturer")] == ["M"], "capture metadata missing")
''')
