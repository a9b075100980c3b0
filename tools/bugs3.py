# Planted bugs, third set (see plant.py)
import os
import runpy
BUGS = {}
J, B, E, C, S, X = "jpylyzer.py", "boxvalidator.py", "etpatch.py", "byteconv.py", "shared.py", "mix.py"
HELP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))["HELP"]


def bug(i, prop, needs, breaks, edits, demo, files=None, help=True):
    BUGS[i] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=(HELP if help else "") + demo, files=files or {})


XSD = '''
from lxml import etree
X = etree.XMLSchema(etree.parse("xsd/jpylyzer-v-2-2.xsd"))
def conforms(e):
    import xml.etree.ElementTree as T
    return X.validate(etree.fromstring('<jpylyzer xmlns="http://openpreservation.org/ns/jpylyzer/v2/"><toolInfo><toolName>a</toolName>'
        '<toolVersion>b</toolVersion></toolInfo>' + T.tostring(e, "unicode") + '</jpylyzer>'))
need(conforms(check(balloon())), "control image")
'''

bug("c02-comment-swallows", "C02", "memory running out while a text comment is decoded",
    "the comment is silently reported empty in a result that claims success",
    [(B, "            except UnicodeError:\n                # Empty string in case of decode error", "            except Exception:\n                # Empty string in case of decode error")],
    '''
data = in_main(balloon(), seg(0xff64, b"\\0\\1made by hand"))
p = put(d, "a.jp2", data)
want = ser(J.checkOneFile(p))
for k in range(1, 40):
    n = [0]
    def local(f, ev, arg):
        if ev == "line":
            n[0] += 1
            if n[0] == k:
                raise MemoryError()
        return local
    sys.settrace(lambda f, ev, arg: local if f.f_code.co_name == "validate_com" else None)
    e = J.checkOneFile(p)
    sys.settrace(None)
    need(text(e, "statusInfo/success") == "False" or ser(e) == want, "wrong result reported as success")
''')

bug("c24-unreadable-dropped", "C24", "a marker segment that is cut short",
    "fields that cannot be read are left out of the report, which the output schema does not allow",
    [(B, "        self.characteristics.appendChildTagWithText(characteristic, charValue)",
      "        # Bogus value: nothing to report\n        if charValue != -9999:\n            self.characteristics.appendChildTagWithText(characteristic, charValue)")],
    XSD + '''
need(conforms(check(in_main(balloon(), seg(0xff5e, b"\\0")))), "report does not conform to the schema")
''')

bug("c24-url-not-utf8", "C24", "a URL box whose location is not UTF-8",
    "the location is left out, which the output schema does not allow",
    [(B, "            loc.decode(\"utf-8\", \"strict\")\n            self.testFor(\"locIsUTF8\", True)\n", "            self.addCharacteristic(\"loc\", loc.decode(\"utf-8\", \"strict\"))\n            self.testFor(\"locIsUTF8\", True)\n"),
     (B, "            self.testFor(\"locIsUTF8\", False)\n\n        self.addCharacteristic(\"loc\", loc)\n", "            self.testFor(\"locIsUTF8\", False)\n")],
    XSD + '''
def u(b):
    data = balloon()
    a = [x for t, x, y in boxes(data) if t == b"jp2c"][0]
    return check(data[:a] + box(b"uinf", box(b"ulst", b"\\0\\1" + b"u" * 16) + box(b"url ", b"\\0\\0\\0\\0" + b + b"\\0")) + data[a:])
need(conforms(u(b"http://a/")), "control image with URL")
need(conforms(u(b"http://\\xff\\xfe/")), "report does not conform to the schema")
''')


bug("c06-same-file-once", "C06", "two search patterns that match the same file in a recursive run",
    "a file that a second argument selects again is left out",
    [(J, "        if os.path.isfile(f):\n            EXISTING_FILES.append(f)\n\n\ndef getFilesWithPattern", "        if os.path.isfile(f) and f not in EXISTING_FILES:\n            EXISTING_FILES.append(f)\n\n\ndef getFilesWithPattern")],
    '''
os.mkdir(os.path.join(d, "s"))
put(os.path.join(d, "s"), "a.jp2", balloon())
del J.EXISTING_FILES[:]
J.findFiles(True, [os.path.join(d, "*.jp2"), os.path.join(d, "a*")])
need(len(J.EXISTING_FILES) == 2, "selected %d times" % len(J.EXISTING_FILES))
''')

bug("c07-tiles-before-limit", "C07", "damaged image or tile size that promises billions of tiles",
    "one table entry per promised tile is made before the number is limited",
    [(B, "            numberOfTilesExpected = min(numberOfTilesExpected, 65535)\n", "            tilePartsPerTileFound = dict.fromkeys(range(numberOfTilesExpected), 0)\n            numberOfTilesExpected = min(numberOfTilesExpected, 65535)\n"),
     (B, "            tilePartsPerTileFound = {}\n\n            # Create entry for each tile part and initialise value at 0\n            for i in range(numberOfTilesExpected):\n                tilePartsPerTileFound[i] = 0\n", "            # (initialised at 0 above)\n")],
    '''
import resource
data = at(balloon(), 0xff51, 22, struct.pack(">II", 1, 1))
data = at(data, 0xff51, 6, struct.pack(">II", 60000, 60000))
resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
need(text(check(data), "statusInfo/success") == "True", "memory exhausted")
''')

bug("c22-eoc-nearby", "C22", "bytes between the end of codestream marker and the end of its box",
    "an end of codestream marker that is not at the end is accepted",
    [(B, "                         self.boxContents[length - 2:length] == b'\\xff\\xd9')", "                         b'\\xff\\xd9' in self.boxContents[length - 4:length])")],
    '''
a, z = [(x, y) for t, x, y in boxes(balloon()) if t == b"jp2c"][0]
b = balloon()
b = b[:a] + struct.pack(">I", z - a + 2) + b[a + 4:z] + b"\\0\\0" + b[z:]
need(text(check(b), "isValid") == "False", "accepted")
''')

bug("c11-interrupt-as-failure", "C11", "the user interrupts the run while a file is being analysed",
    "the interrupt is reported as a failure of that file and the run goes on",
    [(J, "    except Exception as ex:\n        fileIsValid = False", "    except BaseException as ex:\n        fileIsValid = False")],
    '''
from jpylyzer import boxvalidator as V
def stop(self):
    raise KeyboardInterrupt()
V.BoxValidator.validate = stop
try:
    check(balloon())
except KeyboardInterrupt:
    pass
else:
    need(False, "interrupt swallowed")
''')

bug("c21-packet-length-wide", "C21", "a packet length of three or more bytes in a PLT segment",
    "packet lengths above 14 bits are cut off",
    [(B, "'X},').format(iplt_i)", "'X},').format(iplt_i & 0x3FFF)")],
    '''
a, z = [(x, y) for t, x, y in boxes(balloon()) if t == b"jp2c"][0]
b = balloon()
o = b.index(b"\\xff\\x90", a)
p = seg(0xff58, b"\\0" + b"\\x85\\x86\\x07\\x09")
psot = struct.unpack(">I", b[o + 6:o + 10])[0]
n = struct.unpack(">I", b[a:a + 4])[0]
b = b[:a] + struct.pack(">I", n + len(p) if n else 0) + b[a + 4:o + 6] + struct.pack(">I", psot + len(p) if psot else 0) + b[o + 10:o + 12] + p + b[o + 12:]
x = text(check(b, packetmarkersFlag=True), P + "contiguousCodestreamBox/tileParts/tilePart/plt/iplt")
need(x == "014307,09", "packet lengths %s" % x)
''')

