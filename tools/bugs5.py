# Planted bugs, fifth set (see plant.py): long lists and the ends of ranges
import os
import runpy
BUGS = {}
B = "boxvalidator.py"
HELP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))["HELP"]


def bug(i, prop, needs, breaks, edits, demo, files=None):
    BUGS[i] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=HELP + demo, files=files or {})


CS = '''
def cs(extra=b"", nc=1):
    siz = struct.pack(">HHIIIIIIIIH", 38 + 3 * nc, 0, 1, 1, 0, 0, 1, 1, 0, 0, nc) + bytes([7, 1, 1]) * nc
    head = b"\\xff\\x4f\\xff\\x51" + siz + b"\\xff\\x52" + struct.pack(">HBBHBBBBBB", 12, 0, 0, 1, 0, 0, 4, 4, 0, 1) + b"\\xff\\x5c" + struct.pack(">HBB", 4, 0, 64)
    return head + extra + b"\\xff\\x90" + struct.pack(">HHIBB", 10, 0, 15, 0, 1) + b"\\xff\\x93\\x00\\xff\\xd9"
'''

bug("c21-long-poc", "C21", "a progression order change segment with more than 32 changes",
    "the later changes are not reported",
    [(B, "        for _ in range(progOrderChanges):\n", "        for _ in range(min(progOrderChanges, 32)):\n")],
    CS + '''
p = put(d, "a.j2c", cs(b"\\xff\\x5f" + struct.pack(">H", 2 + 7 * 40) + bytes([0, 0, 0, 1, 33, 1, 0]) * 40))
r = ser(J.checkOneFile(p, "j2c"))
need(r.count(b"<rspoc>") == 40, "%d changes reported" % r.count(b"<rspoc>"))
''')

bug("c21-many-compatible", "C21", "a file type box with more than 64 entries in its compatibility list",
    "the later entries are not reported",
    [(B, "        for _ in range(int(numberOfCompatibilityFields)):\n", "        for _ in range(min(int(numberOfCompatibilityFields), 64)):\n")],
    '''
b = balloon()
n = struct.unpack(">I", b[12:16])[0]
p = put(d, "a.jp2", b[:12] + struct.pack(">I", n + 400) + b[16:12 + n] + b"abcd" * 100 + b[12 + n:])
r = ser(J.checkOneFile(p))
need(r.count(b"<cL>abcd</cL>") == 100, "%d entries reported" % r.count(b"<cL>abcd</cL>"))
''')

bug("c22-component-limit", "C22", "an image with more than 256 components and a progression order change that ends at component 16384",
    "the highest end component that the standard allows is rejected",
    [(B, "                cepocIsValid = (cspoc + 1) <= cepoc <= 16384 or cepoc == 0\n", "                cepocIsValid = (cspoc + 1) <= cepoc <= 16383 or cepoc == 0\n")],
    CS + '''
p = put(d, "a.j2c", cs(b"\\xff\\x5f" + struct.pack(">HBHHBHB", 11, 0, 0, 1, 33, 16384, 0), 257))
r = ser(J.checkOneFile(p, "j2c"))
need(b"cepocIsValid" not in r and text(J.checkOneFile(p, "j2c"), "isValid") == "True", "end component 16384 is rejected")
''')

bug("c22-late-control", "C22", "a comment with a control character after its two hundredth character",
    "the comment counts as valid",
    [(B, "            if bc.removeControlCharacters(comment) == comment:\n", "            if bc.removeControlCharacters(comment[:200]) == comment[:200]:\n")],
    CS + '''
t = b"a" * 300 + b"\\x07"
p = put(d, "a.j2c", cs(b"\\xff\\x64" + struct.pack(">HH", 4 + len(t), 1) + t))
need(b"<commentIsValid>False" in ser(J.checkOneFile(p, "j2c")), "no failed test")
''')
