"""Shared by the demonstrations: scratch folder, sample image, command line."""
import atexit
import os
import shutil
import struct
import subprocess
import sys
import tempfile

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


def scratch():
    d = tempfile.mkdtemp(prefix="demo.")
    atexit.register(shutil.rmtree, d, True)
    return d


def balloon():
    with open(os.path.join(REPO, "example_files", "balloon.jp2"), "rb") as f:
        return f.read()


def put(d, name, data):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return p


def box(tag, data):
    return struct.pack(">I", len(data) + 8) + tag + data


def boxes(data):
    """Top-level boxes of a JP2 as (type, start, end)."""
    out, o = [], 0
    while o + 8 <= len(data):
        n = struct.unpack(">I", data[o:o + 4])[0] or len(data) - o
        out.append((data[o + 4:o + 8], o, o + n))
        o += n
    return out


def before_codestream(data, extra):
    """Insert a box in front of the codestream box."""
    o = [a for t, a, _ in boxes(data) if t == b"jp2c"][0]
    return data[:o] + extra + data[o:]


def cli(args, pre="", **k):
    """Run the command line in a child, after executing the statements in pre."""
    code = ("import sys, os\nsys.path.insert(0, %r)\n%s\nfrom jpylyzer import jpylyzer\nsys.argv = ['jpylyzer'] + %r\n"
            "jpylyzer.main()\n" % (REPO, pre, list(args)))
    k.setdefault("stdout", subprocess.PIPE)
    k.setdefault("stderr", subprocess.PIPE)
    k.setdefault("timeout", 120)
    return subprocess.run([sys.executable, "-B", "-c", code], **k)


def text(e, path):
    x = e.find(path)
    return None if x is None else x.text


def ser(e):
    import xml.etree.ElementTree as ET
    return ET.tostring(e)


def need(ok, msg):
    if not ok:
        print("FAIL: " + msg)
        sys.stdout.flush()
        sys.exit(1)
