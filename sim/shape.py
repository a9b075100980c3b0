"""Structural edits of an image: whole elements lost, repeated, moved or copied, with lengths made to fit.

This is what a broken writer, an interrupted edit in place or a lost and re-applied log record leaves behind.
edit(im, ops) gives a new image with its own map, so that the reference model still knows the structure.
Every edit is an explicit operation on the elements in file order:
  ["drop", i]  ["dup", i]  ["move", i, parent, pos]  ["copy", i, parent, pos]  ["grow", i, hex]  ["cut", i, bytes kept]
  ["grow", i, hex] for the codestream itself adds bytes behind its end
An operation that does not apply (any more) is ignored.
"""
from . import jp2gen, model


SUPER = ("box:jp2h", "box:res", "box:uinf", "box:jp2c")


class N:
    __slots__ = ("name", "items", "up")

    def __init__(self, name):
        self.name, self.items, self.up = name, [], None


def parse(im):
    def conv(node, up):
        n = N(node.name)
        n.up = up
        both = [(f[1], 0, f) for f in node.fields if f[2]] + [(p.off, 1, p) for p in node.parts]
        for _, k, x in sorted(both, key=lambda b: (b[0], b[1])):
            n.items.append(conv(x, n) if k else (x[0], im.data[x[1]:x[1] + x[2]]))
        return n
    return conv(model.tree(im), None)


def order(root):
    """All elements in file order."""
    out = []

    def go(n):
        out.append(n)
        for x in n.items:
            if isinstance(x, N):
                go(x)
    go(root)
    return out


def clone(n, up):
    m = N(n.name)
    m.up = up
    m.items = [clone(x, m) if isinstance(x, N) else x for x in n.items]
    return m


def group(n):
    """Kind of element (what it may be put into)."""
    if n.name.startswith("box:"):
        return "box"
    if n.name == "tilepart":
        return "tile"
    if n.name.startswith("mk:") and n.name not in ("mk:soc", "mk:siz", "mk:sot", "mk:sod", "mk:eoc"):
        return "seg"
    return None


def slots(n, g):
    """Places in the items of this element where an element of that kind may stand."""
    it = n.items
    if g == "box":
        if n.name == "file":
            return list(range(len(it) + 1)) if not it or it[0].name != "codestream" else []
        if n.name in ("box:jp2h", "box:res", "box:uinf"):
            h = sum(1 for x in it if not isinstance(x, N))
            return list(range(h, len(it) + 1))
        return []
    names = [x.name if isinstance(x, N) else "" for x in it]
    if g == "tile" and n.name == "codestream" and "tilepart" in names:
        return list(range(names.index("tilepart"), len(names) - names[::-1].index("tilepart") + 1))
    if g == "seg" and n.name == "codestream":
        if "tilepart" not in names:
            return []
        return list(range(2, names.index("tilepart") + 1))
    if g == "seg" and n.name == "tilepart":
        return list(range(1, names.index("mk:sod") + 1))
    return []


def within(n, up):
    while up is not None:
        if up is n:
            return True
        up = up.up
    return False


def free(n):
    """May be taken away."""
    if n.up is None or n.name == "codestream":
        return False
    if n.name == "mk:eoc":
        return True
    g = group(n)
    if g is None:
        return False
    if n.up.name == "file" or g == "tile":
        return sum(1 for x in n.up.items if isinstance(x, N) and group(x) == g) > 1
    return True


def do(root, op):
    k, i = op[0], op[1]
    ns = order(root)
    if i >= len(ns):
        return
    n = ns[i]
    if k == "grow" and n.name == "codestream":
        n.items.append(("tail", bytes.fromhex(op[2]).replace(b"\xff\x90", b"\xff\xd9")))
        return
    if k == "grow":
        if group(n) in ("box", "seg") and n.name not in SUPER:
            n.items.append(("grown", bytes.fromhex(op[2])))
        return
    if k == "cut":
        if group(n) in ("box", "seg") and n.name not in SUPER and n.name != "mk:sot":
            head = 3 if n.items[2:3] and not isinstance(n.items[2], N) and n.items[2][0].endswith(".xlen") else 2
            left = op[2]
            items = list(n.items[:head])
            for x in n.items[head:]:
                if isinstance(x, N) or left <= 0:
                    break
                items.append((x[0], x[1][:left]))
                left -= len(x[1])
            n.items[:] = items
        return
    if k == "drop":
        if free(n):
            n.up.items.remove(n)
        return
    g = group(n)
    if g is None:
        return
    if k == "dup":
        n.up.items.insert(n.up.items.index(n), clone(n, n.up))
        return
    if op[2] >= len(ns):
        return
    t = ns[op[2]]
    if within(n, t) or n.name == "box:jp2c" and t.name != "file":
        return
    if k == "copy":
        p = slots(t, g)
        if p:
            t.items.insert(p[op[3] % len(p)], clone(n, t))
    elif k == "move" and (free(n) or t is n.up):
        if not slots(t, g):
            return
        n.up.items.remove(n)
        p = slots(t, g) or [len(t.items) - sum(1 for x in t.items if not isinstance(x, N) and x[0] == "tail")]
        n.up = t
        t.items.insert(p[op[3] % len(p)], n)


def write(root, im):
    def put(n):
        s = jp2gen.Seq()
        for x in n.items:
            if isinstance(x, N):
                s.add(put(x))
            else:
                s.f(x[0], x[1])
        if n.up is not None:
            s.wrap(n.name)
        fix(n, s)
        return s

    def patch(s, f, v):
        s.data[f[1]:f[1] + f[2]] = v.to_bytes(f[2], "big")

    def fix(n, s):
        size = len(s.data)
        own = [x[0] for x in n.items if not isinstance(x, N)]
        if n.name.startswith("box:"):
            lf = s.fields[0]
            last = n.up.name == "file" and n.up.items[-1] is n
            if own[2:3] and own[2].endswith(".xlen"):
                patch(s, s.fields[2], size)
            elif s.data[:4] != b"\0\0\0\0" or not last:
                patch(s, lf, size)
        elif n.name.startswith("mk:") and own[1:2] and own[1].endswith(".L"):
            patch(s, s.fields[1], min(size - 2, 65535))
        elif n.name == "tilepart":
            f = [x for x in s.fields if x[0] == "sot.psot"][0]
            if s.data[f[1]:f[1] + 4] != b"\0\0\0\0":
                patch(s, f, size)
    s = put(root)
    new = jp2gen.Image()
    new.data, new.fields, new.elems, new.fmt, new.spec = bytes(s.data), s.fields, s.elems, im.fmt, im.spec
    return new


def edit(im, ops):
    if not ops:
        return im
    root = parse(im)
    for op in ops:
        do(root, op)
    return write(root, im)


def gen(rng, im, most=3, kinds_of=("drop", "drop", "dup", "dup", "move", "copy", "grow")):
    """Random edits that apply."""
    root = parse(im)
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, most])):
        ns = order(root)
        kinds = {}
        for i, n in enumerate(ns):
            if group(n) or n.name == "mk:eoc":
                kinds.setdefault(n.name, []).append(i)
        i = rng.choice(kinds[rng.choice(sorted(kinds))])
        n = ns[i]
        k = rng.choice(kinds_of)
        cs = [j for j, x in enumerate(ns) if x.name == "codestream"]
        if k == "grow" and cs and rng.random() < 0.1:
            i = cs[0]
            op = [k, i, rng.choice(["00", "0000", "ff", "ffd9", "ffd90000", "d9", "ff4f", "ffd9ffd9", "000000000000"])]
        elif k == "grow":
            op = [k, i, bytes(rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 3, 6, 8]))).hex()]
        elif k == "cut":
            op = [k, i, rng.choice([0, 0, 1, 2, 3, 4, rng.randrange(40)])]
        elif k in ("drop", "dup"):
            op = [k, i]
        else:
            ts = [j for j, t in enumerate(ns) if group(n) and slots(t, group(n)) and not within(n, t)]
            if not ts:
                continue
            op = [k, i, n_up(ns, n) if rng.random() < 0.5 and n_up(ns, n) in ts else rng.choice(ts), rng.randrange(12)]
        do(root, op)
        ops.append(op)
    return ops


def n_up(ns, n):
    for j, x in enumerate(ns):
        if x is n.up:
            return j
    return 0
