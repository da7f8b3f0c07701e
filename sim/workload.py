"""Operations on the library: explicit JSON specifications, their execution and canonical results.

An operation is a dictionary. `k` is 'poly' or 'skel'; `f` names a footprint; the other keys vary the call
(see DEFAULTS). Everything is explicit, so that an operation in a replay file is self-contained together
with data/footprints.json.
"""
import json
import math
import os

from mathutils import Vector

HERE = os.path.dirname(os.path.abspath(__file__))

DEFAULTS = dict(
    k="poly", f="syn_rect", z=None, dx=0.0, dy=0.0, sc=1.0, ro=0.0, st=0, off=0, gap=0, hf=0, hr=0, twin=0,
    h=0.0, tan=0.5, uv=0, fl=None, nh=0, bad=None, ph=0.0,
    frz=0, tup=0, hl=0, zj=0.0, cv=0,
)
GEOM = ("f", "dx", "dy", "sc", "ro", "st", "nh", "bad", "ph", "zj")  # what decides about the shape of the input

_data = None


def footprints():
    global _data
    if _data is None:
        with open(os.path.join(HERE, "..", "data", "footprints.json")) as f:
            _data = json.load(f)
        _data.update(synthetic())
    return _data


def _regular(n, r, ph=0.0):
    return [[r * math.cos(2 * math.pi * i / n + ph), r * math.sin(2 * math.pi * i / n + ph)] for i in range(n)]


def synthetic():
    S = {}

    def s(name, outer, *holes):
        S["syn_" + name] = dict(outer=[list(map(float, p)) for p in outer], holes=[[list(map(float, p)) for p in h] for h in holes], z=3.0, uv=None)

    s("square", [(0, 0), (10, 0), (10, 10), (0, 10)])
    s("rect", [(0, 0), (20, 0), (20, 10), (0, 10)])
    s("tri", [(0, 0), (12, 0), (4, 9)])
    s("quad", [(0, 0), (12, 1), (14, 9), (-1, 7)])
    s("pent", [(0, 0), (11, -1), (15, 7), (6, 13), (-2, 8)])
    s("L", [(0, 0), (20, 0), (20, 10), (10, 10), (10, 20), (0, 20)])
    s("L2", [(0, 0), (25, 0), (25, 8), (11, 8), (11, 21), (0, 21)])
    s("T", [(0, 0), (30, 0), (30, 10), (20, 10), (20, 25), (10, 25), (10, 10), (0, 10)])
    s("U", [(0, 0), (30, 0), (30, 20), (20, 20), (20, 10), (10, 10), (10, 20), (0, 20)])
    s("plus", [(10, 0), (20, 0), (20, 10), (30, 10), (30, 20), (20, 20), (20, 30), (10, 30), (10, 20), (0, 20), (0, 10), (10, 10)])
    s("H", [(0, 0), (10, 0), (10, 10), (20, 10), (20, 0), (30, 0), (30, 30), (20, 30), (20, 20), (10, 20), (10, 30), (0, 30)])
    s("Z", [(0, 0), (20, 0), (20, 10), (30, 10), (30, 20), (10, 20), (10, 10), (0, 10)])
    s("hex", _regular(6, 10))
    s("oct", _regular(8, 10, 0.3))
    s("court", [(0, 0), (30, 0), (30, 30), (0, 30)], [(10, 10), (10, 20), (20, 20), (20, 10)])
    s("hole", [(0, 0), (31, 0), (33, 27), (-2, 25)], [(9, 8), (10, 17), (19, 18), (20, 9)])
    s("holes2", [(0, 0), (43, 0), (44, 22), (-1, 21)], [(6, 6), (6, 15), (15, 14), (16, 6)], [(26, 7), (25, 15), (35, 16), (36, 6)])
    s("demo", [(0, 0), (10, 0), (10, 5), (45, 5), (45, 20), (10, 20), (10, 25), (0, 25)], [(5, 16), (35, 16), (35, 9), (5, 9)])
    arc = [(12 + 6 * math.cos(a), 8 + 6 * math.sin(a)) for a in [-math.pi / 2 + math.pi * i / 12 for i in range(13)]]
    s("apse", [(0, 2)] + arc + [(0, 14)])
    s("dormer", [(0, 0), (14, 0), (14, -4), (20, -4), (20, 0), (34, 0), (34, 12), (0, 12)])
    return S


def full(op):
    d = dict(DEFAULTS)
    d.update(op)
    return d


def geometry(op):
    """2D contours (outer, holes) and unit vectors of an operation."""
    d = full(op)
    fp = footprints()[d["f"]]
    ca, sa = math.cos(d["ro"]), math.sin(d["ro"])

    def tr(p):
        x, y = p
        x, y = d["sc"] * x, d["sc"] * y
        if d["ro"]:
            x, y = x * ca - y * sa, x * sa + y * ca
        return (x + d["dx"], y + d["dy"])

    outer = [tr(p) for p in fp["outer"]]
    holes = [[tr(p) for p in h] for h in fp["holes"]]
    if d["nh"]:
        holes = holes[: d["nh"] - 1]
    st = d["st"] % len(outer)
    outer = outer[st:] + outer[:st]
    if d["ph"]:  # move one vertex a little
        outer[-1] = (outer[-1][0] + d["ph"], outer[-1][1] - d["ph"] * 0.5)
    bad = d["bad"]
    if bad == "dup":
        outer.insert(1, outer[0])
    elif bad == "cw":
        outer.reverse()
    elif bad == "bow":
        outer[1], outer[2] = outer[2], outer[1]
    elif bad == "col":
        outer = [(float(i), 2.0 * i) for i in range(len(outer))]
    elif bad == "same":
        outer = [outer[0]] * len(outer)
    elif bad == "two":
        outer = outer[:2]
    return outer, holes


BADGEOM = ("dup", "cw", "bow", "col", "same", "two")
BADS = ("dup", "cw", "bow", "col", "same", "two", "oob", "n0", "uvs", "hoob")


class Shared:
    """Input objects shared by several operations of a run."""

    def __init__(self):
        self.store = {}

    def get(self, key, make):
        if key not in self.store:
            self.store[key] = make()
        return self.store[key]


class Inst:
    """The materialised arguments of one operation."""

    __slots__ = ("op", "verts", "n0", "first", "num", "holes", "faces", "nf0", "uv", "h", "tan", "edges", "watch")


def filler(i):
    return Vector((1000.1234567 + i, -500.7654321 + 3 * i, 77.1234567))


def unit_vectors(outer, holes, rough=False):
    """rough: lengths that differ from 1 by rounding, as in vectors that have been rotated or stored as text."""
    res = []
    for c in [outer] + holes:
        for i, p in enumerate(c):
            q = c[(i + 1) % len(c)]
            v = Vector((q[0] - p[0], q[1] - p[1], 0.0))
            v.normalize()
            if rough:
                v *= 1.0 + 1e-6 * (len(res) * 5 % 7 - 3)
            res.append(v)
    return res


def materialise(op, shared=None, verts=None, faces=None, b=None, euclid=None, listcls=list, flistcls=list):
    """Builds the arguments. `verts`/`faces`: append to these lists instead of new ones."""
    d = full(op)
    I = Inst()
    I.op = d
    gkey = tuple((k, d[k]) for k in GEOM)
    outer, holes = geometry(d)
    if d["k"] == "skel":

        def mk():
            res = []
            for c in [outer] + holes:
                vs = [Vector(p) for p in c]
                res.append([euclid.Edge2(vs[i], vs[(i + 1) % len(vs)]) for i in range(len(vs))])
            return res

        I.edges = shared.get(("edges",) + gkey, mk) if shared else mk()
        if d["frz"]:
            freeze(v for c in I.edges for e in c for v in (e.p1, e.p2, e.norm))
        I.verts = I.faces = I.uv = I.holes = None
        I.n0 = I.nf0 = 0
        return I
    I.edges = None
    z = footprints()[d["f"]]["z"] if d["z"] is None else d["z"]

    def mkv():
        def put(c):
            return [Vector((p[0], p[1], z + d["zj"] * (i * 7 % 5 - 2))) for i, p in enumerate(c)]

        return put(outer), [put(h) for h in holes]

    vo, vh = shared.get(("v", z) + gkey, mkv) if shared else mkv()
    V = listcls() if verts is None else verts
    base = len(V)
    for i in range(d["off"]):
        V.append(Vector(vo[i % len(vo)]) if d["twin"] else filler(i))  # a vertex of a neighbour, at the same place
    info = []

    def put_holes():
        place = {}
        for k in reversed(range(len(vh))) if d["hr"] else range(len(vh)):
            for i in range(d["gap"]):
                V.append(filler(i + 7))
            place[k] = (len(V), len(vh[k]))
            for v in vh[k]:
                V.append(v)
        info.extend(list(place[k]) if d["hl"] else place[k] for k in range(len(vh)))

    if d["hf"]:
        put_holes()
    I.first = len(V)
    for v in vo:
        V.append(v)
    if not d["hf"]:
        put_holes()
    for i in range(d["gap"]):
        V.append(filler(i + 3))
    I.num = len(vo)
    bad = d["bad"]
    if bad == "oob":
        I.num = len(V) - I.first + 3
    elif bad == "n0":
        I.num = 0
    elif bad == "hoob":
        info.append((len(V) + 2, 4))
    I.holes = info or None
    if I.holes and shared:
        I.holes = shared.get(("hi", d["hl"], tuple(map(tuple, info))), lambda: list(info))
    I.uv = None
    if d["uv"] or bad == "uvs":
        def mku():
            return unit_vectors(outer, holes, d["uv"] == 2)

        I.uv = shared.get(("uv", d["uv"]) + gkey, mku) if shared else mku()
        if bad == "uvs":
            I.uv = I.uv[:2]
    I.verts = V
    I.n0 = len(V)
    if faces is not None:
        I.faces = faces
    elif d["fl"] is None:
        I.faces = None
    else:
        I.faces = flistcls()
        for i in range(d["fl"]):
            # entries of the caller: triangles, but also edges, points and an empty one
            f = [base + i % 3, base + (i + 1) % 3, base][:(3, 2, 3, 0, 1)[i % 5]]
            I.faces.append(tuple(f) if d["tup"] else f)
    I.nf0 = len(I.faces) if I.faces is not None else 0
    I.h = d["h"]
    I.tan = d["tan"]
    if d["frz"]:
        freeze(V)
        freeze(I.uv or ())
    return I


def freeze(vectors):
    """Vectors that refuse to be changed."""
    for v in vectors:
        if not v.is_frozen:
            v.freeze()


def again(I, op):
    """A further call on the same footprint in the same lists."""
    J = Inst()
    J.op = full(op)
    for k in ("verts", "first", "num", "holes", "faces", "uv", "edges"):
        setattr(J, k, getattr(I, k))
    J.n0 = len(J.verts)
    J.nf0 = len(J.faces)
    J.h = J.op["h"]
    J.tan = J.op["tan"]
    if not J.op["uv"]:
        J.uv = None
    elif J.uv is None or full(I.op)["uv"] != J.op["uv"]:
        outer, holes = geometry(J.op)
        J.uv = unit_vectors(outer, holes, J.op["uv"] == 2)
    return J


def call(I, b):
    """Executes the operation on the library module b."""
    if I.edges is not None:
        return b.skeletonize(I.edges)
    cv = full(I.op)["cv"]
    if not cv:
        return b.polygonize(I.verts, I.first, I.num, I.holes, I.h, I.tan, I.faces, I.uv)
    opt = [("holesInfo", I.holes, None), ("height", I.h, 0.0), ("tan", I.tan, 0.0), ("faces", I.faces, None), ("unitVectors", I.uv, None)]
    given = [x for x in opt if not (x[1] is None or type(x[1]) is float and x[1] == x[2])]
    if cv == 2:  # by name, without the ones that have their default
        return b.polygonize(I.verts, I.first, I.num, **{n: v for n, v, d in given})
    while opt and not (given and opt[-1] is given[-1]):  # by position, without the defaults at the end
        opt.pop()
    return b.polygonize(I.verts, I.first, I.num, *[v for n, v, d in opt])


def rot_min(t):
    k = t.index(min(t))
    return t[k:] + t[:k]


def canon_faces(I, newfaces):
    return canon_faces_at(I, newfaces, I.n0)


def namer(I, n0):
    hole = {}
    for k, (a, n) in enumerate(I.holes or ()):
        for i in range(n):
            hole[a + i] = (1, k, i)

    def nm(i):
        if I.first <= i < I.first + I.num:
            return (0, 0, i - I.first)
        if i in hole:
            return hole[i]
        if i >= n0:
            return (2, 0, i - n0)
        return (3, 0, i)

    return nm


def canon_faces_at(I, newfaces, n0):
    """Faces with contour/hole/new vertices named independent of their position in the list."""
    nm = namer(I, n0)
    return sorted(rot_min(tuple(nm(i) for i in f)) for f in newfaces if len(f)) + [()] * sum(1 for f in newfaces if not len(f))


def canon_verts(vs):
    return [repr(tuple(v)) for v in vs]


def canon_skel(sk):
    return sorted(
        (repr(tuple(a.source)), repr(float(a.height)), tuple(sorted(repr(tuple(s)) for s in a.sinks))) for a in sk
    )


def result(I, ret):
    """Canonical result of a successful call, or a description of what is wrong with it."""
    if I.edges is not None:
        return ("skel", canon_skel(ret), [repr(tuple(a.source)) for a in ret])
    if I.faces is None:
        new = ret
    else:
        if ret is not I.faces:
            return ("notsame", type(ret).__name__)
        new = list(I.faces)[I.nf0:]
    return ("poly", canon_verts(list(I.verts)[I.n0:]), canon_faces(I, new), order(I, new))


def order(I, new, n0=None):
    """Orders of faces and within faces, if contour and holes follow each other in the lists as in the reference call."""
    if I.op["hf"] or I.op["hr"]:
        return None
    nm = namer(I, I.n0 if n0 is None else n0)
    return [[nm(i) for i in f] for f in new]


def same(ref, res):
    """Two results of one operation agree."""
    if ref[0] != "poly" or res[0] != "poly":
        return ref == res
    return ref[1:3] == res[1:3] and (ref[3] is None or res[3] is None or ref[3] == res[3])


def exact(I, ret):
    """Result with all orders and indices."""
    if I.edges is not None:
        return ("skel", [(repr(tuple(a.source)), repr(float(a.height)), [repr(tuple(s)) for s in a.sinks]) for a in ret])
    return ("poly", [repr(tuple(v)) for v in I.verts], [list(f) for f in ret])


def ref_key(op):
    """Operations with the same key must have the same canonical result."""
    d = full(op)
    if d["k"] == "skel":
        return ("skel",) + tuple((k, d[k]) for k in GEOM)
    z = footprints()[d["f"]]["z"] if d["z"] is None else d["z"]
    return ("poly", z, d["h"], d["tan"], int(d["uv"])) + tuple((k, d[k]) for k in GEOM)


def ref_op(op):
    """The plainest operation with this key."""
    d = full(op)
    d.update(off=0, gap=0, hf=0, hr=0, twin=0, fl=None, frz=0, tup=0, hl=0, cv=0)
    return d
