"""C13: exported MESH."""
import numpy

from sx.runner import Job

from .c11 import cross, dot, sub, volume, FACES

BOUNDS = (
    "boxes of up to 2x2x1, 2x1x2 and 3x1x1 hexahedra with any spacings and origin, pairs of sheared hexahedra, pairs of general "
    "tetrahedra, a tetrahedron on a pyramid and two unconnected cells; any boundary cells, any material of every cell out of named "
    "and numbered materials, names of 1 to 5 characters, renamed and moved materials; label lengths 5 to 9"
)
OUTSIDE = "larger meshes; the rounding to the width of the columns (C01, C05)"
ASSUMPTIONS = [
    "coordinates are real numbers between -1e99 and 1e99 or 0; texts of numbers carry their exact value",
    "the line joining two neighbouring cells crosses the plane of their face (true for convex cells)",
]

GAP = "%-15s"


def boxes(sx, n, shear=False):
    """Points and cells of a box grid; sheared ones lean in x (and y)."""
    nx, ny, nz = n

    def axis(name, k):
        v = [sx.real("o" + name, -100, 100)]
        for i in range(k):
            v.append(v[-1] + sx.real("d%s%d" % (name, i), 0.01, 100))
        return v

    X, Y, Z = axis("x", nx), axis("y", ny), axis("z", nz)
    s = [sx.real("s%d" % i, -100, 100) for i in range(2)] if shear else [0, 0]
    pts, at = [], {}
    for k, z in enumerate(Z):
        for j, y in enumerate(Y):
            for i, x in enumerate(X):
                at[i, j, k] = len(pts)
                pts.append([x + s[0] * z, y + s[1] * z, z] if shear else [x, y, z])
    cells = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                cells.append(("hexahedron", [at[i + a, j + b, k + c] for a, b, c in
                                             [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]))
    return pts, cells


def slanted(sx):
    """Two hexahedra with a slanted face between them."""
    a, b, c, d = [sx.real(n, 0.01, 100) for n in "abcd"]
    h, w = sx.real("h", 0.01, 100), sx.real("w", 0.01, 100)
    xs = {0: [0, a, a + b], 1: [0, c, c + d]}
    pts = [[xs[k][i], j * w, k * h] for k in (0, 1) for j in (0, 1) for i in (0, 1, 2)]
    at = lambda i, j, k: k * 6 + j * 3 + i
    cells = [("hexahedron", [at(i + p, q, r) for p, q, r in
                             [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]) for i in (0, 1)]
    return pts, cells


def tetras(sx):
    p = [sx.real(n, -100, 100) for n in ("px", "py")] + [sx.real("pz", 0.01, 100)]
    q = [sx.real(n, -100, 100) for n in ("qx", "qy")] + [-sx.real("qz", 0.01, 100)]
    e, f = sx.real("e", 0.01, 100), sx.real("f", 0.01, 100)
    pts = [[0, 0, 0], [e, 0, 0], [0, f, 0], p, q]
    return pts, [("tetra", [0, 1, 2, 3]), ("tetra", [0, 2, 1, 4])]


def tetpyr(sx):
    """A tetrahedron and a pyramid with a triangle in common, standing on it."""
    h, a, b = [sx.real(n, 0.01, 100) for n in "hab"]
    pts = [[0, 0, 0], [a, 0, 0], [a, 0, -b], [0, 0, -b], [0, h, 0], [0, 0, b]]
    # pyramid with base 0 1 2 3 in the plane y = 0 and apex 4, and tetrahedron on its triangle 0 1 4
    return pts, [("pyramid", [0, 1, 2, 3, 4]), ("tetra", [0, 1, 4, 5])]


def apart(sx):
    d = [sx.real("d%d" % i, 0.01, 100) for i in range(3)]
    one = [[0, 0, 0], [d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]]
    pts = one + [[p[0] + 200, p[1], p[2]] for p in one]
    return pts, [("tetra", [0, 1, 2, 3]), ("tetra", [4, 5, 6, 7])]


SHAPES = {"slanted": slanted, "tetra": tetras, "tetpyr": tetpyr, "apart": apart}


def mesh_of(sx, shape):
    import toughio

    pts, cells = SHAPES[shape](sx) if shape in SHAPES else boxes(sx, shape[:3], len(shape) > 3)
    blocks = []
    for s, c in cells:
        if blocks and blocks[-1][0] == s:
            blocks[-1][1].append(c)
        else:
            blocks.append((s, [c]))
    return toughio.Mesh(numpy.array(pts), [(s, numpy.array(c)) for s, c in blocks]), pts, cells


def neighbours(cells):
    out = []
    for i, (s, c) in enumerate(cells):
        for j, (t, d) in enumerate(cells[:i]):
            for f in FACES[s]:
                for g in FACES[t]:
                    if sorted(c[k] for k in f) == sorted(d[k] for k in g):
                        out.append((j, i, [d[k] for k in g]))
    return out


def zero(sx, x):
    return sx.decide(sx.same(x, 0))


def connection(sx, rec, a, b, face, pts, cents, method, bc):
    """rec goes from cell a to cell b."""
    sx.check(rec is not None, "every pair of neighbours is listed")
    p = [pts[k] for k in face]
    n = [0, 0, 0]
    for k in range(1, len(p) - 1):
        n = [x + y for x, y in zip(n, cross(sub(p[k], p[0]), sub(p[k + 1], p[0])))]
    L = sub(cents[b], cents[a])
    L2, nL, nn = dot(L, L), dot(n, L), dot(n, n)
    area = rec["interface_area"]
    sx.check(sx.close(4 * area * area, nn, 1e-3), "area of the face")
    for c, d in zip((a, b), rec["nodal_distances"]):
        if bc[c]:
            sx.check(sx.close(d, 1e-9, 1e-3), "nodal distance of a boundary cell")
            continue
        off = dot(n, sub(p[0], cents[c]))
        if not sx.decide(d > 0):
            sx.check(False, "nodal distance is positive")
        if method == "line":
            sx.check(sx.close(d * d * nL * nL, off * off * L2, 1e-3), "nodal distance along the line")
        else:
            sx.check(sx.close(d * d * nn, off * off, 1e-3), "orthogonal nodal distance")
    # cosine with gravity (0, 0, -1)
    ang = rec["gravity_cosine_angle"]
    sx.check(sx.close(ang * sx.sqrt(sx.num(L2)), -L[2], 1e-3, 1e-6), "cosine of the angle with gravity")
    zeros = [zero(sx, x) for x in L]
    want = zeros.index(False) + 1 if sum(zeros) == 2 else 1
    sx.check(rec["permeability_direction"] == want, "permeability direction")


def records(sx, path, width, kind):
    """Number of data lines of a block."""
    n, inside = 0, False
    text = sx.read_file(path)
    for line in text.split("\n"):
        if line[:5] == kind:
            inside = True
        elif inside and not line.strip():
            return n
        elif inside:
            n += 1
    return n


def export(sx, shape, method="line", bc=False, coord=False, length=5):
    import toughio

    sx.geometry()
    mesh, pts, cells = mesh_of(sx, shape)
    mesh.label_length = length
    n = len(cells)
    mask = [0] * n
    if bc:
        mask = [int(sx.choice("bc%d" % i, [0, 1])) for i in range(n)]
        mesh.add_cell_data("boundary_condition", numpy.array(mask))
    verify(sx, mesh, pts, cells, mask, method, coord)


def verify(sx, mesh, pts, cells, mask, method, coord, **kw):
    import toughio

    n = len(cells)
    path = sx.path("MESH")
    mesh.write_tough(path, nodal_distance=method, coord=coord, **kw)
    labels = [str(x) for x in mesh.labels]
    sx.check(records(sx, path, 5, "ELEME") == n, "one record per cell")
    if coord:
        sx.check(records(sx, path, 5, "COORD") == n, "one COORD record per cell")
    pairs = neighbours(cells)
    sx.check(records(sx, path, 5, "CONNE") == len(pairs), "one record per pair of neighbours")
    got = toughio.read_mesh(path, file_format="tough", label_length=len(labels[0]))
    order = got["elements_order"]
    sx.check(sorted(order) == sorted(labels), "every cell once under its label")
    cents = []
    for i, (s, c) in enumerate(cells):
        p = [pts[k] for k in c]
        cen = [sum(q[k] for q in p) / len(p) for k in range(3)]
        cents.append(cen)
        e = got["elements"][labels[i]]
        vol = volume(p, s)
        sx.check(sx.close(e["volume"], vol * (1e50 if mask[i] else 1), 1e-3), "volume")
        for k in range(3):
            # (centres are those of COORD if it is there: its order must be that of ELEME)
            tol = (1e-9, 1e-9) if coord else (1e-3, 1e-6)
            sx.check(sx.close(e["center"][k], cen[k], *tol), "centre")
    conne = got.get("connections", {})
    for a, b, face in pairs:
        la, lb = labels[a] + labels[b], labels[b] + labels[a]
        if la in conne:
            connection(sx, conne[la], a, b, face, pts, cents, method, mask)
        else:
            connection(sx, conne.get(lb), b, a, face, pts, cents, method, mask)
    return got, labels


NAMES = ["A", "ROCK1", "Top", "b2"]


def materials(sx, shape, names=True, rename=None, end=None, coord=False, bc=False):
    """Materials by name, number, new name, and place."""
    sx.geometry()
    mesh, pts, cells = mesh_of(sx, shape)
    n = len(cells)
    ids = [int(sx.choice("mat%d" % i, [1, 2, 3] if n < 4 else [1, 2])) for i in range(n)]
    mesh.cell_data["material"] = numpy.array(ids)
    if names:
        mesh.field_data = {NAMES[k - 1]: numpy.array([k, 3]) for k in (1, 2, 3)}
    mask = [0] * n
    if bc:
        mask = [int(sx.choice("bc%d" % i, [0, 1])) for i in range(n)]
        mesh.cell_data["boundary_condition"] = numpy.array(mask)
    kw = {}
    if rename:
        kw["material_name"] = rename
    if end:
        kw["material_end"] = end
    got, labels = verify(sx, mesh, pts, cells, mask, "line", coord, **kw)
    name = lambda k: NAMES[k - 1] if names else k
    for i in range(n):
        m = got["elements"][labels[i]]["material"]
        want = name(ids[i])
        want = (rename or {}).get(want, want)
        sx.check(str(m).strip() == str(want), "material of the cell")
    ends = [end] if isinstance(end, str) else (end or [])
    late = [k for k in range(n) if name(ids[k]) in ends]
    want = [labels[k] for k in range(n) if k not in late] + [labels[k] for k in late]
    sx.check(got["elements_order"] == want, "listed materials last, others in the order of the cells")


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(key, fn, **kw):
        out.append(Job(key, fn, kw, budget=240 if not deep else 800))

    for s in [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (3, 1, 1)] + ([(1, 3, 2), (2, 2, 2), (1, 1, 4)] if deep else []):
        key = "".join(map(str, s))
        for m in ("line", "orthogonal"):
            add("box-%s-%s" % (key, m), export, shape=s, method=m)
    for s in [(2, 1, 1), (1, 1, 2), (1, 2, 1)] + ([(2, 2, 1)] if deep else []):
        for m in ("line", "orthogonal"):
            add("boundary-%s-%s" % ("".join(map(str, s)), m), export, shape=s, method=m, bc=True, coord=s == (1, 1, 2))
    for s in [(2, 1, 1, "s"), (1, 1, 2, "s"), "slanted", "tetra", "tetpyr", "apart"]:
        for m in ("line", "orthogonal"):
            add("%s-%s" % (s if isinstance(s, str) else "sheared-" + "".join(map(str, s[:3])), m), export, shape=s, method=m, coord=True, bc=deep)
    for w in (6, 7, 8, 9):
        add("label-%d" % w, export, shape=(2, 1, 1), length=w, coord=w == 7)
    add("named", materials, shape=(2, 1, 1), bc=True)
    add("numbered", materials, shape=(3, 1, 1), names=False)
    add("renamed", materials, shape=(2, 1, 1), rename={"A": "GRANI", "Top": "A", "Nope": "Z"})
    add("end-one", materials, shape=(3, 1, 1), end="A", coord=True)
    add("end-two", materials, shape=(1, 1, 3), end=["Top", "ROCK1"], coord=True)
    add("renamed-end", materials, shape=(2, 2, 1), rename={"A": "b2"}, end=["A"], coord=True)
    return out
