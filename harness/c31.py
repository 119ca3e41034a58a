"""C31: qualities of cells."""
import numpy

from sx.runner import Job

from .c11 import cross, dot, sub
from .c13 import boxes, mesh_of, neighbours, SHAPES

BOUNDS = (
    "boxes of up to 2x2x1, 3x1x1 and 2x1x2 hexahedra with any spacings and origin, rows of two and three sheared hexahedra, pairs of "
    "hexahedra and rows of three of them with slanted faces, two general tetrahedra, three tetrahedra in a row, a tetrahedron on a pyramid, a wedge on a hexahedron; cells in several orders, in one or several blocks"
)
OUTSIDE = "larger meshes; cells without any neighbour (no quality is defined for them)"
ASSUMPTIONS = ["coordinates are real numbers"]


def row(sx):
    """Three hexahedra with two slanted faces between them."""
    s, t = sx.real("s", -0.4, 0.4), sx.real("t", -0.4, 0.4)
    xs, h, w = [[0, 1, 2, 3], [0, 1 + s, 2 + t, 3]], 1, 1
    pts = [[xs[k][i], j * w, k * h] for k in (0, 1) for j in (0, 1) for i in range(4)]
    at = lambda i, j, k: k * 8 + j * 4 + i
    cells = [("hexahedron", [at(i + p, q, r) for p, q, r in
                             [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]) for i in range(3)]
    return pts, cells


def fan(sx):
    """Three tetrahedra: the middle one has two neighbours."""
    a, b, c, d, e = [sx.real(n, 0.01, 100) for n in "abcde"]
    pts = [[0, 0, 0], [a, 0, 0], [0, b, 0], [0, 0, c], [-d, 0, 0], [0, 0, -e]]
    return pts, [("tetra", [0, 1, 2, 5]), ("tetra", [0, 1, 2, 3]), ("tetra", [0, 2, 4, 3])]


def prism(sx):
    """A wedge on a hexahedron."""
    a, b, c = [sx.real(n, 0.01, 100) for n in "abc"]
    h, s = sx.real("h", 0.01, 100), sx.real("s", -100, 100)
    pts = [[0, 0, 0], [a, 0, 0], [a, b, 0], [0, b, 0], [0, 0, c], [a, 0, c], [a, b, c], [0, b, c], [s, 0, c + h], [s, b, c + h]]
    return pts, [("wedge", [4, 5, 8, 7, 6, 9]), ("hexahedron", [0, 1, 2, 3, 4, 5, 6, 7])]


SHAPES.update(row=row, fan=fan, prism=prism)


def reordered(shape, order):
    """The same cells in another order (and other blocks)."""
    def make(sx):
        pts, cells = SHAPES[shape](sx) if shape in SHAPES else boxes(sx, shape[:3], len(shape) > 3)
        return pts, [cells[k] for k in order]

    return make


def quality(sx, shape, order=None):
    sx.geometry()
    if order:
        SHAPES["again"] = reordered(shape, order)
        shape = "again"
    mesh, pts, cells = mesh_of(sx, shape)
    q = mesh.qualities
    sx.check(numpy.shape(q) == (len(cells),), "one value per cell")
    cents = []
    for s, c in cells:
        p = [pts[k] for k in c]
        cents.append([sum(x[k] for x in p) / len(p) for k in range(3)])
    pairs = neighbours(cells)
    for c in range(len(cells)):
        if not sx.decide(q[c] > -1e-9):
            sx.check(False, "qualities are not negative")
            continue
        near = []
        for a, b, face in pairs:
            if c not in (a, b):
                continue
            p = [pts[k] for k in face]
            n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
            L = sub(cents[b], cents[a])
            near.append((dot(n, n) * dot(L, L), dot(n, L)))
        for m, d in near:
            sx.check(sx.le(q[c] * q[c] * m, d * d * (1 + 1e-6) + 1e-6 * m), "no connection is less orthogonal")
        sx.check(sx.any_([sx.close(q[c] * q[c] * m, d * d, 1e-6) for m, d in near]), "cosine of one of its connections")


def jobs(tier):
    out = []
    deep = tier != "quick"
    for s in [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (3, 1, 1), (2, 1, 1, "s"), (1, 1, 2, "s"), (1, 1, 3, "s"), (2, 1, 2, "s"),
              "slanted", "row", "tetra", "fan", "tetpyr", "prism"] + ([(2, 2, 2), (1, 2, 3, "s")] if deep else []):
        key = s if isinstance(s, str) else "".join(map(str, s))
        out.append(Job(key, quality, dict(shape=s), budget=240 if not deep else 800))
    for s, order in [("row", [0, 2, 1]), ("row", [2, 1, 0]), ("fan", [0, 2, 1]), ("fan", [1, 2, 0]), ("tetpyr", [1, 0]), ("prism", [1, 0]),
                     ((1, 1, 3, "s"), [2, 0, 1]), ((2, 1, 2, "s"), [3, 0, 2, 1])]:
        key = s if isinstance(s, str) else "".join(map(str, s))
        out.append(Job(key + "-" + "".join(map(str, order)), quality, dict(shape=s, order=order), budget=240 if not deep else 800))
    return out
