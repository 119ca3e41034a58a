"""C12: connections."""
import numpy

from sx.runner import Job

N = {"tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8}
# faces in the order of the documented numbering of each shape
FACES = {
    "tetra": [[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]],
    "pyramid": [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [0, 3, 2, 1]],
    "wedge": [[0, 2, 1], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [0, 3, 5, 2]],
    "hexahedron": [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [0, 4, 7, 3]],
}
SHAPES = list(N)

BOUNDS = (
    "two cells in one or two blocks with arbitrary point numbers below 60 and any points in common, where one is a tetrahedron or "
    "pyramid; otherwise two cells, and three cells of selected shapes, glued along any pair of faces, in several turns, with all or "
    "all but one point of the face in common (thorough: any number) and arbitrary point numbers"
)
OUTSIDE = "more than three cells; non-conforming meshes where three cells have a face in common"
ASSUMPTIONS = [
    "rows grouped by numpy.unique(axis=0) are returned in the order of their first occurrence, or the reverse of it, "
    "instead of sorted by point number: only the grouping is decided for all numberings",
]


def face_eq(sx, f, g):
    """The same set of points (the points of a face are distinct)."""
    if len(f) != len(g):
        return False
    return sx.all_([sx.any_([sx.eq(a, b) for b in g]) for a in f])


def ids_of(sx, k, shape, npts):
    v = [sx.int("c%d_%d" % (k, i), 0, npts - 1) for i in range(N[shape])]
    for i in range(len(v)):
        for j in range(i):
            sx.assume(sx.not_(sx.eq(v[i], v[j])))
    return v


def build(shapes, blocks, ids, npts):
    import toughio

    cells, i = [], 0
    for n in blocks:
        cells.append((shapes[i], numpy.array(ids[i:i + n])))
        i += n
    pts = numpy.zeros((npts, 3))
    return toughio.Mesh(pts, cells)


def local_faces(shapes, blocks):
    """Faces of the mesh in the order of the columns of its face arrays, as local point numbers."""
    off, ids = 0, []
    for s in shapes:
        ids.append(list(range(off, off + N[s])))
        off += N[s]
    mesh = build(shapes, blocks, ids, off)
    out = []
    for i, faces in enumerate(mesh.faces):
        base = ids[i][0]
        out.append([[int(k) - base for k in f if k >= 0] for f in faces])
    return [[f for f in fs if f] for fs in out]


def verify(sx, shapes, blocks, ids, faces, shared):
    """shared(i, a, k, b): is face a of cell i the same as face b of cell k."""
    npts = 60
    conne = build(shapes, blocks, ids, npts).connections
    n = len(shapes)
    sx.check(len(conne) == n, "one row per cell")
    for i in range(n):
        sx.check(len(conne[i]) == 6, "one column per face")
        for a in range(6):
            j = int(conne[i][a])
            if a >= len(faces[i]):
                sx.check(j == -1, "no connection beyond the faces of the cell")
                continue
            if j < 0:
                sx.check(j == -1, "boundary faces are marked by -1")
                for k in range(n):
                    if k != i:
                        for b in range(len(faces[k])):
                            sx.check(sx.not_(shared(i, a, k, b)), "a shared face is a connection")
            else:
                ok = j < n and j != i
                sx.check(ok, "a connection joins two cells")
                if not ok:
                    return
                sx.check(sx.any_([shared(i, a, j, b) for b in range(len(faces[j]))]), "connected cells share the face")
                sx.check(any(int(x) == i for x in conne[j]), "connections are symmetric")


def joined(sx, shapes, blocks, order):
    """Any overlap of the points of two cells."""
    sx.any_order(order)
    ids = [ids_of(sx, k, s, 60) for k, s in enumerate(shapes)]
    local = local_faces(shapes, blocks)
    for s, fs in zip(shapes, local):
        sx.check(sorted(map(sorted, fs)) == sorted(map(sorted, FACES[s])), "faces are those of the shape")
    faces = [[[ids[k][i] for i in f] for f in fs] for k, fs in enumerate(local)]
    verify(sx, shapes, blocks, ids, faces, lambda i, a, k, b: face_eq(sx, faces[i][a], faces[k][b]))


def glued(sx, shapes, blocks, order, links, deep):
    """Cells glued along chosen faces, turned in any way, with all or only some of the points of the face."""
    sx.any_order(order)
    local = local_faces(shapes, blocks)
    keys = [[(k, i) for i in range(N[s])] for k, s in enumerate(shapes)]
    used = {}
    for q, (i, k) in enumerate(links):
        few = len(links) > 1 and not deep
        fa = sx.choice("face%d_%d" % (q, i), [f for f in range(len(local[i])) if (i, f) not in used][: 2 if few and q else 4 if few else None])
        opts = [f for f in range(len(local[k])) if len(local[k][f]) == len(local[i][fa]) and (k, f) not in used]
        if not opts:
            return
        if few:
            opts = opts[-1:] if q else opts[:2]
        fb = sx.choice("face%d_%d" % (q, k), opts)
        used[(i, fa)] = used[(k, fb)] = True
        n = len(local[i][fa])
        turn = sx.choice("turn%d" % q, list(range(n)) if deep else [q] if few else [0, 1])
        common = sx.choice("common%d" % q, list(range(n + 1)) if deep else [n, n - 1] if not few or q else [n])
        for t in range(common):
            old = keys[k][local[k][fb][(turn - t) % n]]
            new = keys[i][local[i][fa][t]]
            keys = [[new if x == old else x for x in ks] for ks in keys]
    names = sorted({x for ks in keys for x in ks})
    var = {x: sx.int("c%d_%d" % x, 0, 59) for x in names}
    sx.all_distinct([var[x] for x in names])
    ids = [[var[x] for x in ks] for ks in keys]
    faces = [[frozenset(keys[k][i] for i in f) for f in fs] for k, fs in enumerate(local)]
    verify(sx, shapes, blocks, ids, faces, lambda i, a, k, b: faces[i][a] == faces[k][b])


def flat(sx):
    """Plane meshes are rejected."""
    import toughio

    a = [sx.int("p%d" % i, 0, 9) for i in range(3)]
    with sx.raises(ValueError):
        toughio.Mesh(numpy.zeros((10, 2)), [("triangle", numpy.array([a]))]).connections


def jobs(tier):
    out = []
    deep = tier != "quick"
    big = 800 if deep else 200
    free = {("tetra", "tetra"), ("tetra", "pyramid"), ("tetra", "wedge"), ("tetra", "hexahedron"), ("pyramid", "hexahedron"), ("pyramid", "wedge"), ("pyramid", "pyramid")}
    for i, a in enumerate(SHAPES):
        for b in SHAPES[i:]:
            blocks = (2,) if a == b else (1, 1)
            if (a, b) in free:
                for o in ["forward", "backward"] if deep else ["forward"]:
                    out.append(Job("any-%s-%s-%s" % (a, b, o), joined, dict(shapes=(a, b), blocks=blocks, order=o), budget=big))
                if a != b:
                    out.append(Job("any-%s-%s" % (b, a), joined, dict(shapes=(b, a), blocks=blocks, order="backward"), budget=big))
            if (a, b) in (("wedge", "wedge"), ("wedge", "hexahedron"), ("hexahedron", "hexahedron")) or deep:
                out.append(Job("glued-%s-%s" % (a, b), glued, dict(shapes=(a, b), blocks=blocks, order="forward", links=[(0, 1)], deep=deep), budget=big))
                if a != b:
                    out.append(Job("glued-%s-%s" % (b, a), glued, dict(shapes=(b, a), blocks=blocks, order="backward", links=[(1, 0)], deep=deep), budget=big))
    three = [
        (("hexahedron", "hexahedron", "hexahedron"), (3,), [(0, 1), (1, 2)]),
        (("hexahedron", "tetra", "wedge"), (1, 1, 1), [(0, 2), (2, 1)]),
        (("pyramid", "hexahedron", "pyramid"), (1, 1, 1), [(1, 0), (1, 2)]),
        (("tetra", "tetra", "tetra"), (1, 2), [(0, 2), (0, 1)]),
        (("wedge", "wedge", "pyramid"), (2, 1), [(0, 1), (1, 2)]),
    ]
    for shapes, blocks, links in three:
        out.append(Job("glued3-" + "-".join(x[0] for x in shapes), glued, dict(shapes=shapes, blocks=blocks, order="forward", links=links, deep=deep), budget=big))
    out.append(Job("flat", flat, {}))
    first = ("glued3-h-h-h", "glued-hexahedron-hexahedron")
    return sorted(out, key=lambda j: j.name not in first)
