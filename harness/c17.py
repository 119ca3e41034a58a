"""C17: extruding and pruning."""
import numpy

from sx.runner import Job

from .c11 import volume

BOUNDS = (
    "plane meshes of one to three triangles and convex quadrangles in one to three blocks, in two dimensions or in a coordinate plane, "
    "along any axis, one to three layers of any heights (also negative), with scalar and vector data, with and without lines in the mesh; "
    "pruning: meshes of up to three cells and eight points anywhere on a line, in a plane or in space, all coincidences among "
    "them, points and cells in any block"
)
OUTSIDE = "more cells, points and layers; heights of different signs; duplicate cells of different blocks"
ASSUMPTIONS = ["coordinates are real numbers", "layers are numbered from the first height on"]


def plane(sx, kind):
    """Points and blocks of a plane mesh."""
    a, b = sx.real("a", 0.1, 50), sx.real("b", 0.1, 50)
    sx.assume(a + b > 1)
    s, t, u, v = sx.real("sx", 0.1, 50), sx.real("sy", 0.1, 50), sx.real("ox", -100, 100), sx.real("oy", -100, 100)
    P = [(0, 0), (1, 0), (a, b), (0, 1), (-sx.real("c", 0.1, 50), sx.real("d", -50, 50)), (0, -sx.real("e", 0.1, 50))]
    P = [[s * x + u, t * y + v] for x, y in P]
    blocks = {
        "quad": [("quad", [[0, 1, 2, 3]])],
        "triangle": [("triangle", [[0, 1, 2], [0, 2, 3]])],
        "quad-triangle": [("quad", [[0, 1, 2, 3]]), ("triangle", [[0, 3, 4]])],
        "triangle-quad-triangle": [("triangle", [[0, 3, 4]]), ("quad", [[0, 1, 2, 3]]), ("triangle", [[0, 5, 1]])],
        "triangle2-quad": [("triangle", [[0, 5, 1], [0, 3, 4]]), ("quad", [[0, 1, 2, 3]])],
        "line-quad": [("line", [[0, 1], [1, 2]]), ("quad", [[0, 1, 2, 3]])],
        "quad-line-triangle": [("quad", [[0, 1, 2, 3]]), ("line", [[0, 1]]), ("triangle", [[0, 3, 4]])],
    }[kind]
    return P, blocks


def area(p):
    out = 0
    for i in range(len(p)):
        (x0, y0), (x1, y1) = p[i - 1], p[i]
        out = out + x0 * y1 - x1 * y0
    return out / 2


def extrude(sx, kind, n, axis=2, ndim=2, scalar=False, inplace=True, sign=1, nd=False):
    import toughio

    sx.geometry()
    P, blocks = plane(sx, kind)
    heights = [sign * sx.real("h%d" % i, 0.01, 100) for i in range(n)]
    if ndim == 3:
        pts = []
        for x, y in P:
            q = [x, y]
            q.insert(axis, 7.0)
            pts.append(q)
    else:
        pts = P
    mesh = toughio.Mesh(numpy.array(pts), [(k, numpy.array(c)) for k, c in blocks])
    flat = [(k, c) for k, cs in blocks for c in cs]
    tag = [sx.real("v%d" % i, -100, 100) for i in range(len(flat))]
    mesh.add_cell_data("id", numpy.arange(len(flat)))
    mesh.add_cell_data("value", numpy.array(tag))
    mesh.add_cell_data("vector", numpy.array([[x, 2 * x] for x in tag]))
    mesh.add_cell_data("material", numpy.array([i % 2 + 1 for i in range(len(flat))]))
    mesh.field_data = {"A": numpy.array([1, 2]), "B": numpy.array([2, 2])}
    pd = [sx.real("p%d" % i, -100, 100) for i in range(len(P))]
    mesh.add_point_data("point", numpy.array(pd))
    mesh.add_point_data("pvector", numpy.array([[x, 3 * x] for x in pd]))
    old = sx.freeze([mesh.points, [c.data for c in mesh.cells], mesh.cell_data, mesh.point_data]) if not inplace else None
    h = heights[0] if scalar else (numpy.array(heights) if nd else heights)
    out = mesh.extrude_to_3d(height=h, axis=axis, inplace=inplace)
    if inplace:
        out = mesh
    else:
        sx.frozen_same([mesh.points, [c.data for c in mesh.cells], mesh.cell_data, mesh.point_data], old, "mesh unchanged")
    solid = [i for i, (k, c) in enumerate(flat) if k != "line"]
    sx.check(out.n_cells == len(solid) * n, "number of cells")
    sx.check(numpy.shape(out.points) == (len(P) * (n + 1), 3), "number of points")
    for k in ("id", "value", "vector", "material"):
        sx.check(len(out.cell_data[k]) == out.n_cells, "one value per cell")
    for k in ("point", "pvector"):
        sx.check(len(out.point_data[k]) == out.n_points, "one value per point")
    ids = [int(i) for i in out.cell_data["id"]]
    types = [c.type for c in out.cells for _ in c.data]
    conn = [[int(k) for k in row] for c in out.cells for row in c.data]
    vols = out.volumes
    off = [0]
    for x in heights:
        off.append(off[-1] + x)
    base = 7.0 if ndim == 3 else 0
    for i in solid:
        kind_, c = flat[i]
        rows = [j for j in range(out.n_cells) if ids[j] == i]
        sx.check(len(rows) == n, "one cell per layer")
        for lay, j in enumerate(rows):
            sx.check(types[j] == {"quad": "hexahedron", "triangle": "wedge"}[kind_], "shape")
            sx.check(sx.same(out.cell_data["value"][j], tag[i]), "data of the plane cell")
            sx.check(sx.same(out.cell_data["vector"][j][1], 2 * tag[i]), "vector data of the plane cell")
            sx.check(int(out.cell_data["material"][j]) == i % 2 + 1, "material of the plane cell")
            m = len(c)
            for q in range(2 * m):
                got = list(out.points[conn[j][q]])
                want = flat_point(P[c[q % m]], axis, base + off[lay + (q >= m)], ndim)
                for k in range(3):
                    sx.check(sx.same(got[k], want[k]), "points of the cell")
                sx.check(sx.same(out.point_data["point"][conn[j][q]], pd[c[q % m]]), "data of the point")
                sx.check(sx.same(out.point_data["pvector"][conn[j][q]][1], 3 * pd[c[q % m]]), "vector data of the point")
            sx.check(sx.same(vols[j], area([P[k] for k in c]) * heights[lay] * sign), "volume is area times height")
    for k in ("A", "B"):
        sx.check(int(out.field_data[k][1]) == 3, "materials of volumes")


def flat_point(p, axis, z, ndim):
    """A plane point in space: from two dimensions, the axes are swapped."""
    if ndim == 3:
        q = list(p)
        q.insert(axis, z)
        return q
    q = [p[0], p[1], 0]
    q[axis], q[2] = q[2], q[axis]
    q[axis] = z
    return q


def wrong(sx, axis):
    """A mesh that is not in a plane across the axis is not extruded."""
    import toughio

    d = sx.real("d", 0.01, 10)
    pts = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]
    pts[1][axis] = d
    mesh = toughio.Mesh(numpy.array(pts), [("triangle", numpy.array([[0, 1, 2]]))])
    with sx.raises(ValueError):
        mesh.extrude_to_3d(axis=axis)


SHAPE = {"tetra": 4, "hexahedron": 8, "quad": 4, "triangle": 3, "wedge": 6, "pyramid": 5}


def prune(sx, blocks, npts, dim, inplace=True, free=None):
    """Points of `free` may coincide with any other point."""
    import toughio

    # coordinates: a few values, equal in all possible ways
    free = range(npts) if free is None else free
    pts = []
    for i in range(npts):
        p = [float((i * 7 + k * 3) % 11) + i for k in range(dim)]
        if i in free:
            p[0] = sx.real("x%d" % i, -100, 100)
            if i % 2:
                p[1] = sx.real("y%d" % i, -100, 100)
            else:
                p[1] = 0.0
            if dim == 3:
                p[2] = 0.0
        pts.append(p)
    cells = [(s, [list(c) for c in cs]) for s, cs in blocks]
    mesh = toughio.Mesh(numpy.array(pts), [(s, numpy.array(c)) for s, c in cells])
    flat = [(b, s, c) for b, (s, cs) in enumerate(cells) for c in cs]
    val = [sx.real("v%d" % i, -100, 100) for i in range(len(flat))]
    mesh.add_cell_data("id", numpy.arange(len(flat)))
    mesh.add_cell_data("value", numpy.array(val))
    mesh.add_cell_data("vector", numpy.array([[v, 2 * v] for v in val]))
    pd = [100.0 + i for i in range(npts)]
    mesh.add_point_data("point", numpy.array(pd))
    old = sx.freeze([mesh.points, [c.data for c in mesh.cells], mesh.cell_data, mesh.point_data]) if not inplace else None
    out = mesh.prune_duplicates(inplace=inplace)
    if inplace:
        out = mesh
    else:
        sx.frozen_same([mesh.points, [c.data for c in mesh.cells], mesh.cell_data, mesh.point_data], old, "mesh unchanged")
    # points: pairwise different, each one of the old ones with its data
    new = [list(p) for p in out.points]
    eqp = lambda a, b: sx.all_([sx.eq(x, y) for x, y in zip(a, b)])
    same = {}
    for i in range(npts):
        for j in range(i):
            same[i, j] = same[j, i] = sx.decide(eqp(pts[i], pts[j]))
        same[i, i] = True
    reps = [i for i in range(npts) if not any(same[i, j] for j in range(i))]
    sx.check(len(new) == len(reps), "number of different points")
    sx.check(len(out.point_data["point"]) == len(new), "one value per point")
    for i in range(npts):
        hits = [k for k in range(len(new)) if sx.decide(eqp(new[k], pts[i]))]
        sx.check(len(hits) == 1, "each point once")
        got = out.point_data["point"][hits[0]]
        sx.check(any(got == pd[j] for j in range(npts) if same[i, j]), "point data stay with the point")
    # cells
    rep = lambda c: sorted(min(j for j in range(npts) if same[j, k]) for k in c)
    want = []
    for b, s, c in flat:
        if not any(w[0] == b and w[1] == rep(c) for w in want):
            want.append((b, rep(c)))
    sx.check(out.n_cells == len(want), "duplicate cells are removed")
    for k in ("id", "value", "vector"):
        sx.check(len(out.cell_data[k]) == out.n_cells, "one value per cell")
    conn = [(b, [int(k) for k in row]) for b, cb in enumerate(out.cells) for row in cb.data]
    sx.check([c.type for c in out.cells] == [s for s, _ in cells], "blocks")
    seen = []
    for j, (b, row) in enumerate(conn):
        i = int(out.cell_data["id"][j])
        seen.append((flat[i][0], rep(flat[i][2])))
        sx.check(flat[i][0] == b, "cells stay in their block")
        sx.check(len(row) == len(flat[i][2]), "points per cell")
        for k, q in zip(row, flat[i][2]):
            sx.check(eqp(new[k], pts[q]), "cells stay where they were")
        sx.check(sx.eq(out.cell_data["value"][j], val[i]), "data of the cell")
        sx.check(sx.eq(out.cell_data["vector"][j][1], 2 * val[i]), "vector data of the cell")
    sx.check(sorted(seen) == sorted(want), "each cell once")


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(key, fn, **kw):
        out.append(Job(key, fn, kw, budget=240 if not deep else 800))

    for kind in ("quad", "triangle", "quad-triangle", "triangle-quad-triangle", "triangle2-quad", "line-quad", "quad-line-triangle"):
        for n in (1, 2, 3) if deep or kind == "triangle2-quad" else (2,):
            add("extrude-%s-%d" % (kind, n), extrude, kind=kind, n=n, nd=n == 3)
    for axis in (0, 1, 2):
        for ndim in (2, 3):
            add("axis-%d-%d" % (axis, ndim), extrude, kind="quad-triangle", n=2, axis=axis, ndim=ndim)
        add("wrong-%d" % axis, wrong, axis=axis)
    add("scalar", extrude, kind="quad-triangle", n=1, scalar=True)
    add("copy", extrude, kind="quad-triangle", n=2, inplace=False)
    add("negative", extrude, kind="triangle2-quad", n=2, sign=-1)
    T = [("tetra", [(0, 1, 2, 3), (4, 5, 6, 7)])]
    add("prune-triangles", prune, blocks=[("triangle", [(0, 1, 2), (3, 4, 5)])], npts=6, dim=2, free=(1, 4))
    add("prune-copy", prune, blocks=[("triangle", [(0, 1, 2), (3, 4, 5)])], npts=6, dim=2, free=(0, 3), inplace=False)
    add("prune-tetra", prune, blocks=T, npts=8, dim=3, free=(2, 6))
    add("prune-blocks", prune, blocks=[("quad", [(0, 1, 2, 3)]), ("triangle", [(4, 5, 6), (3, 4, 5)])], npts=7, dim=2, free=(1, 5))
    add("prune-same", prune, blocks=[("triangle", [(2, 1, 0), (0, 1, 2), (3, 2, 1), (1, 2, 0)])], npts=4, dim=2, free=(1, 3))
    add("prune-unused", prune, blocks=[("triangle", [(4, 1, 2)])], npts=5, dim=2, free=(0, 2, 3))
    if deep:
        add("prune-triangles-3", prune, blocks=[("triangle", [(0, 1, 2), (3, 4, 5)])], npts=6, dim=2, free=(0, 1, 3))
        add("prune-blocks-3", prune, blocks=[("quad", [(0, 1, 2, 3)]), ("triangle", [(4, 5, 6), (3, 4, 5)])], npts=7, dim=2, free=(1, 4, 5))
        add("prune-tetra-3", prune, blocks=T, npts=8, dim=3, free=(2, 4, 7))
    return out
