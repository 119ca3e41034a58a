"""C11: centres, volumes, faces, areas and normals of cells."""
import numpy

from sx.runner import Job

BOUNDS = (
    "one cell of each shape, and pairs of cells of different shapes: every tetrahedron and every pyramid with a planar convex base; "
    "every wedge with planar sides (parallel or concurrent edges); hexahedra that are affine images of prisms over any convex "
    "quadrangle with any planar top; vertices anywhere in space (areas and normals of the non-affine families: up to rotation); "
    "structured 2x2x2 grids with symbolic spacings"
)
OUTSIDE = "hexahedra outside these families; cells with warped faces; two-dimensional cells; rounding of coordinates"
ASSUMPTIONS = ["coordinates are real numbers: equalities are decided exactly, rounding errors are outside"]

FACES = {
    "tetra": [[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]],
    "pyramid": [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [0, 3, 2, 1]],
    "wedge": [[0, 2, 1], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [0, 3, 5, 2]],
    "hexahedron": [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [0, 4, 7, 3]],
}
HEX = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


def det(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def convex(sx, tag=""):
    """Any convex quadrangle up to an affine map."""
    a, b = sx.real("a" + tag, 0, 50), sx.real("b" + tag, 0, 50)
    sx.assume(a > 0)
    sx.assume(b > 0)
    sx.assume(a + b > 1)
    return [(0, 0), (1, 0), (a, b), (0, 1)]


def reference(sx, shape, family):
    """Points of a cell before the affine map."""
    if shape == "tetra":
        return [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
    if shape == "pyramid":
        q = convex(sx)
        return [(x, y, 0) for x, y in q] + [(0, 0, 1)]
    if shape == "wedge":
        base = [(0, 0), (1, 0), (0, 1)]
    else:
        base = convex(sx) if family != "cone" else [(0, 0), (1, 0), (1, 1), (0, 1)]
    if family == "affine":
        return HEX if shape == "hexahedron" else [(x, y, z) for z in (0, 1) for x, y in base]
    h = [sx.real("h%d" % i, 0.01, 50) for i in range(3)]
    top = []
    if family == "prism":
        # parallel edges; the top is any plane above the base
        for x, y in base:
            z = h[0] + (h[1] - h[0]) * x + (h[2] - h[0]) * y
            sx.assume(z > 0)
            top.append((x, y, z))
    else:
        # concurrent edges: the top is a plane through points of the edges from the base to (0, 0, 1),
        # each point dividing its edge by 1 - 1/w with w affine in (x, y)
        for x, y in base:
            w = 1 + h[0] + (h[1] - h[0]) * x + ((h[2] - h[0]) * y if shape == "wedge" else 0)
            top.append((x / w, y / w, 1 - 1 / w))
    return [(x, y, 0) for x, y in base] + top


def affine(sx, pts, how, tag=""):
    r = lambda n: sx.real(n + tag, -100, 100)
    if how == "general":
        A = [[r("m%d%d" % (i, j)) for j in range(3)] for i in range(3)]
    else:
        # up to rotation: axes in any order
        order, off = how
        p = [sx.real("d%d%s" % (i, tag), 0.01, 100) for i in range(3)]
        m = {n: r(n) if n in off else 0 for n in ("m01", "m02", "m12")}
        T = [[p[0], m["m01"], m["m02"]], [0, p[1], m["m12"]], [0, 0, p[2]]]
        A = [T[k] for k in order]
    t = [r("t%d" % i) for i in range(3)] if how == "general" or "t" in how[1] else [0, 0, 0]
    sx.assume(det(*A) > 0)
    return [[sum(A[i][j] * p[j] for j in range(3)) + t[i] for i in range(3)] for p in pts]


def volume(pts, shape):
    """Divergence theorem over the faces, each split into triangles from its first point."""
    v = 0
    o = pts[0]
    for f in FACES[shape]:
        for k in range(1, len(f) - 1):
            v = v + det(sub(pts[f[0]], o), sub(pts[f[k]], o), sub(pts[f[k + 1]], o))
    return v / 6


def mesh_of(pts, shape, before=0):
    import toughio

    return toughio.Mesh(numpy.array(pts), [(shape, numpy.array([list(range(len(pts)))]))])


def cell(sx, shape, family, how, what):
    sx.geometry()
    pts = affine(sx, reference(sx, shape, family), how)
    check_cell(sx, mesh_of(pts, shape), 0, pts, shape, what)


def check_cell(sx, mesh, i, pts, shape, what):
    n = len(pts)
    if "centre" in what:
        c = mesh.centers[i]
        sx.check(len(c) == 3, "centre has three coordinates")
        for k in range(3):
            sx.check(sx.same(c[k] * n, sum(p[k] for p in pts)), "centre is the mean of the points")
    if "volume" in what:
        v = mesh.volumes[i]
        sx.check(v > 0, "volume is positive")
        sx.check(sx.same(v, volume(pts, shape)), "volume")
    if "faces" not in what:
        return
    faces = [[int(k) for k in f if k >= 0] for f in mesh.faces[i]]
    faces = [f for f in faces if f]
    areas, normals = mesh.face_areas[i], mesh.face_normals[i]
    sx.check(len(faces) == len(FACES[shape]), "number of faces")
    sx.check(len(areas) == len(faces), "number of areas")
    sx.check(len(normals) == len(faces), "number of normals")
    base = min(min(f) for f in faces)
    seen = []
    for f, area, nrm in zip(faces, areas, normals):
        f = [k - base for k in f]
        sx.check(sorted(f) in [sorted(g) for g in FACES[shape]], "faces are those of the shape")
        seen.append(sorted(f))
        p = [pts[k] for k in f]
        sv, tris = [0, 0, 0], []
        for k in range(1, len(p) - 1):
            w = cross(sub(p[k], p[0]), sub(p[k + 1], p[0]))
            sv = [x + y for x, y in zip(sv, w)]
            tris.append(w)
        # vector area: the area is its length, the normal its direction
        sx.check(area > 0, "area is positive")
        sx.check(sx.same(4 * area * area, dot(sv, sv)), "area")
        sx.check(sx.same(dot(nrm, nrm), 1), "normal has unit length")
        for k in range(3):
            sx.check(sx.same(2 * area * nrm[k], sv[k]), "normal is perpendicular to the face")
        # a convex cell lies behind each of its faces
        v = next(pts[k] for k in range(n) if k not in f)
        for w in tris:
            sx.check(dot(w, sub(p[0], v)) > 0, "normal points outwards")
    sx.check(len(set(map(tuple, seen))) == len(seen), "each face once")


def mixed(sx, order):
    """Cells of several shapes in one mesh keep their own values."""
    import toughio

    sx.geometry()
    pts, cells, allp = [], [], []
    for k, shape in enumerate(order):
        ref = {"tetra": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
               "pyramid": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1)],
               "wedge": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)], "hexahedron": HEX}[shape]
        d = [sx.real("d%d%d" % (k, j), 0.01, 100) for j in range(3)]
        t = [sx.real("t%d%d" % (k, j), -100, 100) for j in range(3)]
        s = sx.real("s%d" % k, -100, 100)
        p = [[r[0] * d[0] + r[1] * s + t[0], r[1] * d[1] + t[1], r[2] * d[2] + t[2]] for r in ref]
        o = len(allp)
        allp += p
        pts.append(p)
        cells.append((shape, o, len(p)))
    blocks = []
    for shape, o, n in cells:
        c = list(range(o, o + n))
        if blocks and blocks[-1][0] == shape:
            blocks[-1][1].append(c)
        else:
            blocks.append((shape, [c]))
    mesh = toughio.Mesh(numpy.array(allp), [(s, numpy.array(c)) for s, c in blocks])
    sx.check(len(mesh.centers) == len(order), "one centre per cell")
    sx.check(len(mesh.volumes) == len(order), "one volume per cell")
    for i, shape in enumerate(order):
        check_cell(sx, mesh, i, pts[i], shape, ("centre", "volume", "faces"))


def grid(sx, n):
    """Volumes and areas add up."""
    import toughio

    sx.geometry()
    nx, ny, nz = n
    dx = [sx.real("dx%d" % i, 0.01, 100) for i in range(nx)]
    dy = [sx.real("dy%d" % i, 0.01, 100) for i in range(ny)]
    dz = [sx.real("dz%d" % i, 0.01, 100) for i in range(nz)]
    o = [sx.real("o%d" % i, -100, 100) for i in range(3)]
    mesh = toughio.meshmaker.structured_grid(dx, dy, dz, origin=o)
    sx.check(mesh.n_cells == nx * ny * nz, "number of cells")
    sx.check(sx.same(sum(mesh.volumes), sum(dx) * sum(dy) * sum(dz)), "volumes add up")
    for a in mesh.face_areas:
        sx.check(len(a) == 6, "six faces")
    # vector areas of a closed cell vanish
    for a, nn in zip(mesh.face_areas, mesh.face_normals):
        for k in range(3):
            sx.check(sx.same(sum(x * y[k] for x, y in zip(a, nn)), 0), "closed surface")


ALL = ("centre", "volume", "faces")
PERMS = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
OFF = ("m01", "m02", "m12")


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(key, fn, **kw):
        out.append(Job(key, fn, kw, budget=200 if tier == "quick" else 800))

    add("tetra-volume", cell, shape="tetra", family="affine", how="general", what=("centre", "volume"))
    for p in PERMS:
        for s in ("tetra", "hexahedron", "wedge"):
            add("%s-affine-faces-%s" % (s, "".join(map(str, p))), cell, shape=s, family="affine", how=(p, OFF + ("t",)), what=ALL)
    if deep:
        add("hexahedron-affine", cell, shape="hexahedron", family="affine", how="general", what=ALL)
        add("wedge-affine", cell, shape="wedge", family="affine", how="general", what=ALL)
    quick_off = {"pyramid-base": OFF, "wedge-prism": OFF, "wedge-cone": OFF, "hexahedron-prism": OFF, "hexahedron-cone": OFF}
    for shape, fam in [("pyramid", "base"), ("wedge", "prism"), ("wedge", "cone"), ("hexahedron", "prism"), ("hexahedron", "cone")]:
        key = "%s-%s" % (shape, fam)
        if True:
            add(key + "-volume", cell, shape=shape, family=fam, how="general", what=("centre", "volume"))
        for p in PERMS if deep else PERMS[:1]:
            if True:
                add("%s-faces-%s" % (key, "".join(map(str, p))), cell, shape=shape, family=fam, how=(p, OFF if deep else quick_off[key]), what=ALL)
    orders = [("tetra", "hexahedron"), ("pyramid", "wedge"), ("wedge", "tetra", "tetra"), ("hexahedron", "pyramid", "hexahedron"), ("wedge", "pyramid", "tetra", "hexahedron")]
    for o in orders:
        add("mixed-" + "-".join(x[0] for x in o), mixed, order=o)
    add("grid-222", grid, n=(2, 2, 2))
    add("grid-132", grid, n=(1, 3, 2))
    return out
