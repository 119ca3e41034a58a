"""C20: generated grids."""
import math

import numpy

from sx.runner import Job

from .c11 import volume

BOUNDS = (
    "one to three cells per direction (two dimensions: up to 3 x 3; three dimensions: up to 12 cells; thorough: up to 27), any positive "
    "spacings, any origin or none, lists, tuples and arrays, by layers or not; voxel grids over any points that form a grid of up to "
    "12 points, in any order; clouds of four and five points in a plane or in space"
)
OUTSIDE = "larger grids; negative spacings; the triangulation itself (scipy), which is replaced by any connectivity"
ASSUMPTIONS = ["coordinates are real numbers", "points of voxel grids lie so that all voxels have positive sizes"]


def pack(sx, how, v):
    return list(v) if how == 0 else tuple(v) if how == 1 else numpy.array(v)


def edges(start, d):
    out = [start]
    for x in d:
        out.append(out[-1] + x)
    return out


def lattice(sx, mesh, E, cyl=False):
    """The points of the mesh are those of the lattice, each once; gives (i, j, k) of every cell."""
    n = [len(e) - 1 for e in E]
    pts = [list(p) for p in mesh.points]
    total = 1
    for e in E:
        total *= len(e)
    sx.check(len(pts) == total, "number of points")
    where = {}
    for p, x in enumerate(pts):
        idx = []
        for a in range(3):
            hit = [i for i, e in enumerate(E[a]) if sx.decide(sx.same(x[a], e))]
            sx.check(len(hit) == 1, "points are on the lattice")
            idx.append(hit[0])
        sx.check(tuple(idx) not in where.values(), "no point is repeated")
        where[p] = tuple(idx)
    out = []
    for c in mesh.cells:
        for row in c.data:
            ijk = [where[int(k)] for k in row]
            lo = tuple(min(q[a] for q in ijk) for a in range(3))
            flat = [a for a in range(3) if len(E[a]) == 1]
            sx.check(len(set(ijk)) == 8 // 2 ** len(flat) and all(
                q[a] - lo[a] in ((0, 1) if a not in flat else (0,)) for q in ijk for a in range(3)), "points of a cell")
            out.append((lo, [int(k) for k in row]))
    sx.check(sorted(x for x, _ in out) == sorted((i, j, k) for i in range(max(n[0], 1)) for j in range(max(n[1], 1)) for k in range(max(n[2], 1))),
             "each cell once")
    return out


def materials(sx, mesh, name):
    sx.check(sorted(mesh.field_data) == [name] and [int(x) for x in mesh.field_data[name]] == [1, 3], "material")
    sx.check([str(x) for x in mesh.materials] == [name] * mesh.n_cells, "material of every cell")


def ordered(sx, cells, n, layer):
    """From top to bottom: by layers, or by columns."""
    lo = [c for c, _ in cells]
    if layer:
        for k in range(n[2]):
            part = lo[k * n[0] * n[1]:(k + 1) * n[0] * n[1]]
            sx.check(all(c[2] == n[2] - 1 - k for c in part), "layers from top to bottom")
    else:
        for k in range(n[0] * n[1]):
            part = lo[k * n[2]:(k + 1) * n[2]]
            sx.check([c[2] for c in part] == list(range(n[2] - 1, -1, -1)) and len({c[:2] for c in part}) == 1, "columns from top to bottom")


def solid(sx, mesh, cells, D, what="volume"):
    vols, cents = mesh.volumes, mesh.centers
    total = 0
    for i, ((a, b, c), row) in enumerate(cells):
        v = D[0][a] * D[1][b] * D[2][c]
        P = [list(mesh.points[k]) for k in row]
        sx.check(sx.same(volume(P, "hexahedron"), v), "cells are hexahedra")
        if what:
            sx.check(sx.same(vols[i], v), what)
            total = total + vols[i]
    if what:
        full = 1
        for d in D:
            full = full * sum(d[1:], d[0])
        sx.check(sx.same(total, full), "volumes add up")
    return cents


def structured(sx, n, layer, how=0, origin=True, name="dfalt", ohow=0):
    import toughio

    sx.geometry()
    D = [[sx.real("d%s%d" % (a, i), 0.01, 100) for i in range(m)] for a, m in zip("xyz", n)]
    args = [pack(sx, how, d) for d in D]
    kw = {}
    if origin:
        o = [sx.real("o" + a, -1000, 1000) for a in "xyz"[:len(n)]]
        kw["origin"] = pack(sx, ohow, o)
        o = o + [0] * (3 - len(n))
    else:
        o = [0, 0, 0 if len(n) == 2 else -sum(D[2][1:], D[2][0])]
    if name != "dfalt":
        kw["material"] = name
    if layer:
        kw["layer"] = True
    old = sx.freeze([args, kw.get("origin")])
    mesh = toughio.meshmaker.structured_grid(*args, **kw)
    sx.frozen_same([args, kw.get("origin")], old, "spacings unchanged")
    E = [edges(o[a], D[a]) if a < len(n) else [o[a]] for a in range(3)]
    cells = lattice(sx, mesh, E)
    materials(sx, mesh, name)
    sx.check(mesh.n_cells == math.prod(n), "number of cells")
    cents = mesh.centers
    for i, (lo, _) in enumerate(cells):
        for a in range(len(n)):
            sx.check(sx.same(2 * cents[i][a], E[a][lo[a]] + E[a][lo[a] + 1]), "centre")
    if len(n) == 3:
        solid(sx, mesh, cells, D)
        ordered(sx, cells, n, layer)
        sx.check([c.type for c in mesh.cells] == ["hexahedron"], "shape")
    else:
        sx.check([c.type for c in mesh.cells] == ["quad"], "shape")
        for (a, b, _), row in cells:
            P = [list(mesh.points[k]) for k in row]
            ar = 0
            for q in range(4):
                ar = ar + P[q - 1][0] * P[q][1] - P[q][0] * P[q - 1][1]
            sx.check(sx.same(ar / 2, D[0][a] * D[1][b]), "cells are rectangles")


def cylindric(sx, nr, nz, layer, origin=True, how=0):
    import toughio

    sx.geometry()
    dr = [sx.real("dr%d" % i, 0.01, 100) for i in range(nr)]
    dz = [sx.real("dz%d" % i, 0.01, 100) for i in range(nz)]
    kw = {"material": "ROCK1"} if how else {}
    if origin:
        z0 = sx.real("z0", -1000, 1000) if not (origin == "int") else sx.choice("z0", [-3, 0, 7])
        kw["origin_z"] = z0
    else:
        z0 = -sum(dz[1:], dz[0])
    mesh = toughio.meshmaker.cylindric_grid(pack(sx, how, dr), pack(sx, how, dz), layer=layer, **kw)
    R, Z = edges(0, dr), edges(z0, dz)
    cells = lattice(sx, mesh, [R, [-0.5, 0.5], Z])
    materials(sx, mesh, "ROCK1" if how else "dfalt")
    ordered(sx, cells, (nr, 1, nz), layer)
    solid(sx, mesh, cells, [dr, [1], dz], what=None)
    vols, areas = mesh.volumes, mesh.face_areas
    pi = math.pi
    total = 0
    sx.check(len(vols) == nr * nz and numpy.shape(areas) == (nr * nz, 6), "one volume per cell")
    faces = mesh.faces
    for i, ((a, _, c), row) in enumerate(cells):
        ring = (R[a + 1] * R[a + 1] - R[a] * R[a]) * pi
        sx.check(sx.close(vols[i], ring * dz[c], 1e-9), "volume of a ring")
        total = total + vols[i]
        for f in range(6):
            ids = [int(k) for k in faces[i][f]]
            P = [mesh.points[k] for k in ids]
            flat = [sx.decide(sx.all_([sx.same(p[q], P[0][q]) for p in P])) for q in range(3)]
            sx.check(sum(flat) == 1, "faces of the cell")
            if flat[2]:
                want = ring
            elif flat[1]:
                want = dr[a] * dz[c]
            else:
                r = P[0][0]
                want = 2 * pi * r * dz[c]
            sx.check(sx.close(areas[i][f], want, 1e-9), "area of a face")
    sx.check(sx.close(total, R[-1] * R[-1] * pi * sum(dz[1:], dz[0]), 1e-9), "volumes add up")


def voxel(sx, n, layer, perm):
    import toughio

    sx.geometry()
    D = [[sx.real("d%s%d" % (a, i), 0.01, 100) for i in range(m)] for a, m in zip("xyz", n)]
    o = [sx.real("o" + a, -1000, 1000) for a in "xyz"]
    D = [d if len(d) > 1 else [1] for d in D]
    E = [edges(o[a], D[a]) for a in range(3)]
    C = [[E[a][i] + D[a][i] / 2 for i in range(n[a])] for a in range(3)]
    for a in range(3):
        if n[a] == 1:
            C[a] = [sx.real("c" + "xyz"[a], -1000, 1000)]
    pts = [[x, y, z] for x in C[0] for y in C[1] for z in C[2]]
    pts = [pts[(perm[0] * i + perm[1]) % len(pts)] for i in range(len(pts))]
    mesh = toughio.meshmaker.voxelize(pts if perm[1] % 2 else numpy.array(pts), o, layer=layer)
    cells = lattice(sx, mesh, E)
    ordered(sx, cells, n, layer)
    cents = solid(sx, mesh, cells, D)
    for i, (lo, _) in enumerate(cells):
        for a in range(3):
            if n[a] > 1:
                sx.check(sx.same(cents[i][a], C[a][lo[a]]), "voxels are around the points")


def cloud(sx, dim, n, how, name=None):
    """A triangulation keeps the points it is given; which triangles there are is up to scipy."""
    import scipy.spatial
    import toughio

    pts = [[sx.real("x%d%d" % (i, a), -1e6, 1e6) for a in range(dim)] for i in range(n)]
    tri = numpy.array([[(i + j) % n for j in range(dim + 1)] for i in range(sx.choice("cells", [1, 2, 3]))])
    given = []

    class Delaunay:
        simplices = tri

        def __init__(self, points, *a, **kw):
            given.append(points)

    old = scipy.spatial.Delaunay
    scipy.spatial.Delaunay = Delaunay
    try:
        mesh = toughio.meshmaker.triangulate(pack(sx, how, pts), **({"material": name} if name else {}))
    finally:
        scipy.spatial.Delaunay = old
    for got in (given[0], mesh.points):
        sx.check(numpy.shape(got) == (n, dim), "number of points")
        sx.check(sx.all_([sx.eq(a, b) for p, q in zip(got, pts) for a, b in zip(p, q)]), "points")
    sx.check([c.type for c in mesh.cells] == ["triangle" if dim == 2 else "tetra"], "kind of cells")
    sx.check(numpy.array_equal(mesh.cells[0].data, tri) and mesh.n_cells == len(tri), "cells")
    materials(sx, mesh, name or "dfalt")


def bad(sx):
    import toughio

    x = sx.real("x", 0.01, 100)
    y = sx.real("y", -100, 0)
    g, c, v = toughio.meshmaker.structured_grid, toughio.meshmaker.cylindric_grid, toughio.meshmaker.voxelize
    for f, a in ((g, (x, [x], [x])), (g, ([x], x, [x])), (g, ([x], [x], x)), (c, (x, [x])), (c, ([x], x)), (v, (x, [0, 0, 0]))):
        with sx.raises(TypeError):
            f(*a)
    with sx.raises(TypeError):
        g([x], [x], [x], material=1)
    with sx.raises(TypeError):
        c([x], [x], origin_z="a")
    with sx.raises(ValueError):
        c([x, y], [x])
    with sx.raises(ValueError):
        c([x], [x, y])
    with sx.raises(ValueError):
        g([x], [x], [x], origin=[x, x])
    with sx.raises(ValueError):
        v([[x, 0, 0], [x + 1, 1, 0]], [-1, -1, -1])
    t = toughio.meshmaker.triangulate
    for p in (1.0, "abc", None):
        with sx.raises(TypeError):
            t(p)
    for p in ([x, y, x], [[x], [y], [x]], [[x] * 4] * 5):
        with sx.raises(ValueError):
            t(p)
    with sx.raises(TypeError):
        t([[0.0, 0.0], [x, 0.0], [0.0, x]], material=1)


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(key, fn, **kw):
        out.append(Job(key, fn, kw, budget=200 if not deep else 600))

    sizes = [(1, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)]
    if deep:
        sizes += [(3, 3, 3), (4, 2, 3), (2, 4, 3), (3, 2, 4)]
    for n in sizes:
        for layer in (False, True):
            add("grid-%d%d%d-%d" % (*n, layer), structured, n=n, layer=layer, how=sum(n) % 3, ohow=n[0] % 3, origin=n != (1, 1, 3))
    for n in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)]:
        for layer in (False, True):
            add("plane-%d%d-%d" % (*n, layer), structured, n=n, layer=layer, how=sum(n) % 3, origin=n != (2, 2))
    add("material", structured, n=(2, 1, 1), layer=False, name="ROCK1")
    for nr, nz in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([(4, 3), (3, 4)] if deep else []):
        for layer in (False, True):
            add("cylinder-%d%d-%d" % (nr, nz, layer), cylindric, nr=nr, nz=nz, layer=layer, how=(nr + nz) % 3, origin={3: None, 4: "int"}.get(nr + nz, True))
    for n in [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 2, 2), (3, 1, 2)] + ([(3, 2, 2), (2, 2, 3), (2, 3, 2)] if deep else []):
        for layer in (False, True):
            add("voxels-%d%d%d-%d" % (*n, layer), voxel, n=n, layer=layer, perm=[(1, 0), (-1, 1), (-1, 2)][(sum(n) + layer) % 3])
    for dim in (2, 3):
        for n in (4, 5):
            add("cloud-%d-%d" % (dim, n), cloud, dim=dim, n=n, how=(dim + n) % 3, name=[None, "ROCK1"][n % 2])
    add("bad", bad)
    return out
