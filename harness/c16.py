"""C16: AVS-UCD and Tecplot meshes survive a round trip."""
import numpy

from sx.runner import Job

BOUNDS = (
    "meshes of one to four cells of one type or of several types in several blocks (every type of cell the formats know), and a grid of 36 points "
    "and 21 cells; any coordinates, point data and cell data (up to 1e12 in magnitude, reals or integers, of one to three components, the three "
    "leading coordinates free in larger meshes), any materials (AVS-UCD); plane meshes for Tecplot; files by name of format or by extension"
)
OUTSIDE = "names of data with blanks, commas or quotes; data named as coordinates (not written to Tecplot files); not-a-number and infinities; cells of second order"
ASSUMPTIONS = ["numbers are real numbers; a value may differ from the written one by the digits its format keeps"]

NODES = {"vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8}
FACES = {
    "tetra": [(0, 1, 2), (1, 2, 3), (2, 3, 0), (3, 0, 1)],
    "pyramid": [(0, 1, 2, 3), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    "wedge": [(0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
    "hexahedron": [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
    "triangle": [(0, 1), (1, 2), (2, 0)],
    "quad": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "line": [(0, 1)],
    "vertex": [(0,)],
}


def shape(kind, nodes):
    """Sides of a cell as rings of different nodes, in any direction."""
    out = []
    for f in FACES[kind]:
        ring = []
        for i in f:
            n = int(nodes[i])
            if n not in ring:
                ring.append(n)
        if len(ring) >= (3 if kind in ("tetra", "pyramid", "wedge", "hexahedron") else min(2, len(f))):
            k = ring.index(min(ring))
            a = ring[k:] + ring[:k]
            out.append(min(a, a[:1] + a[1:][::-1]))
    return sorted(out)


def value(sx, name, how):
    if how == "int":
        return sx.int(name, -10 ** 9, 10 ** 9)
    return sx.real(name, -1e12, 1e12)


def build(sx, blocks, ndim, free, pdata, cdata, material):
    """A mesh of cells that share some nodes; the first free numbers of each array are symbolic."""
    import toughio

    npts = max(NODES[k] for k, _ in blocks) + 3 * max(n for _, n in blocks)
    pts = numpy.array([[value(sx, "x%d%d" % (i, j), "real") if i < free else -0.5 + i * i + 0.25 * j for j in range(ndim)] for i in range(npts)])
    cells = []
    for b, (k, n) in enumerate(blocks):
        cells.append((k, numpy.array([[(3 * c + b + j * (1 if c % 2 else npts - 1)) % npts for j in range(NODES[k])] for c in range(n)])))
    ncells = sum(n for _, n in blocks)

    def array(name, n, how, dim):
        def one(i, j):
            if i < free:
                return value(sx, "%s%d%d" % (name, i, j), how)
            return (i * 7 + j) % 11 - 3 if how == "int" else (i - 2) * 1.25 + j

        return numpy.array([[one(i, j) for j in range(dim)] if dim > 1 else one(i, 0) for i in range(n)])

    mesh = toughio.Mesh(pts, cells)
    for k, (how, dim) in pdata.items():
        mesh.add_point_data(k, array(k, npts, how, dim))
    for k, (how, dim) in cdata.items():
        mesh.add_cell_data(k, array(k, ncells, how, dim))
    if material:
        mesh.cell_data["material"] = numpy.array([sx.int("mat%d" % i, 0, 10 ** 6) if i < free else i % 3 for i in range(ncells)])
        if material == "first":
            mesh.cell_data = {k: mesh.cell_data[k] for k in ["material"] + list(cdata)}
    return mesh


def values(sx, got, want, rtol, what):
    sx.check(numpy.shape(got) == numpy.shape(want), "%s: shape" % what)
    if numpy.shape(got) == numpy.shape(want):
        sx.check(sx.all_([sx.close(a, b, rtol, 0) for a, b in zip(numpy.ravel(got), numpy.ravel(want))]), what)


def trip(sx, fmt, blocks, ndim=3, free=99, pdata={}, cdata={}, material=None, ext=False):
    import toughio

    sx.plain_numbers()
    mesh = build(sx, blocks, ndim, free, pdata, cdata, material)
    old = sx.freeze([mesh.points, mesh.point_data, mesh.cell_data])
    name = sx.path("mesh" + {"avsucd": ".avs", "tecplot": ext or ".tec"}[fmt])
    if ext and fmt == "tecplot":
        mesh.write(name)
        got = toughio.read_mesh(name)
    else:
        mesh.write(name, file_format=fmt)
        got = toughio.read_mesh(name, file_format=fmt)
    sx.frozen_same([mesh.points, mesh.point_data, mesh.cell_data], old, "mesh unchanged")

    # blocks that are written
    dims = [1 if k == "line" else 0 if k == "vertex" else 2 if k in ("triangle", "quad") else 3 for k, _ in blocks]
    kept = [True] * len(blocks)
    if fmt == "tecplot":
        kept = [d == max(dims) for d in dims]
    cells, rows, n = [], [], 0
    for c, keep in zip(mesh.cells, kept):
        for row in c.data:
            if keep:
                cells.append((c.type, row))
                rows.append(n)
            n += 1
    values(sx, got.points, mesh.points, 1e-12, "points")
    back = [(c.type, row) for c in got.cells for row in c.data]
    sx.check(len(back) == len(cells), "cells")
    for (k, a), (t, b) in zip(back, cells):
        sx.check(k == t or fmt == "tecplot", "type of cell")
        sx.check(shape(k, a) == shape(t, b), "nodes of cell")

    names = set(pdata)
    sx.check(set(got.point_data) == set(columns(fmt, pdata)), "names of point data")
    sx.check(set(got.cell_data) - {"material"} == set(columns(fmt, cdata)), "names of cell data")
    for k in pdata:
        for name, arr in split(fmt, k, mesh.point_data[k]):
            values(sx, got.point_data[name], arr, 1e-12, "point data")
    for k in cdata:
        for name, arr in split(fmt, k, mesh.cell_data[k][rows]):
            values(sx, got.cell_data[name], arr, 1e-12, "cell data")
    if fmt == "avsucd":
        want = mesh.cell_data["material"] if material else numpy.zeros(len(cells), dtype=int)
        sx.check(numpy.shape(got.cell_data["material"]) == numpy.shape(want), "materials: shape")
        sx.check(sx.all_([sx.eq(a, b) for a, b in zip(got.cell_data["material"], want)]), "materials")
    elif material:
        values(sx, got.cell_data["material"], mesh.cell_data["material"][rows], 1e-12, "materials")


def columns(fmt, data):
    if fmt == "avsucd":
        return list(data)
    return [c for k, (_, d) in data.items() for c in ([k] if d == 1 else ["%s_%d" % (k, i) for i in range(d)])]


def split(fmt, k, arr):
    if fmt == "avsucd" or numpy.ndim(arr) == 1:
        return [(k, arr)]
    return [("%s_%d" % (k, i), arr[:, i]) for i in range(arr.shape[1])]


def jobs(tier):
    thorough = tier == "thorough"
    J = []
    b = dict(budget=400 if thorough else 60)

    def add(name, **kw):
        for fmt in ("avsucd", "tecplot"):
            p = dict(kw)
            if fmt in p.pop("only", fmt):
                J.append(Job("%s_%s" % (fmt, name), trip, dict(fmt=fmt, **p), **b))

    one, two = {"a": ("real", 1)}, {"a": ("real", 1), "vec": ("real", 3), "n": ("int", 1)}
    for k in NODES:
        only = "avsucd" if k in ("vertex", "line") else ("avsucd", "tecplot")
        add(k, blocks=[(k, 2)], free=2, pdata=one, cdata={"c": ("real", 1)}, only=only)
        add(k + "_material", blocks=[(k, 3)], free=3, cdata={"c": ("real", 2)}, material="last", only=only)
    add("plain", blocks=[("tetra", 1)], ext=".tec")
    add("point", blocks=[("tetra", 2)], free=3, pdata=two)
    add("cell", blocks=[("hexahedron", 2)], free=2, cdata=two, material="first")
    add("both", blocks=[("wedge", 2)], free=2, pdata={"vec": ("real", 2), "b": ("int", 1)}, cdata={"w": ("real", 2), "k": ("int", 1), "u": ("real", 1)}, material="last", ext=".dat")
    for n, kinds in {"solids": ["tetra", "pyramid", "wedge", "hexahedron"], "tetpyr": ["tetra", "pyramid"], "plane": ["triangle", "quad"], "twice": ["tetra", "tetra"], "apart": ["hexahedron", "wedge", "hexahedron"]}.items():
        add(n, blocks=[(k, 1 + i % 2) for i, k in enumerate(kinds)], free=2, pdata=one, cdata={"c": ("real", 1), "d": ("real", 2)}, material="last")
        add(n + "_cell", blocks=[(k, 2 - i % 2) for i, k in enumerate(kinds)], free=7, cdata={"d": ("int", 1)}, material="first")
    for n, kinds in {"faces_first": ["triangle", "tetra"], "faces_last": ["hexahedron", "quad"], "faces_mid": ["wedge", "quad", "tetra"]}.items():
        add(n, blocks=[(k, 1 + i % 2) for i, k in enumerate(kinds)], free=2, pdata=one, cdata={"c": ("real", 1)}, material="last")
    add("edges", blocks=[("line", 2), ("quad", 2), ("vertex", 1)], free=3, cdata={"c": ("real", 1)}, material="last", only="avsucd")
    add("skip", blocks=[("line", 2), ("quad", 2)], free=3, cdata={"c": ("real", 1)}, only="tecplot")
    add("flat", blocks=[("triangle", 2), ("quad", 1)], ndim=2, free=4, pdata=one, cdata={"c": ("real", 1)}, only="tecplot")
    add("flat_quad", blocks=[("quad", 2)], ndim=2, free=4, pdata={"vec": ("real", 2)}, only="tecplot")
    if thorough:
        for n, kinds in {"t1": ["tetra", "hexahedron", "tetra", "wedge", "pyramid"], "t2": ["quad", "triangle", "quad", "tetra"], "t3": ["pyramid", "tetra", "wedge"], "t4": ["hexahedron", "pyramid"]}.items():
            for m in range(2):
                add("%s_%d" % (n, m), blocks=[(k, 1 + (i + m) % 3) for i, k in enumerate(kinds)], pdata=two, cdata={"c": ("real", 1), "d": ("real", 2), "k": ("int", 1)}, material=["first", "last"][m])
        add("huge", blocks=[("hexahedron", 45)], free=5, pdata=two, cdata=two, material="last")
    add("large", blocks=[("quad", 21), ("triangle", 20)], free=3, pdata=two, cdata={"c": ("real", 1), "k": ("int", 2)}, material="last")
    return J
