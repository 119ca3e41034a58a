"""C15: FLAC3D grids survive a round trip."""
import numpy

from sx.runner import Job

BOUNDS = (
    "text and binary files; meshes of one to three cells of one type or of several types in several blocks (every type FLAC3D knows, faces before, "
    "after and between zones, edges that are not written), and grids of up to 60 cells; every coordinate of the first cells symbolic (either "
    "orientation of every cell), any number of the mesh as material of each cell (named, unnamed, or named for the other dimension); files with "
    "groups in any order, cells of no group, slots, degenerate bricks and comments, of any coordinates"
)
OUTSIDE = "names of materials with quotes; two materials that share a name; several slots; cells of second order; not-a-number and infinities"
ASSUMPTIONS = ["numbers are real numbers; a value of a text file may differ by the digits its format keeps", "C struct packing keeps numbers (binary files)"]

NODES = {"line": 2, "triangle": 3, "quad": 4, "tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8}
SOLID = ("tetra", "pyramid", "wedge", "hexahedron")
FACES = {
    "tetra": [(0, 1, 2), (1, 2, 3), (2, 3, 0), (3, 0, 1)],
    "pyramid": [(0, 1, 2, 3), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    "wedge": [(0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
    "hexahedron": [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
    "triangle": [(0, 1, 2)],
    "quad": [(0, 1, 2, 3)],
}
# corners of a zone that FLAC3D wants right-handed: the first one and its three neighbours
CORNER = {"tetra": (0, 1, 2, 3), "pyramid": (0, 1, 3, 4), "wedge": (0, 1, 3, 2), "hexahedron": (0, 1, 3, 4)}
UNIT = {
    "tetra": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "pyramid": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0.5, 0.5, 1)],
    "wedge": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "hexahedron": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
    "triangle": [(0, 0, 0), (1, 0, 0), (0, 1, 0)],
    "quad": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)],
    "line": [(0, 0, 0), (1, 0, 0)],
}


def shape(kind, nodes):
    """Sides of a cell as rings of nodes, in any direction."""
    out = []
    for f in FACES[kind]:
        ring = [int(nodes[i]) for i in f]
        k = ring.index(min(ring))
        a = ring[k:] + ring[:k]
        out.append(min(a, a[:1] + a[1:][::-1]))
    return sorted(out)


def triple(pts, kind, nodes):
    a, b, c, d = [pts[int(nodes[i])] for i in CORNER[kind]]
    u, v, w = [[q[k] - a[k] for k in range(3)] for q in (b, c, d)]
    return u[0] * (v[1] * w[2] - v[2] * w[1]) + u[1] * (v[2] * w[0] - v[0] * w[2]) + u[2] * (v[0] * w[1] - v[1] * w[0])


def build(sx, blocks, free, share):
    """Cells one behind the other, every other one reflected; the first cells have symbolic points."""
    import toughio

    pts, cells, n = [], [], 0
    for k, m in blocks:
        rows = []
        for _ in range(m):
            row = []
            for j, (x, y, z) in enumerate(UNIT[k]):
                if share and n and j == 0:
                    # a node of the cell before
                    row.append(len(pts) - 1)
                    continue
                row.append(len(pts))
                if n < free:
                    pts.append([sx.real("p%d_%d%s" % (n, j, a), -1e3, 1e3) for a in "xyz"])
                else:
                    pts.append([2.0 * n + x, y * (1 if n % 2 else -1), z + 0.25 * n])
            rows.append(row)
            n += 1
        cells.append((k, numpy.array(rows)))
    return toughio.Mesh(numpy.array(pts), cells)


def close(sx, got, want, binary):
    sx.check(numpy.shape(got) == numpy.shape(want), "points: number")
    if numpy.shape(got) == numpy.shape(want):
        pairs = list(zip(numpy.ravel(got), numpy.ravel(want)))
        sx.check(sx.all_([sx.eq(a, b) if binary else sx.close(a, b, 1e-12, 0) for a, b in pairs]), "points")


def trip(sx, binary, blocks, free=1, share=False, ids=None, fields=None, symbolic=3, fmt=None, materials=True):
    import toughio

    sx.plain_numbers()
    if fmt is None:
        sx.geometry()
    mesh = build(sx, blocks, free, share)
    kinds = [c.type for c in mesh.cells for _ in c.data]
    rows = [row for c in mesh.cells for row in c.data]
    if materials:
        mat = [sx.choice("mat%d" % i, ids) if i < symbolic else ids[i % len(ids)] for i in range(len(kinds))]
        mesh.cell_data["material"] = numpy.array(mat)
        if fields:
            mesh.field_data = {k: numpy.array(v) for k, v in fields.items()}
    old = sx.freeze([mesh.points, mesh.cell_data, mesh.field_data])
    name = sx.path("mesh.f3grid")
    kw = {} if fmt is None or fmt == ".16e" else {"float_fmt": fmt}
    mesh.write(name, file_format="flac3d", binary=binary, **kw) if binary or kw else mesh.write(name)
    got = toughio.read_mesh(name)
    sx.frozen_same([mesh.points, mesh.cell_data, mesh.field_data], old, "mesh unchanged")

    close(sx, got.points, mesh.points, binary)
    order = [i for i, k in enumerate(kinds) if k in SOLID] + [i for i, k in enumerate(kinds) if k in ("triangle", "quad")]
    back = [(c.type, row) for c in got.cells for row in c.data]
    sx.check(len(back) == len(order), "cells")
    for (k, row), i in zip(back, order):
        sx.check(k == kinds[i], "type of cell")
        sx.check(shape(k, row) == shape(k, rows[i]), "nodes of cell")
        if k in SOLID:
            sign = triple(mesh.points, k, row)
            sx.check(sx.le(-1e-3, sign) if i < free or share else sign > 0, "orientation of zone")
    if not materials:
        sx.check(not got.field_data, "no material")
        return
    want = []
    for i in order:
        dim = 3 if kinds[i] in SOLID else 2
        names = [k for k, v in (fields or {}).items() if v[0] == mat[i] and v[1] == dim]
        names += [k for k, v in (fields or {}).items() if v[0] == mat[i]]
        names += ["None" if mat[i] == 0 else str(mat[i])]
        want.append(names[0])
    sx.check([str(m) for m in got.materials] == want, "materials")


def grid(sx, binary, n, fields, ids):
    """More cells than fit on one line of a group."""
    import toughio

    mesh = toughio.meshmaker.structured_grid([1.0] * n[0], [1.0] * n[1], [1.0] * n[2])
    pos = [(i * 17) % mesh.n_cells for i in range(3)]
    mat = [ids[0]] * mesh.n_cells
    for i, p in enumerate(pos):
        mat[p] = sx.choice("mat%d" % i, ids)
    mesh.cell_data["material"] = numpy.array(mat)
    mesh.field_data = {k: numpy.array([v, 3]) for k, v in fields.items()}
    name = sx.path("mesh.f3grid")
    mesh.write(name, file_format="flac3d", binary=binary)
    got = toughio.read_mesh(name, file_format="flac3d")
    back = {v: k for k, v in fields.items()}
    sx.check([str(m) for m in got.materials] == [back.get(m, str(m)) for m in mat], "materials")
    sx.check(sorted(got.volumes.tolist()) == [1.0] * mesh.n_cells, "volumes")
    sx.check(numpy.shape(got.centers) == numpy.shape(mesh.centers) and bool((abs(got.centers - mesh.centers) < 1e-9).all()), "centers")


def listing(sx, order, slot, shift):
    """A file by another program: any numbers of points and cells, groups in any order, cells of no group."""
    import toughio

    sx.plain_numbers()
    xyz = numpy.array([[sx.real("x%d%s" % (i, a), -1e6, 1e6) if i < 2 else float(i * i - j) for j, a in enumerate("xyz")] for i in range(12)])
    ids = [shift + 3 * i for i in range(12)]
    lines = ["* file of a test", "* GRIDPOINTS"]
    lines += ["G %d %s %s %s" % ((ids[i],) + tuple("{:.16e}".format(v) for v in xyz[i])) for i in range(12)]
    brick, brick7, tet, tri, quad = [0, 1, 2, 3, 4, 5, 6, 7], [0, 1, 2, 3, 4, 5, 6], [8, 9, 10, 11], [3, 4, 8], [0, 1, 5, 9]
    zones = [("B8", 10, brick), ("B7", 12, brick7), ("T4", 11, tet), ("B8", 40, brick[::-1])]
    faces = [("T3", 10, tri), ("Q4", 13, quad)]
    lines += ["* ZONES"] + ["Z %s %d %s" % (t, c, " ".join(str(ids[k]) for k in v)) for t, c, v in zones]
    lines += ["* FACES"] + ["F %s %d %s" % (t, c, " ".join(str(ids[k]) for k in v)) for t, c, v in faces]
    where = {c: sx.choice("zone%d" % c, ["", "sand", "two words"]) for _, c, _ in zones[:3]}
    where[40] = "sand"
    side = {c: sx.choice("face%d" % c, ["", "top", "sand"]) for _, c, _ in faces}
    end = {"": "", "default": " SLOT Default", "quoted": ' SLOT "1"'}[slot]
    zg = ['ZGROUP "%s"%s\n' % (g, end) + "".join(" %d" % c for c in where if where[c] == g) for g in ("sand", "two words") if g in where.values()]
    fg = ['FGROUP "%s"%s\n' % (g, end) + "".join(" %d\n" % c for c in side if side[c] == g).rstrip() for g in ("top", "sand") if g in side.values()]
    if order == "faces":
        lines += fg + zg
    elif order == "comments":
        lines += ["* ZGROUPS"] + [x for g in zg for x in (g, "*")] + [x for g in fg for x in ("* next", g)]
    else:
        lines += zg + fg
    name = sx.path("other.f3grid")
    sx.write_file(name, "\n".join(lines) + "\n")
    got = toughio.read_mesh(name)
    close(sx, got.points, xyz, False)
    cells = [(c.type, row) for c in got.cells for row in c.data]
    sx.check([k for k, _ in cells] == ["hexahedron", "hexahedron", "tetra", "hexahedron", "triangle", "quad"], "types of cells")
    corners = {"B8": [0, 1, 4, 2, 3, 6, 7, 5], "B7": [0, 1, 4, 2, 3, 6, 6, 5]}
    sx.check([list(row) for _, row in cells] == [[v[i] for i in corners.get(t, range(len(v)))] for t, _, v in zones + faces], "nodes of cells")
    names = {int(v[0]): k for k, v in got.field_data.items()}
    want = list(where.values()) + list(side.values())
    if "material" in got.cell_data:
        sx.check([names.get(int(m), "") for m in got.cell_data["material"]] == want, "materials")
    else:
        sx.check(not any(want), "materials")


def jobs(tier):
    thorough = tier == "thorough"
    J = []
    b = dict(budget=400 if thorough else 40)
    named = {"rock": [1, 3], "a rock": [2, 3], "top": [1, 2], "side": [4, 2], "grès": [4, 3]}

    def add(name, **kw):
        for binary in (False, True):
            if kw.get("fmt") and binary:
                continue
            J.append(Job("%s_%s" % ("binary" if binary else "text", name), trip, dict(binary=binary, **kw), **b))

    for k in SOLID:
        add(k, blocks=[(k, 1)], ids=[1, 2, 0], fields=named)
        add(k + "_two", blocks=[(k, 2)], share=thorough, free=2 if thorough else 1, ids=[3, 1], fields=None, symbolic=1)
        add(k + "_bare", blocks=[(k, 1)], materials=False)
        add(k + "_digits", blocks=[("triangle", 1), (k, 1)], ids=[2], fields=named, fmt=".16e")
    add("mixed", blocks=[("tetra", 1), ("hexahedron", 1), ("pyramid", 2), ("wedge", 1), ("tetra", 1)], ids=[1, 2, 4, 7], fields=named, symbolic=3 if thorough else 1)
    for n, blocks in {
        "last": [("hexahedron", 2), ("quad", 2)], "first": [("triangle", 2), ("quad", 1), ("tetra", 2)], "mid": [("wedge", 1), ("triangle", 1), ("pyramid", 1), ("quad", 1)],
        "edges": [("line", 2), ("tetra", 1), ("line", 1), ("triangle", 2)], "apart": [("quad", 1), ("tetra", 1), ("quad", 1), ("tetra", 1)],
    }.items():
        add("faces_" + n, blocks=blocks, free=0, ids=[1, 4, 2, 0] if thorough else [1, 4, 2], fields=named, symbolic=4)
        add("faces_%s_plain" % n, blocks=blocks, free=1, ids=[1, 12], fields=None, symbolic=3 if thorough else 1)
        add("faces_%s_other" % n, blocks=blocks, free=0, ids=[1, 2], fields={"rock": [1, 3], "top": [2, 2]}, symbolic=4)
        add("faces_%s_bare" % n, blocks=blocks, free=0, materials=False)
    for binary in (False, True):
        for n, size in {"line": (23, 1, 1), "block": (5, 4, 3), "full": (20, 1, 1)}.items():
            J.append(Job("%s_grid_%s" % ("binary" if binary else "text", n), grid, dict(binary=binary, n=size, fields={"rock": 1, "a long name": 3}, ids=[1, 3, 2]), **b))
    for order in ("plain", "faces", "comments"):
        for slot in ("", "default", "quoted"):
            J.append(Job("file_%s_%s" % (order, slot or "none"), listing, dict(order=order, slot=slot, shift=1 if order == "plain" else 7), **b))
    if thorough:
        for k in SOLID:
            add(k + "_three", blocks=[(k, 3)], share=True, free=3, ids=[1, 2], fields=named)
        for m, kinds in enumerate([("tetra", "quad", "hexahedron"), ("pyramid", "triangle", "wedge"), ("quad", "hexahedron", "triangle")]):
            add("t%d" % m, blocks=[(k, 2) for k in kinds], free=2, share=True, ids=[1, 2, 4], fields=named, symbolic=5)
    return J
