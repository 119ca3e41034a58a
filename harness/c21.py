"""C21: mesh conversion and cell data bookkeeping keep data with its cell."""
import numpy

from sx.runner import Job

BOUNDS = (
    "meshes of one to six cells in one to four blocks, plane or solid, any coordinates, any data of one to three components (reals up to 1e12, integers "
    "up to 1e9), any materials, names of materials in any order and of any dimension; averages over grids, fans and rows of cells of every solid type "
    "with any data and, for grids, any sizes of the cells; any cells given a material, by index or by mask"
)
OUTSIDE = "pyvista; pickled meshes; points that belong to no cell and cells without volume (averages); data of more than two dimensions"
ASSUMPTIONS = ["numbers are real numbers"]

NODES = {"triangle": 3, "quad": 4, "tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8, "line": 2}


def value(sx, name, how):
    return sx.int(name, -10 ** 9, 10 ** 9) if how == "int" else sx.real(name, -1e12, 1e12)


def array(sx, name, n, how, dim):
    one = lambda i, j: value(sx, "%s_%d_%d" % (name, i, j), how)
    return numpy.array([[one(i, j) for j in range(dim)] if dim > 1 else one(i, 0) for i in range(n)])


def parts(sx, blocks, pdata, cdata, ndim=3):
    npts = max(NODES[k] for k, _ in blocks) + 1
    pts = array(sx, "x", npts, "real", ndim)
    cells = [(k, numpy.array([[(c + b + j) % npts for j in range(NODES[k])] for c in range(n)])) for b, (k, n) in enumerate(blocks)]
    n = sum(n for _, n in blocks)
    return pts, cells, {k: array(sx, "p" + k, npts, *h) for k, h in pdata.items()}, {k: array(sx, k, n, *h) for k, h in cdata.items()}, n


def identical(sx, a, b, what):
    sx.check(numpy.shape(a) == numpy.shape(b), what + ": shape")
    if numpy.shape(a) == numpy.shape(b):
        sx.check(sx.all_([sx.eq(x, y) for x, y in zip(numpy.ravel(a), numpy.ravel(b))]), what)


def same_cells(sx, a, b):
    sx.check([c.type for c in a] == [c[0] for c in b] and all(numpy.array_equal(c.data, d[1]) for c, d in zip(a, b)), "cells")


def materials(sx, n, how):
    if how == "any":
        return numpy.array([sx.int("mat%d" % i, 0, 100) for i in range(n)])
    return numpy.array([1 + i % 2 for i in range(n)])


def trip(sx, blocks, pdata={}, cdata={}, material="any", fields=None, ndim=3, sets=False):
    """To meshio and back."""
    import toughio

    pts, cells, pd, cd, n = parts(sx, blocks, pdata, cdata, ndim)
    if material:
        cd["material"] = materials(sx, n, material)
    fd = {k: numpy.array(v) for k, v in (fields or {}).items()}
    mesh = toughio.Mesh(pts, cells, pd, cd, fd)
    held = lambda m: [m.points, m.point_data, m.cell_data, {k: list(v) for k, v in m.field_data.items()}]
    old = sx.freeze(held(mesh))
    out = mesh.to_meshio()
    same_cells(sx, out.cells, cells)
    for k, v in cd.items():
        sx.check(len(out.cell_data[k]) == len(cells), "blocks of data")
        i = 0
        for b, c in zip(out.cell_data[k], cells):
            identical(sx, b, v[i:i + len(c[1])], "data of block")
            i += len(c[1])
    got = toughio.from_meshio(out)
    sx.frozen_same(held(mesh), old, "mesh unchanged")
    identical(sx, got.points, pts, "points")
    same_cells(sx, got.cells, cells)
    sx.check(set(got.point_data) == set(pd) and set(got.cell_data) == set(cd) | {"material"}, "names of data")
    for k, v in pd.items():
        identical(sx, got.point_data[k], v, "point data")
    for k, v in cd.items():
        identical(sx, got.cell_data[k], v, "cell data")
    if material:
        sx.check(sorted(got.field_data) == sorted(fd), "names of materials")
    for k, v in fd.items():
        sx.check(list(got.field_data[k]) == list(v), "fields")


def take(sx, blocks, key, fields=None, cdata={}, name="dfalt"):
    """From a mesh of meshio."""
    import meshio
    import toughio

    pts, cells, _, cd, n = parts(sx, blocks, {}, cdata)
    sizes = numpy.cumsum([len(c[1]) for c in cells])[:-1]
    mat = materials(sx, n, "any")
    data = {k: numpy.split(v, sizes) for k, v in cd.items()}
    if key:
        data[key] = numpy.split(mat, sizes)
    fd = {k: numpy.array(v) for k, v in (fields or {}).items()}
    m = meshio.Mesh(pts, cells, cell_data=dict(data), field_data=dict(fd))
    old = sx.freeze([m.points, [list(v) for v in data.values()]])
    got = toughio.from_meshio(m, **({} if name == "dfalt" else {"material": name}))
    sx.check(list(m.cell_data) == list(data) and list(m.field_data) == list(fd), "converted mesh keeps its data")
    sx.frozen_same([m.points, [list(v) for v in m.cell_data.values()]], old, "converted mesh unchanged")
    identical(sx, got.points, pts, "points")
    same_cells(sx, got.cells, cells)
    for k, v in cd.items():
        identical(sx, got.cell_data[k], v, "cell data")
    sx.check(set(got.cell_data) == set(cd) | {"material"}, "names of data")
    for k, v in fd.items():
        sx.check(list(got.field_data[k]) == list(v), "fields")
    if key:
        identical(sx, got.cell_data["material"], mat, "materials")
        sx.check(set(got.field_data) == set(fd), "names of materials")
    else:
        sx.check(list(got.materials) == [name] * n, "default material")
        ids = [int(v[0]) for v in got.field_data.values()]
        sx.check(set(got.field_data) == set(fd) | {name} and len(set(ids)) == len(ids), "number of the default material")


def split(sx, blocks, dim, how="array"):
    import toughio

    pts, cells, _, cd, n = parts(sx, blocks, {}, {"a": ("real", dim)})
    mesh = toughio.Mesh(pts, cells)
    arr = list(cd["a"]) if how == "list" else cd["a"]
    got = mesh.split(arr)
    sx.check([len(g) for g in got] == [len(c[1]) for c in cells], "sizes")
    identical(sx, numpy.concatenate(got), cd["a"], "joined")
    for bad in (arr[:-1], list(arr) + [arr[0]]):
        with sx.raises(ValueError):
            mesh.split(bad)
    for add, m in ((mesh.add_cell_data, n), (mesh.add_point_data, len(pts))):
        for k in (m - 1, m + 1):
            with sx.raises(ValueError):
                add("b", numpy.zeros(k))
    d = mesh.cells_dict
    kinds = [k for i, (k, _) in enumerate(blocks) if k not in [b for b, _ in blocks[:i]]]
    sx.check(list(d) == kinds and all(numpy.array_equal(d[k], numpy.concatenate([c[1] for c in cells if c[0] == k])) for k in kinds), "cells by type")


def shape(sx, kind, free):
    """Cells that share points, with their volumes."""
    import toughio

    if kind == "grid":
        dx = [sx.real("d%d" % i, 0.1, 100) if i < free else 1.0 + i for i in range(3)]
        mesh = toughio.meshmaker.structured_grid(dx[:2], dx[2:], [2.0])
        return mesh, [dx[0] * dx[2] * 2.0, dx[1] * dx[2] * 2.0]
    if kind == "grid3":
        dz = [sx.real("d%d" % i, 0.1, 100) if i < free else 1.0 + i for i in range(3)]
        mesh = toughio.meshmaker.structured_grid([1.0], [0.5], dz)
        return mesh, [d * 0.5 for d in dz[::-1]]
    pts = numpy.array([[0, 0, 0], [2, 0, 0], [2, 1, 0], [0, 1, 0], [0, 0, 1], [2, 0, 1], [2, 1, 1], [0, 1, 1], [1, 0.5, 3], [4, 0.5, 0], [4, 0.5, 1]], dtype=float)
    cells = {
        "mixed": [("hexahedron", [[0, 1, 2, 3, 4, 5, 6, 7]]), ("pyramid", [[4, 5, 6, 7, 8]]), ("wedge", [[1, 9, 2, 5, 10, 6]])],
        "tetras": [("tetra", [[0, 1, 3, 4], [1, 2, 3, 6], [1, 4, 5, 6], [3, 4, 6, 7]]), ("tetra", [[1, 3, 4, 6]]), ("tetra", [[4, 5, 6, 8]])],
        "order": [("wedge", [[1, 9, 2, 5, 10, 6]]), ("hexahedron", [[0, 1, 2, 3, 4, 5, 6, 7]]), ("tetra", [[4, 5, 6, 8], [4, 6, 7, 8]])],
    }[kind]
    used = sorted(set(i for _, c in cells for r in c for i in r))
    at = {p: i for i, p in enumerate(used)}
    vol = {"mixed": [2.0, 4.0 / 3.0, 1.0], "tetras": [1.0 / 3.0] * 4 + [2.0 / 3.0] + [2.0 / 3.0], "order": [1.0, 2.0, 2.0 / 3.0, 2.0 / 3.0]}[kind]
    return toughio.Mesh(pts[used], [(k, numpy.array([[at[i] for i in r] for r in c])) for k, c in cells]), vol


def to_points(sx, kind, free, data, constant=False):
    mesh, vol = shape(sx, kind, free)
    n = mesh.n_cells
    for k, (how, dim) in data.items():
        if constant:
            v = value(sx, k, how)
            mesh.add_cell_data(k, numpy.array([[v + j for j in range(dim)] if dim > 1 else v for _ in range(n)]))
        else:
            mesh.add_cell_data(k, array(sx, k, n, how, dim))
    old = {k: v for k, v in mesh.cell_data.items()}
    around = [[] for _ in range(mesh.n_points)]
    i = 0
    for c in mesh.cells:
        for row in c.data:
            for p in row:
                around[p].append(i)
            i += 1
    mesh.add_point_data("kept", numpy.arange(mesh.n_points))
    mesh.cell_data_to_point_data()
    sx.check(numpy.array_equal(mesh.point_data["kept"], numpy.arange(mesh.n_points)), "other point data")
    for k in data:
        if k not in old or k == "material":
            continue
        got, v = mesh.point_data[k], old[k]
        sx.check(len(got) == mesh.n_points and numpy.shape(got)[1:] == numpy.shape(v)[1:], "shape")
        for p, cs in enumerate(around):
            tot = sum(vol[c] for c in cs)
            for j in range(max(1, data[k][1])):
                g = got[p][j] if numpy.ndim(v) > 1 else got[p]
                at = lambda c: v[c][j] if numpy.ndim(v) > 1 else v[c]
                if constant:
                    sx.check(sx.close(g, at(0), 1e-9, 1e-9), "constant data")
                else:
                    sx.check(sx.close(g * tot, sum(at(c) * vol[c] for c in cs), 1e-9, 1e-3), "average of the cells around a point")


def to_cells(sx, kind, data):
    mesh, _ = shape(sx, kind, 0)
    for k, (how, dim) in data.items():
        mesh.add_point_data(k, array(sx, k, mesh.n_points, how, dim))
    old = dict(mesh.point_data)
    mat = list(mesh.cell_data.get("material", []))
    mesh.point_data_to_cell_data()
    sx.check(list(mesh.cell_data.get("material", [])) == mat, "other cell data")
    rows = [r for c in mesh.cells for r in c.data]
    for k in data:
        got, v = mesh.cell_data[k], old[k]
        sx.check(len(got) == len(rows) and numpy.shape(got)[1:] == numpy.shape(v)[1:], "shape")
        for g, r in zip(got, rows):
            for j in range(data[k][1]):
                a = g[j] if numpy.ndim(v) > 1 else g
                b = [v[p][j] if numpy.ndim(v) > 1 else v[p] for p in r]
                sx.check(sx.close(a, sum(b) / len(r), 1e-9, 1e-3), "average of the points of a cell")


def set_material(sx, n, how, known, symbolic):
    import toughio

    mesh = toughio.meshmaker.structured_grid([1.0] * n, [1.0], [1.0])
    names = {"Rock0": 1, "ROCK one": 2, "a longer name": 5}
    ids = [sx.choice("mat%d" % i, [1, 2, 5]) if i < symbolic else 1 for i in range(n)]
    mesh.cell_data["material"] = numpy.array(ids)
    mesh.field_data = {k: numpy.array([v, 3]) for k, v in names.items()}
    back = {v: k for k, v in names.items()}
    on = [bool(sx.bool("on%d" % i)) for i in range(n)]
    cells = on if how == "mask" else numpy.array(on) if how == "array" else [i for i in range(n) if on[i]]
    if how == "reverse":
        cells = numpy.array(cells[::-1], dtype=int)
    name = "ROCK one" if known else "other"
    mesh.set_material(name, cells)
    want = [name if o else back[i] for o, i in zip(on, ids)]
    sx.check(list(mesh.materials) == want, "materials")
    sx.check(all(list(mesh.field_data[k]) == [v, 3] for k, v in names.items()), "other materials")
    again = "a longer name" if known else "ROCK one"
    if n > 1:
        mesh.set_material(again, [n - 1])
        sx.check(list(mesh.materials) == want[:-1] + [again], "materials set twice")
    if how == "index":
        for bad in ([n], [-1]):
            with sx.raises(ValueError):
                mesh.set_material(name, bad)


def jobs(tier):
    thorough = tier == "thorough"
    J = []
    b = dict(budget=300 if thorough else 50)
    add = lambda job, fn, **kw: J.append(Job(job, fn, kw, **b))
    two = {"a": ("real", 1), "vec": ("real", 3), "n": ("int", 1)}
    B = {
        "one": [("tetra", 2)], "pair": [("hexahedron", 1), ("tetra", 2)], "twice": [("tetra", 1), ("wedge", 2), ("tetra", 2)], "same": [("quad", 2), ("quad", 1)],
        "plane": [("triangle", 2), ("quad", 1)], "mixed": [("triangle", 1), ("pyramid", 1), ("quad", 1), ("tetra", 3)], "lines": [("line", 2), ("triangle", 1)],
    }
    for n, blocks in B.items():
        add("trip_" + n, trip, blocks=blocks, pdata=two, cdata=two)
        add("trip_%s_named" % n, trip, blocks=blocks, cdata={"a": ("real", 2)}, fields={"Rock": [1, 3], "top side": [2, 2], "sand_yellow": [7, 3]}, material="two")
        add("split_" + n, split, blocks=blocks, dim=1 if n in ("one", "plane") else 2, how="list" if n in ("one", "twice") else "array")
        add("take_" + n, take, blocks=blocks, key="gmsh:physical", cdata={"a": ("real", 1)}, fields={"rock": [1, 3]})
    add("trip_flat", trip, blocks=B["plane"], cdata=two, ndim=2)
    add("trip_bare", trip, blocks=B["pair"], pdata=two, cdata={}, material=None)
    add("trip_nomat", trip, blocks=B["pair"], pdata={}, cdata=two, material=None)
    for key in ("medit:ref", "material", "avsucd:material", "flac3d:group"):
        add("take_key_" + key.replace(":", "_"), take, blocks=B["twice"], key=key, cdata={"z": ("real", 2)})
    for n, f in {"none": None, "rock": {"rock": [3, 3]}, "plane": {"top": [1, 2]}, "both": {"sand": [2, 3], "top": [4, 2], "rock": [1, 3]}, "run": {"sand": [1, 3], "clay": [2, 3], "rock": [3, 3]}}.items():
        add("take_default_" + n, take, blocks=B["pair"], key=None, cdata={"z": ("real", 1)}, fields=f)
        add("take_bare_" + n, take, blocks=B["plane"], key=None, cdata={}, fields=f, name="Rock nine")
    for kind in ("grid", "grid3", "mixed", "tetras", "order"):
        free = (3 if thorough else 2) if kind.startswith("grid") else 0
        add("to_points_" + kind, to_points, kind=kind, free=0, data={"a": ("real", 1), "vec": ("real", 2), "n": ("int", 1)})
        add("constant_" + kind, to_points, kind=kind, free=free, data={"a": ("real", 1), "vec": ("real", 3)}, constant=True)
        add("to_cells_" + kind, to_cells, kind=kind, data={"a": ("real", 1), "vec": ("real", 3), "n": ("int", 1)})
        if free:
            add("to_points_sizes_" + kind, to_points, kind=kind, free=1, data={"a": ("real", 1)})
    for how in ("index", "mask", "array", "reverse"):
        for known in (False, True):
            add("set_%s_%s" % (how, "known" if known else "new"), set_material, n=4 if thorough else 3, how=how, known=known, symbolic=2)
    return J
