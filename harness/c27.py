"""C27: conversion tools."""
import contextlib
import itertools

import numpy

from sx.runner import Job

from .c19 import mesh_of
from .c22 import Out
from .c23 import order
from .c24 import AT, UP, is_nan, table

BOUNDS = (
    "SAVE files of up to three elements with porosity and user fields for any of them, any values, any text after the counters, with and without "
    "reset, other first lines; listings of up to two time steps and three rows in any order, elements of the MESH file anywhere and in "
    "another order, in every output format, split or not, tables of elements and connections; exports to voxels of up to 2x2x2 elements "
    "(by columns and by layers) in any of the orders tried, to the cells of a mesh of up to three cells in any order, and to points, of any "
    "time step or of all of them"
)
OUTSIDE = (
    "the file written by meshio for the exported mesh, and the triangulation of points: both are replaced by records of what they are "
    "given (C25 checks the time series, C16 the Tecplot file)"
)
ASSUMPTIONS = ["voxels: the elements are the centres of a structured grid that begins at the origin", "values are real numbers"]


# -- SAVE to INCON ---------------------------------------------------------------------------

def save_text(sx, n, tail):
    """A SAVE file and the initial conditions it holds."""
    import toughio

    labels = [sx.label("l%d" % i) if i == 0 else "%sZ1%2d" % (UP[i], i) for i in range(n)]
    sx.distinct(*labels)
    inc = {}
    for i, l in enumerate(labels):
        inc[l] = {"values": [sx.real("x%d%d" % (i, k), 0.5, 1e6) for k in range(2)]}
        if sx.choice("por%d" % i, [False, True]):
            inc[l]["porosity"] = sx.real("p%d" % i, 0.25, 0.75)
        if sx.choice("use%d" % i, [False, True]):
            inc[l]["userx"] = [sx.real("u%d%d" % (i, k), 0.5, 1000) for k in range(2)]
    name = sx.path("SAVE")
    toughio.write_input(name, {"initial_conditions": inc}, block="incon")
    lines = sx.read_file(name).split("\n")
    k = [i for i, l in enumerate(lines) if l.startswith("INCON")][0]
    last = max(i for i, l in enumerate(lines) if len(l) > 20)
    body = ["INCON -- INITIAL CONDITIONS FOR %5d ELEMENTS AT TIME  0.100000E+01" % n] + lines[k + 1:last + 1]
    sx.write_file(name, "\n".join(body + tail))
    return name, labels, inc, body


def text(sx, lines, want, what):
    sx.check(len(lines) == len(want), what)
    if len(lines) == len(want):
        sx.check(sx.all_([sx.eq(a, b) if len(a) == len(b) else False for a, b in zip(lines, want)]), what)


def to_incon(sx, n, reset, same=False, counters=True):
    import toughio
    from toughio._cli import save2incon

    sx.geometry()
    tail = ["+++", "    1    1    2 %s" % sx.text("clock", 8, dom="0123456789"), ""] if counters else [""]
    name, labels, inc, body = save_text(sx, n, tail)
    out = name if same else sx.path("INCON")
    if not same and sx.choice("exists", [False, True]):
        sx.write_file(out, "something\nelse\n")
    save2incon([name, out] + [[], ["--reset"], ["-r"]][reset])
    got = sx.read_file(out).split("\n")
    text(sx, got, body + (["", ""] if reset else tail) + ([""] if reset and not counters and False else []), "lines of the file")
    par = toughio.read_input(out, file_format="tough")["initial_conditions"]
    sx.check(len(par) == n, "every element")
    for (l, v), w in zip(par.items(), labels):
        sx.check(sx.eq(l, w), "element")
        sx.check(sx.all_([sx.same(a, b) for a, b in zip(v["values"], inc[w]["values"])]), "primary variables")
        sx.check(("porosity" in v) == ("porosity" in inc[w]), "porosity")
        if "porosity" in v:
            sx.check(sx.same(v["porosity"], inc[w]["porosity"]), "porosity")
        sx.check(("userx" in v) == ("userx" in inc[w]), "user fields")
        if "userx" in v:
            sx.check(sx.all_([sx.same(a, b) for a, b in zip(v["userx"], inc[w]["userx"])]), "user fields")


def not_save(sx, what):
    from toughio._cli import save2incon

    name, out = sx.path("SAVE"), sx.path("INCON")
    if what == "first":
        first = sx.text("first", 5)
        sx.assume(sx.not_(sx.eq(first, "INCON")))
        sx.write_file(name, first + " -- \nINCON\n")
    elif what == "empty":
        sx.write_file(name, "")
    old = sx.choice("exists", [False, True])
    if old:
        sx.write_file(out, "something\nelse\n")
    with sx.raises(ValueError):
        save2incon([name, out] + (["-r"] if sx.choice("reset", [False, True]) else []))
    sx.check(sx.exists(out) == old and (not old or sx.read_file(out) == "something\nelse\n"), "the output is as before")


# -- extraction --------------------------------------------------------------------------------

def listing(sx, labels, steps, names, connection):
    """Text of a listing, the values by step and row, and the times."""
    txt, vals, times = "\n" + AT, [], []
    for s in range(steps):
        t = sx.real("time%d" % s, 1, 1e9)
        if times:
            sx.assume(t > times[-1] * 2)
        times.append(t)
        vals.append([[sx.real("v%d%d%d" % (s, i, k), 0.001, 1e9) for k in range(len(names))] for i in range(len(labels))])
        txt += AT + "\n TOTAL TIME     KCYC\n  " + sx.num_text(t, "13.6E") + "   1\n" + AT
        txt += table(sx, names, [(l if connection else [l], v) for l, v in zip(labels, vals[-1])], 13, connection, []) + AT
    return txt, vals, times


def extract(sx, n, steps, fmt, connection=False, split=False, named=True, lost=False, turn=None):
    import toughio
    from toughio._cli import extract as run

    sx.geometry()
    labels = ["%sB1%2d" % (UP[i], 3 * i + 1) for i in range(n + 1)]
    cents = {l: [sx.real("c%d%s" % (i, a), 0.5, 1000) for a in "xyz"] for i, l in enumerate(labels)}
    rows = order(sx, "r", n)
    mesh, listed = sx.path("MESH"), sx.path("OUTPUT")
    names = ["P", "T"]
    pairs = [[labels[r], labels[(r + 1) % (n + 1)]] for r in rows] if connection else [labels[r] for r in rows]
    gone = labels[sx.choice("gone", list(range(n)))] if lost else None
    toughio.write_input(mesh, {"elements": {l: {"material": "rock1", "volume": 1.0, "center": cents[l]} for l in labels if l != gone}}, block="mesh")
    txt, vals, times = listing(sx, pairs, steps, names, connection)
    sx.write_file(listed, txt)
    ext = {"csv": ".csv", "petrasim": ".csv", "tecplot": ".tec"}[fmt]
    out = sx.path("result" + ext)
    argv = [listed, mesh, "-o", out] + (["-f", fmt] if fmt != "csv" or sx.choice("given", [False, True]) else [])
    argv += (["-s"] if split else []) + (["-c"] if connection else [])
    if lost:
        with sx.raises(ValueError):
            run(argv)
        sx.check(not sx.exists(out), "nothing is written")
        return
    run(argv)
    if split and steps > 1:
        files = [sx.path("result_%d%s" % (s + 1, ext)) for s in range(steps)]
        sx.check(all(sx.exists(f) for f in files), "one file per time step")
        got = []
        for f in files:
            got += toughio.read_output(f)
    else:
        got = toughio.read_output(out)
    sx.check(len(got) == steps, "every time step")
    for s, g in enumerate(got):
        sx.check(g.format == fmt and g.type == ("connection" if connection else "element"), "format")
        sx.check(sx.same(g.time, times[s], 1e-5), "time")
        sx.check(sorted(g.data) == ["P", "T", "X", "Y", "Z"], "arrays")
        for i, r in enumerate(rows):
            if connection:
                sx.check([str(l) for l in g.labels[i]] == pairs[i], "labels")
                a, b = cents[pairs[i][0]], cents[pairs[i][1]]
                want = [(u + v) / 2 for u, v in zip(a, b)]
            else:
                want = cents[labels[r]]
                if fmt != "tecplot":
                    sx.check(str(g.labels[i]) == labels[r], "label")
            for a, w in zip("XYZ", want):
                sx.check(sx.same(g.data[a][i], w, 1e-5), "centre")
            for k, c in enumerate(names):
                sx.check(sx.same(g.data[c][i], vals[s][i][k], 1e-4), "value")


def refuse(sx, what):
    """Files that are missing or are something else."""
    import toughio
    from toughio._cli import extract as run

    sx.geometry()
    mesh, listed, out = sx.path("MESH"), sx.path("OUTPUT"), sx.path("result.csv")
    toughio.write_input(mesh, {"elements": {"AAA 1": {"material": "rock1", "volume": 1.0, "center": [1.0, 2.0, 3.0]}}}, block="mesh")
    txt, vals, times = listing(sx, ["AAA 1"], 1, ["P"], False)
    sx.write_file(listed, txt)
    more = []
    if what == "mesh":
        sx.write_file(mesh, "ROCKS\n\nENDCY\n")
    elif what == "csv":
        toughio.write_output(listed, [Out("element", "csv", 1.0, numpy.array(["AAA 1"]), {"P": numpy.array([1.0])})], file_format="csv")
    elif what == "conne":
        more = ["-c", "-f", sx.choice("f", ["tecplot", "petrasim"])]
    elif what == "no mesh":
        mesh = sx.path("nothing")
    else:
        listed = sx.path("nothing")
    with sx.raises(ValueError):
        run([listed, mesh, "-o", out] + more)
    sx.check(not sx.exists(out), "nothing is written")


# -- export --------------------------------------------------------------------------------------

@contextlib.contextmanager
def records(**more):
    """Writers that record what they are given."""
    import toughio
    import toughio.meshmaker

    seen = []

    def write(self, filename, file_format=None, **kw):
        seen.append(("mesh", filename, file_format, self))

    def series(filename, points, cells, point_data=None, cell_data=None, time_steps=None):
        seen.append(("series", filename, points, cells, point_data, cell_data, time_steps))

    def triangulate(points):
        seen.append(("points", points))
        return toughio.Mesh(numpy.column_stack((points, numpy.zeros(len(points)))) if len(points[0]) == 2 else points, [("triangle", numpy.array([[0, 1, 2]]))])

    put = [(toughio.Mesh, "write", write), (toughio, "write_time_series", series), (toughio.meshmaker, "triangulate", triangulate)]
    put += [(toughio, k, v) for k, v in more.items()]
    old = [getattr(o, k) for o, k, _ in put]
    for o, k, v in put:
        setattr(o, k, v)
    try:
        yield seen
    finally:
        for (o, k, _), v in zip(put, old):
            setattr(o, k, v)


def series_of(sx, labels, coords, rows, steps, fmt):
    """Output files with one row per label, in the order of rows."""
    import toughio

    vals = [{k: [sx.real("%s%d%d" % (k, s, i), 0.5, 1e6) for i in range(len(labels))] for k in ("P", "T")} for s in range(steps)]
    outs = []
    for s in range(steps):
        data = {a: numpy.array([coords[r][j] for r in rows]) for j, a in enumerate("XYZ")} if coords else {}
        data.update({k: numpy.array([v[r] for r in rows]) for k, v in vals[s].items()})
        outs.append(Out("element", fmt, float(s + 1), numpy.array([labels[r] for r in rows]), data))
    name = sx.path("OUT.tec" if fmt == "tecplot" else "OUT.csv")
    toughio.write_output(name, outs, file_format=fmt)
    return name, vals


def chosen(sx, steps):
    """Options for the time step and the step they ask for."""
    s = sx.choice("step", ["last"] + list(range(-steps, steps)))
    return ([], steps - 1) if s == "last" else (["--time-step=%d" % s], s % steps)


def turned(sx, n):
    """Orders of n things: all of them for up to three, rotated and reversed ones beyond."""
    if n <= 3:
        return order(sx, "r", n)
    k = sx.choice("turn", list(range(n)))
    rows = list(range(n))
    rows = rows[k:] + rows[:k]
    return rows[::-1] if sx.choice("back", [False, True]) else rows


def voxels(sx, dims, layer, out, steps=1, fmt="csv", forced=True):
    import toughio
    from toughio._cli import export

    sx.geometry()
    origin, axes = [], []
    for k, (a, m) in enumerate(zip("xyz", dims)):
        o = [0.0, 10.0, -2.5][k]
        xs, low = [], o
        for i in range(m):
            d = sx.real("d%s%d" % (a, i), 0.5, 10)
            xs.append(low + d)
            low = low + 2 * d
        origin.append(o)
        axes.append(xs)
    coords = [p for p in itertools.product(*axes)]
    n = len(coords)
    labels = ["AA1%2d" % (i + 1) for i in range(n)]
    rows = turned(sx, n)
    name, vals = series_of(sx, labels, coords, rows, steps, fmt)
    how, s = chosen(sx, steps) if out != "xdmf" else ([], None)
    # negative numbers need be told from options
    argv = [name, "-f", out, "-o", sx.path("result"), "--origin"] + ["%r" % o for o in origin] + how
    argv += (["--voxelize"] if forced else []) + (["--layer"] if layer else [])
    with records() as seen:
        export(argv)
    sx.check(len(seen) == 1, "one mesh is written")
    what = seen[0]
    if out == "xdmf":
        sx.check(what[0] == "series" and list(what[6]) == [float(k + 1) for k in range(steps)], "time steps")
        mesh = toughio.Mesh(what[2], what[3])
        data = what[5]
    else:
        sx.check(what[0] == "mesh" and what[2] == out, "format")
        mesh = what[3]
        data, vals = [mesh.cell_data], [vals[s]]
    sx.check(what[1] == sx.path("result"), "file name")
    sx.check(mesh.n_cells == n and len(data) == len(vals), "one cell per element")
    many = [m > 1 for m in dims]
    place = {}
    for i, p in enumerate(coords):
        at = [k for k in range(n) if sx.decide(sx.all_([sx.same(x, y) for x, y, f in zip(mesh.centers[k], p, many) if f]))]
        sx.check(len(at) == 1, "one cell at the centre of the element")
        place[i] = at[0]
    for d, v in zip(data, vals):
        sx.check(not {"X", "Y", "Z"} & set(d) and {"P", "T"} <= set(d), "arrays")
        for i in place:
            for key in ("P", "T"):
                sx.check(sx.same(d[key][place[i]], v[key][i]), "value of the element")


def meshed(sx, shapes, out, steps=1, fmt="csv"):
    """With the mesh given: values go to the cells of the same label."""
    from toughio._cli import export

    sx.geometry()
    mesh, cents = mesh_of(sx, shapes)
    n = len(shapes)
    labels = [str(l) for l in mesh.labels]
    name, vals = series_of(sx, labels, None, order(sx, "r", n), steps, fmt)
    how, s = chosen(sx, steps) if out != "xdmf" else ([], None)
    sx.write_file(sx.path("mesh.pickle"), "mesh")
    with records(read_mesh=lambda f, *a, **k: mesh) as seen:
        export([name, "-m", sx.path("mesh.pickle"), "-f", out, "-o", sx.path("result")] + how)
    sx.check(len(seen) == 1 and seen[0][1] == sx.path("result"), "one mesh is written")
    what = seen[0]
    if out == "xdmf":
        sx.check([float(t) for t in what[6]] == [float(k + 1) for k in range(steps)], "time steps")
        data = what[5]
        sx.check(what[2] is mesh.points and what[3] is mesh.cells, "mesh")
    else:
        sx.check(what[3] is mesh and what[2] == out, "mesh and format")
        data, vals = [mesh.cell_data], [vals[s]]
    sx.check(len(data) == len(vals), "every time step")
    for d, v in zip(data, vals):
        for key in ("P", "T"):
            sx.check(len(d[key]) == n, "one value per cell")
            for i in range(n):
                sx.check(sx.same(d[key][i], v[key][i]), "value of the element")


def pointed(sx, flat, out, steps=1, fmt="csv"):
    """Without mesh: values go to the points of the elements."""
    from toughio._cli import export

    sx.geometry()
    x, y = ([sx.real(a + "0", -100, 100)] for a in "xy")
    x.append(x[0] + sx.real("dx", 0.5, 10))
    y.append(y[0] + sx.real("dy", 0.5, 10))
    y.append(y[0] - sx.real("dy2", 0.5, 10))
    z = sx.real("z", -100, 100)
    plane = [(x[0], y[0]), (x[1], y[0]), (x[1], y[1]), (x[0], y[2])]
    coords = [list(p) for p in plane] if flat is not None else [list(p) + [z + i] for i, p in enumerate(plane)]
    if flat is not None:
        for p in coords:
            p.insert(flat, z)
    rows = turned(sx, 4)
    name, vals = series_of(sx, ["AA1%2d" % (i + 1) for i in range(4)], coords, rows, steps, fmt)
    how, s = chosen(sx, steps) if out != "xdmf" else ([], None)
    with records() as seen:
        export([name, "-f", out, "-o", sx.path("result")] + how)
    sx.check(len(seen) == 2 and seen[0][0] == "points", "points are triangulated")
    axis = [a for a in range(3) if a != flat]
    for i, r in enumerate(rows):
        sx.check(len(seen[0][1][i]) == len(axis) and sx.all_([sx.same(u, coords[r][a]) for u, a in zip(seen[0][1][i], axis)]), "points")
    what = seen[1]
    data = what[4] if out == "xdmf" else [what[3].point_data]
    if out != "xdmf":
        vals = [vals[s]]
    else:
        sx.check([float(t) for t in what[6]] == [float(k + 1) for k in range(steps)], "time steps")
    sx.check(len(data) == len(vals), "every time step")
    for d, v in zip(data, vals):
        sx.check(not {"X", "Y", "Z"} & set(d), "arrays")
        for key in ("P", "T"):
            for i, r in enumerate(rows):
                sx.check(sx.same(d[key][i], v[key][r]), "value of the element")


def jobs(tier):
    thorough = tier == "thorough"
    J = []

    def add(name, fn, **k):
        J.append(Job(name, fn, k, budget=600 if thorough else 150))

    for n in (1, 2) + ((3,) if thorough else ()):
        for reset in (0, 1, 2):
            add("save_%d_%d" % (n, reset), to_incon, n=n, reset=reset)
    add("save_same", to_incon, n=1, reset=0, same=True)
    add("save_same_reset", to_incon, n=1, reset=1, same=True)
    for what in ("first", "empty", "missing"):
        add("not_save_" + what, not_save, what=what)
    for fmt in ("csv", "petrasim", "tecplot"):
        add("extract_" + fmt, extract, n=2, steps=2, fmt=fmt)
        add("extract_split_" + fmt, extract, n=2, steps=2, fmt=fmt, split=True)
    add("extract_3", extract, n=3, steps=1, fmt="csv", split=True)
    add("extract_conne", extract, n=2, steps=2, fmt="csv", connection=True)
    add("extract_conne_split", extract, n=2, steps=2, fmt="csv", connection=True, split=True)
    add("extract_lost", extract, n=2, steps=1, fmt="csv", lost=True)
    add("extract_lost_conne", extract, n=2, steps=1, fmt="csv", lost=True, connection=True)
    for what in ("mesh", "csv", "conne", "no mesh", "no file"):
        add("refuse_" + what.replace(" ", "_"), refuse, what=what)
    for layer in (False, True):
        for dims in ((2, 2, 1), (1, 2, 2), (2, 1, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3)):
            add("voxels_%d%d%d_%s" % (dims + (layer,)), voxels, dims=dims, layer=layer, out="vtk", forced=sum(dims) < 5 or 3 not in dims)
        add("voxels_222_%s" % layer, voxels, dims=(2, 2, 2), layer=layer, out="vtu")
        add("voxels_xdmf_%s" % layer, voxels, dims=(2, 1, 2), layer=layer, out="xdmf", steps=2)
        add("voxels_step_%s" % layer, voxels, dims=(1, 1, 2), layer=layer, out="tecplot", steps=2)
        add("voxels_tec_%s" % layer, voxels, dims=(1, 2, 2), layer=layer, out="vtk", steps=2, fmt="tecplot")
    H = "hexahedron"
    add("mesh", meshed, shapes=[H] * 3, out="vtk")
    add("mesh_step", meshed, shapes=[H] * 2, out="tecplot", steps=2)
    add("mesh_series", meshed, shapes=[H] * 3, out="xdmf", steps=2)
    add("mesh_mixed", meshed, shapes=[H, "tetra"], out="vtu", fmt="petrasim")
    for flat in (None, 0, 1, 2):
        add("points_%s" % flat, pointed, flat=flat, out="vtk")
    add("points_series", pointed, flat=1, out="xdmf", steps=2)
    add("points_step", pointed, flat=2, out="vtu", steps=3)
    add("points_tec", pointed, flat=2, out="vtk", steps=2, fmt="tecplot")
    return J
