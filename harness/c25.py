"""C25: time series."""
import contextlib
import itertools

import numpy

from sx.runner import Job

BOUNDS = (
    "one to four steps (thorough: five) with any times in any order (as a list, tuple or array, or not given), point data, cell data or both, scalars and vectors, "
    "one to three cell blocks, any values"
)
OUTSIDE = "the XDMF file itself: meshio's writer is replaced by a record of what it is given, its reader by one that gives what was recorded"
ASSUMPTIONS = ["times and values are real numbers"]


@contextlib.contextmanager
def writer():
    import meshio

    seen = []

    class Writer:
        def __init__(self, filename):
            seen.append(("open", filename))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            seen.append(("close",))

        def write_points_cells(self, points, cells):
            seen.append(("mesh", points, cells))

        def write_data(self, t, point_data=None, cell_data=None):
            seen.append(("data", t, point_data, cell_data))

    old = meshio.xdmf.TimeSeriesWriter
    meshio.xdmf.TimeSeriesWriter = Writer
    try:
        yield seen
    finally:
        meshio.xdmf.TimeSeriesWriter = old


def make_cells(blocks):
    import toughio

    n, cells = 0, []
    for kind, m in blocks:
        k = {"triangle": 3, "quad": 4, "line": 2}[kind]
        cells.append((kind, numpy.arange(n, n + m * k).reshape(m, k)))
        n += m * k
    pts = numpy.array([[float(i), float(i * i), 0.0] for i in range(n)])
    mesh = toughio.Mesh(pts, cells)
    return mesh.points, mesh.cells


def data_of(sx, tag, n, vec):
    d = {"P": [sx.real("%sP%d" % (tag, i), -1e6, 1e6) for i in range(n)]}
    if vec:
        d["V"] = [[sx.real("%sV%d%d" % (tag, i, a), -1e6, 1e6) for a in range(2)] for i in range(n)]
    return d


def arrays(d):
    return {k: numpy.array(v) for k, v in d.items()}


def same(sx, got, want):
    if isinstance(want, list):
        return len(got) == len(want) and sx.all_([same(sx, a, b) for a, b in zip(got, want)])
    return sx.eq(got, want)


def series(sx, steps, blocks, point, cell, times="list", vec=False, pack=list):
    import toughio

    points, cells = make_cells(blocks)
    sizes = [m for _, m in blocks]
    pd = [data_of(sx, "p%d" % s, 2, vec) for s in range(steps)]
    cd = [data_of(sx, "c%d" % s, sum(sizes), vec) for s in range(steps)]
    kw, t = {}, list(range(steps))
    if times:
        t = [sx.real("t%d" % s, -10, 1e9) for s in range(steps)]
        kw["time_steps"] = {"list": list, "tuple": tuple, "array": numpy.array}[times](t)
    if point:
        kw["point_data"] = pack([arrays(d) for d in pd])
    if cell:
        kw["cell_data"] = pack([arrays(d) for d in cd])
    old = sx.freeze([list(kw.get("point_data", [])), list(kw.get("cell_data", [])), list(kw.get("time_steps", []))])
    name = sx.path("out.xdmf")
    with writer() as seen:
        toughio.write_time_series(name, points, cells, **kw)
    sx.frozen_same([list(kw.get("point_data", [])), list(kw.get("cell_data", [])), list(kw.get("time_steps", []))], old, "data unchanged")
    sx.check([x[0] for x in seen] == ["open", "mesh"] + ["data"] * steps + ["close"], "every step once")
    sx.check(seen[0][1] == name and seen[1][1] is points, "file and points")
    got = seen[1][2]
    sx.check(len(got) == len(cells) and all(a.type == b.type and (a.data == b.data).all() for a, b in zip(got, cells)), "cells")
    # the steps, in order of time, are a rearrangement of those given
    data = seen[2:-1]
    for a, b in zip(data, data[1:]):
        sx.check(a[1] <= b[1], "increasing order")
    hit = [[sx.all_([sx.eq(when, t[k])] + [all_data(sx, p, pd[k])] * point + [all_cells(sx, c, cd[k], sizes)] * cell)
            for k in range(steps)] for _, when, p, c in data]
    ways = [sx.all_([hit[i][k] for i, k in enumerate(w)]) for w in itertools.permutations(range(steps))]
    sx.check(sx.any_(ways), "the data of every time step")
    for _, when, p, c in data:
        sx.check(bool(p) == point and bool(c) == cell, "no other data")


def all_data(sx, got, want):
    return list(got) == list(want) and sx.all_([same(sx, got[k], want[k]) for k in want])


def all_cells(sx, got, want, sizes):
    if list(got) != list(want) or any([len(x) for x in got[k]] != sizes for k in want):
        return False
    return sx.all_([same(sx, [v for part in got[k] for v in part], want[k]) for k in want])


@contextlib.contextmanager
def reader(seen):
    """What was written is read; cell data come in blocks."""
    import meshio

    steps = [x for x in seen if x[0] == "data"]

    class Reader:
        num_steps = len(steps)
        opened = []

        def __init__(self, filename):
            self.opened.append(filename)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def read_points_cells(self):
            return [(x[1], x[2]) for x in seen if x[0] == "mesh"][0]

        def read_data(self, k):
            _, t, p, c = steps[k]
            return t, dict(p or {}), {k: list(v) for k, v in (c or {}).items()}

    old = meshio.xdmf.TimeSeriesReader
    meshio.xdmf.TimeSeriesReader = Reader
    try:
        yield Reader.opened
    finally:
        meshio.xdmf.TimeSeriesReader = old


def back(sx, steps, blocks, point, cell, vec=False):
    """What is written is read again."""
    import toughio

    points, cells = make_cells(blocks)
    n = sum(m for _, m in blocks)
    pd = [data_of(sx, "p%d" % s, 2, vec) for s in range(steps)]
    cd = [data_of(sx, "c%d" % s, n, vec) for s in range(steps)]
    t, last = [], sx.real("t0", -10, 1e6)
    for s in range(steps):
        t.append(last)
        last = last + sx.real("dt%d" % s, 1e-3, 1e6)
    kw = {"time_steps": t}
    if point:
        kw["point_data"] = [arrays(d) for d in pd]
    if cell:
        kw["cell_data"] = [arrays(d) for d in cd]
    name = sx.path("out.xdmf")
    with writer() as seen:
        toughio.write_time_series(name, points, cells, **kw)
    with reader(seen) as opened:
        p, c, pdata, cdata, times = toughio.read_time_series(name)
    sx.check(opened == [name], "file read")
    sx.check(len(p) == len(points) and all(list(a) == list(b) for a, b in zip(p, points)), "points")
    sx.check(len(c) == len(cells) and all(a.type == b.type and (a.data == b.data).all() for a, b in zip(c, cells)), "cells")
    sx.check(len(times) == len(pdata) == len(cdata) == steps, "steps")
    for k in range(steps):
        sx.check(sx.eq(times[k], t[k]), "time of the step")
        for got, want, there in ((pdata[k], pd[k], point), (cdata[k], cd[k], cell)):
            sx.check(list(got) == (list(want) if there else []), "names of data")
            if there:
                sx.check(all(numpy.shape(got[x]) == numpy.shape(want[x]) for x in want) and sx.all_([same(sx, got[x], want[x]) for x in want]), "data of the step")


def refuse(sx, what):
    import toughio

    points, cells = make_cells([("quad", 2)])
    steps = 2
    pd = [{"P": numpy.array([sx.real("p%d%d" % (s, i), -1, 1) for i in range(8)])} for s in range(steps)]
    cd = [{"P": numpy.array([sx.real("c%d%d" % (s, i), -1, 1) for i in range(2)])} for s in range(steps)]
    t = [sx.real("t%d" % s, 0, 10) for s in range(steps)]
    kw, err = {"point_data": pd, "cell_data": cd, "time_steps": t}, ValueError
    if what == "none":
        kw = {"time_steps": t}
    elif what == "less times":
        kw["time_steps"] = t[:1]
    elif what == "more times":
        kw["time_steps"] = t + [11.0]
    elif what == "less cells":
        kw["cell_data"] = cd[:1]
    elif what == "more cells":
        kw["cell_data"] = cd + cd[:1]
    elif what == "cell times":
        kw = {"cell_data": cd, "time_steps": t[:1]}
    else:
        k = {"point": "point_data", "cell": "cell_data", "time": "time_steps"}[what]
        kw[k], err = (kw[k][0] if what != "time" else 3.0), TypeError
    with writer() as seen:
        with sx.raises(err):
            toughio.write_time_series(sx.path("out.xdmf"), points, cells, **kw)
    sx.check(not seen, "nothing is written")


def jobs(tier):
    thorough = tier == "thorough"
    J = []

    def add(name, fn, **k):
        J.append(Job(name, fn, k, budget=600 if thorough else 150))

    Q, T = "quad", "triangle"
    for s in (1, 2, 3, 4) + ((5,) if thorough else ()):
        add("cells_%d" % s, series, steps=s, blocks=[(Q, 2)], point=False, cell=True)
    for s in (1, 2, 3):
        add("points_%d" % s, series, steps=s, blocks=[(Q, 1)], point=True, cell=False, times="array")
        add("both_%d" % s, series, steps=s, blocks=[(Q, 1), (T, 2)], point=True, cell=True, times="tuple", pack=tuple)
    add("blocks", series, steps=2, blocks=[(Q, 1), (T, 2), (Q, 2)], point=False, cell=True)
    add("vectors", series, steps=2, blocks=[(T, 1), (Q, 1)], point=True, cell=True, vec=True)
    add("untimed", series, steps=3, blocks=[(Q, 1), (T, 1)], point=True, cell=True, times=None)
    for s in (1, 2, 3) + ((5,) if thorough else ()):
        add("back_cells_%d" % s, back, steps=s, blocks=[(Q, 1), (T, 2)], point=False, cell=True)
        add("back_both_%d" % s, back, steps=s, blocks=[(T, 2)] if s == 2 else [(Q, 1), (T, 1), (Q, 2)], point=True, cell=True, vec=s > 1)
    add("back_points", back, steps=2, blocks=[(Q, 1)], point=True, cell=False)
    for what in ("none", "less times", "more times", "less cells", "more cells", "cell times", "point", "cell", "time"):
        add("refuse_" + what.replace(" ", "_"), refuse, what=what)
    return J
