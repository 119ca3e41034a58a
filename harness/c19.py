"""C19: selection by box and nearest cells."""
import numpy

from sx.runner import Job

BOUNDS = (
    "meshes of up to three cells (tetrahedra and hexahedra) with centres anywhere; every subset of the bounds of the box, any minimum, "
    "any length from 0; one and two query points anywhere"
)
OUTSIDE = "lengths without a minimum; more cells; distances and bounds that are equal up to rounding"
ASSUMPTIONS = ["coordinates are real numbers"]

TET = [(-1, -1, -1), (3, -1, -1), (-1, 3, -1), (-1, -1, 3)]
HEX = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]


def mesh_of(sx, shapes):
    """Cells with symbolic centres."""
    import toughio

    cents = [[sx.real("c%d%s" % (i, a), -100, 100) for a in "xyz"] for i in range(len(shapes))]
    pts, blocks = [], []
    for c, s in zip(cents, shapes):
        ref = TET if s == "tetra" else HEX
        o = len(pts)
        pts += [[x + y for x, y in zip(c, r)] for r in ref]
        if blocks and blocks[-1][0] == s:
            blocks[-1][1].append(list(range(o, len(pts))))
        else:
            blocks.append((s, [list(range(o, len(pts)))]))
    return toughio.Mesh(numpy.array(pts), [(s, numpy.array(c)) for s, c in blocks]), cents


def box(sx, shapes, given, call):
    sx.geometry()
    mesh, cents = mesh_of(sx, shapes)
    kw, inside = {}, [[] for _ in cents]
    for k, a in enumerate("xyz"):
        if given[k] > 0:
            kw[a + "0"] = sx.real(a + "0", -100, 100)
            for i, c in enumerate(cents):
                inside[i].append(c[k] >= kw[a + "0"])
        if given[k] > 1:
            kw["d" + a] = sx.real("d" + a, 0, 100)
            for i, c in enumerate(cents):
                inside[i].append(c[k] <= kw[a + "0"] + kw["d" + a])
    got = mesh.filter.box(**kw) if call else mesh.filter("box", **kw)
    got = [int(i) for i in got]
    sx.check(got == sorted(set(got)), "each cell once")
    for i in range(len(cents)):
        want = sx.all_(inside[i])
        sx.check(want if i in got else sx.not_(want), "exactly the cells inside")


def near(sx, shapes, queries, flat):
    sx.geometry()
    mesh, cents = mesh_of(sx, shapes)
    q = [[sx.real("q%d%s" % (i, a), -100, 100) for a in "xyz"] for i in range(queries)]
    idx = mesh.near(q[0] if flat else numpy.array(q))
    if flat:
        sx.check(numpy.ndim(idx) == 0, "one index for one point")
        idx = [idx]
    sx.check(len(idx) == queries, "one index per point")
    for p, i in zip(q, idx):
        d = [sum((x - y) * (x - y) for x, y in zip(p, c)) for c in cents]
        for j in range(len(cents)):
            if j != int(i):
                sx.check(d[int(i)] <= d[j], "no cell is closer")


def bad(sx):
    mesh, cents = mesh_of(sx, ["tetra"])
    x = sx.real("x", -1, 1)
    with sx.raises(TypeError):
        mesh.near(x)
    with sx.raises(ValueError):
        mesh.near([x, x])


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(key, fn, **kw):
        out.append(Job(key, fn, kw, budget=240 if not deep else 800))

    add("box-none", box, shapes=["tetra", "hexahedron"], given=(0, 0, 0), call=True)
    for k in range(3):
        for n in (1, 2):
            g = [0, 0, 0]
            g[k] = n
            add("box-%d-%d" % (k, n), box, shapes=["tetra", "hexahedron", "tetra"], given=g, call=n == 1)
    add("box-222", box, shapes=["tetra", "hexahedron"] if deep else ["tetra"], given=(2, 2, 2), call=True)
    add("box-111", box, shapes=["tetra", "hexahedron"], given=(1, 1, 1), call=False)
    add("box-012", box, shapes=["tetra", "hexahedron", "hexahedron"] if deep else ["tetra", "hexahedron"], given=(0, 1, 2), call=True)
    add("box-212", box, shapes=["tetra", "tetra"] if deep else ["hexahedron"], given=(2, 1, 2), call=True)
    for shapes in (["tetra"], ["tetra", "hexahedron"], ["hexahedron", "tetra", "hexahedron"]):
        if deep or len(shapes) < 3:
            add("near-%d" % len(shapes), near, shapes=shapes, queries=1, flat=True)
        add("near-list-%d" % len(shapes), near, shapes=shapes, queries=1 if len(shapes) == 3 else 2, flat=False)
    add("bad", bad)
    return out
