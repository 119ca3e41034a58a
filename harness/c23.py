"""C23: outputs attach to the cell they were computed for."""
import numpy

from sx.runner import Job

from .c19 import mesh_of

BOUNDS = (
    "reordering: up to four rows with any distinct labels of five characters (and three rows with the labels of a mesh), any order of the "
    "rows, any values, scalars and vectors; import into a mesh of up to three cells anywhere, from tables (in memory, CSV, PetraSim, SAVE) "
    "with rows in any order, any time step from the beginning or from the end, other data of the mesh; connections of up to three cells "
    "in any order and direction, with any values of either sign"
)
OUTSIDE = "more rows or cells; listings of TOUGH (C24); two rows with the same label"
ASSUMPTIONS = ["coordinates and imported values are real numbers", "centres of connected cells are different"]


def order(sx, tag, n):
    """Any order of n things."""
    left, out = list(range(n)), []
    for i in range(n):
        k = sx.choice("%s%d" % (tag, i), left) if len(left) > 1 else left[0]
        left.remove(k)
        out.append(k)
    return out


def Out(*a):
    from toughio._io.output._common import Output

    return Output(*a)


def table(sx, tag, labels, rows, keys, time=0.0, kind="element", vec=False):
    """An output with one row per label, in the order given, and the values by label."""
    vals = {k: {l: sx.real("%s_%s_%d" % (tag, k, i), -1000, 1000) for i, l in enumerate(labels)} for k in keys}
    data = {k: numpy.array([vals[k][labels[r]] for r in rows]) for k in keys}
    if vec:
        vals["V"] = {l: [sx.real("%s_V_%d%d" % (tag, i, a), -1000, 1000) for a in range(2)] for i, l in enumerate(labels)}
        data["V"] = numpy.array([vals["V"][labels[r]] for r in rows])
    return Out(kind, "csv", time, numpy.array([labels[r] for r in rows]), data), vals


def same(sx, a, b):
    if isinstance(b, list):
        return sx.all_([sx.same(x, y) for x, y in zip(a, b)])
    return sx.same(a, b)


def reorder(sx, n, vec, how):
    """Labels are any; the list of labels is in any order."""
    from toughio._io.output._common import reorder_labels

    labels = [sx.text("l%d" % i, 5) for i in range(n)]
    sx.distinct(*labels)
    out, vals = {}, [[sx.real("v%d%d" % (i, k), -1000, 1000) for k in range(3)] for i in range(n)]
    out["P"] = numpy.array([v[0] for v in vals])
    if vec:
        out["V"] = numpy.array([v[1:] for v in vals])
    want = order(sx, "w", n)
    target = [labels[i] for i in want]
    got = reorder_labels(Out("element", "csv", 1.0, numpy.array(labels), out), target if how == 0 else tuple(target) if how == 1 else numpy.array(target))
    sx.check(len(got.labels) == n, "number of rows")
    sx.check(got.time == 1.0 and got.type == "element", "time and type")
    for i, r in enumerate(want):
        sx.check(sx.eq(got.labels[i], labels[r]), "label")
        sx.check(sx.same(got.data["P"][i], vals[r][0]), "value")
        if vec:
            sx.check(same(sx, got.data["V"][i], vals[r][1:]), "vector")


def unknown(sx, n, how):
    """A label that is not in the output is not given the values of another one."""
    from toughio._io.output._common import reorder_labels

    labels = [sx.text("l%d" % i, 5) for i in range(n)]
    other = sx.text("other", 5)
    sx.distinct(*(labels + [other]))
    out = {"P": numpy.array([sx.real("v%d" % i, -1, 1) for i in range(n)])}
    k = sx.choice("k", list(range(n)))
    if how == "less":
        target, err = labels[:k] + labels[k + 1:], ValueError
    elif how == "more":
        target, err = labels + [other], ValueError
    else:
        target, err = labels[:k] + [other] + labels[k + 1:], (KeyError, ValueError)
    with sx.raises(*(err if isinstance(err, tuple) else (err,))):
        reorder_labels(Out("element", "csv", 1.0, numpy.array(labels), out), target)


def cells(sx, mesh, keys, vals, labels, what="value of the cell"):
    for k in keys:
        got = mesh.cell_data[k]
        sx.check(len(got) == len(labels), "one value per cell")
        for i, l in enumerate(labels):
            sx.check(same(sx, got[i], vals[k][l]), what)


def attach(sx, shapes, steps, vec=False, pack=list, labels_order=None):
    """In memory, several time steps."""
    sx.geometry()
    mesh, cents = mesh_of(sx, shapes)
    n = len(shapes)
    labels = [str(l) for l in mesh.labels]
    sx.check(len(set(labels)) == n, "labels of the mesh")
    own = [sx.real("own%d" % i, -1, 1) for i in range(n)]
    mesh.add_cell_data("own", own)
    mesh.add_cell_data("P", [0.0] * n)
    tabs = [table(sx, "t%d" % s, labels, order(sx, "r%d" % s, n), ["P", "T"], float(s), vec=vec) for s in range(steps)]
    outs = [t[0] for t in tabs]
    if pack is None:
        mesh.read_output(outs[0])
        s = 0
    else:
        s = sx.choice("step", ["last"] + list(range(-steps, steps)))
        if s == "last":
            mesh.read_output(pack(outs))
            s = -1
        else:
            mesh.read_output(pack(outs), time_step=s)
    cells(sx, mesh, ["P", "T"] + ["V"] * vec, tabs[s][1], labels)
    for i in range(n):
        sx.check(sx.same(mesh.cell_data["own"][i], own[i]), "other data of the mesh")
        sx.check(same(sx, mesh.centers[i], cents[i]), "centres")
    sx.check([str(l) for l in mesh.labels] == labels, "labels of the mesh unchanged")


def beyond(sx, steps):
    mesh, cents = mesh_of(sx, ["hexahedron"])
    outs = [table(sx, "t%d" % s, [str(mesh.labels[0])], [0], ["P"])[0] for s in range(steps)]
    s = sx.choice("step", [-steps - 1, -steps - 2, steps, steps + 1])
    with sx.raises(ValueError):
        mesh.read_output(outs, time_step=s)
    sx.check("P" not in mesh.cell_data, "nothing imported")
    with sx.raises(TypeError):
        mesh.read_output(outs, time_step=0.5)


def reject(sx, how):
    """Outputs of other meshes."""
    sx.geometry()
    mesh, cents = mesh_of(sx, ["hexahedron"] * 2)
    labels = [str(l) for l in mesh.labels]
    if how == "more":
        labels = labels + ["ZZZ99"]
    elif how == "less":
        labels = labels[:1]
    else:
        k = sx.choice("k", [0, 1])
        labels[k] = "ZZZ99"
    out, _ = table(sx, "t", labels, order(sx, "r", len(labels)), ["P"])
    with sx.raises(ValueError, KeyError):
        mesh.read_output(out)
    sx.check("P" not in mesh.cell_data, "nothing imported")


def from_file(sx, shapes, ext, steps):
    import toughio

    sx.geometry()
    mesh, cents = mesh_of(sx, shapes)
    n = len(shapes)
    labels = [str(l) for l in mesh.labels]
    rows = order(sx, "r", n)
    tabs = [table(sx, "t%d" % s, labels, rows, ["P", "T"], float(s + 1)) for s in range(steps)]
    name = sx.path("out.csv")
    toughio.write_output(name, [t[0] for t in tabs], file_format=ext)
    s = sx.choice("step", list(range(-steps, steps)))
    mesh.read_output(name, time_step=s)
    cells(sx, mesh, ["P", "T"], tabs[s][1], labels)
    want = order(sx, "w", n)
    target = [labels[i] for i in want]
    got = toughio.read_output(name, labels_order=sx.choice("pack", [list, tuple, numpy.array])(target))
    sx.check(len(got) == steps, "time steps")
    for g, (t, vals) in zip(got, tabs):
        sx.check([str(l) for l in g.labels] == target, "labels in the order asked for")
        for i, l in enumerate(target):
            sx.check(sx.same(g.data["P"][i], vals["P"][l]), "value in the order asked for")


def from_save(sx, n, userx):
    """SAVE files: primary variables, porosity, user fields."""
    import toughio

    sx.geometry()
    mesh, cents = mesh_of(sx, ["hexahedron"] * n)
    labels = [str(l) for l in mesh.labels]
    rows = order(sx, "r", n)
    x = {l: [sx.real("x%d%d" % (i, k), 0.5, 1000) for k in range(2)] for i, l in enumerate(labels)}
    por = {l: sx.real("p%d" % i, 0.25, 0.75) for i, l in enumerate(labels)}
    use = {l: [sx.real("u%d%d" % (i, k), 0.5, 1000) for k in range(2)] for i, l in enumerate(labels)}
    inc = {labels[r]: {"values": x[labels[r]], "porosity": por[labels[r]]} for r in rows}
    if userx:
        for l in labels:
            inc[l]["userx"] = use[l]
    name = sx.path("SAVE")
    toughio.write_input(name, {"initial_conditions": inc}, block="incon")
    keep = []
    for line in sx.read_file(name).split("\n"):
        if len(line) < 1 or not (line.startswith("ENDCY") or line.startswith("Title")):
            keep.append(line)
    sx.write_file(name, "\n".join(keep))
    want = order(sx, "w", n)
    target = [labels[i] for i in want]
    got = toughio.read_output(name, labels_order=sx.choice("pack", [list, tuple, numpy.array])(target))
    sx.check([str(l) for l in got.labels] == target, "labels in the order asked for")
    for i, l in enumerate(target):
        sx.check(sx.same(got.data["X2"][i], x[l][1]), "value in the order asked for")
    mesh.read_output(name)
    for i, l in enumerate(labels):
        for k in range(2):
            sx.check(sx.same(mesh.cell_data["X%d" % (k + 1)][i], x[l][k]), "primary variable of the cell")
            if userx:
                sx.check(sx.same(mesh.cell_data["userx"][i][k], use[l][k]), "user field of the cell")
        sx.check(sx.same(mesh.cell_data["porosity"][i], por[l]), "porosity of the cell")


def flows(sx, n, pairs, rows_any=True, key="FLOW"):
    """Connections: what flows into a cell along the line between both cells."""
    sx.geometry()
    mesh, cents = mesh_of(sx, ["tetra"] * n)
    labels = [str(l) for l in mesh.labels]
    for a, b in pairs:
        sx.assume(sx.any_([sx.not_(sx.eq(cents[a][k], cents[b][k])) for k in range(3)]))
    q = [sx.real("q%d" % i, -100, 100) for i in range(len(pairs))]
    turn = [sx.choice("turn%d" % i, [False, True]) for i in range(len(pairs))]
    ends = [(b, a) if t else (a, b) for (a, b), t in zip(pairs, turn)]
    rows = order(sx, "r", len(pairs)) if rows_any else list(range(len(pairs)))
    out = Out("connection", "csv", 1.0, numpy.array([[labels[e] for e in ends[r]] for r in rows]), {key: numpy.array([q[r] for r in rows])})
    mesh.read_output([out] if sx.choice("list", [False, True]) else out)
    got = mesh.cell_data[key]
    sx.check(len(got) == n, "one vector per cell")
    want = [[0, 0, 0] for _ in range(n)]
    for (a, b), v in zip(ends, q):
        d = [x - y for x, y in zip(cents[a], cents[b])]
        norm = sx.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
        into = a if sx.decide(v > 0) else b
        for k in range(3):
            want[into][k] = want[into][k] + v * d[k] / norm
    for i in range(n):
        for k in range(3):
            sx.check(sx.same(got[i][k], want[i][k]), "flow into the cell")


def jobs(tier):
    thorough = tier == "thorough"
    J = []
    for n in (1, 2, 3, 4):
        for how in range(3):
            J.append(Job("reorder_%d_%d" % (n, how), reorder, {"n": n, "vec": how != 1, "how": how}, budget=300))
    for how in ("less", "more", "other"):
        J.append(Job("unknown_" + how, unknown, {"n": 3 if thorough else 2, "how": how}))
        J.append(Job("reject_" + how, reject, {"how": how}))
    J.append(Job("attach_one", attach, {"shapes": ["hexahedron", "tetra", "hexahedron"], "steps": 1, "pack": None, "vec": True}))
    J.append(Job("attach_two", attach, {"shapes": ["hexahedron"] * 2, "steps": 2, "vec": True}))
    J.append(Job("attach_tuple", attach, {"shapes": ["tetra"] * 3, "steps": 2 if thorough else 1, "pack": tuple}, budget=300))
    J.append(Job("beyond_1", beyond, {"steps": 1}))
    J.append(Job("beyond_2", beyond, {"steps": 2}))
    for ext in ("csv", "petrasim"):
        J.append(Job("file_" + ext, from_file, {"shapes": ["hexahedron", "tetra"] + ["tetra"] * thorough, "ext": ext, "steps": 2}, budget=300))
    J.append(Job("save", from_save, {"n": 3 if thorough else 2, "userx": False}))
    J.append(Job("save_userx", from_save, {"n": 2, "userx": True}))
    J.append(Job("flow_1", flows, {"n": 2, "pairs": [(0, 1)]}))
    J.append(Job("flow_2", flows, {"n": 3, "pairs": [(0, 1), (1, 2)]}, budget=300))
    if thorough:
        J.append(Job("flow_3", flows, {"n": 3, "pairs": [(0, 1), (1, 2), (0, 2)], "rows_any": False}, budget=600))
    return J
