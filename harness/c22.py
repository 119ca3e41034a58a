"""C22: output tables survive a round trip."""
import numpy

from sx.runner import Job

BOUNDS = (
    "one to three time steps at any increasing times (from 0 to 1e12), one to three rows, element and connection tables, labels of five "
    "characters (any letters and digits, the third may be blank), up to three variables and any subset of the coordinates in any place, "
    "any values of magnitude up to 1e120 (and exactly zero), a single output or a list or tuple, with the format given or found by the extension"
)
OUTSIDE = (
    "names of variables with blanks, commas or more than 17 characters, or that begin with ELEM; time steps with different rows; "
    "PetraSim files with times that are not increasing; not-a-number"
)
ASSUMPTIONS = ["numbers are real numbers; a value may differ from the written one by the digits its format keeps"]

NAMES = ["P", "T", "SAT_GAS"]


def Out(*a):
    from toughio._io.output._common import Output

    return Output(*a)


def value(sx, name, how):
    if how == "zero":
        return sx.choice(name, [0.0, 1.5, -2.25e-8])
    if how == "int":
        return sx.int(name, -10 ** 6, 10 ** 6)
    if how == "wide":
        return sx.real(name, -1e120, 1e120)
    return sx.real(name, -1e12, 1e12)


def make(sx, kind, steps, rows, names, how, labelled=True, symbolic=0, gap=False):
    labels = []
    if labelled:
        for i in range(rows):
            pair = [sx.label("l%d%d" % (i, k)) if i < symbolic else "%s%s%2d" % ("ABC"[i], "EF"[k], 7 * i + 3 * k) for k in range(1 + (kind == "connection"))]
            pair = [p if i < symbolic else p[:2] + "1" + p[2:] for p in pair]
            labels.append(pair if kind == "connection" else pair[0])
    outs, t0 = [], None
    for s in range(steps):
        t = sx.real("time%d" % s, 0, 1e12)
        if t0 is not None:
            sx.assume(t >= t0 * (1 + 1e-6 if gap else 1.001))
            sx.assume(t >= 1e-3)
        t0 = t
        data = {k: [value(sx, "v%d_%s_%d" % (s, k, i), how) for i in range(rows)] for k in names}
        lab = numpy.array(labels) if labelled else numpy.array(None)
        outs.append(Out(kind, "csv", t, lab, {k: numpy.array(v) for k, v in data.items()}))
    return outs


def trip(sx, fmt, kind, steps, rows, names, how, given=True, symbolic=0, pack="list", mix=False, gap=True):
    import toughio

    outs = make(sx, kind, steps, rows, names, how, fmt != "tecplot", symbolic, gap)
    if mix:
        last = outs[-1]
        outs[-1] = last._replace(data={k: last.data[k] for k in reversed(list(last.data))})
    name = sx.path({"csv": "out.csv", "petrasim": "out.csv", "tecplot": "out.tec"}[fmt])
    arg = outs[0] if pack == "one" else tuple(outs) if pack == "tuple" else outs
    old = sx.freeze([[o.data for o in outs], [o.time for o in outs]])
    if given:
        toughio.write_output(name, arg, file_format=fmt)
    else:
        toughio.write_output(name, arg)
    sx.frozen_same([[o.data for o in outs], [o.time for o in outs]], old, "outputs unchanged")
    got = toughio.read_output(name)
    sx.check(isinstance(got, list) and len(got) == steps, "time steps")
    for s, (g, o) in enumerate(zip(got, outs)):
        sx.check(g.type == kind and g.format == fmt, "type and format")
        sx.check(sx.close(g.time, o.time, 2e-7, 1e-8), "time")
        sx.check(sorted(g.data) == sorted(names), "variables")
        if fmt != "tecplot":
            sx.check(len(g.labels) == rows, "rows")
            for i in range(rows):
                if kind == "element":
                    sx.check(sx.eq(g.labels[i], o.labels[i]), "label")
                else:
                    sx.check(sx.all_([sx.eq(g.labels[i][k], o.labels[i][k]) for k in (0, 1)]), "labels of the connection")
        for k in names:
            sx.check(len(g.data[k]) == rows, "values")
            for i in range(rows):
                sx.check(sx.close(g.data[k][i], o.data[k][i], 1e-11), "value")


def twice(sx, first, second, kind, names, how="int"):
    """From one format to another: what was read can be written."""
    import toughio

    outs = make(sx, kind, 2, 2, names, how)
    a, b = sx.path("a.csv"), sx.path("b.csv")
    toughio.write_output(a, outs, file_format=first)
    mid = toughio.read_output(a)
    toughio.write_output(b, mid, file_format=second)
    got = toughio.read_output(b)
    sx.check(len(got) == 2, "time steps")
    for g, o in zip(got, outs):
        sx.check(g.format == second, "format")
        sx.check(sx.close(g.time, o.time, 4e-7, 1e-7), "time")
        for i in range(2):
            if second != "tecplot":
                sx.check(sx.eq(g.labels[i], o.labels[i]) if kind == "element" else sx.all_([sx.eq(g.labels[i][k], o.labels[i][k]) for k in (0, 1)]), "label")
            for k in names:
                sx.check(sx.close(g.data[k][i], o.data[k][i], 2e-11), "value")


def single(sx, kind, rows, again):
    """A table without time: one step whose time is not known; it can be written again."""
    import toughio

    names = ["P", "T"]
    outs = make(sx, kind, 1, rows, names, "any")
    a, b = sx.path("a.csv"), sx.path("b.csv")
    toughio.write_output(a, outs)
    sx.write_file(a, "\n".join(l for l in sx.read_file(a).split("\n") if not l.startswith('"TIME')))
    name = a
    if again:
        toughio.write_output(b, toughio.read_output(a))
        name = b
    got = toughio.read_output(name)
    sx.check(len(got) == 1 and got[0].time is None, "one step without time")
    for i in range(rows):
        for k in names:
            sx.check(sx.close(got[0].data[k][i], outs[0].data[k][i], 2e-11), "value")


def gaps(sx, kind):
    """Missing values are written as zeros."""
    import toughio

    outs = make(sx, kind, 1, 2, ["P"], "any")
    k = sx.choice("k", [0, 1])
    outs[0].data["P"] = numpy.array([None if i == k else outs[0].data["P"][i] for i in range(2)], dtype=object)
    a = sx.path("a.csv")
    toughio.write_output(a, outs)
    got = toughio.read_output(a)[0]
    for i in range(2):
        sx.check(sx.close(got.data["P"][i], 0.0 if i == k else outs[0].data["P"][i], 1e-11), "value")


def refuse(sx, what):
    import toughio

    outs = make(sx, "element", 1, 2, ["P"] if what != "Y" else ["P", "X"], "any")
    a = sx.path("a.tec")
    if what in "XY":
        with sx.raises(ValueError):
            toughio.write_output(a, outs, file_format="tecplot")
    elif what == "type":
        with sx.raises(TypeError):
            toughio.write_output(a, sx.choice("bad", [[1.0], [None], 3.0, "x", [outs[0], 2]]))
    else:
        with sx.raises(TypeError):
            toughio.write_output(sx.choice("bad", [1, None, b"x"]), outs)


XYZ = ["X", "Y", "Z"]


def jobs(tier):
    thorough = tier == "thorough"
    J = []

    def add(name, *a, **k):
        J.append(Job(name, a[0], k, budget=600 if thorough else 200))

    for fmt in ("csv", "petrasim", "tecplot"):
        base = ["X", "Y"] if fmt == "tecplot" else []
        add(fmt + "_one", trip, fmt=fmt, kind="element", steps=1, rows=1, names=base + ["P"], how="wide", pack="one", symbolic=1)
        add(fmt + "_rows", trip, fmt=fmt, kind="element", steps=1, rows=2, names=["P"] + XYZ[2:] + base, how="any", symbolic=2, mix=False)
        add(fmt + "_steps", trip, fmt=fmt, kind="element", steps=2, rows=1, names=["T"] + base, how="any")
        add(fmt + "_three", trip, fmt=fmt, kind="element", steps=3, rows=1, names=base + ["P"], how="int", pack="tuple")
        add(fmt + "_mix", trip, fmt=fmt, kind="element", steps=2, rows=1, names=["P", "Z", "T"] + base[::-1], how="int", mix=True)
        add(fmt + "_zero", trip, fmt=fmt, kind="element", steps=1, rows=1, names=["P"] + XYZ[:2], how="zero", pack="one")
        add(fmt + "_xyz", trip, fmt=fmt, kind="element", steps=1, rows=1, names=["SAT_GAS"] + XYZ, how="any")
        add(fmt + "_long", trip, fmt=fmt, kind="element", steps=1, rows=1, names=["MASS_FRACTION_GAS", "MASS_FRACTION_LIQ"] + base, how="any")
        if fmt != "petrasim":
            add(fmt + "_ext", trip, fmt=fmt, kind="element", steps=1, rows=1, names=["P"] + base, how="any", given=False)
    add("conne_one", trip, fmt="csv", kind="connection", steps=1, rows=1, names=["HEAT", "X"], how="wide", symbolic=1)
    add("conne_two", trip, fmt="csv", kind="connection", steps=2, rows=2, names=["FLOW"], how="any", symbolic=1)
    add("conne_xyz", trip, fmt="csv", kind="connection", steps=1, rows=2, names=["FLOW_G"] + XYZ, how="int")
    for a in ("csv", "petrasim"):
        for b in ("csv", "petrasim", "tecplot"):
            add("from_%s_to_%s" % (a, b), twice, first=a, second=b, kind="element", names=["X", "Y", "P"] if b == "tecplot" else ["P"])
    add("from_conne", twice, first="csv", second="csv", kind="connection", names=["FLOW"])
    for kind in ("element", "connection"):
        for again in (False, True):
            add("single_%s_%s" % (kind, again), single, kind=kind, rows=2, again=again)
        add("gaps_" + kind, gaps, kind=kind)
    for w in ("X", "Y", "type", "name"):
        add("refuse_" + w, refuse, what=w)
    if thorough:
        for fmt in ("csv", "petrasim", "tecplot"):
            base = ["X", "Y"] if fmt == "tecplot" else []
            add(fmt + "_big", trip, fmt=fmt, kind="element", steps=3, rows=3, names=base + ["P"], how="int", symbolic=1)
            add(fmt + "_wide", trip, fmt=fmt, kind="element", steps=2, rows=2, names=base + ["P"], how="wide")
    return J
