"""C24: TOUGH listings, SAVE and history files."""
import numpy

from sx.runner import Job

BOUNDS = (
    "listings with one and two printed time steps, tables of elements (after them tables of connections and sources, which are to be "
    "skipped) of up to three rows and three columns, with headers repeated after any row, labels of five to eight characters (any letters, "
    "digits or a blank in the third and fourth), given or found label lengths, any values of either sign in columns of 12 to 15 characters "
    "(so that negative numbers touch the previous ones), fields of asterisks; SAVE files with up to three elements, with porosity and user "
    "fields for any of them; history files of up to three rows, with commas and quotes or with blanks"
)
OUTSIDE = "other layouts than those of TOUGH2 and TOUGH3 (exponents without E, columns of different widths); labels that begin with a blank"
ASSUMPTIONS = ["printed numbers are read as the number they were printed for (rounding by the printed digits aside)"]

AT = " " + "@" * 60 + "\n"
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def is_nan(x):
    return isinstance(x, float) and x != x


def row(sx, head, index, vals, width):
    out = head + "%6d" % index
    for v in vals:
        out += " " + "*" * (width - 1) if v is None else sx.num_text(v, "%d.5E" % width)
    return out + "\n"


def table(sx, names, rows, width, connection, breaks):
    """Rows are (labels, values); the header is printed again after some rows."""
    key = " ELEM1 ELEM2  INDEX " if connection else " ELEM.  INDEX "
    head = "\n" + key + " ".join("%12s" % n for n in names) + "\n" + " " * 20 + " ".join("%12s" % "(PA)" for n in names) + "\n\n"
    out = head
    for i, (labels, vals) in enumerate(rows):
        if i and i in breaks:
            out += "\n" + head
        out += row(sx, "  " + "  ".join(labels), i + 1, vals, width)
    return out + "\n"


def values(sx, tag, n, holes):
    out = []
    for i in range(n):
        v = sx.real("%s_%d" % (tag, i), -1e9, 1e9)
        out.append(None if holes and sx.choice("hole %s %d" % (tag, i), [False, True]) else v)
    return out


def label(sx, name, length, symbolic):
    if symbolic and length == 0:
        return sx.text(name, 5, first=UP, dom=UP + "0123456789 ", last=UP + "0123456789")
    if not symbolic:
        return ("%s%s1 %d" % (UP[int(name[1]) % 26], UP[int(name[-1]) + 3], int(name[1]))) if length == 5 else UP[int(name[1])] + "B" + "1" * (length - 2)
    if length == 5:
        return sx.label(name)
    return sx.text(name, 3, first=UP) + sx.text(name + "d", length - 3, dom="0123456789")


def listing(sx, steps, n, names, width, connection=False, length=5, given=False, holes=False, both=False, breaks=False, symbolic=0, order=False):
    import toughio

    sx.geometry()
    labels = [label(sx, "e%d0" % i, length, i < symbolic) for i in range(n)]
    if connection:
        ends = [[labels[i], labels[(i + 1) % n] if n > 1 else label(sx, "e71", length or 5, False)] for i in range(n)]
    sx.distinct(*labels)
    text = "\n" + AT + "\n     OUTPUT\n\n"
    want, times = [], []
    for s in range(steps):
        t = sx.real("time%d" % s, 0, 1e9)
        times.append(t)
        text += AT + "\n   TOTAL TIME     KCYC   ITER\n" + "  " + sx.num_text(t, "13.6E") + "      %d      2\n" % (s + 1) + AT
        cut = [k for k in range(1, n) if sx.choice("break%d_%d" % (s, k), [False, True])] if breaks else []
        vals = [values(sx, "v%d_%d" % (s, i), len(names), holes) for i in range(n)]
        want.append(vals)
        mine = table(sx, names, [((ends[i] if connection else [labels[i]]), vals[i]) for i in range(n)], width, connection, cut)
        other = table(sx, ["FLOW", "HEAT"], [(([labels[0]] if connection else [labels[0], labels[-1]]), [1.5, -2.5])], width, not connection, [])
        if both:
            src = "\n ELEMENT SOURCE INDEX      GENERATION RATE\n\n  %s  WEL 1     1   -1.00000E+00\n\n" % labels[0]
            text += (other + AT + src + AT + mine + AT) if connection else (mine + AT + other + AT + src + AT)
        else:
            text += mine + AT
    name = sx.path("OUTPUT")
    sx.write_file(name, text)
    kw = {"label_length": length} if given else {}
    perm = list(range(n))
    if order:
        k = sx.choice("turn", list(range(n)))
        perm = perm[k:] + perm[:k]
        kw["labels_order"] = [labels[i] for i in perm]
    got = toughio.read_output(name, connection=connection, **kw)
    sx.check(len(got) == steps, "every time step")
    for s, g in enumerate(got):
        sx.check(g.type == ("connection" if connection else "element") and g.format == "tough", "type and format")
        sx.check(sx.same(g.time, times[s]), "time")
        sx.check(list(g.data) == names, "headers")
        sx.check(len(g.labels) == n, "every row")
        for i, r in enumerate(perm):
            if connection:
                sx.check(sx.all_([sx.eq(a, b) for a, b in zip(g.labels[i], ends[r])]), "labels of the connection")
            else:
                sx.check(sx.eq(g.labels[i], labels[r]), "label")
            for k, c in enumerate(names):
                sx.check(len(g.data[c]) == n, "every value")
                w = want[s][r][k]
                sx.check(is_nan(g.data[c][i]) if w is None else sx.same(g.data[c][i], w, 1e-4), "value")


def nothing(sx, connection):
    """Listings without the table asked for."""
    import toughio

    sx.geometry()
    other = table(sx, ["P"], [(["AAA10"] * (2 - connection), [1.5])], 13, not connection, [])
    name = sx.path("OUTPUT")
    sx.write_file(name, "\n" + AT + AT + "\n TOTAL TIME\n  1.0E+00\n" + AT + other + AT)
    with sx.raises(ValueError):
        toughio.read_output(name, connection=connection)


def save(sx, n, userx, por, nx, order=False):
    import toughio

    sx.geometry()
    labels = [sx.label("l%d" % i) if i == 0 else "%sZ1%2d" % (UP[i], i) for i in range(n)]
    sx.distinct(*labels)
    inc, x, p, u = {}, [], [], []
    for i, l in enumerate(labels):
        x.append([sx.real("x%d%d" % (i, k), 0.5, 1e6) for k in range(nx)])
        p.append(sx.real("p%d" % i, 0.25, 0.75) if por == "all" or (por == "some" and sx.choice("por%d" % i, [False, True])) else None)
        m = 0 if not userx else userx if userx > 0 else sx.choice("m%d" % i, [0, 1, 2])
        u.append([sx.real("u%d%d" % (i, k), 0.5, 1000) for k in range(m)])
        inc[l] = {"values": x[i]}
        if p[i] is not None:
            inc[l]["porosity"] = p[i]
        if m:
            inc[l]["userx"] = u[i]
    name = sx.path("SAVE")
    toughio.write_input(name, {"initial_conditions": inc}, block="incon")
    lines = [l for l in sx.read_file(name).split("\n")]
    k = [i for i, l in enumerate(lines) if l.startswith("INCON")][0]
    last = max(i for i, l in enumerate(lines) if len(l) > 20)
    lines = ["INCON -- INITIAL CONDITIONS FOR %5d ELEMENTS AT TIME  0.100000E+01" % n] + lines[k + 1:last + 1] + ["+++", "    1    1    2 0.00000000E+00 0.10000000E+01", ""]
    sx.write_file(name, "\n".join(lines))
    perm = list(range(n))
    if order:
        k = sx.choice("turn", list(range(n)))
        perm = perm[k:] + perm[:k]
        got = toughio.read_output(name, labels_order=[labels[i] for i in perm])
    else:
        got = toughio.read_output(name)
    sx.check(got.type == "element" and got.format == "save" and got.time is None, "type and format")
    sx.check(len(got.labels) == n, "every element")
    most = max(len(v) for v in u)
    keys = ["X%d" % (k + 1) for k in range(nx)] + (["porosity"] if any(v is not None for v in p) else []) + ["userx"] * (most > 0)
    sx.check(sorted(got.data) == sorted(keys), "arrays")
    for i, r in enumerate(perm):
        sx.check(sx.eq(got.labels[i], labels[r]), "label")
        for k in range(nx):
            sx.check(sx.same(got.data["X%d" % (k + 1)][i], x[r][k]), "primary variable")
        if "porosity" in got.data:
            v = got.data["porosity"][i]
            sx.check(is_nan(v) if p[r] is None else sx.same(v, p[r]), "porosity")
        if "userx" in got.data:
            v = got.data["userx"][i]
            sx.check(len(v) == most, "user fields")
            for k in range(most):
                sx.check(is_nan(v[k]) if k >= len(u[r]) else sx.same(v[k], u[r][k]), "user field")


def history(sx, n, cols, quoted):
    import toughio

    sx.geometry()
    names = ["P", "T", "SG"][:cols]
    vals = [[sx.real("v%d_%d" % (i, k), -1e9, 1e9) for k in range(cols + 1)] for i in range(n)]
    if quoted:
        text = ",".join('"%18s"' % s for s in ["TIME"] + names) + "\n"
        text += "".join(",".join(sx.num_text(v, "20.12e") for v in r) + "\n" for r in vals)
    else:
        text = "  TIME(S)  " + "  ".join("%12s" % s for s in names) + "\n"
        text += "".join(" ".join(sx.num_text(v, "14.6e") for v in r) + "\n" for r in vals)
    name = sx.path("FOFT")
    sx.write_file(name, text)
    got = toughio.read_history(name)
    sx.check(list(got) == ["TIME"] + names, "headers")
    for k, c in enumerate(["TIME"] + names):
        sx.check(len(got[c]) == n, "every row")
        for i in range(n):
            sx.check(sx.same(got[c][i], vals[i][k], 1e-5), "value")


def jobs(tier):
    thorough = tier == "thorough"
    J = []

    def add(name, fn, **k):
        J.append(Job(name, fn, k, budget=600 if thorough else 150))

    for w in (12, 13, 15):
        add("eleme_%d" % w, listing, steps=1, n=1, names=["P", "T", "SG"], width=w, symbolic=1)
        add("conne_%d" % w, listing, steps=1, n=1, names=["FLOW", "HEAT"], width=w, connection=True)
    add("rows_12", listing, steps=1, n=2, names=["P", "T"], width=12, breaks=True, symbolic=1)
    add("rows_13", listing, steps=1, n=3, names=["P"], width=13, breaks=True, symbolic=2)
    add("steps", listing, steps=2, n=2, names=["P"], width=12, breaks=True)
    add("steps_both", listing, steps=2, n=2, names=["P"], width=13, both=True)
    add("conne_both", listing, steps=2, n=2, names=["FLOW"], width=13, both=True, connection=True)
    add("conne_rows", listing, steps=1, n=2, names=["FLOW", "HEAT"], width=12, connection=True, breaks=True, symbolic=1)
    add("holes", listing, steps=1, n=2, names=["P", "T"], width=13, holes=True)
    for l in (5, 6, 8):
        for g in (False, True):
            add("label_%d_%s" % (l, g), listing, steps=1, n=2, names=["P"], width=13, length=l, given=g, symbolic=1)
            add("label_conne_%d_%s" % (l, g), listing, steps=1, n=2, names=["FLOW"], width=13, length=l, given=g, symbolic=1, connection=True)
    add("label_free", listing, steps=1, n=1, names=["P"], width=13, length=0, symbolic=1)
    add("label_conne_free", listing, steps=1, n=2, names=["FLOW"], width=13, length=0, symbolic=2, connection=True)
    add("order", listing, steps=2, n=3, names=["P"], width=13, order=True)
    add("nothing_eleme", nothing, connection=False)
    add("nothing_conne", nothing, connection=True)
    for n in (1, 2):
        for u in (0, 2, -1):
            for p in ("all", "some"):
                add("save_%d_%d_%s" % (n, u, p), save, n=n, userx=u, por=p, nx=2)
    add("save_3", save, n=3, userx=0, por="all", nx=1, order=True)
    add("save_4", save, n=2, userx=5, por="all", nx=4, order=True)
    for q in (False, True):
        add("history_%s" % q, history, n=2, cols=2, quoted=q)
        add("history_one_%s" % q, history, n=1, cols=3, quoted=q)
        add("history_three_%s" % q, history, n=3, cols=1, quoted=q)
    if thorough:
        add("big", listing, steps=2, n=3, names=["P", "T"], width=13, both=True, breaks=True)
        add("big_conne", listing, steps=2, n=3, names=["FLOW", "HEAT"], width=13, both=True, breaks=True, connection=True)
    return J
