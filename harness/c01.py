"""C01: fixed-column records."""
from sx.runner import Job

BOUNDS = (
    "every record format of the format table; one field at a time over its full range (|x| <= 1e300, "
    "zero or >= 1e-300), the other fields nonnegative of ordinary size; blank masks: none, all, one blank, one set"
)
OUTSIDE = "several extreme fields in one record at once; exponents read from text beyond 3 digits"
ASSUMPTIONS = ["integers fit their field"]


def fields(fmt):
    out = []
    for tok in fmt.split(","):
        body, t = tok[:-1], tok[-1]
        w = int(body.split(".")[0])
        p = int(body.split(".")[1]) if "." in body else None
        out.append((t, w, p))
    return out


def value(sx, name, t, w, p, wild):
    if t == "d":
        n = min(w, 6)
        return sx.int(name, -(10 ** (n - 1)) + 1 if (wild and n > 1) else 0, 10 ** n - 1)
    if t == "s":
        n = sx.choice(name + "_len", [1, w] if (w > 1 and wild) else [w])
        return sx.text(name, n)
    if t == "S":
        return sx.text(name, w)
    if t == "f":
        return float(3)
    if wild:
        return sx.real(name, -1e300, 1e300)
    return sx.real(name, 1e-9, 1e9)


def tolerance(sx, x, w, p):
    """Half a unit of the last digit that fits the field."""
    neg = x < 0
    big = sx.any_([x >= 0.99e100, x <= -0.99e100, sx.all_([x < 1.01e-99, x > -1.01e-99, sx.not_(x == 0)])])
    best = p
    room = w - 2 - 4  # d . e+xx
    a = min(p, room)
    t = {}
    for n in (0, 1):
        for b in (0, 1):
            q = min(p, room - n - b)
            t[n, b] = 0.5 * 10.0 ** (-q)
    return sx.ite(neg, sx.ite(big, t[1, 1], t[1, 0]), sx.ite(big, t[0, 1], t[0, 0]))


def record(sx, fmt, wilds):
    from toughio._common import str2format
    from toughio._io.input.tough._helpers import read_record, write_record

    fs = fields(fmt)
    n = len(fs)
    k = sx.choice("wild", wilds)
    mode = sx.choice("mask", ["all", "one blank", "only one"])
    vals, kinds = [], []
    for i, (t, w, p) in enumerate(fs):
        blank = t != "f" and ((mode == "one blank" and i == (k + 1) % n) or (mode == "only one" and i != k))
        vals.append(None if blank else value(sx, "x%d" % i, t, w, p, i == k))
    lines = write_record(vals, str2format(fmt))
    sx.check(len(lines) == 1, "one line")
    line = lines[0]
    sx.check(line.endswith("\n") and len(line) >= 81, "80 columns")
    got = read_record(line, fmt)
    sx.check(len(got) == n, "number of fields")
    for i, (t, w, p) in enumerate(fs):
        lab = "field %d (%s)" % (i, t)
        v, g = vals[i], got[i]
        if v is None:
            blank_S = t == "S" and isinstance(g, str)
            sx.check(g is None or (blank_S and g.strip() == ""), lab + " blank stays blank")
        elif t in "sS":
            sx.check(sx.eq(g, v), lab + " text")
        elif t == "d":
            sx.check(g is not None and not isinstance(g, str) and sx.close(g, v), lab + " integer")
        elif t == "f":
            sx.check(sx.close(g, v, 0, 0.05), lab + " fixed point")
        else:
            if g is None or isinstance(g, str):
                sx.check(False, lab + " real lost")
                continue
            tol = tolerance(sx, v, w, p)
            d = g - v
            av = abs(v)
            slack = 1.02 if sx.symbolic else 1.01
            sx.check(sx.all_([d <= tol * slack * av, -d <= tol * slack * av]), lab + " real within its precision")


def multi(sx, fmt, n):
    """Tables written over several lines."""
    from toughio._common import str2format
    from toughio._io.input.tough._helpers import read_record, write_record, prune_nones_list

    fs = fields(fmt)
    vals = [sx.real("x%d" % i, 1e-9, 1e9) for i in range(n)]
    lines = write_record(vals, str2format(fmt), multi=True)
    sx.check(len(lines) == -(-n // len(fs)), "number of lines")
    got = []
    for line in lines:
        got += prune_nones_list(read_record(line, fmt))
    sx.check(len(got) == n, "number of values")
    p = fs[0][2]
    for i in range(n):
        sx.check(sx.close(got[i], vals[i], 0.5 * 10 ** -p), "value %d" % i)


def fortran(sx, nd, ne, form):
    """Numbers written by Fortran, with and without the exponent letter."""
    from toughio._io.input.tough._helpers import str2float

    digs = sx.text("digits", nd, "0123456789")
    ed = sx.text("exp", ne, "0123456789")
    neg = sx.choice("neg", [False, True])
    eneg = sx.choice("eneg", [False, True])
    s = ("-" if neg else "") + "0." + digs
    if form == "noE":
        s += ("-" if eneg else "+") + ed
    elif form == "E":
        s += "E" + ("-" if eneg else "+") + ed
    else:
        s += "e" + ("-" if eneg else "+") + ed
    got = str2float(s)
    m = 0
    for c in digs:
        m = m * 10 + sx.digit(c)
    e = 0
    for c in ed:
        e = e * 10 + sx.digit(c)
    e = -e if eneg else e
    if sx.symbolic:
        want = sx.num(m).to_real() * sx.p10(e - nd)
        want = -want if neg else want
        sx.check(sx.num(got) == want, "value of %s" % form)
    else:
        want = float("%s%de%d" % ("-" if neg else "", m, e - nd)) if abs(e) < 290 else None
        sx.check(want is None or sx.close(got, want), "value of %s" % form)


def label_length(sx, n, tail):
    """Label length detected from a label followed by blanks."""
    from toughio._common import get_label_length

    lab = sx.text("a", 3, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") + sx.text("b", n - 3, "0123456789")
    line = (lab + tail * " ")[:9]
    sx.check(sx.eq(get_label_length(line), n), "label length")


def _formats():
    from toughio._common import block_to_format

    seen, out = set(), []
    for blk, v in sorted(block_to_format.items()):
        items = sorted(v.items()) if isinstance(v, dict) else [(None, v)]
        for k, fmt in items:
            if fmt not in seen:
                seen.add(fmt)
                out.append((blk if k is None else "%s%s" % (blk, k), fmt))
    return out


def all_records(sx, names=None):
    fs = _formats()
    name, fmt = sx.choice("format", fs)
    kinds = fields(fmt)
    record(sx, fmt, list(range(len(kinds))))


def records_of(sx, lo, hi):
    fs = _formats()[lo:hi]
    if not fs:
        return
    name, fmt = sx.choice("format", fs)
    # one field of each kind and position class is enough in the quick tier
    kinds = fields(fmt)
    if sx.tier == "quick":
        pos, seen = [], {}
        for i, k in enumerate(kinds):
            seen.setdefault(k, []).append(i)
        for k, v in seen.items():
            pos += sorted({v[0], v[len(v) // 2], v[-1]})
        pos = sorted(set(pos))
    else:
        pos = list(range(len(kinds)))
    record(sx, fmt, pos)


def jobs(tier):
    out = []
    step = 4
    for lo in range(0, 40, step):
        out.append(Job("records_%02d" % lo, records_of, dict(lo=lo, hi=lo + step), budget=120 if tier == "quick" else 400,
                       must_reach=lo < 24))
    for n in (1, 4, 5, 8, 9, 16, 17) if tier == "quick" else range(1, 34):
        out.append(Job("table8_%d" % n, multi, dict(fmt=",".join(8 * ["10.4e"]), n=n)))
        out.append(Job("table4_%d" % n, multi, dict(fmt=",".join(4 * ["14.7e"]), n=n)))
    for nd in (1, 4, 7):
        for ne in (2, 3):
            for form in ("noE", "E", "e"):
                if form == "noE" and ne == 2:
                    continue  # Fortran drops the letter for three-digit exponents only
                out.append(Job("fortran_%d_%d_%s" % (nd, ne, form), fortran, dict(nd=nd, ne=ne, form=form)))
    for n in range(5, 10):
        out.append(Job("label_%d" % n, label_length, dict(n=n, tail=9)))
    return out
