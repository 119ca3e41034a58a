"""C10: element labels."""
from sx.runner import Job

BOUNDS = (
    "any number of cells up to 3 185 000 x 10^4, any two cell numbers below it, label length given (5 to 9) or chosen; "
    "recognition: any label followed by a blank or another label"
)
OUTSIDE = "more cells than nine-character labels can address; a field starting with a digit right after a label (see DESIGN)"
ASSUMPTIONS = [
    "labeler treats every cell number on its own: numpy.arange(n) and range(n) over the number of cells are represented by two arbitrary positions",
]

CAP = 3185000
UP = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
MID = frozenset("123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")


def _in(sx, c, dom):
    return sx.any_([sx.eq(c, d) for d in sorted(dom)])


def pair(sx, length, lo, hi):
    """Two cells of one mesh."""
    from toughio._mesh import _common as m

    n = sx.int("n", max(lo, 2), hi)
    i, j = sx.int("i", 0, hi - 1), sx.int("j", 0, hi - 1)
    sx.assume(i < j)
    sx.assume(j < n)
    labs = sx.sampled(m, lambda k: m.labeler(k, length) if length else m.labeler(k), n, [i, j])
    a, b = str(labs[0]), str(labs[1])
    sx.check(len(a) == len(b), "same length")
    if length:
        sx.check(len(a) == length, "length asked for")
    sx.check(sx.not_(sx.eq(a, b)), "different labels")
    for s in (a, b):
        well_formed(sx, s)
    # a label depends on its number and the length only
    n2 = sx.int("n2", 2, CAP * 10 ** (len(a) - 5))
    sx.assume(j < n2)
    other = sx.sampled(m, lambda k: m.labeler(k, len(a)), n2, [i, j])
    sx.check(sx.eq(str(other[0]), a), "same label in another mesh")
    sx.check(sx.eq(str(other[1]), b), "same label in another mesh")


def well_formed(sx, s):
    sx.check(len(s) >= 5, "at least five characters")
    sx.check(_in(sx, s[0], UP), "starts with a letter")
    sx.check(_in(sx, s[1], MID), "second character")
    sx.check(_in(sx, s[2], MID), "third character")
    for c in s[3:]:
        sx.check(_in(sx, c, "0123456789"), "ends with a number")


def enough(sx, k):
    """The chosen length is the shortest that can address the cells."""
    from toughio._mesh import _common as m

    n = sx.int("n", 1, CAP * 10 ** 4)
    i = sx.int("i", 0, CAP * 10 ** 4 - 1)
    sx.assume(i < n)
    lo = 1 if k == 5 else CAP * 10 ** (k - 6) + 1
    sx.assume(n >= lo)
    sx.assume(n <= CAP * 10 ** (k - 5))
    labs = sx.sampled(m, m.labeler, n, [i])
    sx.check(len(str(labs[0])) == k, "shortest sufficient length")
    well_formed(sx, str(labs[0]))


def recognised(sx, w, follow):
    """The length of a label is recognised from its line."""
    from toughio._common import get_label_length

    s = sx.text("a", 1, sorted(UP)) + sx.text("m", 2, sorted(MID)) + sx.text("d", w - 3, "0123456789")
    if follow == "blank":
        line = s + " " + sx.text("rest", 12 - w, " ABC0123456789")
    elif follow == "end":
        line = s
    else:
        line = s + sx.text("b", 1, sorted(UP)) + sx.text("bm", 2, sorted(MID)) + sx.text("bd", w - 3, "0123456789")
    sx.check(get_label_length(line) == w, "length of label")
    sx.check(get_label_length(line[:9]) == w, "length of label")


def mesh_labels(sx, n):
    """Labels of a mesh are those of its cell numbers."""
    import numpy
    import toughio

    dx = [sx.real("d%d" % i, 0.1, 10.0) for i in range(n)]
    from toughio._mesh._common import labeler

    pts = numpy.zeros((2 * n + 2, 3), dtype=object if sx.symbolic else float)
    x = 0.0
    for i in range(n + 1):
        pts[2 * i] = [x, 0.0, 0.0]
        pts[2 * i + 1] = [x, 0.0, 1.0]
        x = x + (dx[i] if i < n else 0.0)
    cells = [("quad", numpy.array([[2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1] for i in range(n)]))]
    mesh = toughio.Mesh(pts, cells)
    w = sx.choice("length", [None, 5, 6, 7, 8])
    mesh.label_length = w
    want = labeler(n, w)
    got = mesh.labels
    sx.check(len(got) == n and len(set(str(x) for x in got)) == n, "one label per cell")
    for a, b in zip(got, want):
        sx.check(str(a) == str(b), "label of the cell number")
        sx.check(len(str(a)) == (w or 5), "label length")
    mesh.label_length = None
    for a, b in zip(mesh.labels, labeler(n)):
        sx.check(str(a) == str(b), "label length can be changed")


def jobs(tier):
    out = []
    for w in (5, 6, 7, 8) + ((9,) if tier == "thorough" else ()):
        out.append(Job("pair_%d" % w, pair, dict(length=w, lo=2, hi=CAP * 10 ** (w - 5)), budget=300, max_samples=1))
    for k in (5, 6, 7) + ((8, 9) if tier == "thorough" else ()):
        out.append(Job("chosen_%d" % k, pair, dict(length=None, lo=2 if k == 5 else CAP * 10 ** (k - 6) + 1, hi=CAP * 10 ** (k - 5)), budget=300, max_samples=1))
        out.append(Job("enough_%d" % k, enough, dict(k=k), budget=200, max_samples=1))
    for w in range(5, 10):
        for f in ("blank", "end", "label"):
            out.append(Job("recognised_%d_%s" % (w, f), recognised, dict(w=w, follow=f)))
    for n in (1, 2, 5):
        out.append(Job("mesh_%d" % n, mesh_labels, dict(n=n)))
    return out
