"""Shared helpers of the TOUGH input harnesses."""
from .c01 import tolerance

LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
NAME = LETTERS + "abcdefghijklmnopqrstuvwxyz0123456789"


class V:
    """A number with the columns it is written to."""

    def __init__(self, x, w, p, wild=False):
        self.x, self.w, self.p, self.wild = x, w, p, wild


class Maker:
    """Numbers of a harness: one of them, chosen by the solver, over the whole double range."""

    zero = None  # parity of the numbers that are zero, or "all"

    def __init__(self, sx, wild=None):
        self.sx, self.wild, self.n = sx, wild, 0

    def __call__(self, name, w, p):
        wild = name == self.wild
        self.n += 1
        if not wild and Maker.zero in ("all", self.n % 2):
            return V(0.0, w, p)
        x = self.sx.real(name, -1e300, 1e300) if wild else self.sx.real(name, 1e-9, 1e9)
        return V(x, w, p, wild)


def with_zeros(jobs):
    """The same harnesses where many numbers are zero at once."""
    from sx.runner import Job

    def make(fn):
        def run(sx, **kw):
            Maker.zero = sx.choice("zeros", ["all", 0, 1])
            try:
                fn(sx, **kw)
            finally:
                Maker.zero = None

        return run

    return [Job("zeros_" + j.name, make(j.fn), j.params, budget=j.budget) for j in jobs]


def raw(t):
    """Values without their wrappers."""
    if isinstance(t, V):
        return t.x
    if isinstance(t, dict):
        return {k: raw(v) for k, v in t.items()}
    if isinstance(t, (list, tuple)):
        return type(t)(raw(v) for v in t)
    return t


def write(sx, params, name="INFILE", **kw):
    import toughio

    path = sx.path(name)
    toughio.write_input(path, params, **kw)
    return path


def round_trip(sx, params, name="INFILE", rkw=None, **kw):
    import toughio

    path = write(sx, params, name, **kw)
    return toughio.read_input(path, **(rkw or {}))


def absent(x):
    return x is None or (isinstance(x, (list, tuple, dict)) and len(x) == 0) or (
        isinstance(x, (list, tuple)) and all(absent(y) for y in x))


def number(sx, got, want, label):
    if got is None or isinstance(got, (str, list, tuple, dict)):
        sx.check(False, label + " lost")
        return
    if not want.wild:
        sx.check(sx.close(got, want.x, 0.5 * 10.0 ** -want.p), label)
        return
    tol = tolerance(sx, want.x, want.w, want.p)
    d = got - want.x
    slack = 1.02 if sx.symbolic else 1.01
    av = abs(want.x)
    sx.check(sx.all_([d <= tol * slack * av, -d <= tol * slack * av]), label)


def same(sx, got, want, label, exact_keys=True):
    """got equals want; absent entries may be missing, None or empty."""
    import numpy

    if isinstance(want, V):
        number(sx, got, want, label)
    elif isinstance(want, dict):
        if not isinstance(got, dict):
            sx.check(absent(want), label + " lost")
            return
        for k, v in want.items():
            if k not in got:
                sx.check(absent(v), "%s[%s] lost" % (label, _lab(k)))
            else:
                same(sx, got[k], v, "%s[%s]" % (label, _lab(k)))
        if exact_keys:
            extra = [k for k in got if k not in want and not absent(got[k])]
            sx.check(not extra, "%s: nothing added" % label)
    elif absent(want):
        sx.check(absent(got), label + " stays absent")
    elif isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple, numpy.ndarray)):
            sx.check(False, label + " is a list")
            return
        got = list(got)
        while len(got) > len(want) and got[-1] is None:
            got.pop()
        want = list(want)
        while len(want) > len(got) and want[-1] is None:
            want.pop()
        sx.check(len(got) == len(want), label + " length")
        for i, (g, w) in enumerate(zip(got, want)):
            same(sx, g, w, "%s[%d]" % (label, i))
    elif isinstance(want, str):
        sx.check(sx.eq(got, want), label)
    elif isinstance(want, bool):
        sx.check(got == want, label)
    else:
        if got is None or isinstance(got, (str, list, tuple, dict)):
            sx.check(False, label + " lost")
            return
        sx.check(sx.close(got, want), label)


def _lab(k):
    return k if isinstance(k, int) or (isinstance(k, str) and k.isascii()) else "*"


def key(sx, d, k):
    """Entry of a dict under a symbolic label, by position (labels are distinct)."""
    return d[k]


def cell(sx, name, w=5, blank=True):
    """Element label: three characters, then a number."""
    c = sx.text(name + "_a", 3, NAME, first=LETTERS)
    d = sx.text(name + "_b", 1, (" " if blank else "") + "0123456789") + sx.text(name + "_c", w - 4, "0123456789")
    return c + d


def cells(sx, n, w=5):
    out = [cell(sx, "cell%d" % i, w) for i in range(n)]
    sx.distinct(*out)
    return out
