"""C29: capillary pressure models."""
import math

import numpy

from sx.runner import Job

BOUNDS = "all saturations in [0, 1] and all parameters in the admissible ranges of every model (with either sign where only the magnitude counts), one and two saturations at a time"
OUTSIDE = "parameters outside the ranges of the models that are not rejected; rounding"
ASSUMPTIONS = [
    "powers and logarithms are taken by their order properties (growth, limits at 0 and 1, inverses)",
    "growth with saturation is not asked of Pickens' function, whose published formula decreases, and of Milly's across its cut-off",
]

MODELS = {"Linear": 1, "Pickens": 2, "TRUST": 3, "Milly": 4, "vanGenuchten": 7}
NAMES = {"Linear": "Linear", "Pickens": "Pickens", "TRUST": "TRUST", "Milly": "Milly", "vanGenuchten": "van Genuchten"}


def parameters(sx, name):
    r = sx.real
    if name == "Linear":
        p = [r("pmax", 0, 1e8), r("smin", -1, 1), r("smax", -1, 2)]
        sx.assume(p[1] < p[2])
    elif name == "Pickens":
        p = [r("p0", 0, 1e8), r("slr", 0.001, 0.99), r("sl0", 1, 2), r("x", 0.05, 20)]
    elif name == "TRUST":
        p = [r("p0", 0, 1e8), r("slr", 0, 1), r("eta", 0.05, 20), r("pe", 0, 1e6), r("pmax", 0, 1e9) * sx.choice("sign", [1, -1])]
    elif name == "Milly":
        p = [r("slr", 0.0001, 0.99)]
    else:
        p = [r("m", 0.01, 0.99), r("slr", 0, 1), r("alpha", 1e-8, 1) * sx.choice("sign", [1, -1]), r("pmax", 0, 1e9), r("sls", 0, 1)]
        sx.assume(p[1] < p[4])
    return p


def ramp(sx, s):
    """TOUGH lets the pressure fall to zero over the last thousandth."""
    return (1 - s) / 0.001 if sx.decide(s > 0.999) else 1


def formula(sx, name, p, s):
    """Published curves (TOUGH2 user's guide, appendix H), with the cut-offs of TOUGH."""
    if name == "Linear":
        if sx.decide(s <= p[1]):
            return -p[0]
        if sx.decide(s >= p[2]):
            return 0
        return -p[0] * (p[2] - s) / (p[2] - p[1])
    if name == "Pickens":
        p0, slr, sl0, x = p
        s = s if sx.decide(s >= 1.001 * slr) else 1.001 * slr
        s = s if sx.decide(s <= 0.999 * sl0) else 0.999 * sl0
        A = (1 + s / sl0) * (sl0 - slr) / (sl0 + slr)
        B = 1 - s / sl0
        return -p0 * numpy.log(A / B * (1 + (1 - B * B / (A * A)) ** 0.5)) ** (1 / x)
    if name == "TRUST":
        p0, slr, eta, pe, pmax = p
        pmax = abs(pmax)
        out = -pmax
        if sx.decide(s > slr):
            v = -pe - p0 * ((1 - s) / (s - slr)) ** (1 / eta)
            if sx.decide(v > out):
                out = v
        return out * ramp(sx, s)
    if name == "Milly":
        slr = p[0]
        s = s if sx.decide(s >= 1.001 * slr) else 1.001 * slr
        if sx.decide(s - slr >= 0.371):
            return -97.783
        return -97.783 * 10 ** (2.26 * (0.371 / (s - slr) - 1) ** 0.25 - 2)
    m, slr, alpha, pmax, sls = p
    alpha = abs(alpha)
    if sx.decide(sx.any_([s >= 1, s >= sls])):
        return 0
    out = -pmax
    if sx.decide(s > slr):
        e = (s - slr) / (sls - slr)
        v = -1 / alpha * (e ** (-1 / m) - 1) ** (1 - m)
        if sx.decide(v > out):
            out = v
    return out * ramp(sx, s)


def model_of(name, p):
    import toughio

    return getattr(toughio.capillarity, name)(*p)


def lowest(name, p):
    return {"Linear": lambda: -p[0], "TRUST": lambda: -abs(p[4]), "vanGenuchten": lambda: -p[3]}.get(name)


def curve(sx, name):
    p = parameters(sx, name)
    s = sx.real("s", 0, 1)
    m = model_of(name, p)
    sx.check(m.id == MODELS[name] and m.name == NAMES[name], "number and name of the model")
    sx.check(len(m.parameters) == len(p) and sx.all_([sx.eq(a, b) for a, b in zip(m.parameters, p)]), "parameters")
    pc = m(s)
    sx.check(sx.close(pc, formula(sx, name, p, s), 1e-9, 1e-9), "pressure follows the formula")
    sx.check(pc <= 0, "never positive")
    low = lowest(name, p)
    if low is not None:
        sx.check(pc >= low() * (1 if sx.symbolic else 1 + 1e-9), "never below the maximum pressure")


def ends(sx, name):
    p = parameters(sx, name)
    m = model_of(name, p)
    if name in ("TRUST", "vanGenuchten"):
        sx.check(sx.close(m(1.0), 0, 0, 1e-9), "no capillary pressure at full saturation")
        k = {"TRUST": 4, "vanGenuchten": 3}[name]
        sx.check(sx.close(m(0.0), -abs(p[k]), 1e-12, 1e-9), "maximum pressure at zero saturation")
        if sx.decide(p[1] <= 0.999):
            sx.check(sx.close(m(p[1]), -abs(p[k]), 1e-12, 1e-9), "maximum pressure at residual saturation")
    elif name == "Linear":
        for x, w in ((p[1], -p[0]), (p[2], 0)):
            if sx.decide(sx.all_([x >= 0, x <= 1])):
                sx.check(sx.close(m(x), w, 1e-12, 1e-9), "pressure at the thresholds")
    else:
        sx.check(m(0.0) == m(p[{"Pickens": 1, "Milly": 0}[name]]), "no change below residual saturation")


def monotone(sx, name):
    p = parameters(sx, name)
    a, b = sx.real("s", 0, 1), sx.real("t", 0, 1)
    sx.assume(a <= b)
    m = model_of(name, p)
    if name == "Milly":
        sx.assume(sx.any_([b - p[0] < 0.371, a - p[0] >= 0.371]))
        # both below or both above the cut-off
        if sx.decide(0.001 * p[0] >= 0.371):
            return
    x, y = m(a), m(b)
    sx.check(x <= y * (1 if sx.symbolic else 1 - 1e-9), "never decreases with saturation")


def arrays(sx, name, n, how):
    p = parameters(sx, name)
    if name == "Pickens" and n > 1:
        p[1:3] = [0.3, 1.3]
    s = [sx.real("s%d" % i, -0.5, 1.5) for i in range(n)]
    m = model_of(name, p)
    arg = list(s) if how == "list" else tuple(s) if how == "tuple" else numpy.array(s)
    inside = [sx.decide(sx.all_([x >= 0, x <= 1])) for x in s]
    if not all(inside):
        with sx.raises(ValueError):
            m(arg)
        for x, i in zip(s, inside):
            if not i:
                with sx.raises(ValueError):
                    m(x)
        return
    out = m(arg)
    sx.check(numpy.shape(out) == (n,), "one value per saturation")
    for i, x in enumerate(s):
        sx.check(sx.close(out[i], m(x), 1e-12, 1e-15), "values of arrays")


def invalid(sx, name):
    import toughio

    cls = getattr(toughio.capillarity, name)
    p = parameters(sx, name)
    for k in (p[:-1], p + [0.5]):
        m = cls(*p)
        with sx.raises(ValueError):
            m.parameters = k
    bad = sx.real("bad", -10, 10)
    q = list(p)
    if name == "Linear":
        sx.assume(bad <= p[1])
        q[2] = bad
    elif name == "Pickens":
        which = sx.choice("which", [1, 2, 3])
        q[which] = bad
        if which == 1:
            sx.assume(sx.any_([bad <= 0, bad >= 1]))
        elif which == 2:
            sx.assume(bad < 1)
        else:
            q[3] = 0.0
    elif name == "TRUST":
        which = sx.choice("which", [1, 2])
        sx.assume(bad < 0)
        q[which] = bad if which == 1 else 0.0
    elif name == "Milly":
        sx.assume(bad < 0)
        q[0] = bad
    else:
        sx.assume(bad < 0)
        q[3] = bad
    with sx.raises(ValueError):
        cls(*q)


def jobs(tier):
    out = []
    deep = tier != "quick"
    for name in MODELS:
        for key, fn in (("curve", curve), ("ends", ends), ("monotone", monotone), ("invalid", invalid)):
            if name == "Pickens" and fn is monotone:
                continue
            out.append(Job("%s-%s" % (key, name), fn, dict(name=name), budget=200 if not deep else 600, timeout_ms=20000))
        for how, n in (("list", 1), ("array", 2), ("tuple", 2)):
            if how != "tuple" or deep or name == "Linear":
                out.append(Job("arrays-%s-%s" % (name, how), arrays, dict(name=name, n=n, how=how), budget=200))
    return out
