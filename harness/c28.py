"""C28: relative permeability models."""
import numpy

from sx.runner import Job

BOUNDS = "all saturations in [0, 1] and all parameters in the admissible ranges of every model, one and two saturations at a time"
OUTSIDE = "parameters outside the ranges of the models that are not rejected; rounding"
ASSUMPTIONS = ["powers with a real exponent are taken by their order properties (growth, limits at 0 and 1, inverses)"]

MODELS = {"Linear": 1, "Pickens": 2, "Corey": 3, "Grant": 4, "FattKlikoff": 6, "vanGenuchtenMualem": 7, "Verma": 8}
NAMES = {"Linear": "Linear", "Pickens": "Pickens", "Corey": "Corey", "Grant": "Grant", "FattKlikoff": "Fatt-Klikoff",
         "vanGenuchtenMualem": "van Genuchten-Mualem", "Verma": "Verma"}


def parameters(sx, name):
    r = sx.real
    if name == "Linear":
        p = [r("slmin", -1, 1), r("sgmin", -1, 1), r("slmax", -1, 2), r("sgmax", -1, 2)]
        sx.assume(p[0] < p[2])
        sx.assume(p[1] < p[3])
    elif name == "Pickens":
        p = [r("x", 0.01, 10)]
    elif name in ("Corey", "Grant"):
        p = [r("slr", 0, 1), r("sgr", 0, 1)]
        sx.assume(p[0] + p[1] < 1)
    elif name == "FattKlikoff":
        p = [r("slr", 0, 0.999)]
    elif name == "vanGenuchtenMualem":
        p = [r("m", 0.01, 0.99), r("slr", 0, 1), r("sls", 0, 1), r("sgr", -0.5, 1)]
        sx.assume(p[1] < p[2])
        sx.assume(p[1] + p[3] < 1)
    else:
        p = [r("slr", 0, 1), r("sls", 0, 1), r("a", -3, 3), r("b", -3, 3), r("c", -3, 3)]
        sx.assume(p[0] < p[1])
    return p


def clip(sx, x):
    return 0 if sx.decide(x <= 0) else 1 if sx.decide(x >= 1) else x


def formula(sx, name, p, s):
    """Published curves (TOUGH2 user's guide, appendix G)."""
    if name == "Linear":
        return clip(sx, (s - p[0]) / (p[2] - p[0])), clip(sx, (1 - s - p[1]) / (p[3] - p[1]))
    if name == "Pickens":
        return s ** p[0], 1
    if name in ("Corey", "Grant"):
        e = clip(sx, (s - p[0]) / (1 - p[0] - p[1]))
        kl = e * e * e * e
        return kl, (1 - e) * (1 - e) * (1 - e * e) if name == "Corey" else 1 - kl
    if name == "FattKlikoff":
        e = clip(sx, (s - p[0]) / (1 - p[0]))
        return e * e * e, (1 - e) * (1 - e) * (1 - e)
    if name == "vanGenuchtenMualem":
        m, slr, sls, sgr = p
        if sx.decide(s >= sls):
            return 1, 0
        e = (s - slr) / (sls - slr)
        kl = 0
        if sx.decide(e > 0):
            t = 1 - (1 - e ** (1 / m)) ** m
            kl = e ** 0.5 * t * t
        if sx.decide(sgr <= 0):
            return kl, 1 - kl
        h = clip(sx, (s - slr) / (1 - slr - sgr))
        return kl, (1 - h) * (1 - h) * (1 - h * h)
    e = clip(sx, (s - p[0]) / (p[1] - p[0]))
    return e * e * e, clip(sx, p[2] + p[3] * e + p[4] * e * e)


def model_of(sx, name, p):
    import toughio

    return getattr(toughio.relative_permeability, name)(*p)


def curve(sx, name):
    """Formula, bounds and end values at any saturation."""
    p = parameters(sx, name)
    s = sx.real("s", 0, 1)
    m = model_of(sx, name, p)
    sx.check(m.id == MODELS[name] and m.name == NAMES[name], "number and name of the model")
    sx.check(len(m.parameters) == len(p) and sx.all_([sx.eq(a, b) for a, b in zip(m.parameters, p)]), "parameters")
    kl, kg = m(s)
    wl, wg = formula(sx, name, p, s)
    sx.check(sx.close(kl, wl, 1e-9, 1e-12), "liquid follows the formula")
    sx.check(sx.close(kg, wg, 1e-9, 1e-12), "gas follows the formula")
    tol = 0 if sx.symbolic else 1e-12
    for k in (kl, kg):
        sx.check(sx.all_([k >= -tol, k <= 1 + tol]), "between 0 and 1")


def ends(sx, name):
    p = parameters(sx, name)
    m = model_of(sx, name, p)
    kl, kg = m(1.0)
    if name in ("Pickens", "Corey", "Grant", "FattKlikoff", "vanGenuchtenMualem", "Verma"):
        sx.check(sx.close(kl, 1, 0, 1e-12), "liquid is fully mobile at full saturation")
    if name in ("Corey", "Grant", "FattKlikoff", "vanGenuchtenMualem"):
        sx.check(sx.close(kg, 0, 0, 1e-12), "gas is immobile at full saturation")
    kl, kg = m(0.0)
    if name in ("Pickens", "Corey", "Grant", "FattKlikoff", "vanGenuchtenMualem", "Verma"):
        sx.check(sx.close(kl, 0, 0, 1e-12), "liquid is immobile at zero saturation")
    if name in ("Pickens", "Corey", "Grant", "FattKlikoff", "vanGenuchtenMualem"):
        sx.check(sx.close(kg, 1, 0, 1e-12), "gas is fully mobile at zero saturation")
    if name in ("Corey", "Grant", "FattKlikoff"):
        kl, kg = m(p[0])
        sx.check(sx.close(kl, 0, 0, 1e-12), "liquid is immobile at residual saturation")
        sx.check(sx.close(kg, 1, 0, 1e-12), "gas is fully mobile at residual saturation")
    if name in ("vanGenuchtenMualem", "Verma"):
        o = 1 if name == "vanGenuchtenMualem" else 0
        kl, _ = m(p[o])
        sx.check(sx.close(kl, 0, 0, 1e-12), "liquid is immobile at residual saturation")
        kl, kg = m(p[o + 1])
        sx.check(sx.close(kl, 1, 0, 1e-12), "liquid is fully mobile at its maximum saturation")
        if o:
            sx.check(sx.close(kg, 0, 0, 1e-12), "gas is immobile at the maximum liquid saturation")
    if name == "Linear":
        for x, w in ((p[0], 0), (p[2], 1)):
            if sx.decide(sx.all_([x >= 0, x <= 1])):
                sx.check(sx.close(m(x)[0], w, 0, 1e-12), "liquid at its thresholds")
            else:
                with sx.raises(ValueError):
                    m(x)


def monotone(sx, name):
    p = parameters(sx, name)
    if name == "Verma":
        p = p[:2] + [1.259, -1.7615, 0.5089]
    a, b = sx.real("s", 0, 1), sx.real("t", 0, 1)
    sx.assume(a <= b)
    m = model_of(sx, name, p)
    (la, ga), (lb, gb) = m(a), m(b)
    tol = 0 if sx.symbolic else 1e-12
    sx.check(la <= lb + tol, "liquid never decreases")
    sx.check(gb <= ga + tol, "gas never increases")


def arrays(sx, name, n, how):
    """Arrays give the values of scalars; saturations outside [0, 1] are rejected."""
    p = parameters(sx, name)
    s = [sx.real("s%d" % i, -0.5, 1.5) for i in range(n)]
    m = model_of(sx, name, p)
    arg = list(s) if how == "list" else tuple(s) if how == "tuple" else numpy.array(s)
    inside = [sx.decide(sx.all_([x >= 0, x <= 1])) for x in s]
    if not all(inside):
        with sx.raises(ValueError):
            m(arg)
        for x, i in zip(s, inside):
            if not i:
                with sx.raises(ValueError):
                    m(x)
        return
    out = m(arg)
    sx.check(numpy.shape(out) == (2, n), "one value per saturation and phase")
    for i, x in enumerate(s):
        kl, kg = m(x)
        sx.check(sx.close(out[0][i], kl, 1e-12, 1e-15), "liquid of arrays")
        sx.check(sx.close(out[1][i], kg, 1e-12, 1e-15), "gas of arrays")


def invalid(sx, name):
    import toughio

    cls = getattr(toughio.relative_permeability, name)
    p = parameters(sx, name)
    for k in (p[:-1], p + [0.5]):
        m = cls(*p)
        with sx.raises(ValueError):
            m.parameters = k
    q = [sx.real("q%d" % i, -1, 2) for i in range(len(p))]
    if name == "Linear":
        sx.assume(sx.any_([q[0] >= q[2], q[1] >= q[3]]))
    elif name in ("Corey", "Grant"):
        sx.assume(q[0] + q[1] >= 1)
    elif name == "FattKlikoff":
        sx.assume(q[0] >= 1)
    else:
        return
    with sx.raises(ValueError):
        cls(*q)


def defaults(sx):
    import toughio

    m = toughio.relative_permeability.Verma()
    sx.check(list(m.parameters) == [0.2, 0.895, 1.259, -1.7615, 0.5089], "default parameters")


def jobs(tier):
    out = []
    deep = tier != "quick"
    for name in MODELS:
        for key, fn in (("curve", curve), ("ends", ends), ("monotone", monotone), ("invalid", invalid)):
            out.append(Job("%s-%s" % (key, name), fn, dict(name=name), budget=200 if not deep else 600, timeout_ms=20000))
        for how, n in (("list", 1), ("array", 2), ("tuple", 2)):
            if how != "tuple" or deep or name == "Corey":
                out.append(Job("arrays-%s-%s" % (name, how), arrays, dict(name=name, n=n, how=how), budget=200))
    out.append(Job("defaults", defaults, {}))
    return out
