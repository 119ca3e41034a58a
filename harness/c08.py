"""C08: JSON input files keep every parameter."""
from sx.runner import Job

BOUNDS = "all finite doubles, integers up to 1e12, option keys 1 to 40 in pairs, arrays up to 3 x 2, one section alone and all together, nesting up to 4"
OUTSIDE = "not-a-number and infinite values; the decimal text of a number (json is trusted to print doubles exactly)"
ASSUMPTIONS = ["json.dump and json.load keep every double, integer, text, list and dictionary keyed by text"]


def numbers(sx, n, tag):
    return [sx.real("%s%d" % (tag, i), -1e300, 1e300) for i in range(n)]


def arr(sx, v):
    import numpy

    return numpy.array(v, dtype=object if sx.symbolic else float)


def want_(x):
    """What JSON can hold: arrays and tuples become lists."""
    import numpy

    if isinstance(x, numpy.ndarray):
        return [want_(v) for v in x.tolist()] if x.ndim else x.tolist()
    if isinstance(x, (list, tuple)):
        return [want_(v) for v in x]
    if isinstance(x, dict):
        return {k: want_(v) for k, v in x.items()}
    if isinstance(x, numpy.generic):
        return x.item()
    return x


def equal(sx, got, want, label):
    if isinstance(want, dict):
        sx.check(isinstance(got, dict) and len(got) == len(want), label + ": dictionary of the same size")
        for k, v in want.items():
            hit = [g for g in got if type(g) is type(k) and g == k]
            sx.check(len(hit) == 1, "%s: key of the same kind" % label)
            equal(sx, got[hit[0]], v, "%s[%s]" % (label, k))
    elif isinstance(want, list):
        sx.check(type(got) is list and len(got) == len(want), label + ": list of the same length")
        for i, (g, w) in enumerate(zip(got, want)):
            equal(sx, g, w, "%s[%d]" % (label, i))
    elif want is None or isinstance(want, (bool, str)):
        sx.check(type(got) is type(want) and got == want, label)
    else:
        sx.check(not isinstance(got, (bool, str, list, dict, type(None))), label + ": number")
        sx.check(got == want, label)


def section(sx, name, kind):
    """One section with symbolic values; kind: list, tuple or array."""
    seq = {"list": list, "tuple": tuple, "array": lambda v: arr(sx, v)}[kind]
    n = lambda k, tag: numbers(sx, k, name[:6] + tag)
    one = lambda tag: n(1, tag)[0]
    if name == "rocks":
        return {"rocks": {"ROCK1": {"density": one("a"), "permeability": seq(n(3, "k")), "initial_condition": seq(n(4, "i")),
                                    "relative_permeability": {"id": 3, "parameters": seq(n(2, "r"))}, "capillarity": {"id": 1, "parameters": []}},
                          "10": {"density": None, "porosity": one("b")}, "2": {}}, "rocks_order": ["2", "10"]}
    if name == "default":
        return {"default": {"density": one("a"), "initial_condition": seq(n(5, "i")), "relative_permeability": {"id": None, "parameters": seq(n(1, "r"))}}}
    if name == "options":
        return {"options": {"t_max": one("a"), "t_steps": seq(n(9, "s")), "n_cycle": sx.int(name + "n", -10 ** 12, 10 ** 12), "eps1": None}}
    if name == "extra_options":
        a, b = sx.choice("ea", [1, 2, 9, 10, 11, 24]), sx.choice("eb", [3, 20, 100])
        return {"extra_options": {b: sx.int("ev", -99, 99), a: None}}
    if name == "more_options":
        a, b = sx.choice("ma", list(range(1, 41))), sx.choice("mb", [0, 41])
        return {"more_options": {b: sx.int("mv", -99, 99), a: 2}}
    if name == "selections":
        a = sx.choice("sa", list(range(1, 17)))
        return {"selections": {"integers": {a: sx.int("sv", -99, 99), 17: None}, "floats": [seq(n(2, "f")), seq(n(1, "g"))] if sx.choice("nested", [0, 1]) else seq(n(3, "h"))}}
    if name == "selections_floats":
        return {"selections": {"floats": seq(n(2, "f"))}}
    if name == "empty_options":
        return {"extra_options": {}, "more_options": {}, "selections": {"integers": {}, "floats": None}}
    if name == "generators":
        return {"generators": {"AAA10": {"type": ["MASS", "HEAT"], "times": [seq(n(3, "t")), None], "rates": [seq(n(3, "q")), one("c")],
                                         "specific_enthalpy": [seq(n(3, "h")), None], "name": ["A", None]},
                               "    1": {"type": "MASS", "rates": one("d")}}}
    if name == "diffusion":
        return {"diffusion": arr(sx, [n(2, "a"), n(2, "b")]) if kind == "array" else [seq(n(2, "a")), seq(n(2, "b"))]}
    if name == "output":
        return {"output": {"format": "csv", "variables": {"saturation": seq([sx.int("o1", 1, 99), sx.int("o2", 1, 99)]), "flow": None, "x": [[1, 2], [2, 3]]}}}
    if name == "elements":
        return {"elements": {"AAA10": {"material": sx.int("mat", 0, 99), "center": seq(n(3, "c")), "volume": one("v"), "nseq": None},
                             "12345": {"material": "ROCK1"}}, "elements_order": seq(["12345", "AAA10"]) if kind != "array" else ["12345", "AAA10"], "coordinates": sx.choice("coord", [True, False])}
    if name == "connections":
        return {"connections": {"AAA1012345": {"nodal_distances": seq(n(2, "d")), "nadd": (1, 2)}}, "connections_order": None}
    if name == "initial_conditions":
        return {"initial_conditions": {"AAA10": {"values": seq(n(4, "v")), "userx": seq(n(5, "u")), "porosity": one("p")}, "1": {"values": [None, 0.0, None, None]}}}
    if name == "history":
        return {"element_history": ("AAA10", "12"), "connection_history": [], "generator_history": None, "times": seq(n(3, "t"))}
    return {"title": sx.choice("title", ["", "text", ["two", "lines"], "Pentti Kähkönen \\ \"x\""]), "isothermal": True, "start": False, "n_component": sx.int("nc", -10 ** 12, 10 ** 12)}


SECTIONS = ["rocks", "default", "options", "extra_options", "more_options", "selections", "selections_floats", "empty_options", "generators", "diffusion", "output", "elements",
            "connections", "initial_conditions", "history", "title"]


def trip(sx, p, how):
    import toughio

    path = sx.path("input.json" if how == "name" else "INFILE")
    kw = {} if how == "name" else {"file_format": "json"}
    f = sx.freeze(p)
    toughio.write_input(path, p, **kw)
    sx.frozen_same(p, f, "parameters unchanged")
    got = toughio.read_input(path, **kw)
    equal(sx, got, want_(p), "parameters")
    # a second trip changes nothing
    toughio.write_input(path, got, **kw)
    equal(sx, toughio.read_input(path, **kw), want_(p), "second trip")


def alone(sx, name, kind):
    trip(sx, section(sx, name, kind), sx.choice("how", ["name", "format"]))


def scalars(sx):
    """numpy scalars become plain numbers."""
    import numpy

    kinds = ["int8", "int16", "int32", "int64", "uint8", "uint32", "uint64", "float16", "float32", "float64", "bool_"]
    k = sx.choice("kind", kinds)
    v = getattr(numpy, k)(sx.choice("value", [0, 1, 100]))
    where = sx.choice("where", ["top", "nested", "list", "array", "tuple"])
    if where == "array":
        v = numpy.array([v, v])
    val = {"top": v, "nested": {"a": v}, "list": [v, [v]], "array": [v], "tuple": (v,)}[where]
    p = {"n_component": v} if where == "top" else {"options": {"t_steps": val}}
    trip(sx, p, "name")


def jobs(tier):
    out = []
    for s in SECTIONS:
        for k in ("list", "tuple", "array"):
            out.append(Job("%s_%s" % (s, k), alone, dict(name=s, kind=k)))
    for k in ("list", "array"):
        out.append(Job("all_" + k, small, dict(kind=k)))
    out.append(Job("scalars", scalars, {}))
    return out


def small(sx, kind):
    """All sections together, option keys fixed."""
    p = {}
    for s in SECTIONS:
        if s not in ("selections_floats", "empty_options", "extra_options", "more_options", "selections"):
            p.update(section(sx, s, kind))
    p["extra_options"] = {3: sx.int("ev", -99, 99), 21: 1}
    p["more_options"] = {40: sx.int("mv", -99, 99), 1: None}
    p["selections"] = {"integers": {16: sx.int("sv", -99, 99), 2: 3}, "floats": numbers(sx, 3, "sf")}
    trip(sx, p, "name")
