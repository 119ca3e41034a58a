"""C07: writing leaves the parameters alone and is repeatable."""
from sx.runner import Job

from .tough import Maker, cells, raw

BOUNDS = (
    "every section alone and all together, numbers in [1e-9, 1e9], lists and arrays; sequences of two to four writes of the same and of "
    "differing parameters, TOUGH and JSON, every block choice"
)
OUTSIDE = "longer sequences; concurrent writers"
ASSUMPTIONS = []

SECTIONS = ["rocks", "order", "default", "flac", "multi", "solver", "options", "mop", "momop", "selections", "indom", "times", "history",
            "generators", "tables", "diffusion", "output", "outvar", "elements", "connections", "incon", "title"]


def section(sx, mk, name, tag, arrays):
    import numpy

    def seq(v):
        if not arrays:
            return list(v)
        return numpy.array(v) if not sx.symbolic else numpy.array(v, dtype=object)

    n = lambda k, w=10, p=4: mk(tag + "_" + k, w, p).x
    rock = {"density": n("rho"), "porosity": n("phi"), "permeability": seq([n("k1"), n("k2"), n("k3")])} if name in (
        "rocks", "order", "default", "flac", "indom") else None
    a, b = "AAA10", "AAA11"
    if name == "rocks":
        return {"rocks": {"ROCK1": dict(rock, relative_permeability={"id": 3, "parameters": seq([n("rp")])}), "ROCK2": {"density": n("rho2")}}}
    if name == "order":
        return {"rocks": {"ROCK1": rock, "ROCK2": {"density": n("rho2")}, "ROCK3": {}}, "rocks_order": ["ROCK2"], "flac": {"creep": True}}
    if name == "default":
        return {"rocks": {"ROCK1": rock, "ROCK2": {}},
                "default": {"density": n("drho"), "conductivity": n("dc"), "initial_condition": seq([n("ic"), n("ic2"), n("ic3"), n("ic4"), n("ic5")]),
                            "relative_permeability": {"id": 1, "parameters": seq([n("drp")])}, "capillarity": {"id": 2, "parameters": []}}}
    if name == "flac":
        return {"rocks": {"ROCK1": dict(rock, permeability_model={"id": 2, "parameters": seq([n("pm")])}), "ROCK2": {}},
                "flac": {"creep": False, "version": 7}, "default": {"equivalent_pore_pressure": {"id": 3, "parameters": seq([n("ep")])}}}
    if name == "multi":
        return {"eos": "eco2n", "n_component": 3, "isothermal": True, "diffusion": [[n("d1"), n("d2")]]}
    if name == "solver":
        return {"solver": {"method": 5, "eps": n("eps")}}
    if name == "options":
        return {"options": {"t_max": n("tmax"), "t_steps": seq([n("dt%d" % i) for i in range(9)]), "n_cycle": 12}}
    if name == "mop":
        return {"extra_options": {1: 1, 16: sx.int(tag + "_mop", 0, 9)}}
    if name == "momop":
        return {"more_options": {1: 1, 36: sx.int(tag + "_momop", 0, 9)}}
    if name == "selections":
        return {"selections": {"integers": {2: sx.int(tag + "_ie", 0, 9), 16: 3}, "floats": [seq([n("fe1"), n("fe2")]), seq([n("fe3")])]}}
    if name == "indom":
        return {"rocks": {"ROCK1": dict(rock, initial_condition=seq([n("i%d" % i) for i in range(6)])), "ROCK2": {}}, "rocks_order": ["ROCK2"]}
    if name == "times":
        return {"times": seq([n("t%d" % i) for i in range(9)])}
    if name == "history":
        return {"element_history": [a, b], "connection_history": [a + b], "generator_history": ["INJ 1"]}
    if name == "generators":
        return {"generators": {a: {"type": ["MASS", "HEAT"], "rates": seq([n("q1"), n("q2")]), "name": ["A", "B"]}, b: {"type": "MASS", "rates": n("q3")}}}
    if name == "tables":
        return {"generators": {a: {"type": "MASS", "times": seq([n("t1"), n("t2")]), "rates": seq([n("q1"), n("q2")]), "specific_enthalpy": seq([n("h1"), n("h2")])}}}
    if name == "diffusion":
        return {"diffusion": [seq([n("d1"), n("d2")]), seq([n("d3"), n("d4")])], "n_component": 2, "n_phase": 2}
    if name == "output":
        return {"output": {"format": "csv", "variables": {"pressure": None, "saturation": [[1, 2], [2, 3]], "flow": [1, 2], "x": 3}}}
    if name == "outvar":
        return {"output": {"variables": {"x": 3}}}
    if name == "elements":
        return {"elements": {a: {"material": "ROCK1", "volume": n("v"), "center": seq([n("x"), n("y"), n("z")])}, b: {"center": seq([n("x2"), n("y2"), n("z2")])}},
                "elements_order": [b, a], "coordinates": True}
    if name == "connections":
        return {"connections": {a + b: {"nodal_distances": seq([n("d1"), n("d2")]), "nadd": [1, 2], "interface_area": n("area")}}, "connections_order": [a + b]}
    if name == "incon":
        return {"initial_conditions": {a: {"values": seq([n("v%d" % i) for i in range(5)]), "userx": seq([n("u")]), "porosity": n("phi")}, b: {"values": seq([n("w")])}},
                "initial_conditions_order": [b, a]}
    return {"title": ["one", "two"]}


def everything(sx):
    """Parameters with every option given, each with a value of its own."""
    v = iter(x + 0.5 for x in range(1, 1000))
    model = lambda i: {"id": i, "parameters": [next(v) for _ in range(7)]}
    names = ["density", "porosity", "conductivity", "specific_heat", "compressibility", "expansivity", "conductivity_dry", "tortuosity",
             "klinkenberg_parameter", "distribution_coefficient_3", "distribution_coefficient_4"]
    rock = lambda: dict({k: next(v) for k in names}, permeability=[next(v) for _ in range(3)], initial_condition=[next(v) for _ in range(6)],
                        relative_permeability=model(4), capillarity=model(5), permeability_model=model(2), equivalent_pore_pressure=model(1))
    a, b = "AAA10", "AAA11"
    gen = lambda: {"name": "GEN 1", "nseq": 2, "nadd": 3, "nads": 4, "type": "MASS", "layer_thickness": 5, "times": [next(v), next(v)],
                   "rates": [next(v), next(v)], "specific_enthalpy": [next(v), next(v)]}
    ele = lambda: {"nseq": 6, "nadd": 7, "material": "ROCK1", "volume": next(v), "heat_exchange_area": next(v), "permeability_modifier": next(v),
                   "center": [next(v) for _ in range(3)]}
    con = lambda: {"nseq": 8, "nadd": [9, 1], "permeability_direction": 2, "nodal_distances": [next(v), next(v)], "interface_area": next(v),
                   "gravity_cosine_angle": next(v), "radiant_emittance_factor": next(v)}
    inc = lambda: {"porosity": next(v), "userx": [next(v) for _ in range(5)], "values": [next(v) for _ in range(8)]}
    return {
        "title": ["one", "two", "three"], "eos": "eco2n_v2", "n_component": 3, "n_phase": 3, "n_component_mass": 6, "isothermal": True, "start": True, "nover": True,
        "flac": {"creep": True, "porosity_model": 2, "version": 7}, "rocks": {"ROCK1": rock(), "ROCK2": rock()}, "rocks_order": ["ROCK2", "ROCK1"],
        "default": rock(),
        "options": dict({k: 3 for k in ("n_iteration", "n_cycle", "n_second", "n_cycle_print", "verbosity")},
                        **{k: next(v) for k in ("temperature_dependence_gas", "effective_strength_vapor", "t_ini", "t_max", "t_step_max", "t_reduce_factor",
                                                "gravity", "mesh_scale_factor", "eps1", "eps2", "w_upstream", "w_newton", "derivative_factor")},
                        t_steps=[next(v) for _ in range(9)]),
        "extra_options": {k: k % 9 + 1 for k in range(1, 25)}, "more_options": {k: k % 9 + 1 for k in range(1, 41)},
        "selections": {"integers": {k: k % 9 + 1 for k in range(1, 17)}, "floats": [[next(v) for _ in range(8)]] * 2},
        "solver": {"method": 5, "z_precond": "Z3", "o_precond": "O2", "rel_iter_max": next(v), "eps": next(v)},
        "generators": {a: gen(), b: gen()}, "diffusion": [[next(v) for _ in range(3)]] * 3, "times": [next(v) for _ in range(10)],
        "element_history": [a, b], "connection_history": [a + b], "generator_history": ["INJ 1"],
        "output": {"format": "csv", "variables": {"pressure": None, "saturation": [[1, 2], [2, 3]], "flow": [1, 2]}},
        "elements": {a: ele(), b: ele()}, "elements_order": [b, a], "coordinates": True, "connections": {a + b: con()}, "connections_order": [a + b],
        "initial_conditions": {a: inc(), b: inc()}, "initial_conditions_order": [b, a],
    }


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = merge(out[k], v)
        else:
            out[k] = v
    return out


def put(sx, p, name, fmt, block):
    import toughio

    path = sx.path(name)
    if fmt == "json":
        toughio.write_input(path, p, file_format="json")
    else:
        toughio.write_input(path, p, file_format="tough", block=block)
    return sx.read_file(path)


def params(sx, names, tag, arrays):
    mk = Maker(sx)
    p = {} if "title" in names else {"title": "t"}
    for s in names:
        p = merge(p, section(sx, mk, s, tag + s[:4], arrays))
    return p


def history(sx, a, b, fmt, block, arrays):
    """write A, B, A again; nothing changes and the files of A are the same."""
    A = params(sx, a, "A", arrays)
    B = everything(sx) if b == "everything" else params(sx, b, "B", arrays)
    fa, fb = sx.freeze(A), sx.freeze(B)
    one = put(sx, A, "one", fmt, block)
    sx.frozen_same(A, fa, "parameters unchanged")
    two = put(sx, A, "two", fmt, block)
    sx.check(sx.text_same(one, two), "same file again")
    put(sx, B, "three", fmt, block)
    sx.frozen_same(B, fb, "other parameters unchanged")
    sx.frozen_same(A, fa, "parameters unchanged by another write")
    four = put(sx, A, "four", fmt, block)
    sx.check(sx.text_same(one, four), "same file after another write")
    sx.frozen_same(A, fa, "parameters unchanged after all")


def inherit(sx, arrays):
    """Defaults apply to the materials that do not set them, and only in the file."""
    import toughio

    keys = ["density", "porosity", "conductivity", "specific_heat", "compressibility", "tortuosity"]
    mk = Maker(sx)
    names_ = ["ROCK1", "ROCK2", "ROCK3"]
    k = sx.choice("key", keys)
    m = sx.choice("who", list(range(8)))
    d = {k: mk("d", 10, 4).x}
    rocks = {nm: ({k: mk("o%d" % i, 10, 4).x} if m >> i & 1 else {}) for i, nm in enumerate(names_)}
    p = {"title": "t", "rocks": rocks, "default": d}
    f = sx.freeze(p)
    path = sx.path("one")
    toughio.write_input(path, p)
    got = toughio.read_input(path)
    sx.frozen_same(p, f, "parameters unchanged")
    for i, nm in enumerate(names_):
        want = rocks[nm].get(k, d[k])
        g = got["rocks"][nm].get(k)
        sx.check(g is not None and sx.close(g, want, 0.5e-4), "default applies")
    # without the default nothing is left of it
    p2 = {"title": "t", "rocks": {nm: {} for nm in names_}}
    toughio.write_input(path, p2)
    got = toughio.read_input(path)
    for nm in names_:
        sx.check(got["rocks"][nm].get(k) is None, "no default left")


def jobs(tier):
    out = []
    allnames = [s for s in SECTIONS if s not in ("tables", "order", "multi", "outvar")]
    for s in SECTIONS:
        for arrays in (False, True):
            out.append(Job("alone_%s_%d" % (s, arrays), history, dict(a=[s], b=["title"] if s != "title" else ["times"], fmt="tough", block="all", arrays=arrays)))
        out.append(Job("before_all_%s" % s, history, dict(a=[s], b=allnames, fmt="tough", block="all", arrays=False)))
        out.append(Job("everything_%s" % s, history, dict(a=[s], b="everything", fmt="tough", block="all", arrays=False)))
        out.append(Job("json_%s" % s, history, dict(a=[s], b=["default", "incon"], fmt="json", block="all", arrays=True)))
    out.append(Job("all", history, dict(a=allnames, b=["rocks"], fmt="tough", block="all", arrays=True), budget=100))
    for b in ("gener", "mesh", "incon"):
        out.append(Job("all_" + b, history, dict(a=allnames, b=["rocks"], fmt="tough", block=b, arrays=True), budget=100))
    out.append(Job("all_json", history, dict(a=allnames, b=["rocks"], fmt="json", block="all", arrays=True), budget=100))
    out.append(Job("inherit", inherit, dict(arrays=False), budget=100))
    if tier == "thorough":
        for s in SECTIONS:
            for s2 in SECTIONS:
                if s2 != s:
                    out.append(Job("pair_%s_%s" % (s, s2), history, dict(a=[s], b=[s2], fmt="tough", block="all", arrays=False)))
    return out
