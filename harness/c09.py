"""C09: exactly the blocks asked for, in order; invalid parameters are rejected before anything is written."""
import itertools

from sx.runner import Job

from .c07 import merge

BOUNDS = (
    "every single optional section, every pair, all and all but one of them, with every block choice; numbers in [1e-9, 1e9]; start, nover, isothermal and "
    "coordinate flags symbolic; every documented parameter with every kind of wrong type (numbers symbolic)"
)
OUTSIDE = "three or more sections at a time other than all and all but one"
ASSUMPTIONS = []

RULER = "----1----*----2----*----3----*----4----*----5----*----6----*----7----*----8"
ORDER = ["ROCKS", "RPCAP", "FLAC", "MULTI", "SOLVR", "START", "PARAM", "SELEC", "INDOM", "MOMOP", "TIMES", "FOFT", "COFT", "GOFT", "GENER", "DIFFU",
         "OUTPU", "ELEME", "COORD", "CONNE", "INCON", "NOVER", "ENDCY"]
BY_CHOICE = {"all": set(ORDER), "gener": {"GENER"}, "mesh": {"ELEME", "COORD", "CONNE"}, "incon": {"INCON"}}
# section -> blocks it brings
BRINGS = {
    "rpcap": ["RPCAP"], "rpcap_cap": ["RPCAP"], "flac": ["FLAC"], "eos": ["MULTI"], "multi": ["MULTI"], "solver": ["SOLVR"], "selec": ["SELEC"], "indom": ["INDOM"],
    "momop": ["MOMOP"], "times": ["TIMES"], "foft": ["FOFT"], "coft": ["COFT"], "goft": ["GOFT"], "gener": ["GENER"], "diffu": ["DIFFU"],
    "outpu": ["OUTPU"], "eleme": ["ELEME"], "conne": ["CONNE"], "incon": ["INCON"], "mop": [],
}
READS = {
    "flac": "flac", "selec": "selections", "momop": "more_options", "times": "times", "foft": "element_history", "coft": "connection_history",
    "goft": "generator_history", "gener": "generators", "diffu": "diffusion", "outpu": "output", "eleme": "elements", "conne": "connections",
    "incon": "initial_conditions", "solver": "solver", "mop": "extra_options",
}


def section(sx, name):
    n = lambda tag: sx.real(name + tag, 1e-9, 1e9)
    if name == "rpcap":
        return {"default": {"relative_permeability": {"id": 1, "parameters": [n("a")]}}}
    if name == "rpcap_cap":
        return {"default": {"capillarity": {"id": 1, "parameters": [n("a")]}}}
    if name == "flac":
        return {"flac": {"creep": True}}
    if name == "eos":
        return {"eos": "eco2n"}
    if name == "multi":
        return {"n_component": 2, "n_phase": 2}
    if name == "solver":
        return {"solver": {"method": 4, "eps": n("a")}}
    if name == "selec":
        return {"selections": {"integers": {2: 3}, "floats": [n("a")]}}
    if name == "indom":
        return {"rocks": {"ROCK1": {"initial_condition": [n("a"), n("b")]}}}
    if name == "momop":
        return {"more_options": {1: sx.int("momop", 0, 9)}}
    if name == "mop":
        return {"extra_options": {1: sx.int("mop", 1, 9)}}
    if name == "times":
        return {"times": [n("a"), n("b")]}
    if name == "foft":
        return {"element_history": ["AAA10"]}
    if name == "coft":
        return {"connection_history": ["AAA10AAA11"]}
    if name == "goft":
        return {"generator_history": ["AAA10"]}
    if name == "gener":
        return {"generators": {"AAA10": {"type": "MASS", "rates": n("a")}}}
    if name == "diffu":
        return {"n_component": 2, "n_phase": 2, "diffusion": [[n("a"), n("b")], [n("c"), n("d")]]}
    if name == "outpu":
        return {"output": {"format": "csv", "variables": {"pressure": None}}}
    if name == "eleme":
        return {"elements": {"AAA10": {"material": "ROCK1", "volume": n("a"), "center": [n("x"), n("y"), n("z")]}, "AAA11": {"volume": n("b"), "center": [n("x2"), n("y2"), n("z2")]}}}
    if name == "conne":
        return {"connections": {"AAA10AAA11": {"nodal_distances": [n("a"), n("b")], "interface_area": n("c")}}}
    if name == "incon":
        return {"initial_conditions": {"AAA10": {"values": [n("a"), n("b")], "porosity": n("p")}}}


SECTIONS = list(BRINGS)


def headers(sx, text):
    """Keywords of the block headers, the line after the last header's ruler."""
    out = []
    lines = text.split("\n")
    for line in lines:
        line = str(line)
        if line[5:].startswith(RULER) and line[:5].strip().isalpha() and line[:5].strip().isupper():
            out.append(line[:5].strip())
    return out, lines


def build(sx, names, flags):
    p = {"title": "t"}
    want = {"ROCKS", "PARAM", "ENDCY"}
    for s in names:
        p = merge(p, section(sx, s))
        want |= set(BRINGS[s])
    if "diffu" in names:
        want.add("MULTI")
    if flags is not None:
        p["start"], p["nover"], p["coordinates"], p["isothermal"] = flags
    start = p.get("start", True)
    if start:
        want.add("START")
    if p.get("nover"):
        want.add("NOVER")
    if p.get("coordinates") and "elements" in p:
        want.add("COORD")
    if p.get("isothermal"):
        pass
    return p, want


def blocks(sx, group, block, flagged):
    import toughio

    names = sx.choice("sections", group) if len(group) > 1 else group[0]
    flags = None
    if flagged:
        c = sx.choice("coords", [True, False]) if "eleme" in names else False
        flags = (sx.choice("start", [True, False]), sx.choice("nover", [True, False]), c, False)
    p, want = build(sx, names, flags)
    path = sx.path("INFILE")
    toughio.write_input(path, p, block=block)
    got, lines = headers(sx, sx.read_file(path))
    expect = [b for b in ORDER if b in want and b in BY_CHOICE[block]]
    sx.check(got == expect, "blocks written, each once, in order: %s" % block)
    if block == "all":
        last = [str(x)[:5].strip() for x in lines if str(x).strip()][-1]
        sx.check(last == "ENDCY", "closed by the end keyword")
    back = toughio.read_input(path, **({"label_length": 5} if block in ("incon", "gener") else {}))
    have = {k for s, k in READS.items() if k in back and back[k] not in (None, [], {})}
    exp = {READS[s] for s in names if s in READS and (block == "all" or set(BRINGS[s]) & BY_CHOICE[block])}
    sx.check(have == exp, "sections read back: %s" % block)


def unknown_block(sx):
    import toughio

    p, _ = build(sx, SECTIONS, None)
    path = sx.path("INFILE")
    sx.write_file(path, "before\n")
    with sx.raises(ValueError):
        toughio.write_input(path, p, block=sx.choice("block", ["", "ALL", "eleme", "GENER", "meshes", "x"]))
    sx.check(sx.read_file(path) == "before\n", "nothing written")


# documented types of the parameters
I, S, B, D, A, N, NA, SA, SI = "int", "str", "bool", "dict", "list", "number", "number or list", "text or list", "text or int"
TYPES = {
    (): {"title": SA, "eos": S, "n_component": I, "n_phase": I, "n_component_mass": I, "flac": D, "isothermal": B, "start": B, "nover": B, "rocks": D,
         "rocks_order": A, "options": D, "extra_options": D, "more_options": D, "selections": D, "solver": D, "generators": D, "times": NA,
         "element_history": A, "connection_history": A, "generator_history": A, "diffusion": A, "output": D, "elements": D, "elements_order": A,
         "coordinates": B, "connections": D, "connections_order": A, "initial_conditions": D, "initial_conditions_order": A, "default": D},
    ("rocks", "ROCK1"): {k: N for k in ("density", "porosity", "conductivity", "specific_heat", "compressibility", "expansivity", "conductivity_dry", "tortuosity",
                                        "klinkenberg_parameter", "distribution_coefficient_3", "distribution_coefficient_4")},
    ("default",): {k: N for k in ("density", "porosity", "conductivity", "specific_heat", "compressibility", "expansivity", "conductivity_dry", "tortuosity",
                                  "klinkenberg_parameter", "distribution_coefficient_3", "distribution_coefficient_4")},
    ("rocks", "ROCK1", "relative_permeability"): {"id": I, "parameters": A},
    ("rocks", "ROCK1", "capillarity"): {"id": I, "parameters": A},
    ("rocks", "ROCK1", "permeability_model"): {"id": I, "parameters": A},
    ("rocks", "ROCK1", "equivalent_pore_pressure"): {"id": I, "parameters": A},
    ("default", "relative_permeability"): {"id": I, "parameters": A},
    ("default", "capillarity"): {"id": I, "parameters": A},
    ("flac",): {"creep": B, "porosity_model": I, "version": I},
    ("options",): {"n_iteration": I, "n_cycle": I, "n_second": I, "n_cycle_print": I, "verbosity": I, "temperature_dependence_gas": N, "effective_strength_vapor": N,
                   "t_ini": N, "t_max": N, "t_steps": NA, "t_step_max": N, "t_reduce_factor": N, "gravity": N, "mesh_scale_factor": N, "eps1": N, "eps2": N,
                   "w_upstream": N, "w_newton": N, "derivative_factor": N},
    ("extra_options",): {i: I for i in range(1, 25)},
    ("more_options",): {i: I for i in range(1, 41)},
    ("selections",): {"integers": D, "floats": A},
    ("solver",): {"method": I, "z_precond": S, "o_precond": S, "rel_iter_max": N, "eps": N},
    ("generators", "AAA10"): {"name": SA, "nseq": NA, "nadd": NA, "nads": NA, "type": SA, "times": NA, "rates": NA, "specific_enthalpy": NA, "layer_thickness": NA},
    ("output",): {"format": S, "variables": D},
    ("elements", "AAA10"): {"nseq": I, "nadd": I, "material": SI, "volume": N, "heat_exchange_area": N, "permeability_modifier": N, "center": A},
    ("connections", "AAA10AAA11"): {"nseq": I, "nadd": A, "permeability_direction": I, "nodal_distances": A, "interface_area": N, "gravity_cosine_angle": N,
                                    "radiant_emittance_factor": N},
    ("initial_conditions", "AAA10"): {"porosity": N, "userx": A, "values": A},
}
WRONG = {
    I: ["float", "text", "list", "dict"], S: ["int", "float", "list", "dict"], B: ["int", "text", "list"], D: ["list", "text", "float"],
    A: ["float", "text", "dict"], N: ["text", "list", "dict"], NA: ["text", "dict"], SA: ["float", "dict", "int"], SI: ["float", "list", "dict"],
}


def bad_value(sx, kind):
    return {"float": sx.real("bad", 1e-9, 1e9), "int": sx.int("badi", 2, 99), "text": "text", "list": [1, 2], "dict": {"id": 1}}[kind]


def put(p, where, key, value):
    d = p
    for k in where:
        d = d.setdefault(k, {})
    d[key] = value


SIBLING = {"rocks": ("ROCK0", {}), "elements": ("AAA09", {"volume": 1.0, "center": [0.0, 0.0, 0.0]}), "connections": ("AAA09AAA10", {"nodal_distances": [1.0, 1.0], "interface_area": 1.0}),
           "generators": ("AAA09", {"type": "COM1"}), "initial_conditions": ("AAA09", {"values": [1.0]})}


def with_sibling(p, where):
    """Another entry ahead of the one of interest, and one after it."""
    k, v = SIBLING[where[0]]
    old = p.get(where[0], {})
    p[where[0]] = {k: dict(v), **{k: dict(x) for k, x in old.items()}}


def rejected(sx, where, other, sibling=False):
    """One parameter of a wrong type among valid data."""
    import toughio

    names = SECTIONS if other else []
    types = TYPES[where]
    key = sx.choice("key", list(types))
    kind = sx.choice("kind", WRONG[types[key]])
    p, _ = build(sx, names, None)
    if where[:1] == ("rocks",) and where[2:] and where[2] in ("permeability_model", "equivalent_pore_pressure"):
        p.setdefault("flac", {"creep": False})
    if where[-1:] and where[-1] in ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure"):
        put(p, where, "id", 1)
        put(p, where, "parameters", [1.0])
    if sibling:
        with_sibling(p, where)
    put(p, where, key, bad_value(sx, kind))
    path = sx.path("INFILE")
    sx.write_file(path, "before\n")
    with sx.raises(Exception):
        toughio.write_input(path, p)
    sx.check(sx.read_file(path) == "before\n", "nothing written")


def accepted(sx, where, sibling=False):
    """Documented types are accepted: numpy numbers, arrays and tuples included."""
    import numpy
    import toughio

    good = {
        I: [3, numpy.int32(3), numpy.int64(3)], S: ["x"], B: [True, False], A: [[1.0, 2.0], (1.0, 2.0), numpy.array([1.0, 2.0])],
        N: [2, 2.5, numpy.int32(2), numpy.float32(2.5), numpy.float64(2.5), None], NA: [[1.0, 2.0], (1.0, 2.0), numpy.array([1.0, 2.0])],
    }
    types = {k: t for k, t in TYPES[where].items() if t in (I, N)}
    key = sx.choice("key", list(types))
    v = sx.choice("value", good[types[key]])
    p, _ = build(sx, [s for s in SECTIONS if s not in ("rpcap", "rpcap_cap")], None)
    if sibling:
        with_sibling(p, where)
    put(p, where, key, v)
    path = sx.path("INFILE")
    toughio.write_input(path, p)
    got, _ = headers(sx, sx.read_file(path))
    sx.check(got[-1] == "ENDCY", "written")


def eos(sx):
    import toughio

    path = sx.path("INFILE")
    sx.write_file(path, "before\n")
    p, _ = build(sx, SECTIONS, None)
    p["eos"] = sx.choice("eos", ["eos", "EOS1", "eos6", "eco2n_v3", "x"])
    with sx.raises(ValueError):
        toughio.write_input(path, p)
    sx.check(sx.read_file(path) == "before\n", "nothing written")


def jobs(tier):
    out = []
    pairs = [list(c) for c in itertools.combinations(SECTIONS, 2)]
    few = [[]] + [[s] for s in SECTIONS] + [SECTIONS] + [[s for s in SECTIONS if s != o] for o in SECTIONS]
    for b in ("all", "gener", "mesh", "incon"):
        out.append(Job("few_" + b, blocks, dict(group=few, block=b, flagged=False), budget=200))
        for i in range(4):
            out.append(Job("pairs_%s_%d" % (b, i), blocks, dict(group=pairs[i::4], block=b, flagged=False), budget=200))
    for s in ("eleme", "gener", "incon", "indom"):
        out.append(Job("flags_" + s, blocks, dict(group=[[s], [s, "conne"], [x for x in SECTIONS]], block="all", flagged=True)))
    out.append(Job("flags_mesh", blocks, dict(group=[["eleme"], ["eleme", "conne"], ["eleme", "incon", "gener"]], block="mesh", flagged=True)))
    out.append(Job("unknown_block", unknown_block, {}))
    out.append(Job("eos", eos, {}))
    for w in TYPES:
        nm = "_".join(w) or "top"
        out.append(Job("rejected_" + nm, rejected, dict(where=w, other=False)))
        out.append(Job("rejected_among_" + nm, rejected, dict(where=w, other=True), budget=200))
        if w and w[0] in SIBLING:
            out.append(Job("rejected_second_" + nm, rejected, dict(where=w, other=False, sibling=True)))
            if len(w) == 2 and w[0] != "generators":
                out.append(Job("accepted_second_" + nm, accepted, dict(where=w, sibling=True)))
        if w and any(t in (I, N) for t in TYPES[w].values()) and "relative_permeability" not in w and "capillarity" not in w and w[-1] not in (
                "permeability_model", "equivalent_pore_pressure"):
            out.append(Job("accepted_" + nm, accepted, dict(where=w)))
    if tier == "thorough":
        trip = [list(c) for c in itertools.combinations(SECTIONS, 3)]
        for b in ("all", "mesh"):
            for i in range(8):
                out.append(Job("triples_%s_%d" % (b, i), blocks, dict(group=trip[i::8], block=b, flagged=False), budget=500))
    return out
