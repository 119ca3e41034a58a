"""C03: run-control blocks."""
from sx.runner import Job

from .tough import LETTERS, NAME, Maker, V, absent, raw, round_trip, same, with_zeros

BOUNDS = (
    "PARAM: one value at a time over the whole double range (others in [1e-9, 1e9]), every value absent or present one at a time and all "
    "together, 1 to 17 time steps, initial conditions of 0 to 8 variables; MOP, MOMOP: each option alone, all, all but one; SELEC: each of 16 "
    "integers alone, all, 0 to 3 lines of 0 to 8 floats; SOLVR: every subset of settings; TIMES: 1 to 17 times; DIFFU: 1 to 4 components of 1 to "
    "8 phases; OUTPU: up to three variables of every form; FOFT, COFT, GOFT: 1 to 3 entries, element labels of 5 to 9 characters"
)
OUTSIDE = "longer tables, options beyond one digit"
ASSUMPTIONS = ["a title does not start with ROCKS, ELEME, INCON, GENER or CONNE----, and title lines after the first not with the name of any block", "integers fit their columns", "options are single digits", "text has no leading or trailing blanks"]

INTS = [("n_iteration", 2), ("verbosity", 2), ("n_cycle", 4), ("n_second", 4), ("n_cycle_print", 4)]
REALS = ["temperature_dependence_gas", "effective_strength_vapor", "t_ini", "t_max", "t_step_max", "gravity",
         "t_reduce_factor", "mesh_scale_factor", "eps1", "eps2", "w_upstream", "w_newton", "derivative_factor"]


def opts(sx, mk, ints, reals):
    o = {}
    for k, w in INTS:
        if k in ints:
            o[k] = sx.int(k, -(10 ** (w - 1)) + 1, 10 ** w - 1)
    for k in reals:
        o[k] = mk(k, 10, 4)
    return o


def param(sx, mask):
    every = [k for k, _ in INTS] + REALS
    if mask == "all":
        have = every
    elif mask == "none":
        have = []
    else:
        k = sx.choice("which", every)
        have = [k] if mask == "one" else [x for x in every if x != k]
    cand = [k for k in REALS if k in have]
    wild = sx.choice("wild", cand) if cand and mask in ("all", "one") else None
    mk = Maker(sx, wild)
    o = opts(sx, mk, have, [k for k in REALS if k in have])
    got = round_trip(sx, {"title": "t", "options": raw(o), "start": False})
    same(sx, got.get("options"), o, "options")
    same(sx, got.get("extra_options", {}), {}, "extra_options")
    sx.check(not got.get("start"), "start")
    sx.check(absent(got.get("default", {})), "default")


def steps(sx, n, scalar):
    mk = Maker(sx, "dt%d" % sx.choice("wild", sorted({0, n // 2, n - 1})))
    vals = [mk("dt%d" % i, 10, 4) for i in range(n)]
    o = {"t_steps": vals[0] if scalar else vals, "t_max": mk("t_max", 10, 4), "eps1": mk("eps1", 10, 4)}
    ic = [mk("ic", 20, 13)]
    got = round_trip(sx, {"title": "t", "options": raw(o), "default": {"initial_condition": raw(ic)}})
    if n == 1:
        o["t_steps"] = vals[0]
    same(sx, got.get("options"), o, "options")
    same(sx, got["default"].get("initial_condition"), ic, "initial condition")
    if n > 1:
        got2 = round_trip(sx, got, "again")
        sx.check(len(got2["options"]["t_steps"]) == n, "time steps again")


def conditions(sx, n, follow):
    """Default initial conditions, with other blocks behind."""
    mk = Maker(sx, "v%d" % sx.choice("wild", sorted({0, n // 2, n - 1}))) if n else Maker(sx)
    hole = sx.choice("hole", [None] + list(range(n - 1))) if n > 1 else None
    ic = [None if i == hole else mk("v%d" % i, 20, 13) for i in range(n)]
    p = {"title": "t", "default": {"initial_condition": raw(ic)}, "options": {"eps2": 1.0}}
    extra = {
        "nothing": {},
        "selec": {"selections": {"integers": {1: 0, 4: 3}, "floats": []}},
        "momop": {"more_options": {3: 1}},
        "times": {"times": [1.0, 2.0]},
        "foft": {"element_history": ["AAA 1", "AAA 2"]},
        "gener": {"generators": {"AAA 1": {"type": "MASS", "rates": 2.0}}},
        "diffu": {"diffusion": [[1.0, 2.0]], "n_component": 1, "n_phase": 2},
        "eleme": {"elements": {"AAA 1": {"material": "rock", "volume": 1.0, "center": [0.0, 0.0, 0.0]}}},
        "incon": {"initial_conditions": {"AAA 1": {"values": [1.0, 2.0]}}},
        "indom": {"rocks": {"ROCK1": {"density": 1.0, "initial_condition": [1.0, 2.0]}}},
    }[follow]
    p.update(extra)
    got = round_trip(sx, p)
    same(sx, got.get("default", {}).get("initial_condition", []), ic, "initial condition")
    for k in extra:
        if k in ("n_component", "n_phase"):
            continue
        sx.check(k in got and not absent(got[k]), "following block %s" % k)


def options_(sx, what, n, mask):
    """Numbered options, each its own number."""
    if mask == "one":
        have = [sx.choice("which", list(range(1, n + 1)))]
    elif mask == "all":
        have = list(range(1, n + 1))
    else:
        k = sx.choice("which", list(range(1, n + 1)))
        have = [i for i in range(1, n + 1) if i != k]
    vals = {i: sx.int("v%d" % i, 0, 9) for i in have}
    order = list(reversed(have)) if sx.choice("order", [False, True]) else have
    got = round_trip(sx, {"title": "t", what: {i: vals[i] for i in order}})
    same(sx, got.get(what, {}), vals, what)
    other = "more_options" if what == "extra_options" else "extra_options"
    sx.check(absent(got.get(other, {})), other)


def selec(sx, mask, lines, width):
    n = 16
    if mask == "one":
        have = [sx.choice("which", list(range(2, n + 1)))]
    elif mask == "all":
        have = list(range(2, n + 1))
    elif mask == "none":
        have = []
    else:
        k = sx.choice("which", list(range(2, n + 1)))
        have = [i for i in range(2, n + 1) if i != k]
    vals = {i: sx.int("v%d" % i, -999, 9999) for i in have}
    s = {"integers": dict(vals)}
    wild = "f%d_%d" % (sx.choice("wl", list(range(lines))), sx.choice("wc", sorted({0, width - 1}))) if lines else None
    mk = Maker(sx, wild)
    # a value left out before others
    hole = sx.choice("hole", [None] + list(range(width - 1))[:: 1 if mask == "none" else 3]) if mask in ("all", "none") and width > 1 else None
    num = lambda i, j: None if j == hole and i == lines - 1 else mk("f%d_%d" % (i, j), 10, 3)
    if lines == 1 and sx.choice("flat", [False, True]):
        fl = [num(0, j) for j in range(width)]
        wantf = fl
    elif lines:
        fl = [[num(i, j) for j in range(width)] for i in range(lines)]
        wantf = fl if lines > 1 else fl[0]
    else:
        fl = sx.choice("empty", [[], None, "missing"])
        wantf = []
    if fl != "missing":
        s["floats"] = raw(fl) if fl is not None else None
    vals[1] = lines or None
    p = {"title": "t", "selections": s, "more_options": {2: 5}}
    if not have and not lines:
        return
    got = round_trip(sx, p)
    same(sx, got.get("selections", {}), {"integers": vals, "floats": wantf}, "selections")
    same(sx, got.get("more_options"), {2: 5}, "next block")
    got2 = round_trip(sx, got, "again")
    same(sx, got2.get("selections", {}).get("integers"), vals, "selections again")


def solver(sx, mask):
    keys = ["method", "z_precond", "o_precond", "rel_iter_max", "eps"]
    have = keys if mask == "all" else sx.choice("subset", [[k] for k in keys] + [[x for x in keys if x != k] for k in keys])
    wild = sx.choice("wild", ["rel_iter_max", "eps"])
    mk = Maker(sx, wild)
    s, want = {}, {"method": 3, "z_precond": "Z0", "o_precond": "O0", "rel_iter_max": V(0.1, 10, 4), "eps": V(1e-6, 10, 4)}
    if "method" in have:
        s["method"] = sx.int("method", 0, 9)
    if "z_precond" in have:
        s["z_precond"] = "Z" + sx.text("z", 1, "0123456789")
    if "o_precond" in have:
        s["o_precond"] = "O" + sx.text("o", 1, "0123456789")
    for k in ("rel_iter_max", "eps"):
        if k in have:
            s[k] = mk(k, 10, 4)
    want.update(s)
    got = round_trip(sx, {"title": "t", "solver": raw(s)})
    same(sx, got.get("solver"), want, "solver")


KEYWORDS = ["ROCKS", "RPCAP", "FLAC", "MULTI", "SOLVR", "START", "PARAM", "SELEC", "INDOM", "MOMOP", "TIMES", "FOFT", "COFT", "GOFT",
            "GENER", "DIFFU", "OUTPU", "ELEME", "COORD", "CONNE", "INCON", "NOVER", "ENDCY"]
EOS = {"eos1": (1, 2), "eos2": (2, 2), "eos3": (2, 2), "eos4": (2, 2), "eos5": (2, 2), "eos7": (3, 2), "eos8": (3, 3),
       "eos9": (1, 1), "eoswasg": (3, 3), "eco2n": (3, 3), "eco2n_v2": (3, 3), "eco2m": (3, 4)}


def multi(sx, how):
    iso = sx.choice("isothermal", [False, True])
    p = {"title": "t", "isothermal": iso}
    if how == "eos":
        e = sx.choice("eos", sorted(EOS))
        p["eos"] = e
        nk, nph = EOS[e]
        # eos9 has no energy equation by itself
    else:
        nk = sx.int("nk", 1, 99)
        nph = sx.int("nph", 1, 99)
        p["n_component"], p["n_phase"] = nk, nph
        if how == "both":
            p["eos"] = "eco2n"
    nm = None
    if sx.choice("mass", [False, True]):
        nm = p["n_component_mass"] = sx.int("nm", 1, 99)
    got = round_trip(sx, p)
    same(sx, got.get("n_component"), nk, "components")
    same(sx, got.get("n_phase"), nph, "phases")
    sx.check(got.get("isothermal") == iso, "isothermal")
    if nm is None:
        sx.check(absent(got.get("n_component_mass")), "mass components stay absent")
    else:
        same(sx, got.get("n_component_mass"), nm, "mass components")


def times(sx, n, scalar):
    mk = Maker(sx, "t%d" % sx.choice("wild", sorted({0, n // 2, n - 1})))
    t = [mk("t%d" % i, 10, 4) for i in range(n)]
    got = round_trip(sx, {"title": "t", "times": raw(t[0] if scalar else t), "element_history": ["AAA 1"]})
    same(sx, got.get("times"), t[0] if n == 1 else t, "times")
    same(sx, got.get("element_history"), ["AAA 1"], "next block")


def diffu(sx, nc, nph, follow):
    mk = Maker(sx, "d%d_%d" % (sx.choice("wc", sorted({0, nc - 1})), sx.choice("wp", sorted({0, nph - 1}))))
    hole = sx.choice("hole", [None] + list(range(nph - 1)))
    d = [[None if i == nc - 1 and j == hole else mk("d%d_%d" % (i, j), 10, 3) for j in range(nph)] for i in range(nc)]
    p = {"title": "t", "diffusion": raw(d), "n_component": nc, "n_phase": nph}
    extra = {"outpu": {"output": {"format": "csv", "variables": {"pressure": None}}},
             "eleme": {"elements": {"AAA 1": {"material": "rock", "volume": 1.0, "center": [0.0, 0.0, 0.0]}}},
             "nothing": {}}[follow]
    p.update(extra)
    got = round_trip(sx, p)
    same(sx, got.get("diffusion"), d, "diffusion")
    for k in extra:
        sx.check(k in got and not absent(got[k]), "following block")


def outpu(sx, form, follow):
    """Output directives."""
    fmt = sx.choice("format", ["csv", "tecplot", None]) if form != [] else sx.choice("format", ["csv", "tecplot"])
    o = {}
    if fmt or sx.choice("none", [False, True]):
        o["format"] = fmt
    want = {"format": fmt.upper() if fmt else None, "variables": None}
    if form:
        vs, wv = {}, {}
        for i, f in enumerate(form):
            name = sx.text("var%d" % i, 3, "abcdefghijklmnopqrstuvwxyz_") + "abc"[i]
            if f == "none":
                v = None
            elif f == "scalar":
                v = sx.int("a%d" % i, -999, 9999)
            elif f == "one":
                v = [sx.int("a%d" % i, -999, 9999)]
            elif f == "two":
                v = [sx.int("a%d" % i, -999, 9999), sx.int("b%d" % i, -999, 9999)]
            elif f == "second":
                v = [None, sx.int("b%d" % i, -999, 9999)]
            elif f == "many":
                v = [[sx.int("a%d_%d" % (i, j), 1, 99), sx.int("b%d_%d" % (i, j), 1, 99)] for j in range(2)]
            else:
                v = [[sx.int("a%d_%d" % (i, j), 1, 99), sx.int("b%d_%d" % (i, j), 1, 99)] for j in range(3)]
            vs[name] = v
            wv[name] = v[0] if f == "one" else v
        o["variables"] = vs
        want["variables"] = wv
    elif sx.choice("novar", [False, True]):
        o["variables"] = {}
    p = {"title": "t", "output": o}
    extra = {"eleme": {"elements": {"AAA 1": {"material": "rock", "volume": 1.0, "center": [0.0, 0.0, 0.0]}}}, "nothing": {},
             "incon": {"initial_conditions": {"AAA 1": {"values": [1.0, 2.0]}}},
             "nover": {"nover": True}}[follow]
    p.update(extra)
    got = round_trip(sx, p)
    g = got.get("output", {})
    same(sx, {k: v for k, v in g.items() if k == "format"}, {"format": want["format"]}, "output format")
    gv, wv = g.get("variables") or {}, want["variables"] or {}
    sx.check(len(gv) == len(wv), "number of variables")
    for (gk, g1), (wk, w1) in zip(gv.items(), wv.items()):
        sx.check(sx.eq(gk, wk), "variable name")
        same(sx, g1, w1, "variable")
    for k in extra:
        sx.check(k in got and not absent(got[k]), "following block")


def history(sx, what, n, w):
    """FOFT, COFT, GOFT."""
    ls = []
    for i in range(n):
        if what == "connection_history":
            ls.append(sx.label("a%d" % i, w) + sx.label("b%d" % i, w))
        elif what == "element_history":
            ls.append(sx.label("a%d" % i, w))
        else:
            ls.append(sx.text("a%d" % i, w, NAME, first=LETTERS))
    got = round_trip(sx, {"title": "t", what: ls, "nover": True})
    g = got.get(what)
    sx.check(isinstance(g, list) and len(g) == n, "entries")
    for a, b in zip(g, ls):
        sx.check(sx.eq(a, b), "entry")
    sx.check(got.get("nover") is True, "next block")


def title(sx, n, lens):
    """Titles of one or several lines, and flags."""
    ts = [sx.text("t%d" % i, lens, NAME + " _-.,;:()", first=NAME, last=NAME) for i in range(n)]
    for i, t in enumerate(ts):
        # the first line may name a block, unless the file could start with it
        for w in KEYWORDS if i else ["ROCKS", "ELEME", "INCON", "GENER", "CONNE----"]:
            if len(t) >= len(w):
                sx.assume(sx.not_(sx.eq(t[:len(w)], w)))
    start = sx.choice("start", [False, True])
    nover = sx.choice("nover", [False, True])
    got = round_trip(sx, {"title": ts[0] if n == 1 else ts, "start": start, "nover": nover})
    g = got.get("title")
    if n == 1:
        sx.check(isinstance(g, str) and sx.eq(g, ts[0]), "title")
    else:
        sx.check(isinstance(g, list) and len(g) == n, "title lines")
        for a, b in zip(g, ts):
            sx.check(sx.eq(a, b), "title line")
    sx.check(bool(got.get("start")) == start, "start")
    sx.check(bool(got.get("nover")) == nover, "nover")


def together(sx):
    """All blocks at once."""
    mk = Maker(sx)
    o = opts(sx, mk, [k for k, _ in INTS], REALS)
    o["t_steps"] = [mk("dt%d" % i, 10, 4) for i in range(9)]
    p = {
        "title": ["first line", "second line"], "n_component": 3, "n_phase": 2, "isothermal": False, "start": True, "nover": True,
        "options": o, "extra_options": {i: sx.int("mop%d" % i, 0, 9) for i in range(1, 25)},
        "more_options": {i: sx.int("momop%d" % i, 0, 9) for i in range(1, 41)},
        "selections": {"integers": {i: sx.int("ie%d" % i, 0, 999) for i in range(2, 17)}, "floats": [[mk("fe%d" % i, 10, 3) for i in range(8)] for i_ in range(1)]},
        "solver": {"method": sx.int("meth", 0, 9), "z_precond": "Z1", "o_precond": "O4", "rel_iter_max": mk("rim", 10, 4), "eps": mk("epsl", 10, 4)},
        "times": [mk("time%d" % i, 10, 4) for i in range(9)],
        "element_history": ["AAA 1", "AAA 2"], "connection_history": ["AAA 1AAA 2"], "generator_history": ["INJ 1"],
        "diffusion": [[mk("diff%d%d" % (i, j), 10, 3) for j in range(2)] for i in range(3)],
        "output": {"format": "CSV", "variables": {"pressure": None, "flow": [1, 2], "mass": 3, "saturation": [[1, 2], [2, 1]]}},
        "default": {"initial_condition": [mk("ic%d" % i, 20, 13) for i in range(6)]},
    }
    got = round_trip(sx, raw(p))
    p["selections"]["integers"][1] = 1
    p["selections"]["floats"] = p["selections"]["floats"][0]
    for k in sorted(p):
        same(sx, got.get(k), p[k], k)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for m in ("all", "one", "but one", "none"):
        out.append(Job("param_" + m.replace(" ", "_"), param, dict(mask=m), budget=150))
    for n in (1, 2, 8, 9, 16, 17) if not t else range(1, 26):
        out.append(Job("steps_%d" % n, steps, dict(n=n, scalar=False), budget=150))
    out.append(Job("steps_scalar", steps, dict(n=1, scalar=True)))
    FOL = ["nothing", "selec", "momop", "times", "foft", "gener", "diffu", "eleme", "incon", "indom"]
    for i, f in enumerate(FOL):
        for n in ((i % 4 + 1, 4 + i % 5) if not t else range(0, 9)):
            out.append(Job("conditions_%s_%d" % (f, n), conditions, dict(n=n, follow=f), budget=150))
    out.append(Job("conditions_none", conditions, dict(n=0, follow="nothing")))
    for what, n in (("extra_options", 24), ("more_options", 40)):
        for m in ("one", "all", "but one"):
            out.append(Job("%s_%s" % (what, m.replace(" ", "_")), options_, dict(what=what, n=n, mask=m), budget=200))
    for m in ("one", "all", "but one", "none"):
        for l, w in ((0, 0), (1, 8), (2, 3)) if not t else ((0, 0), (1, 1), (1, 8), (2, 8), (3, 5)):
            out.append(Job("selec_%s_%d_%d" % (m.replace(" ", "_"), l, w), selec, dict(mask=m, lines=l, width=w), budget=150,
                           must_reach=not (m == "none" and l == 0)))
    for m in ("all", "some"):
        out.append(Job("solver_" + m, solver, dict(mask=m), budget=100))
    for h in ("eos", "sizes", "both"):
        out.append(Job("multi_" + h, multi, dict(how=h)))
    for n in (1, 2, 8, 9, 17) if not t else range(1, 26):
        out.append(Job("times_%d" % n, times, dict(n=n, scalar=False), budget=100))
    out.append(Job("times_scalar", times, dict(n=1, scalar=True)))
    for nc, nph, f in ((1, 1, "nothing"), (2, 2, "outpu"), (3, 4, "eleme"), (4, 8, "nothing")):
        out.append(Job("diffu_%d_%d" % (nc, nph), diffu, dict(nc=nc, nph=nph, follow=f), budget=100))
    forms = [[], ["none"], ["scalar"], ["one"], ["two"], ["second"], ["many"], ["none", "two"], ["many", "none"], ["scalar", "many", "two"], ["three", "scalar"]]
    for f in forms:
        for fol in ("nothing", "eleme", "incon", "nover") if (t or len(f) < 2) else ("eleme",):
            out.append(Job("outpu_%s_%s" % ("_".join(f), fol), outpu, dict(form=f, follow=fol), budget=100))
    for w in range(5, 10):
        out.append(Job("foft_%d" % w, history, dict(what="element_history", n=2, w=w)))
        out.append(Job("coft_%d" % w, history, dict(what="connection_history", n=2, w=w)))
    out.append(Job("foft_3", history, dict(what="element_history", n=3, w=5)))
    for w in (1, 5):
        out.append(Job("goft_%d" % w, history, dict(what="generator_history", n=2, w=w)))
    for n, l in ((1, 1), (1, 12), (1, 80), (2, 12), (3, 6)):
        out.append(Job("title_%d_%d" % (n, l), title, dict(n=n, lens=l)))
    out.append(Job("together", together, budget=200))
    out += with_zeros([j for j in out if j.name in (
        "param_all", "param_one", "steps_9", "steps_2", "conditions_none", "selec_all_2_3", "solver_all", "times_9", "diffu_2_2")])
    return out
