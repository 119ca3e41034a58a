"""C02: rock blocks."""
from sx.runner import Job

from .tough import LETTERS, NAME, Maker, V, raw, round_trip, same, with_zeros

BOUNDS = (
    "1 to 3 materials with symbolic names of 5 (or 1, 3) characters; one number at a time over the whole double range, the others in "
    "[1e-9, 1e9]; every property absent or present one at a time and all together; models with 0 to 7 parameters; "
    "initial conditions of 1 to 8 variables (the same number for all materials)"
)
OUTSIDE = "names that read as numbers; more than 3 materials; models given with more than 7 parameters"
ASSUMPTIONS = ["names start with a letter, are pairwise different and are not those of a number (inf, nan)"]

BASE = ["density", "porosity", "conductivity", "specific_heat"]
EXTRA = ["compressibility", "expansivity", "conductivity_dry", "tortuosity", "klinkenberg_parameter",
         "distribution_coefficient_3", "distribution_coefficient_4"]


def names(sx, n, lens=(5, 5, 5)):
    out = [sx.text("name%d" % i, lens[i], NAME, first="BCDEGHJKLMOPQRSTUVWXYZ", last=NAME) for i in range(n)]
    sx.distinct(*out)
    return out


def order_of(sx, got, want):
    o = got.get("rocks_order", [])
    sx.check(len(o) == len(want), "number of materials")
    for a, b in zip(o, want):
        sx.check(sx.eq(a, b), "order of materials")
    sx.check(len(got["rocks"]) == len(want), "number of material entries")


def lookup(sx, got, names_):
    o = got["rocks_order"]
    return [got["rocks"][o[i]] for i in range(len(names_))]


def basic(sx, n, lens):
    """First records, any permeability form."""
    nm = names(sx, n, lens)
    which = sx.choice("wild", BASE + ["k0", "k1", "k2"])
    target = sx.choice("target", list(range(n)))
    iso = sx.choice("iso", [True, False]) if which in ("k0", "density") else which == "k0"
    drop = sx.choice("drop", [None] + BASE) if which == "density" else None
    rocks = {}
    want = []
    for i in range(n):
        mk = Maker(sx, "%s_%d" % (which, i) if i == target else None)
        r = {k: mk("%s_%d" % (k, i), 10, 4) for k in BASE}
        if drop and i == target:
            del r[drop]
        ks = [mk("k%d_%d" % (j, i), 10, 4) for j in range(3)]
        if i != target or iso:
            r["permeability"] = ks[0]
        else:
            r["permeability"] = ks
        rocks[nm[i]] = raw(r)
        want.append(r)
    got = round_trip(sx, {"title": "t", "rocks": rocks})
    order_of(sx, got, nm)
    for i, g in enumerate(lookup(sx, got, nm)):
        g = dict(g)
        w = dict(want[i])
        p = w["permeability"]
        if isinstance(p, list):
            gp = g.get("permeability")
            if not isinstance(gp, (list, tuple)):
                g["permeability"] = [gp] * 3  # equal values are returned as one
        elif isinstance(g.get("permeability"), (list, tuple)):
            sx.check(False, "isotropic permeability")
            continue
        same(sx, g, w, "rock%d" % i)


def extras(sx, mask, n):
    """Second records."""
    nm = names(sx, n)
    target = sx.choice("target", list(range(n)))
    if mask == "all":
        have = list(EXTRA)
    elif mask == "one":
        have = [sx.choice("which", EXTRA)]
    elif mask == "but one":
        d = sx.choice("which", EXTRA)
        have = [k for k in EXTRA if k != d]
    else:
        have = []
    wild = sx.choice("wild", have if mask != "but one" or sx.tier == "thorough" else have[:1] + have[-1:]) if have else None
    rp = sx.choice("rp", [False, True])
    rocks, want = {}, []
    for i in range(n):
        mk = Maker(sx, "%s_%d" % (wild, i) if i == target else None)
        r = {k: mk("%s_%d" % (k, i), 10, 4) for k in BASE}
        r["permeability"] = mk("k_%d" % i, 10, 4)
        if i == target:
            for k in have:
                r[k] = mk("%s_%d" % (k, i), 10, 4)
            if rp:
                r["relative_permeability"] = {"id": sx.int("rpid_%d" % i, 1, 99), "parameters": [mk("rp_%d" % i, 10, 3)]}
        rocks[nm[i]] = raw(r)
        want.append(r)
    got = round_trip(sx, {"title": "t", "rocks": rocks})
    order_of(sx, got, nm)
    for i, g in enumerate(lookup(sx, got, nm)):
        same(sx, g, want[i], "rock%d" % i)


def model(sx, mk, tag, np_, hole=None):
    return {"id": sx.int(tag + "_id", 1, 99), "parameters": [None if j == hole else mk("%s_p%d" % (tag, j), 10, 3) for j in range(np_)]}


def models(sx, combo, np_):
    """Relative permeability and capillarity of materials and defaults."""
    nm = names(sx, 2)
    target = sx.choice("target", [0, 1])
    hole = sx.choice("hole", [None, 0, np_ // 2]) if np_ > 2 else None
    mk = Maker(sx, None)
    wild = sx.choice("wildp", list(range(np_))) if np_ and np_ != 7 else (sx.choice("wildp", [0, 3, 6]) if np_ else None)
    wtag = sx.choice("wildm", combo)
    rocks, want = {}, []
    for i in range(2):
        r = {"density": mk("rho_%d" % i, 10, 4)}
        if i == target:
            for key, tag in (("relative_permeability", "rp"), ("capillarity", "pc")):
                if tag in combo:
                    mk.wild = "%s_p%s" % (wtag, wild)
                    r[key] = model(sx, mk, tag, np_, hole)
        rocks[nm[i]] = raw(r)
        want.append(r)
    params = {"title": "t", "rocks": rocks, "default": {}}
    wd = {}
    for key, tag in (("relative_permeability", "drp"), ("capillarity", "dpc")):
        if tag in combo:
            mk.wild = "%s_p%s" % (wtag, wild)
            wd[key] = model(sx, mk, tag, np_, hole)
    params["default"] = raw(wd)
    got = round_trip(sx, params)
    order_of(sx, got, nm)
    for i, g in enumerate(lookup(sx, got, nm)):
        same(sx, g, want[i], "rock%d" % i)
    same(sx, got.get("default", {}), wd, "default")


def flac(sx, own, dflt, np_):
    """FLAC models of materials."""
    n = 2
    nm = names(sx, n)
    mk = Maker(sx, None)
    creep = sx.choice("creep", [False, True])
    fl = {"creep": creep}
    if sx.choice("more", [False, True]):
        fl["porosity_model"] = sx.int("pm", 0, 99)
        fl["version"] = sx.int("ver", 0, 99)
    target = sx.choice("target", list(range(n)))
    again = sx.choice("again", [False, True])
    wild = sx.choice("wildp", sorted({0, np_ - 1})) if np_ and not again else None
    KEYS = (("permeability_model", "pm"), ("equivalent_pore_pressure", "ep"))
    rocks, want = {}, []
    wd = {}
    for key, tag in KEYS:
        if tag in dflt:
            wd[key] = model(sx, mk, "d" + tag, 1)
    for i in range(n):
        r = {"density": mk("rho_%d" % i, 10, 4)}
        w = dict(r)
        for key, tag in KEYS:
            if tag in own and i == target:
                mk.wild = "%s_p%s" % (tag, wild)
                r[key] = model(sx, mk, tag, np_)
            w[key] = r.get(key) or wd.get(key) or {"id": 1 if tag == "pm" else 3, "parameters": []}
        rocks[nm[i]] = raw(r)
        want.append(w)
    params = {"title": "t", "rocks": rocks, "flac": fl, "default": raw(wd)}
    got = round_trip(sx, params)
    order_of(sx, got, nm)
    for i, g in enumerate(lookup(sx, got, nm)):
        same(sx, g, want[i], "rock%d" % i)
    same(sx, got["flac"], fl, "flac")
    if not again:
        return
    # what was read can be written again
    got2 = round_trip(sx, got, "again")
    sx.check(len(got2["rocks"]) == n, "written again")
    same(sx, got2["flac"], fl, "flac again")


def indom(sx, n, nv):
    """Initial conditions per material."""
    nm = names(sx, n)
    mk = Maker(sx, None)
    have = sx.choice("have", [m for m in range(1, 2 ** n)])
    wild = sx.choice("wild", sorted({0, nv // 2, nv - 1}))
    hole = sx.choice("hole", [None] + [j for j in (0, nv - 2) if 0 <= j < nv - 1 and (nv <= 4 or j != 3)]) if nv > 1 else None
    rocks, want = {}, []
    first = True
    for i in range(n):
        r = {"density": mk("rho_%d" % i, 10, 4)}
        if have >> i & 1:
            mk.wild = "v%d_%d" % (wild, i) if first else None
            r["initial_condition"] = [None if j == hole else mk("v%d_%d" % (j, i), 20, 13) for j in range(nv)]
            first = False
        rocks[nm[i]] = raw(r)
        want.append(r)
    got = round_trip(sx, {"title": "t", "rocks": rocks, "start": True})
    order_of(sx, got, nm)
    for i, g in enumerate(lookup(sx, got, nm)):
        same(sx, g, want[i], "rock%d" % i)


def ordered(sx, n, k):
    """Order of materials given by the user, in part."""
    nm = names(sx, n)
    mk = Maker(sx, None)
    import itertools

    order = list(sx.choice("order", list(itertools.permutations(range(n), k))))
    rocks, want = {}, {}
    for i in range(n):
        r = {"density": mk("rho_%d" % i, 10, 4), "initial_condition": [mk("v_%d" % i, 20, 13)],
             "permeability_model": {"id": i + 1, "parameters": [mk("pm_%d" % i, 10, 3)]},
             "equivalent_pore_pressure": {"id": 3, "parameters": []}}
        rocks[nm[i]] = raw(r)
        want[i] = r
    full = order + [i for i in range(n) if i not in order]
    got = round_trip(sx, {"title": "t", "rocks": rocks, "rocks_order": [nm[i] for i in order], "flac": {"creep": False, "version": 1}})
    order_of(sx, got, [nm[i] for i in full])
    for j, g in enumerate(lookup(sx, got, nm)):
        same(sx, g, want[full[j]], "rock%d" % full[j])


def defaults(sx):
    """Defaults apply to the materials that do not set a property."""
    nm = names(sx, 2)
    keys = BASE + EXTRA
    k = sx.choice("key", keys + ["permeability", "all"])
    use = keys + ["permeability"] if k == "all" else [k]
    mk = Maker(sx, None)
    d = {x: mk("d_" + x, 10, 4) for x in use}
    own = {x: mk("o_" + x, 10, 4) for x in use}
    first = sx.choice("first", [True, False])
    rocks = {nm[0]: raw(own) if first else {}, nm[1]: {} if first else raw(own)}
    got = round_trip(sx, {"title": "t", "rocks": rocks, "default": raw(d)})
    order_of(sx, got, nm)
    a, b = lookup(sx, got, nm)
    same(sx, a, own if first else d, "first")
    same(sx, b, d if first else own, "second")


def together(sx):
    """Everything at once on two materials."""
    nm = names(sx, 2)
    mk = Maker(sx, None)
    rocks, want = {}, []
    for i in range(2):
        r = {k: mk("%s_%d" % (k, i), 10, 4) for k in BASE + EXTRA}
        r["permeability"] = [mk("k%d_%d" % (j, i), 10, 4) for j in range(3)]
        r["relative_permeability"] = model(sx, mk, "rp%d" % i, 7)
        r["capillarity"] = model(sx, mk, "pc%d" % i, 7)
        r["permeability_model"] = model(sx, mk, "pm%d" % i, 7)
        r["equivalent_pore_pressure"] = model(sx, mk, "ep%d" % i, 7)
        r["initial_condition"] = [mk("v%d_%d" % (j, i), 20, 13) for j in range(8)]
        rocks[nm[i]] = raw(r)
        want.append(r)
    sx.assume(sx.not_(rocks[nm[0]]["permeability"][0] == rocks[nm[0]]["permeability"][1] * 2))
    d = {"relative_permeability": model(sx, mk, "rpd", 7), "capillarity": model(sx, mk, "pcd", 7)}
    fl = {"creep": True, "porosity_model": sx.int("pmod", 0, 99), "version": sx.int("ver", 0, 99)}
    got = round_trip(sx, {"title": "t", "rocks": rocks, "flac": fl, "default": raw(d)})
    order_of(sx, got, nm)
    for i, g in enumerate(lookup(sx, got, nm)):
        g = dict(g)
        if not isinstance(g.get("permeability"), (list, tuple)):
            g["permeability"] = [g.get("permeability")] * 3
        same(sx, g, want[i], "rock%d" % i)
    same(sx, got["default"], d, "default")
    same(sx, got["flac"], fl, "flac")


def jobs(tier):
    t = tier == "thorough"
    out = [Job("basic_1", basic, dict(n=1, lens=(5,)), budget=100), Job("basic_1s", basic, dict(n=1, lens=(1,)), budget=100),
           Job("basic_2", basic, dict(n=2, lens=(5, 3)), budget=150)]
    for m in ("all", "one", "but one", "none"):
        out.append(Job("extras_" + m.replace(" ", "_"), extras, dict(mask=m, n=1 if not t else 2), budget=150 if not t else 600))
    combos = [["rp"], ["pc"], ["rp", "pc"], ["drp"], ["dpc"], ["drp", "dpc"], ["rp", "dpc"], ["pc", "drp"], ["rp", "pc", "drp", "dpc"]]
    for c in combos:
        for k in (0, 2, 7) if not t else range(8):
            out.append(Job("models_%s_%d" % ("_".join(c), k), models, dict(combo=c, np_=k), budget=150))
    for own, dflt in (([], []), (["pm"], []), (["ep"], ["pm"]), (["pm", "ep"], ["pm", "ep"]), ([], ["pm", "ep"])):
        for k in (0, 1, 7) if own else (1,):
            out.append(Job("flac_%s__%s_%d" % ("_".join(own), "_".join(dflt), k), flac, dict(own=own, dflt=dflt, np_=k), budget=150))
    for nv in range(1, 9):
        out.append(Job("indom_2_%d" % nv, indom, dict(n=2, nv=nv), budget=150))
    out.append(Job("indom_3_2", indom, dict(n=3, nv=2), budget=150))
    out.append(Job("indom_3_6", indom, dict(n=3, nv=6), budget=150))
    for n, k in ((2, 1), (2, 2), (3, 1), (3, 2)) if not t else ((2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
        out.append(Job("ordered_%d_%d" % (n, k), ordered, dict(n=n, k=k), budget=150))
    out.append(Job("defaults", defaults, budget=150))
    out.append(Job("together", together, budget=150))
    out += with_zeros([j for j in out if j.name in (
        "basic_1", "basic_2", "extras_all", "extras_one", "models_rp_pc_drp_dpc_2", "flac_pm_ep__pm_ep_1", "indom_2_4", "indom_2_6", "ordered_2_1")])
    return out
