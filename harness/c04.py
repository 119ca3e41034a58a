"""C04: generators."""
from sx.runner import Job

from .tough import LETTERS, NAME, Maker, V, cells, raw, round_trip, same, with_zeros

BOUNDS = (
    "labels of 5 to 9 characters, 1 to 3 elements with 1 to 3 generators each, every field absent or present one at a time and all together; "
    "one number at a time over the whole double range, the others in [1e-9, 1e9]; tables of 2 to 9 entries without and with "
    "tabulated enthalpy, mixed with constant generators on the same element"
)
OUTSIDE = "longer tables; label length detection when the name starts with a digit (the length is then given by the caller)"
ASSUMPTIONS = ["labels have one length, three characters and a number", "integers fit their columns"]

KEYS = ["name", "nseq", "nadd", "nads", "type", "rates", "specific_enthalpy", "layer_thickness"]
WID = {5: (5, 5, 5), 6: (6, 4, 4), 7: (5, 4, 4), 8: (4, 4, 4), 9: (5, 3, 3)}


def gen(sx, mk, tag, w, have, digitname=False):
    g = {}
    if "name" in have:
        g["name"] = sx.text(tag + "_name", 5, NAME, first=NAME if digitname else LETTERS)
    for j, k in enumerate(("nseq", "nadd", "nads")):
        if k in have:
            g[k] = sx.int("%s_%s" % (tag, k), 0, 10 ** (min(WID[w][j], 5) - (1 if k == "nseq" else 0)) - 1)
    if "type" in have:
        g["type"] = sx.text(tag + "_type", 4, LETTERS)
    for k in ("rates", "specific_enthalpy", "layer_thickness"):
        if k in have:
            g[k] = mk("%s_%s" % (tag, k), 10, 3)
    return g


def check(sx, got, labels, want):
    g = got.get("generators", {})
    sx.check(len(g) == len(labels), "number of elements")
    for (gk, gv), lab, w in zip(g.items(), labels, want):
        sx.check(sx.eq(gk, lab), "element")
        same(sx, gv, w, "generator")


def single(sx, w, mask):
    """One generator each on two elements, fields absent or present."""
    labs = cells(sx, 2, w)
    given = sx.choice("given", [True, False])
    if mask == "all":
        have = KEYS
    elif mask == "none":
        have = ["type"]
    else:
        k = sx.choice("which", [x for x in KEYS if x != "type"])
        have = [k, "type"] if mask == "one" else [x for x in KEYS if x != k]
    real = [k for k in ("rates", "specific_enthalpy", "layer_thickness") if k in have]
    mk = Maker(sx, "g_" + sx.choice("wild", real) if real else None)
    pos = sx.choice("pos", [0, 1])
    gs = [gen(sx, mk, "g" if i == pos else "h%d" % i, w, have if i == pos else ["type", "rates"], given) for i in range(2)]
    p = {"title": "t", "generators": {labs[i]: raw(gs[i]) for i in range(2)}}
    got = round_trip(sx, p, rkw={"label_length": w} if given else {})
    check(sx, got, labs, gs)


def table(sx, w, n, enth):
    """Tables."""
    labs = cells(sx, 2, w)
    wild = sx.choice("wild", ["times", "rates"] + (["specific_enthalpy"] if enth != "none" else []))
    at = sx.choice("at", sorted({0, n - 1}))
    mk = Maker(sx, "%s_%d" % (wild, at))
    g = {"type": "MASS", "name": "INJ 1", "times": [mk("times_%d" % i, 14, 7) for i in range(n)],
         "rates": [mk("rates_%d" % i, 14, 7) for i in range(n)]}
    want = dict(g)
    if enth == "list":
        g["specific_enthalpy"] = want["specific_enthalpy"] = [mk("specific_enthalpy_%d" % i, 14, 7) for i in range(n)]
    elif enth == "scalar":
        x = mk("specific_enthalpy_%d" % at, 14, 7)
        g["specific_enthalpy"] = x
        want["specific_enthalpy"] = [x] * n
    other = {"type": "HEAT", "rates": mk("h_rates", 10, 3)}
    first = sx.choice("first", [True, False])
    gs = [g, other] if first else [other, g]
    ws = [want, other] if first else [other, want]
    p = {"title": "t", "generators": {labs[i]: raw(gs[i]) for i in range(2)}}
    got = round_trip(sx, p)
    check(sx, got, labs, ws)


def several(sx, w, kinds):
    """Several generators on one element; kinds: 'c' constant, 'h' constant with enthalpy, 't' table, 'e' table with enthalpy."""
    labs = cells(sx, 2, w)
    n = len(kinds)
    mk = Maker(sx, None)
    have = sx.choice("fields", [["name", "nseq", "nadd", "nads", "layer_thickness"], ["name"], ["nseq"], ["layer_thickness"], []])
    some = sx.choice("some", [False, True]) if have and n > 1 else False
    comps = []
    for i, k in enumerate(kinds):
        mk.wild = "c%d_layer_thickness" % i if i == 0 else None
        c = gen(sx, mk, "c%d" % i, w, ["type"] + (have if not (some and i == 0) else []))
        if k in "ch":
            c["rates"] = mk("r%d" % i, 10, 3)
            if k == "h":
                c["specific_enthalpy"] = mk("e%d" % i, 10, 3)
        else:
            m = 5 if i % 2 else 2
            c["times"] = [mk("t%d_%d" % (i, j), 14, 7) for j in range(m)]
            c["rates"] = [mk("r%d_%d" % (i, j), 14, 7) for j in range(m)]
            if k == "e":
                c["specific_enthalpy"] = [mk("e%d_%d" % (i, j), 14, 7) for j in range(m)]
        comps.append(c)
    g = {}
    for key in KEYS + ["times"]:
        if any(key in c for c in comps):
            g[key] = [c.get(key) for c in comps]
    other = {"type": "HEAT", "rates": mk("o_rates", 10, 3)}
    first = sx.choice("first", [True, False])
    gs = [g, other] if first else [other, g]
    p = {"title": "t", "generators": {labs[i]: raw(gs[i]) for i in range(2)}}
    if n == 1:
        gs = [{k: v[0] for k, v in x.items()} if x is g else x for x in gs]
    got = round_trip(sx, p)
    check(sx, got, labs, gs)


def more(sx, n, block):
    """Several elements, block argument, other blocks behind."""
    labs = cells(sx, n)
    mk = Maker(sx, None)
    gs = [gen(sx, mk, "g%d" % i, 5, KEYS) for i in range(n)]
    p = {"title": "t", "generators": {labs[i]: raw(gs[i]) for i in range(n)}, "nover": True,
         "elements": {"AAA 1": {"material": "rock", "volume": 1.0, "center": [0.0, 0.0, 0.0]}}}
    got = round_trip(sx, p, block=block)
    check(sx, got, labs, gs)
    if block == "all":
        sx.check(len(got.get("elements", {})) == 1, "next block")
    else:
        sx.check("elements" not in got, "only this block")


def jobs(tier):
    t = tier == "thorough"
    out = []
    for w in range(5, 10):
        for m in ("all", "one", "but one", "none") if (t or w in (5, 7)) else ("all", "but one"):
            out.append(Job("single_%d_%s" % (w, m.replace(" ", "_")), single, dict(w=w, mask=m), budget=200))
    for n in (2, 4, 5, 8, 9) if not t else range(2, 14):
        for e in ("none", "list"):
            for w in (5, 9) if (t or n == 4) else (5,):
                out.append(Job("table_%d_%d_%s" % (w, n, e), table, dict(w=w, n=n, enth=e), budget=150))
    for k in ("c", "cc", "hh", "ch", "hc", "tt", "ee", "ct", "tc", "he", "eh", "te", "et", "ht", "th", "che", "tch", "ete"):
        out.append(Job("several_" + k, several, dict(w=5, kinds=k), budget=150))
    out.append(Job("several_7_ct", several, dict(w=7, kinds="ct"), budget=150))
    for n in (1, 2, 3):
        for b in ("all", "gener"):
            out.append(Job("more_%d_%s" % (n, b), more, dict(n=n, block=b), budget=100))
    out += with_zeros([j for j in out if j.name in (
        "single_5_all", "single_5_one", "single_5_none", "table_5_4_list", "table_5_5_none", "several_ct", "more_1_all")])
    return out
