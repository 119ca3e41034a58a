"""C05: elements and connections in input files."""
from sx.runner import Job

from .tough import LETTERS, NAME, Maker, V, cell, cells, raw, round_trip, same, with_zeros

BOUNDS = (
    "labels of 5 to 9 characters, 1 to 3 elements and connections, every field absent or present one at a time and all together; one number "
    "at a time over the whole double range, the others in [1e-9, 1e9]; coordinates block on and off; every order of three"
)
OUTSIDE = "more entries (entries are independent records)"
ASSUMPTIONS = ["elements have a centre when the coordinates block is asked for", "labels have one length, three characters and a number", "integers fit their columns", "material names do not consist of digits"]

EK = ["nseq", "nadd", "material", "volume", "heat_exchange_area", "permeability_modifier", "center"]
CK = ["nseq", "nadd", "permeability_direction", "nodal_distances", "interface_area", "gravity_cosine_angle", "radiant_emittance_factor"]
EW = {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}
CW = {5: (5, 5, 5), 6: (5, 4, 4), 7: (5, 3, 3), 8: (3, 3, 3), 9: (3, 2, 2)}


def elem(sx, mk, tag, w, have, coord):
    e = {}
    for j, k in enumerate(("nseq", "nadd")):
        if k in have:
            e[k] = sx.int("%s_%s" % (tag, k), 0, 10 ** (EW[w][j] - (1 if j == 0 else 0)) - 1)
    if "material" in have:
        if tag == "e" and sx.choice("intmat", [False, True]):
            e["material"] = sx.choice("imat", [1, 12, 99999])
        else:
            e["material"] = sx.text(tag + "_mat", 5, NAME, first=LETTERS)
    for k in ("volume", "heat_exchange_area", "permeability_modifier"):
        if k in have:
            e[k] = mk("%s_%s" % (tag, k), 10, 4)
    if "center" in have:
        e["center"] = [mk("%s_x%d" % (tag, j), 20 if coord else 10, 13 if coord else 3) for j in range(3)]
    return e


def conn(sx, mk, tag, w, have):
    c = {}
    if "nseq" in have:
        c["nseq"] = sx.int(tag + "_nseq", 0, 10 ** (CW[w][0] - 1) - 1)
    if "nadd" in have:
        c["nadd"] = [sx.int("%s_nadd%d" % (tag, j), 0, 10 ** CW[w][1 + j] - 1) for j in range(2)]
    if "permeability_direction" in have:
        c["permeability_direction"] = sx.int(tag + "_isot", -3, 3)
    if "nodal_distances" in have:
        c["nodal_distances"] = [mk("%s_d%d" % (tag, j), 10, 4) for j in range(2)]
    for k, p in (("interface_area", 4), ("gravity_cosine_angle", 3), ("radiant_emittance_factor", 3)):
        if k in have:
            c[k] = mk("%s_%s" % (tag, k), 10, p)
    return c


def check(sx, got, what, labels, want):
    g = got.get(what, {})
    o = got.get(what + "_order", [])
    sx.check(len(g) == len(labels) and len(o) == len(labels), "number of " + what)
    for a, lab, w in zip(o, labels, want):
        sx.check(sx.eq(a, lab), "order of " + what)
        same(sx, g[a], w, what)


def pick(sx, keys, mask):
    if mask == "all":
        return keys
    if mask == "none":
        return []
    k = sx.choice("which", keys)
    return [k] if mask == "one" else [x for x in keys if x != k]


def elements(sx, w, mask, coord):
    labs = cells(sx, 2, w)
    have = pick(sx, EK, mask)
    if coord and "center" not in have:
        have = have + ["center"]
    cand = [k for k in ("volume", "heat_exchange_area", "permeability_modifier") if k in have] + (["x0", "x1", "x2"] if "center" in have else [])
    if mask == "but one" and sx.tier == "quick":
        cand = cand[:1]
    mk = Maker(sx, "e_" + sx.choice("wild", cand) if cand else None)
    pos = sx.choice("pos", [0, 1])
    es = [elem(sx, mk, "e" if i == pos else "f", w, have if i == pos else EK, coord) for i in range(2)]
    p = {"title": "t", "elements": {labs[i]: raw(es[i]) for i in range(2)}, "coordinates": coord}
    got = round_trip(sx, p, rkw={"label_length": w} if mask == "one" and w > 5 else {})
    check(sx, got, "elements", labs, es)
    sx.check(bool(got.get("coordinates")) == coord, "coordinates")


def connections(sx, w, mask):
    a = cells(sx, 3, w)
    labs = [a[0] + a[1], a[2] + a[0]]
    have = pick(sx, CK, mask)
    cand = [k for k in CK[4:] if k in have] + (["d0", "d1"] if "nodal_distances" in have else [])
    if mask == "but one" and sx.tier == "quick":
        cand = cand[:1]
    mk = Maker(sx, "c_" + sx.choice("wild", cand) if cand else None)
    pos = sx.choice("pos", [0, 1])
    cs = [conn(sx, mk, "c" if i == pos else "d", w, have if i == pos else CK) for i in range(2)]
    p = {"title": "t", "connections": {labs[i]: raw(cs[i]) for i in range(2)}}
    got = round_trip(sx, p, rkw={"label_length": w} if sx.choice("given", [True, False]) else {})
    check(sx, got, "connections", labs, cs)


def order(sx, n, block, coord):
    """Order lists of elements and connections, mesh alone or with everything."""
    import itertools

    labs = cells(sx, n)
    mk = Maker(sx, None)
    es = [elem(sx, mk, "e%d" % i, 5, EK, coord) for i in range(n)]
    pairs = [(i, j) for i in range(n) for j in range(i)]
    cl = [labs[i] + labs[j] for i, j in pairs]
    cs = [conn(sx, mk, "c%d" % i, 5, CK) for i in range(len(pairs))]
    eo = list(sx.choice("eorder", list(itertools.permutations(range(n)))))
    co = list(sx.choice("corder", [tuple(range(len(cl))), tuple(reversed(range(len(cl))))]))
    p = {"title": "t", "elements": {labs[i]: raw(es[i]) for i in range(n)}, "coordinates": coord,
         "connections": {cl[i]: raw(cs[i]) for i in range(len(cl))}, "nover": True,
         "initial_conditions": {labs[0]: {"values": [1.0]}}}
    if sx.choice("listed", [True, False]):
        p["elements_order"] = [labs[i] for i in eo]
        p["connections_order"] = [cl[i] for i in co]
    else:
        eo, co = list(range(n)), list(range(len(cl)))
    got = round_trip(sx, p, block=block)
    check(sx, got, "elements", [labs[i] for i in eo], [es[i] for i in eo])
    check(sx, got, "connections", [cl[i] for i in co], [cs[i] for i in co])
    sx.check(("initial_conditions" in got) == (block == "all"), "other blocks")
    if block == "all":
        got2 = round_trip(sx, got, "again")
        check(sx, got2, "elements", [labs[i] for i in eo], [es[i] for i in eo])


def jobs(tier):
    t = tier == "thorough"
    out = []
    for w in range(5, 10):
        for m in ("all", "one", "but one", "none") if (t or w in (5, 8)) else ("all", "one"):
            for c in (False, True) if (t or w == 5) else (w % 2 == 0,):
                out.append(Job("elements_%d_%s_%d" % (w, m.replace(" ", "_"), c), elements, dict(w=w, mask=m, coord=c), budget=200))
            out.append(Job("connections_%d_%s" % (w, m.replace(" ", "_")), connections, dict(w=w, mask=m), budget=200))
    for n in (2, 3):
        for b in ("all", "mesh"):
            for c in (False, True):
                out.append(Job("order_%d_%s_%d" % (n, b, c), order, dict(n=n, block=b, coord=c), budget=100))
    out += with_zeros([j for j in out if j.name in ("elements_5_all_0", "elements_5_one_0", "elements_7_one_0", "connections_5_all", "connections_7_one")])
    return out
