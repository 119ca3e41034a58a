"""C06: initial conditions in input files."""
from sx.runner import Job

from .tough import Maker, V, cells, raw, round_trip, same, with_zeros

BOUNDS = (
    "labels of 5 to 9 characters, 1 to 3 elements of 1 to 8 variables, 0 to 5 user fields, porosity on and off, values missing one at a time; "
    "one number at a time over the whole double range, the others in [1e-9, 1e9]; every order of three"
)
OUTSIDE = "more entries (entries are independent records)"
ASSUMPTIONS = ["labels have one length, three characters and a number", "all elements have the same number of variables, and one of those beyond the fourth is given"]


def incon(sx, n, w, nv, nu):
    import itertools

    labs = cells(sx, n, w)
    pos = sx.choice("pos", list(range(n)))
    por = sx.choice("porosity", [True, False])
    wild = sx.choice("wild", sorted({0, nv // 2, nv - 1}) + (["u"] if nu else []) + (["phi"] if por else []))
    hole = sx.choice("hole", [None] + [j for j in range(nv - 1) if not (nv == 6 and j == 4)]) if wild == 0 and nv > 1 else None
    if hole is not None and nv == 5 and hole == 4:
        hole = None
    uhole = sx.choice("uhole", [None] + list(range(nu - 1))) if wild == "u" and nu > 1 else None
    ws = []
    for i in range(n):
        full = i == pos
        mk = Maker(sx, None)
        if full:
            mk.wild = "phi_%d" % i if wild == "phi" else "u%d_%d" % (nu - 1, i) if wild == "u" else "v%s_%d" % (wild, i)
        e = {"values": [None if (full and j == hole) else mk("v%d_%d" % (j, i), 20, 13) for j in range(nv)]}
        if not full or por:
            e["porosity"] = mk("phi_%d" % i, 15, 9)
        if nu and (full or i == 0):
            e["userx"] = [None if (full and j == uhole) else mk("u%d_%d" % (j, i), 10, 3) for j in range(nu)]
        ws.append(e)
    p = {"title": "t", "initial_conditions": {labs[i]: raw(ws[i]) for i in range(n)}, "nover": True}
    o = list(range(n))
    if n > 1 and sx.choice("listed", [True, False]):
        o = list(sx.choice("order", list(itertools.permutations(range(n)))[1:]))
        p["initial_conditions_order"] = [labs[i] for i in o]
    block = ["all", "incon"][(nv + nu) % 2]
    got = round_trip(sx, p, rkw={"label_length": w} if block == "incon" else {}, block=block)
    g, go = got.get("initial_conditions", {}), got.get("initial_conditions_order", [])
    sx.check(len(g) == n and len(go) == n, "number of elements")
    for k, i in enumerate(o):
        sx.check(sx.eq(go[k], labs[i]), "order")
        same(sx, g[go[k]], ws[i], "initial condition")
    sx.check(bool(got.get("nover")) == (block == "all"), "next block")


def empty(sx, w):
    """Elements without any value."""
    labs = cells(sx, 3, w)
    which = sx.choice("which", [0, 1, 2])
    mk = Maker(sx, None)
    ws = [{"values": [mk("v%d" % i, 20, 13)], "porosity": mk("phi%d" % i, 15, 9)} for i in range(3)]
    ws[which] = sx.choice("empty", [{}, {"values": []}, {"values": [None, None]}, {"values": [None, None, None, None], "userx": [None] * 5}])
    got = round_trip(sx, {"title": "t", "initial_conditions": {labs[i]: raw(ws[i]) for i in range(3)}})
    g, go = got.get("initial_conditions", {}), got.get("initial_conditions_order", [])
    sx.check(len(g) == 3 and len(go) == 3, "number of elements")
    for i in range(3):
        sx.check(sx.eq(go[i], labs[i]), "order")
        same(sx, g[go[i]], ws[i], "initial condition")


def jobs(tier):
    t = tier == "thorough"
    out = []
    for nv in range(1, 9):
        out.append(Job("incon_2_5_%d" % nv, incon, dict(n=2, w=5, nv=nv, nu=5 if nv % 2 else 0), budget=200 if not t else 500))
    for w in range(6, 10):
        out.append(Job("incon_1_%d_4" % w, incon, dict(n=1, w=w, nv=4, nu=2), budget=200))
        out.append(Job("incon_2_%d_6" % w, incon, dict(n=2, w=w, nv=6, nu=0), budget=200))
    out.append(Job("incon_3_5_2", incon, dict(n=3, w=5, nv=2, nu=1), budget=200))
    out.append(Job("incon_3_5_6", incon, dict(n=3, w=5, nv=6, nu=0), budget=300))
    for w in (5, 9):
        out.append(Job("empty_%d" % w, empty, dict(w=w)))
    out += with_zeros([j for j in out if j.name in (
        "incon_2_5_2", "incon_2_5_4", "incon_2_5_6", "incon_1_6_4", "empty_5")])
    return out
