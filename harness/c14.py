"""C14: exported INCON."""
import numpy

from sx.runner import Job

from .tough import Maker, number

BOUNDS = (
    "meshes of 2 and 3 cells with 1 to 8 primary variables, label lengths 5 to 9: any subset of the values not set, any value set "
    "(one of them over the whole double range above -1e9), with and without porosity, with 1, 3 or no permeability modifiers"
)
OUTSIDE = "more cells; values below -1e9; meshes in which no cell has a primary variable (nothing is exported, with a warning)"
UNSET = -1.0e9


def mesh_of(n, length):
    import toughio

    mesh = toughio.meshmaker.structured_grid([1.0] * n, [1.0], [1.0])
    mesh.label_length = length
    return mesh


def export(sx, n, k, phi=False, perm=0, length=5, how="write_incon", wild=None, masks=None, data=True):
    import toughio

    mesh = mesh_of(n, length)
    num = Maker(sx, wild)
    vals, got_any = [], []
    for i in range(n):
        row = []
        for j in range(k):
            on = data and bool(sx.choice("set%d%d" % (i, j), [True, False]) if masks is None else masks[i][j])
            row.append(num("v%d%d" % (i, j), 20, 13) if on else None)
        vals.append(row)
    if data:
        for v in [v for r in vals for v in r if v is not None]:
            if v.wild:
                sx.assume(v.x > UNSET)
        sx.assume(any(v is not None for r in vals for v in r))
        mesh.add_cell_data("initial_condition", numpy.array([[UNSET if v is None else v.x for v in r] for r in vals]))
    phis = [None] * n
    if phi:
        phis = [num("phi%d" % i, 15, 9) for i in range(n)]
        mesh.add_cell_data("porosity", numpy.array([v.x for v in phis]))
    perms = [[]] * n
    if perm:
        perms = [[num("k%d%d" % (i, j), 10, 3) for j in range(perm)] for i in range(n)]
        arr = [[v.x for v in r] for r in perms]
        mesh.add_cell_data("permeability", numpy.array([r[0] for r in arr] if perm == 1 else arr))
    if how == "write_incon":
        path = sx.path("INCON")
        mesh.write_incon(path)
    else:
        path = sx.path("INCON")
        mesh.write_tough(sx.path("MESH"), incon=True)
    labels = [str(x) for x in mesh.labels]
    lines = sx.read_file(path).split("\n")
    sx.check(lines[0][:5] == "INCON", "first line is the keyword")
    at = 1
    for i in range(n):
        some = any(v is not None for v in vals[i])
        if not some and not phi and not perm:
            continue
        head = lines[at]
        sx.check(head[:length] == labels[i], "cells in the order of the mesh, the empty ones left out")
        sx.check(not head[length:15].strip(), "nothing between label and porosity")
        field(sx, head[15:30], phis[i], "porosity")
        for j in range(3):
            field(sx, head[30 + 10 * j:40 + 10 * j], perms[i][j] if j < len(perms[i]) else None, "permeability modifier")
        at += 1
        for first in range(0, max(k, 1), 4):
            for j in range(4):
                want = vals[i][first + j] if first + j < k else None
                field(sx, lines[at][20 * j:20 * j + 20], want, "primary variable")
            sx.check(len(lines[at]) <= 80, "no more than four values")
            at += 1
    sx.check(not lines[at].strip(), "ends with a blank record")
    sx.check(not any(x.strip() for x in lines[at:]), "nothing else")


def field(sx, text, want, label):
    got = sx.field(text)
    if want is None:
        sx.check(got is None, label + " left blank")
    elif got is None:
        sx.check(False, label + " lost")
    else:
        number(sx, got, want, label)


def reread(sx, n, k, phi, perm, length):
    """What is exported is what is read."""
    import toughio

    mesh = mesh_of(n, length)
    num = Maker(sx)
    vals = [[num("v%d%d" % (i, j), 20, 13) for j in range(k)] for i in range(n)]
    mesh.add_cell_data("initial_condition", numpy.array([[v.x for v in r] for r in vals]))
    if phi:
        phis = [num("phi%d" % i, 15, 9) for i in range(n)]
        mesh.add_cell_data("porosity", numpy.array([v.x for v in phis]))
    if perm:
        perms = [[num("k%d%d" % (i, j), 10, 3) for j in range(perm)] for i in range(n)]
        mesh.add_cell_data("permeability", numpy.array([[v.x for v in r] for r in perms]))
    path = sx.path("INCON")
    mesh.write_incon(path)
    got = toughio.read_mesh(path, file_format="tough", label_length=length)["initial_conditions"]
    labels = [str(x) for x in mesh.labels]
    sx.check(sorted(got) == sorted(labels), "every cell once")
    for i in range(n):
        e = got[labels[i]]
        sx.check(len(e["values"]) == k, "number of primary variables")
        for j in range(k):
            number(sx, e["values"][j], vals[i][j], "primary variable")
        if phi:
            number(sx, e["porosity"], phis[i], "porosity")
        for j in range(perm):
            number(sx, e["userx"][j], perms[i][j], "permeability modifier")


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(key, fn, **kw):
        out.append(Job(key, fn, kw, budget=240 if not deep else 800))

    for k in (1, 2, 3, 4):
        add("masks-2x%d" % k, export, n=2, k=k, how="write")
    add("masks-3x2", export, n=3, k=2)
    for k in (1, 2, 4):
        add("masks-porosity-1x%d" % k, export, n=2, k=k, phi=True, masks=None if k < 4 or deep else [[1, 0, 1, 1], [0, 0, 0, 0]])
    add("masks-permeability", export, n=2, k=2, perm=3)
    add("masks-permeability1", export, n=2, k=2, perm=1)
    add("masks-both", export, n=2, k=2, phi=True, perm=3, how="write")
    M = [[[1] * 5, [0] * 5], [[0, 1, 0, 0, 1], [1, 0, 0, 0, 0]], [[0, 0, 0, 0, 1], [1, 1, 1, 1, 0]]]
    for i, m in enumerate(M):
        add("five-%d" % i, export, n=2, k=5, masks=m, phi=i == 0)
    for k in (6, 8) if not deep else (5, 6, 7, 8):
        add("masks-1x%d" % k, export, n=1, k=k)
    for w in (6, 7, 8, 9):
        add("label-%d" % w, export, n=2, k=3, masks=[[1, 0, 1], [1, 1, 1]], length=w, phi=True, perm=3)
    for name in ("v00", "v12", "phi1", "k02"):
        add("wild-%s" % name, export, n=2, k=3, masks=[[1, 1, 1], [0, 0, 1]], phi=True, perm=3, wild=name)
    for w in (5, 8):
        for k in (2, 4, 6) if not deep else (1, 2, 3, 4, 5, 6, 7, 8):
            add("reread-%d-%d" % (w, k), reread, n=2, k=k, phi=True, perm=3, length=w)
            add("reread-plain-%d-%d" % (w, k), reread, n=2, k=k, phi=False, perm=0, length=w)
    return out
