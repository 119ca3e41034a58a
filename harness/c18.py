"""C18: assigning materials."""
import numpy

from sx.runner import Job

BOUNDS = (
    "three cells with any material numbers from 1 to 6, up to two named materials with any different numbers from 1 to 8, used or not; "
    "sequences of one to three assignments (quick: two with a mask each) of new and existing names to any subset of the cells, as mask "
    "(numpy array or list) or as indices in any order with repetitions"
)
OUTSIDE = "more cells, longer sequences, cells of several blocks (they are numbered through)"
NAMES = ["A", "B"]


def mesh_of(sx, n, named):
    import toughio

    mesh = toughio.meshmaker.structured_grid([1.0] * n, [1.0], [1.0])
    ids = [sx.int("m%d" % i, 1, 6) for i in range(n)]
    mesh.cell_data["material"] = numpy.array(ids)
    nums = [sx.int("f%d" % i, 1, 8) for i in range(named)]
    if named == 2:
        sx.assume(sx.not_(sx.eq(nums[0], nums[1])))
    mesh.field_data = {NAMES[i]: numpy.array([nums[i], 3]) for i in range(named)}
    return mesh, ids, dict(zip(NAMES, nums))


def subset(sx, tag, n):
    return [bool(sx.choice("%s_%d" % (tag, i), [True, False])) for i in range(n)]


def sequence(sx, n, named, names, how):
    mesh, old, nums = mesh_of(sx, n, named)
    last = [None] * n
    for s, (name, h) in enumerate(zip(names, how)):
        if h == "index":
            picks = [sx.choice("i%d_%d" % (s, k), [None] + list(range(n))) for k in range(2)]
            sel = [int(k) for k in picks if k is not None]
            arg = numpy.array(sel) if len(sel) == 2 else sel
        elif h == "reverse":
            mask = subset(sx, "s%d" % s, n)
            sel = [k for k in range(n - 1, -1, -1) if mask[k]]
            arg = sel
        elif h == "none":
            sel, arg = [], []
        else:
            mask = subset(sx, "s%d" % s, n)
            sel = [k for k in range(n) if mask[k]]
            arg = numpy.array(mask) if h == "mask" else mask
        before = list(mesh.field_data)
        mesh.set_material(name, arg)
        for k in sel:
            last[k] = name
        if not sel:
            sx.check(list(mesh.field_data) == before, "assigning to no cell adds no material")
    data = mesh.cell_data["material"]
    sx.check(len(data) == n, "one material per cell")
    fd = mesh.field_data
    for k, v in nums.items():
        sx.check(k in fd and sx.eq(fd[k][0], v), "materials keep their numbers")
    keys = list(fd)
    for a in range(len(keys)):
        for b in range(a):
            sx.check(sx.not_(sx.eq(fd[keys[a]][0], fd[keys[b]][0])), "different materials have different numbers")
    for k in range(n):
        if last[k] is None:
            sx.check(sx.eq(data[k], old[k]), "other cells keep their number")
            for name in keys:
                if name not in nums:
                    sx.check(sx.not_(sx.eq(data[k], fd[name][0])), "other cells keep their material")
        else:
            sx.check(last[k] in fd, "material of the last assignment is named")
            sx.check(sx.eq(data[k], fd[last[k]][0]), "material of the last assignment")


def named(sx, n, how):
    """Names as the mesh reports them."""
    import toughio

    mesh = toughio.meshmaker.structured_grid([1.0] * n, [1.0], [1.0])
    ids = [int(sx.choice("m%d" % i, [1, 2])) for i in range(n)]
    unused = int(sx.choice("u", [3, 5]))
    table = {1: "A", 2: "B", unused: "C"}
    mesh.cell_data["material"] = numpy.array(ids)
    mesh.field_data = {v: numpy.array([k, 3]) for k, v in table.items()}
    want = [table[i] for i in ids]
    for s, name in enumerate(how):
        mask = subset(sx, "s%d" % s, n)
        mesh.set_material(name, numpy.array(mask))
        want = [name if m else w for m, w in zip(mask, want)]
    sx.check([str(x) for x in mesh.materials] == want, "names of the materials")


def bad(sx, n):
    """Cells that are not there are rejected and nothing is changed."""
    mesh, old, nums = mesh_of(sx, n, 1)
    k = int(sx.choice("k", [-2, -1, n, n + 5]))
    with sx.raises(ValueError):
        mesh.set_material("A", [0, k])
    with sx.raises(ValueError):
        mesh.set_material("A", numpy.array([True] * (n + 1)))
    with sx.raises(TypeError):
        mesh.set_material("A", [0.5])
    for i in range(n):
        sx.check(sx.eq(mesh.cell_data["material"][i], old[i]), "nothing changed")


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(key, fn, **kw):
        out.append(Job(key, fn, kw, budget=240 if not deep else 800))

    for f in (0, 1, 2):
        for name in ("A", "NEW"):
            for h in ("mask", "list", "index", "reverse", "none"):
                if f == 2 or h == "mask" or deep:
                    add("one-%d-%s-%s" % (f, name, h), sequence, n=3, named=f, names=[name], how=[h])
    for names in (["NEW", "NEW2"], ["NEW", "A"], ["A", "B"], ["NEW", "NEW"], ["B", "NEW"]):
        add("two-%s" % "-".join(names), sequence, n=3, named=2, names=names, how=["mask", "mask"])
    add("two-index", sequence, n=3, named=1, names=["NEW", "A"], how=["index", "reverse"])
    for names in (["NEW", "A", "NEW2"],) + ((["NEW", "NEW2", "NEW"], ["A", "NEW", "A"]) if deep else ()):
        add("three-%s" % "-".join(names), sequence, n=3 if deep else 2, named=2, names=names, how=["mask", "mask", "mask"])
    add("named", named, n=3, how=["D"])
    add("named-two", named, n=2, how=["D", "C"])
    add("bad", bad, n=3)
    return out
