"""C32: files are read and written by the functions of their format."""
import os
import shutil
import sys
import tempfile

import numpy

from sx.runner import Job

BOUNDS = (
    "names of files of up to two directories and three dots with extensions of 0 to 6 characters, letters of any case, every digit; "
    "formats given or not, up to three formats registered on top of those of toughio, extensions registered again, formats registered again; "
    "first lines of output files of every kind with any blanks around and any text of up to 4 characters in them; "
    "meshes of one to three blocks with any cell data"
)
OUTSIDE = "formats of meshio (only that they are left to it); names with characters other than letters, digits, dots and slashes"
ASSUMPTIONS = ["letters are those of ASCII"]

LOWER = "abcdefghijklmnopqrstuvwxyz"
LETTERS = LOWER + LOWER.upper() + "0123456789"
BASES = ["name", "dir.csv/name", "a.json", "x.y/.z", "./up.f3grid", "csv", ".hidden"]
KINDS = {
    "input": dict(own={".json": "json"}, default="tough", formats=["tough", "json"]),
    "output": dict(own={".csv": "csv", ".tec": "tecplot"}, default=None, formats=["tough", "csv", "tecplot", "petrasim", "save"]),
    "mesh": dict(own={".dat": "tecplot", ".tec": "tecplot", ".f3grid": "flac3d", ".pickle": "pickle", ".pkl": "pickle"}, default=None,
                 formats=["tough", "tecplot", "flac3d", "pickle", "avsucd"]),
}


class Registry(object):
    """What is registered is put back at the end; whatever is written all the same goes to a scratch directory."""

    def __enter__(self):
        import toughio

        self.cwd, self.tmp = os.getcwd(), tempfile.mkdtemp(prefix="c32")
        os.chdir(self.tmp)
        mods = [sys.modules[f.__module__] for f in (toughio.register_input, toughio.register_output, toughio.register_mesh)]
        self.held = [(v, v.copy()) for m in mods for k, v in list(vars(m).items()) if not k.startswith("__") and type(v) in (dict, list, set)]
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for v, old in self.held:
            v.clear()
            v.extend(old) if isinstance(v, list) else v.update(old)


def functions(kind):
    import toughio

    return {
        "input": (toughio.register_input, toughio.read_input, toughio.write_input),
        "output": (toughio.register_output, toughio.read_output, toughio.write_output),
        "mesh": (toughio.register_mesh, toughio.read_mesh, toughio.write_mesh),
    }[kind]


def recorder(log, name, result):
    """Reader and writer that only note that they were called."""

    def read(filename, *args, **kwargs):
        log.append(("read", name, filename, args, kwargs))
        return result

    def write(filename, *args, **kwargs):
        log.append(("write", name, filename, args, kwargs))

    return read, write


def content(kind):
    """Something to write, and a mesh or other things to be read."""
    import toughio

    if kind == "mesh":
        return toughio.Mesh(numpy.zeros((4, 3)), [("tetra", numpy.array([[0, 1, 2, 3]]))])
    if kind == "output":
        return [toughio.Output("element", "csv", 1.0, numpy.array(["AAA10"]), {"X": numpy.array([1.0])})]
    return {"title": "x"}


def lower(sx, ext, known):
    """Which of the extensions it is, whatever the case."""
    for e in known:
        if len(e) == len(ext) and sx.decide(sx.all_([sx.any_([sx.eq(c, x), sx.eq(c, x.upper())]) for c, x in zip(ext, e)])):
            return e
    return None


def dispatch(sx, kind, n, new, how):
    """Name of a file -> format."""
    register, read, write = functions(kind)
    log, table = [], dict(KINDS[kind]["own"])
    known = list(KINDS[kind]["formats"])
    base = sx.choice("base", BASES)
    ext = sx.text("ext", n, LETTERS) if n else sx.choice("end", ["", "."])
    name = base + ("." + ext if n else ext)
    given = sx.choice("given", [None] + known + (["new0"] if new else [])) if how == "given" else None
    obj = content(kind)
    other = []
    with Registry():
        import meshio

        keep = meshio.read, meshio.write, meshio.Mesh.write
        meshio.read = lambda *a, **k: other.append(("read",) + a) or meshio.Mesh(numpy.zeros((4, 3)), [("tetra", numpy.array([[0, 1, 2, 3]]))])
        meshio.write = lambda *a, **k: other.append(("write", a[0]) + a[2:] + tuple(k.values()))
        meshio.Mesh.write = lambda self, *a, **k: other.append(("write", a[0]) + a[1:] + tuple(k.values()))
        try:
            for f in known:
                register(f, [], *recorder(log, f, obj))
            for i, exts in enumerate(new):
                register("new%d" % i, exts, *recorder(log, "new%d" % i, obj))
                table.update({e: "new%d" % i for e in exts})
            if n:
                short = lower(sx, "." + ext, table)
            else:
                last = base.split("/")[-1]
                short = "." if name[-1] == "." else "." + last.split(".")[-1] if "." in last[1:] else ""
            fmt = given or table.get(short) or KINDS[kind]["default"]
            args = (obj,)
            if kind == "input" and given not in (None, "tough", "json"):
                with sx.raises(ValueError):
                    read(name, file_format=given)
                with sx.raises(ValueError):
                    write(name, *args, file_format=given)
                sx.check(log == [], "nothing read or written")
                return
            if kind != "output":
                got = read(name, file_format=given) if given else read(name)
                if fmt is None:
                    sx.check(len(log) == 0 and len(other) == 1, "format of meshio")
                    sx.check(other[0][:2] == ("read", name), "file read")
                    other[:] = []
                else:
                    sx.check([c[:3] for c in log] == [("read", fmt, name)], "reader of the format")
                    sx.check(got is obj, "what was read")
                    sx.check(other == [], "no other reader")
            log[:] = []
            if fmt is None and kind == "output":
                with sx.raises(Exception):
                    write(name, *args)
                sx.check(log == [], "nothing written")
                return
            write(name, *args, **({"file_format": given} if given else {}))
            if fmt is None:
                sx.check(len(log) == 0 and len(other) == 1 and other[0][:2] == ("write", name), "format of meshio")
            else:
                sx.check([c[:3] for c in log] == [("write", fmt, name)], "writer of the format")
                sx.check(other == [], "no other writer")
                if kind != "mesh" or fmt in ("tough", "pickle"):
                    sx.check(len(log[0][3]) == 1 and log[0][3][0] is obj, "what is written")
            if kind == "mesh":
                log[:], other[:] = [], []
                obj.write(name, **({"file_format": given} if given else {}))
                sx.check([c[:3] for c in log] == ([("write", fmt, name)] if fmt else []), "writer of the format, method")
                sx.check([c[:2] for c in other] == ([] if fmt else [("write", name)]), "format of meshio, method")
                log[:], other[:] = [], []
                obj.write_tough(name)
                sx.check([c[:3] for c in log] == [("write", "tough", name)] and other == [], "TOUGH mesh")
        finally:
            meshio.read, meshio.write, meshio.Mesh.write = keep


EXTRA = {"protocol": 2, "incon": True, "nodal_distance": "orthogonal", "material_name": {"a": "b"}, "material_end": ["c"], "coord": True, "block": "gener",
         "mesh": 1, "title": "t", "binary": False, "ascii": 0}


def options(sx, kind):
    """Options are passed on, and registering again replaces."""
    register, read, write = functions(kind)
    log = []
    obj, alt = content(kind), content(kind)
    a, b = sx.int("a", -1000, 1000), sx.real("b", -1e6, 1e6)
    with Registry():
        register("one", [".aaa", ".bbb"], *recorder(log, "one", obj))
        register("two", [".bbb", ".ccc"], *recorder(log, "two", obj))
        register("half", [".ddd"], *recorder(log, "half", obj)[:1])
        if sx.decide(sx.bool("again")):
            register("one", [".eee"], *recorder(log, "three", alt))
            names = {".aaa": "three", ".bbb": "two", ".ccc": "two", ".eee": "three"}
        else:
            names = {".aaa": "one", ".bbb": "two", ".ccc": "two"}
        for e, n in names.items():
            del log[:]
            if kind != "output":
                more = dict(EXTRA, label_length=7)
                got = read("x" + e, a=a, b=b, **more)
                sx.check([c[:3] for c in log] == [("read", n, "x" + e)], "reader")
                sx.check(others(log[0][4]) == more and log[0][3] == (), "options of the reader")
                sx.check(sx.eq(log[0][4]["a"], a) and sx.eq(log[0][4]["b"], b), "values of options")
                sx.check(got is (alt if n == "three" else obj), "what was read")
                del log[:]
            more = {k: v for k, v in EXTRA.items() if k != "mesh" or kind != "mesh"}
            write("x" + e, obj, a=a, b=b, **more)
            sx.check([c[:3] for c in log] == [("write", n, "x" + e)], "writer")
            sx.check(others(log[0][4]) == more, "options of the writer")
            sx.check(sx.eq(log[0][4]["a"], a) and sx.eq(log[0][4]["b"], b), "values of options")
        if kind == "mesh":
            del log[:]
            obj.write("x.ccc", a=a, b=b, **more)
            sx.check([c[:3] for c in log] == [("write", "two", "x.ccc")] and others(log[0][4]) == more, "options of the method")
            sx.check(sx.eq(log[0][4]["a"], a) and sx.eq(log[0][4]["b"], b), "values of options")
        else:
            del log[:]
            with sx.raises(Exception):
                write("x.ddd", obj)
            sx.check(log == [], "a format without writer")
        for bad in (None, 1, b"x.aaa"):
            with sx.raises(TypeError):
                write(bad, obj)
            with sx.raises(TypeError):
                read(bad)


def others(kw):
    return {k: v for k, v in kw.items() if k not in ("a", "b")} if "a" in kw and "b" in kw else None


def value(sx, name, how):
    return sx.int(name, -10 ** 9, 10 ** 9) if how == "int" else sx.real(name, -1e12, 1e12)


def mesh_data(sx, sizes, dim, key, fmt):
    """Meshes of other formats: data in blocks, key of materials."""
    import toughio

    n = sum(sizes)
    kinds = ["tetra", "hexahedron", "tetra"][:len(sizes)]
    cells = [(k, numpy.array([[(i + j) % 9 for j in range(4 if k == "tetra" else 8)] for i in range(s)])) for k, s in zip(kinds, sizes)]
    cuts = [sum(sizes[:i + 1]) for i in range(len(sizes) - 1)]
    data = numpy.array([[value(sx, "a%d_%d" % (i, j), "real") for j in range(dim)] if dim > 1 else value(sx, "a%d" % i, "real") for i in range(n)])
    mat = numpy.array([sx.int("m%d" % i, 0, 100) for i in range(n)])
    cd = {"a": data, (key or "none"): mat}
    log = []
    with Registry():
        keys = {"material", "gmsh:physical", "medit:ref", "avsucd:material", "flac3d:group", "mine"}
        made = toughio.Mesh(numpy.zeros((9, 3)), cells)
        made.cell_data = {k: numpy.split(v, cuts) for k, v in cd.items()}
        r, w = recorder(log, "own", made)
        toughio.register_mesh("own", [".own"], r, w, material="mine")
        toughio.register_mesh("bare", [".bare"], r, w)
        mesh = toughio.read_mesh("f." + fmt)
        name = "material" if key in keys else (key or "none")
        sx.check(set(mesh.cell_data) == {"a", name}, "names of data")
        if set(mesh.cell_data) != {"a", name}:
            return
        for k, v in (("a", data), (name, mat)):
            g = mesh.cell_data[k]
            sx.check(numpy.shape(g) == numpy.shape(v), "shape")
            if numpy.shape(g) == numpy.shape(v):
                sx.check(sx.all_([sx.eq(x, y) for x, y in zip(numpy.ravel(g), numpy.ravel(v))]), "data of every cell")
        # writing
        mesh = toughio.Mesh(numpy.zeros((9, 3)), cells, cell_data={"a": data, "material": mat})
        old = sx.freeze([list(data), list(mat)])
        del log[:]
        toughio.write_mesh("f." + fmt, mesh)
        sx.check(len(log) == 1 and log[0][:3] == ("write", "own", "f." + fmt), "writer")
        out = log[0][3][0]
        for k, v in (("a", data), ("material", mat)):
            g = out.cell_data[k]
            sx.check([len(b) for b in g] == list(sizes), "blocks")
            if [len(b) for b in g] == list(sizes):
                g = numpy.concatenate(g)
                sx.check(numpy.shape(g) == numpy.shape(v), "shape")
                sx.check(sx.all_([sx.eq(x, y) for x, y in zip(numpy.ravel(g), numpy.ravel(v))]), "data written")
        sx.check(mesh.cell_data["a"] is data and mesh.cell_data["material"] is mat, "mesh keeps its data")
        sx.frozen_same([list(data), list(mat)], old, "mesh unchanged")


LINES = {
    "tough": (["1      @@@@@{}", "\n@@@@@{}"], "element"),
    "save": (["INCON{}", "INCON -- {}"], "element"),
    "tecplot": (['TITLE = "{}"', "VARIABLES={}", "{}=1"], "element"),
    "petrasim": (["TIME,{}", "TIME [sec],{}", "TIME{}"], "element"),
    "csv": (['"ELEM","{}"', "ELEM,{}", '"  ELEM",{}', "ELEM"], "element"),
    "csvc": (['"ELEM1","{}"', "ELEM1 , {}", '"       ELEM1","ELEM2",{}'], "connection"),
    None: (["\n{}", "x{},ELEM", "ELE,{}", "@@@@@", "x{}"], None),
}


def detect(sx, fmt, n):
    """First lines of an output file -> format."""
    import toughio

    lines, kind = LINES[fmt]
    line = sx.choice("line", lines)
    text = sx.text("text", n, LETTERS)
    pad = sx.choice("pad", ["", " ", "   "])
    end = sx.choice("end", ["\n", "  \n", "\nmore\n"])
    whole = line.format(text)
    whole = (whole[0] + pad + whole[1:] if whole[0] == "\n" else pad + whole) + end
    log = []
    conn = bool(sx.decide(sx.bool("connection")))
    order = sx.choice("order", [None, ["AAA10"]])
    path = sx.path("OUT.csv")
    sx.write_file(path, whole)
    real = "csv" if fmt == "csvc" else fmt
    with Registry():
        for f in KINDS["output"]["formats"]:
            toughio.register_output(f, [], *recorder(log, f, f))
        if fmt is None:
            with sx.raises(ValueError):
                toughio.read_output(path)
            sx.check(log == [], "nothing read")
            return
        kw = {"label_length": 6} if sx.decide(sx.bool("length")) else {}
        got = toughio.read_output(path, order, conn, **kw)
        sx.check(len(log) == 1 and log[0][:3] == ("read", real, path), "reader of the format")
        sx.check(got == real, "what was read")
        args = list(log[0][3]) + [log[0][4][k] for k in ("file_type", "file_format", "labels_order") if k in log[0][4]]
        sx.check(args[0] == ("connection" if conn and real == "tough" else kind), "type of data")
        sx.check(args[1] == real and args[2] is order, "format and order of labels")
        if real == "tough":
            sx.check(log[0][4].get("label_length") == kw.get("label_length"), "length of labels")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    b = dict(budget=300 if deep else 60)
    add = lambda job, fn, **kw: J.append(Job(job, fn, kw, **b))
    new = {"input": [(".inp", ".j2"), (".dat", ".json")], "output": [(".out",), (".csv", ".o")], "mesh": [(".msh",), (".dat", ".m2")]}
    for kind in KINDS:
        for n in (0, 1, 2, 3, 4, 5, 6):
            add("%s_ext%d" % (kind, n), dispatch, kind=kind, n=n, new=[], how="name")
            if n < 5:
                add("%s_new_ext%d" % (kind, n), dispatch, kind=kind, n=n, new=new[kind], how="name")
        for n in (0, 3, 4):
            add("%s_given_ext%d" % (kind, n), dispatch, kind=kind, n=n, new=new[kind], how="given")
        add("%s_options" % kind, options, kind=kind)
    for i, (sizes, dim) in enumerate([([2], 1), ([1, 2], 3), ([2, 1, 1], 1)]):
        for key in (None, "material", "gmsh:physical", "medit:ref", "avsucd:material", "flac3d:group", "mine", "other"):
            add("data_%d_%s" % (i, str(key).replace(":", "_")), mesh_data, sizes=sizes, dim=dim, key=key, fmt="own" if i % 2 == 0 else "bare")
    for fmt in LINES:
        for n in (1, 4) if not deep else (1, 2, 4, 6):
            add("detect_%s_%d" % (fmt, n), detect, fmt=fmt, n=n)
    return J
