"""C30: readers terminate on truncated files."""
import numpy

from sx.runner import Job

BOUNDS = (
    "small files of every format read by toughio itself (TOUGH input, MESH, INCON and GENER files, JSON, listings, SAVE, CSV, PetraSim and Tecplot "
    "outputs, history files, AVS-UCD, FLAC3D text and binary, and Tecplot meshes), cut after any line with the beginning of another line "
    "of up to three characters (thorough: four) of any kind after it, and cut after any character (quick: every third or seventh character)"
)
OUTSIDE = "meshes read by meshio; pickled meshes; larger files; more than 2000 attempts to read at the end, or 8 s of computing, count as not ending"
ASSUMPTIONS = []
GRACE = 4
REPLAY_S = 8

PRINT = "".join(chr(c) for c in range(32, 127))


# -- files -------------------------------------------------------------------------------------

def make_input(sx, p):
    import toughio

    par = {
        "title": "Title", "eos": "eco2n", "n_component": 3, "n_phase": 3, "isothermal": False,
        "rocks": {"rock1": {"density": 2600.0, "porosity": 0.1, "permeability": [1e-15, 1e-15, 2e-15], "conductivity": 2.0, "specific_heat": 1000.0,
                            "compressibility": 1e-9, "relative_permeability": {"id": 3, "parameters": [0.3, 0.05]}, "capillarity": {"id": 1, "parameters": [0.0, 1.0, 2.0]}}},
        "options": {"n_cycle": 10, "t_ini": 0.0, "t_max": 1e6, "t_steps": [1.0, 2.0], "gravity": 9.81, "eps1": 1e-5},
        "extra_options": {1: 1, 16: 4}, "more_options": {1: 2},
        "selections": {"integers": {1: 1}, "floats": [[0.5, 0.25]]},
        "solver": {"method": 3, "z_precond": "Z1", "o_precond": "O0", "rel_iter_max": 0.1, "eps": 1e-7},
        "times": [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0],
        "generators": {"AAA10": {"type": "COM1", "name": "WEL 1", "times": [0.0, 1.0, 2.0, 3.0, 4.0], "rates": [1.0, 2.0, 3.0, 4.0, 5.0], "specific_enthalpy": [1.0, 2.0, 3.0, 4.0, 5.0]}},
        "diffusion": [[1e-5, 1e-5, 1e-5], [2e-5, 2e-5, 2e-5], [1e-6, 1e-6, 1e-6]],
        "element_history": ["AAA10"], "connection_history": ["AAA10AAA11"], "generator_history": ["AAA10"],
        "default": {"initial_condition": [1e5, 0.0, 20.0]},
        "output": {"format": "csv", "print_interval": 10, "variables": {"saturation": [1], "mass fraction": [1, 2]}},
        "elements": {"AAA10": {"material": "rock1", "volume": 1.0, "center": [0.5, 0.5, -0.5]}, "AAA11": {"material": "rock1", "volume": 1.0, "center": [1.5, 0.5, -0.5]}},
        "connections": {"AAA10AAA11": {"permeability_direction": 1, "nodal_distances": [0.5, 0.5], "interface_area": 1.0, "gravity_cosine_angle": 0.0}},
        "initial_conditions": {"AAA10": {"porosity": 0.1, "values": [1e5, 0.0, 20.0]}, "AAA11": {"porosity": 0.1, "values": [1e5, 0.0, 20.0], "userx": [1.0, 2.0]}},
    }
    par["rocks"]["rock1"]["initial_condition"] = [1e5, 0.0, 20.0]
    return par


def tough(what):
    def make(sx, p):
        import toughio

        par = make_input(sx, p)
        if what == "blocks":
            for k in ("elements", "connections", "initial_conditions"):
                del par[k]
        if what == "wells":
            par = {k: par[k] for k in ("title", "generators", "times", "diffusion", "n_component", "n_phase", "eos", "isothermal")}
        if what in ("mesh", "incon", "gener"):
            toughio.write_input(p, par, block=what)
        else:
            toughio.write_input(p, par)

    return make, lambda p: __import__("toughio").read_input(p, file_format="tough")


def listing(connection):
    def make(sx, p):
        at = " " + "@" * 30 + "\n"
        key = " ELEM1 ELEM2  INDEX " if connection else " ELEM.  INDEX "
        txt = "\n" + at
        for s in range(2):
            txt += at + "\n TOTAL TIME\n  %.5E\n" % (s + 1) + at + "\n" + key + " P  T\n            (PA)\n\n"
            for i in range(2):
                txt += "  AAA1%d" % i + ("  AAA2%d" % i if connection else "") + "%6d" % (i + 1) + " 1.00000E+05-2.00000E+00\n"
            txt += "\n" + at
        sx.write_file(p, txt)

    return make, lambda p: __import__("toughio").read_output(p, connection=connection)


def saved(sx, p):
    import toughio

    inc = make_input(sx, p)["initial_conditions"]
    toughio.write_input(p, {"initial_conditions": inc}, block="incon")
    txt = sx.read_file(p)
    sx.write_file(p, "INCON -- 2 ELEMENTS AT TIME  0.1E+01\n" + txt[txt.index("INCON"):].split("\n", 1)[1].rstrip() + "\n+++\n    1    1\n")


def table(fmt, kind="element"):
    def make(sx, p):
        import toughio
        from toughio._io.output._common import Output

        lab = ["AAA10", "AAA11"] if kind == "element" else [["AAA10", "AAA11"], ["AAA11", "AAA12"]]
        outs = [Output(kind, fmt, float(s + 1), numpy.array(lab), {k: numpy.array([1.0 + s, 2.0]) for k in ("X", "Y", "Z", "P")}) for s in range(2)]
        toughio.write_output(p, outs, file_format=fmt)

    return make, lambda p: __import__("toughio").read_output(p)


def history(quoted):
    def make(sx, p):
        sep = "," if quoted else " "
        head = sep.join(('"%s"' if quoted else "%s") % c for c in ("TIME", "P", "T"))
        sx.write_file(p, head + "\n" + "".join(sep.join("%.4e" % (i + k) for k in range(3)) + "\n" for i in range(3)))

    return make, lambda p: __import__("toughio").read_history(p)


def mesh(fmt, **kw):
    def make(sx, p):
        import toughio

        m = toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0])
        m.add_cell_data("a", numpy.array([1.5, 2.5]))
        m.add_point_data("b", numpy.arange(len(m.points)) * 1.0)
        m.write(p, file_format=fmt, **kw)

    return make, lambda p: __import__("toughio").read_mesh(p, file_format=fmt)


def points(fmt):
    """Tecplot files by points."""
    def make(sx, p):
        head = 'TITLE = "T"\nVARIABLES = "X", "Y", "Z", "P"\n'
        zone = "ZONE N=4, E=1, F=FEPOINT\n, ET=TETRAHEDRON\n" if fmt == 1 else "ZONE NODES=4, ELEMENTS=1, DATAPACKING=POINT, ZONETYPE=FETETRAHEDRON\n"
        sx.write_file(p, head + zone + "0.0 0.0 0.0 1.0\n1.0 0.0 0.0 2.0\n0.0 1.0 0.0 3.0\n0.0 0.0 1.0 4.0\n1 2 3 4\n")

    return make, lambda p: __import__("toughio").read_mesh(p, file_format="tecplot")


def write_json(sx, p):
    import toughio

    par = make_input(sx, p)
    toughio.write_input(p, {k: par[k] for k in ("title", "rocks", "times", "elements")}, file_format="json")


FILES = {
    "all": tough("all"), "blocks": tough("blocks"), "wells": tough("wells"), "mesh": tough("mesh"), "incon": tough("incon"), "gener": tough("gener"),
    "listing": listing(False), "listing_conne": listing(True),
    "save": (saved, lambda p: __import__("toughio").read_output(p)),
    "csv": table("csv"), "csv_conne": table("csv", "connection"), "petrasim": table("petrasim"), "tecplot": table("tecplot"),
    "history": history(False), "history_quoted": history(True),
    "avsucd": mesh("avsucd"), "tec_mesh": mesh("tecplot"), "tec_points": points(1), "tec_points2": points(2),
    "flac3d": mesh("flac3d"), "json": (write_json, lambda p: __import__("toughio").read_input(p, file_format="json")),
}


MESHES = {"avsucd", "tec_mesh", "tec_points", "tec_points2", "flac3d"}


def text_of(sx, what):
    p = sx.path("whole")
    FILES[what][0](sx, p)
    return sx.read_file(p)


def start(sx, what, tail, part, of):
    """The first lines of the file and the beginning of another line."""
    text = text_of(sx, what)
    lines = text.split("\n")
    n = len(lines)
    k = sx.choice("lines", list(range(part, n, of)))
    m = sx.choice("tail", list(range(tail + 1)))
    rest = sx.text("rest%d" % m, m, dom=PRINT) if m else ""
    p = sx.path("cut")
    sx.write_file(p, "".join(l + "\n" for l in lines[:k]) + rest)
    got, ended = sx.terminates(lambda: FILES[what][1](p))
    if ended and k and not m and what not in MESHES:
        q = sx.path("whole")
        sx.check(part_of(got, FILES[what][1](q)), "what is read is part of the whole")


def part_of(a, b):
    """What was read of the beginning of a file agrees with the whole file."""
    if isinstance(a, dict):
        return isinstance(b, dict) and all(k in b and part_of(v, b[k]) for k, v in a.items())
    if isinstance(a, tuple) and hasattr(a, "_fields"):
        return a.labels is not None and numpy.size(a.labels) == 0 or all(part_of(x, y) for x, y in zip(a, b))
    if isinstance(a, numpy.ndarray) and a.ndim == 0:
        return a == b
    if isinstance(a, (list, tuple, numpy.ndarray)):
        return len(a) <= len(b) and all(part_of(x, y) for x, y in zip(a, b))
    return bool(a == b) or (a != a and b != b)


def cut(sx, what, step, part=0, of=1):
    """Cut after any character."""
    text = text_of(sx, what)
    k = sx.choice("cut", list(range(part * step, len(text), step * of)))
    p = sx.path("cut")
    sx.write_file(p, text[:k])
    sx.terminates(lambda: FILES[what][1](p))


def binary(sx, step):
    import toughio

    p, q = sx.path("whole"), sx.path("cut")
    FILES["flac3d"][0](sx, p)
    m = toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0])
    m.write(p, file_format="flac3d", binary=True)
    data = sx.read_bytes(p)
    k = sx.choice("cut", list(range(0, len(data), step)))
    sx.write_bytes(q, data[:k])
    sx.terminates(lambda: toughio.read_mesh(q, file_format="flac3d"))


def jobs(tier):
    thorough = tier == "thorough"
    J = []
    for what in FILES:
        parts = 6 if what == "all" else 3 if what in ("blocks", "wells") else 1
        for i in range(parts):
            J.append(Job("start_%s%s" % (what, i if parts > 1 else ""), start, {"what": what, "tail": 4 if thorough else 3, "part": i, "of": parts}, budget=600 if thorough else 100))
        step, of = 1 if thorough else 7 if what == "all" else 3, 8 if what == "all" and thorough else parts
        for i in range(of):
            J.append(Job("cut_%s%s" % (what, i if of > 1 else ""), cut, {"what": what, "step": step, "part": i, "of": of}, budget=600 if thorough else 100))
    J.append(Job("cut_binary", binary, {"step": 1 if thorough else 3}, budget=600 if thorough else 100))
    return J
