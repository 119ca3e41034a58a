"""C26: merging input files."""
from sx.runner import Job

BOUNDS = (
    "input files of a title and up to four lines (thorough: five) that begin with any five letters (either case, so any of them may be a "
    "keyword), MESH and INCON files present or not, of up to two lines with any text, with or without a line break at the end of every file, "
    "in the current or in another directory"
)
OUTSIDE = "files that are not text; input files that have the blocks of the extra files already; blocks that are not closed"

KEYS = ["ROCKS", "PARAM", "ENDCY", "ENDFI"]


def is_key(sx, line, keys):
    """Whether a line begins with one of the keywords, in either case."""
    if len(line) < 5:
        return False
    return bool(sx.decide(sx.any_([sx.all_([sx.any_([sx.eq(line[i], c), sx.eq(line[i], c.lower())]) for i, c in enumerate(k)]) for k in keys])))


def files(sx, n, mesh, incon, cut, where, keyed):
    """An input file with n lines after its title."""
    lines = [(sx.choice("title", ["Title", "EndCy"]) if keyed else sx.text("title", 5, dom=LOW)) + " of the problem"]
    for i in range(n):
        k = sx.choice("key%d" % i, KEYS + ["other"]) if keyed else "any"
        if k == "any":
            lines.append(sx.text("line%d" % i, 5, dom=LOW) + "----1")
        elif k == "other":
            lines.append("  12 45%4d" % i if i % 2 else "")
        else:
            lines.append(k + "----1")
    f = {where + "infile": lines}
    if mesh is not None:
        f[where + "MESH"] = ["ELEME----1"] + [sx.text("m%d" % i, 6) + "  data" for i in range(mesh)] + [""]
    if incon is not None:
        f[where + "INCON"] = ["INCON----1"] + [sx.text("i%d" % i, 6) + "  data" for i in range(incon)] + [""]
    for k, v in f.items():
        end = not cut or sx.choice("newline " + k, [True, False])
        if not end and v[-1] == "":
            del v[-1]
        sx.write_file(sx.path(k), "\n".join(v) + ("\n" if end else ""))
    return f


LOW = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def lines_of(text):
    out = text.split("\n")
    return out[:-1] if out[-1] == "" else out


def merge(sx, n, mesh, incon, cut=False, keyed=False):
    from toughio._cli import merge as run

    f = files(sx, n, mesh, incon, cut, "", keyed)
    src = f["infile"]
    out = sx.path("outfile")
    has = [any(is_key(sx, l, [k]) for l in src) for k in ("ROCKS", "PARAM")]
    ends = [i for i, l in enumerate(src) if i and is_key(sx, l, ["ENDCY", "ENDFI"])]
    if mesh is None or not all(has) or not ends:
        with sx.raises(ValueError):
            run([sx.path("infile"), out])
        sx.check(not sx.exists(out), "nothing is written")
        return
    run([sx.path("infile"), out])
    extra = f["MESH"] + (f["INCON"] if incon is not None else [])
    want = src[:ends[0]] + extra + src[ends[0]:]
    got = lines_of(sx.read_file(out))
    sx.check(len(got) == len(want), "number of lines")
    if len(got) == len(want):
        for a, b in zip(got, want):
            sx.check(sx.eq(a, b), "lines in their place")
    for k in f:
        now = lines_of(sx.read_file(sx.path(k)))
        sx.check(len(now) == len(f[k]) and sx.all_([sx.eq(a, b) for a, b in zip(now, f[k])]), "sources unchanged")


def bad(sx, what):
    """Extra files that do not begin with their block; no input file."""
    from toughio._cli import merge as run

    f = files(sx, 0, 1, 1, False, "", False)
    sx.write_file(sx.path("infile"), "title\nROCKS\nPARAM\nENDCY\n")
    if what == "infile":
        with sx.raises(ValueError):
            run([sx.path("missing"), sx.path("outfile")])
    else:
        first = sx.text("first", 5)
        sx.assume(sx.not_(sx.eq(first, "ELEME" if what == "MESH" else "INCON")))
        sx.write_file(sx.path(what), first + "----1\n" + ("ELEME\n\n" if what == "MESH" else "INCON\n\n"))
        with sx.raises(ValueError):
            run([sx.path("infile"), sx.path("outfile")])
    sx.check(not sx.exists(sx.path("outfile")), "nothing is written")


def over(sx):
    """The merged file may replace the input file."""
    from toughio._cli import merge as run

    f = files(sx, 0, 2, 1, False, "", False)
    x = sx.text("x", 5, dom="0123456789 ")
    sx.write_file(sx.path("infile"), "title\nROCKS\n" + x + " \nPARAM\nENDCY\n")
    run([sx.path("infile"), sx.path("infile")])
    got = lines_of(sx.read_file(sx.path("infile")))
    want = ["title", "ROCKS", x + " ", "PARAM"] + f["MESH"] + f["INCON"] + ["ENDCY"]
    sx.check(len(got) == len(want), "number of lines")
    for a, b in zip(got, want):
        sx.check(sx.eq(a, b), "lines in their place")


def jobs(tier):
    thorough = tier == "thorough"
    J = []
    for n in (2, 3) + ((4,) if thorough else ()):
        J.append(Job("any_%d" % n, merge, {"n": n, "mesh": 1, "incon": 1}, budget=600 if thorough else 200))
    for m, i in ((1, None), (None, 1), (None, None), (2, 0), (0, 2)):
        J.append(Job("files_%s_%s" % (m, i), merge, {"n": 3, "mesh": m, "incon": i, "keyed": True}, budget=200))
    J.append(Job("keyed", merge, {"n": 5 if thorough else 4, "mesh": 1, "incon": 1, "keyed": True}, budget=600 if thorough else 200))
    J.append(Job("cut", merge, {"n": 3, "mesh": 1, "incon": 1, "cut": True, "keyed": True}, budget=200))
    for w in ("infile", "MESH", "INCON"):
        J.append(Job("bad_" + w, bad, {"what": w}))
    J.append(Job("over", over, {}))
    return J
