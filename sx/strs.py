"""Symbolic characters inside ordinary Python strings.

A symbolic character is a private-use code point (planes 15 and 16) that a
per-path registry maps to a z3 integer (its character code) with a finite
domain.  Operations that only move characters (slicing, joining, formatting,
files, numpy unicode arrays) therefore run natively; operations that inspect
characters are modelled here and fork the path where the answer depends on a
symbolic character.

The text of a formatted symbolic number is a run of such characters tied to a
token, so that reading back exactly that run yields the number as it was
rounded by the format.
"""
import re
from fractions import Fraction

import re

import z3

from .core import ST, SymNum, PathAbort, Unsupported, lift, const_of, mk_bool, _to_real
from .arith import P10

BASE = 0xF0000
LAST = 0x10FFFD
WS = frozenset(ord(c) for c in " \t\n\r\x0b\x0c")
DIG = frozenset(range(48, 58))
SP = 32


class Char:
    __slots__ = ("dom", "var", "tok", "idx", "pad", "ghost", "const")

    def __init__(self, dom, tok=None, idx=None, pad=False, ghost=None):
        self.dom = frozenset(dom)
        self.var = None
        self.tok = tok
        self.idx = idx
        self.pad = pad        # may be a blank in front of a number
        self.ghost = ghost    # code whose blank outcome means "absent"


class Token:
    """A formatted symbolic number."""

    __slots__ = ("x", "kind", "prec", "codes", "spec", "material", "neg", "exp3", "width")

    def __init__(self, x, kind, prec, spec):
        self.x = x
        self.kind = kind      # 'int' | 'e' | 'f' | 'opaque'
        self.prec = prec
        self.spec = spec
        self.codes = []
        self.material = False
        self.exp3 = None


class Registry:
    def __init__(self):
        self.chars = []

    def new(self, *a, **k):
        ch = Char(*a, **k)
        self.chars.append(ch)
        code = BASE + len(self.chars) - 1
        if code > LAST:
            raise PathAbort("too many symbolic characters")
        return chr(code)

    def get(self, c):
        o = ord(c)
        if o < BASE:
            return None
        i = o - BASE
        return self.chars[i] if i < len(self.chars) else None


def has_sym(s):
    return not s.isascii() and max(s) >= "\U000F0000"


def reg():
    return ST.path.strs


def dom(c):
    ch = reg().get(c)
    if ch is None:
        return frozenset((ord(c),))
    if ch.ghost is not None:
        return reg().get(ch.ghost).dom
    return ch.dom


def cvar(c):
    """z3 integer term of a character (asserting its domain on first use)."""
    ch = reg().get(c)
    if ch is None:
        return z3.IntVal(ord(c))
    if ch.ghost is not None:
        return cvar(ch.ghost)
    if ch.var is None:
        if ch.tok is not None:
            materialise(ch.tok)
        if ch.var is None:
            ch.var = ST.path.int_var("c")
            ST.path.add(in_dom(ch.var, ch.dom))
    return ch.var


def in_dom(v, d):
    d = sorted(d)
    if not d:
        return z3.BoolVal(False)
    runs, lo, prev = [], d[0], d[0]
    for x in d[1:] + [None]:
        if x is not None and x == prev + 1:
            prev = x
            continue
        runs.append(v == lo if lo == prev else z3.And(v >= lo, v <= prev))
        lo = prev = x
    return z3.Or(*runs) if len(runs) > 1 else runs[0]


def narrow(c, d):
    ch = reg().get(c)
    if ch is None:
        return
    if ch.ghost is not None:
        ch = reg().get(ch.ghost)
    ch.dom = ch.dom & d if d is not None else ch.dom


def test(c, cls):
    """Is character c in the set cls of code points?  Forks if undetermined."""
    d = dom(c)
    if d <= cls:
        return True
    if not (d & cls):
        return False
    r = ST.path.decide(in_dom(cvar(c), d & cls))
    narrow(c, cls if r else d - cls)
    return r


def fresh_char(domain):
    return reg().new(domain)


def is_ghost(c):
    ch = reg().get(c)
    return ch is not None and ch.ghost is not None


def has_ghost(s):
    return has_sym(s) and any(is_ghost(c) for c in s if c >= "\U000F0000")


def resolve(s):
    """Decide the ghost characters of a string."""
    if not has_ghost(s):
        return s
    out = []
    for c in s:
        ch = reg().get(c)
        if ch is not None and ch.ghost is not None:
            if not test(ch.ghost and chr_of(ch.ghost), frozenset((SP,))):
                out.append(ch.ghost)
        else:
            out.append(c)
    return "".join(out)


def chr_of(c):
    return c


# -- number formatting -------------------------------------------------------------------

_SPEC = re.compile(
    r"^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?"
    r"(?P<comma>,)?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$"
)


def format_num(x, spec):
    m = _SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    g = m.groupdict()
    width = int(g["width"]) if g["width"] else 0
    typ = g["type"] or ""
    align = g["align"] or ">"
    c = const_of(z3.simplify(x.e))
    if c is not None:
        return format(int(c) if x.kind == "int" else float(c), spec)
    simple = not (g["fill"] not in (None, " ") or g["sign"] or g["alt"] or g["comma"])
    if not simple or (g["zero"] and x.kind != "int"):
        return format(_conc(x), spec)
    if x.kind == "int":
        if spec in ("", "d", ">d") and ST.path.plain_numbers:
            return opaque(x, spec)
        if typ in ("", "d", "n") or (typ == "g" and (g["prec"] is None or int(g["prec"]) >= 6)):
            if typ == "g" and not ST.path.decide(z3.And(x.e < 1000000, x.e > -1000000)):
                return format(_conc(x), spec)
            return fmt_int(x, width, align, spec, zero=bool(g["zero"]))
        if typ == "e" or typ == "E":
            return fmt_e(x.to_real(), width, align, int(g["prec"] or 6), typ)
        return format(_conc(x), spec)
    if typ in ("d", "x", "o", "b", "c", "n"):
        raise ValueError("Unknown format code '%s' for object of type 'float'" % typ)
    if typ in ("e", "E") and not width and ST.path.plain_numbers:
        return opaque(x, spec, int(g["prec"]) if g["prec"] is not None else 6)
    if typ in ("g", "G", "f", "F") and not width and ST.path.plain_numbers and x.kind == "real":
        n = int(g["prec"]) if g["prec"] is not None else 6
        return opaque(x, spec, ("abs", n) if typ in "fF" else max(n, 1) - 1)
    if typ in ("e", "E"):
        return fmt_e(x, width, align, int(g["prec"]) if g["prec"] is not None else 6, typ)
    if typ in ("", "r") and not width and g["prec"] is None:
        return opaque(x, spec)
    if typ in ("f", "F", "g", "G", "") :
        return format(_conc(x), spec)
    return format(_conc(x), spec)


def opaque(x, spec, prec=None):
    """Text of a number as one unit."""
    t = Token(x, "opaque", prec, spec)
    code = reg().new(frozenset(b"0123456789.e+-"), tok=t, idx=0)
    t.codes = [code]
    return code


def _conc(x):
    v = ST.path.concretise(x.e, "number formatted with an unmodelled format")
    return int(v) if x.kind == "int" else float(v)


def fmt_int(x, width, align, spec, zero=False):
    p = ST.path
    e = x.e
    # fits in the field?
    if width and align == ">" and not zero:
        if p.decide(z3.And(e < 10 ** width, e > -(10 ** (width - 1)))):
            t = Token(x, "int", None, spec)
            for i in range(width):
                last = i == width - 1
                d = DIG if last else (DIG | {SP, 45} if i < width - 1 else DIG)
                t.codes.append(reg().new(d, tok=t, idx=i, pad=not last))
            t.width = width
            return "".join(t.codes)
    # exact number of characters, by case split
    neg = p.decide(e < 0)
    a = -e if neg else e
    n = 1
    while p.decide(a >= 10 ** n):
        n += 1
        if n > 20:
            raise PathAbort("integer with more than 20 digits")
    t = Token(x, "int", None, spec)
    for i in range(n):
        t.codes.append(reg().new(DIG, tok=t, idx=i))
    t.width = n
    if neg:
        t.codes = ["-"] + t.codes
        t.spec = "neg"
    body = "".join(t.codes)
    if zero and len(body) < width:
        body = ("-" if neg else "") + "0" * (width - len(body)) + "".join(t.codes[1:] if neg else t.codes)
        return body
    if len(body) < width:
        padn = width - len(body)
        body = body + " " * padn if align == "<" else (
            " " * padn + body if align == ">" else " " * (padn // 2) + body + " " * (padn - padn // 2))
    return body


MAXR = Fraction(10) ** 308
MINR = Fraction(1, 10 ** 306)


def fmt_e(x, width, align, prec, typ):
    """'{:>W.Pe}' of a symbolic real."""
    p = ST.path
    e = _to_real(x.e)
    base = 1 + (1 + prec if prec else 0) + 4
    hi = (Fraction(10) - Fraction(5, 10 ** (prec + 1))) * 10 ** 99
    lo = (Fraction(1) - Fraction(5, 10 ** (prec + 2))) / 10 ** 99
    exp3 = z3.Or(e >= z3.RealVal(hi), e <= z3.RealVal(-hi),
                 z3.And(e != 0, e < z3.RealVal(lo), e > z3.RealVal(-lo)))
    # (geometry mode: numbers in texts keep their value and two-digit exponents)
    is3 = False if p.geo else p.decide(exp3)
    n = base + (1 if is3 else 0)
    t = Token(x, "e", prec, typ)
    t.exp3 = is3
    certain_len = width >= n + 1 and align == ">"
    lead, signs = "", []
    if certain_len:
        lead = " " * (width - n - 1)
        signs = [reg().new({SP, 45}, tok=t, idx=0, pad=True)]
        if p._model_says(e < 0) is not None or True:
            pass
    else:
        if p.decide(e < 0):
            signs = [reg().new({45}, tok=t, idx=0)]
    t.codes = list(signs)
    k = len(signs)

    def put(d):
        t.codes.append(reg().new(d, tok=t, idx=len(t.codes)))

    put(DIG)
    if prec:
        put({46})
        for _ in range(prec):
            put(DIG)
    put({ord(typ)})
    put({43, 45})
    for _ in range(3 if is3 else 2):
        put(DIG)
    body = lead + "".join(t.codes)
    if len(body) < width:
        padn = width - len(body)
        body = body + " " * padn if align == "<" else (
            " " * padn + body if align == ">" else " " * (padn // 2) + body + " " * (padn - padn // 2))
    return body


def rounded(x, prec):
    """The value read back from '{:.Pe}' of x: a function of x with |r - x| <= 0.5 10^-P |x|."""
    p = ST.path
    if p.geo:
        return SymNum(_to_real(x.e))
    e = z3.simplify(_to_real(x.e))
    if isinstance(prec, tuple):
        # a fixed number of decimals
        key = ("rnd", prec, e.get_id())
        if key not in p.cache:
            k = p.int_var("dec")
            r = z3.ToReal(k) / z3.RealVal(10 ** prec[1])
            h = z3.RealVal(Fraction(1, 2 * 10 ** prec[1]))
            p.add(z3.And(r - e <= h, e - r <= h))
            p.cache[key] = (SymNum(r), e)
        return p.cache[key][0]
    key = ("rnd", prec, e.get_id())
    if key in p.cache:
        return p.cache[key][0]
    r = p.real_var("rnd%d" % prec)
    h = z3.RealVal(Fraction(1, 2 * 10 ** prec))
    p.add(z3.If(e >= 0,
                z3.And(r >= 0, r - e <= h * e, e - r <= h * e),
                z3.And(r <= 0, r - e <= -h * e, e - r <= -h * e)))
    # the rounded value is a fixed point of the same rounding
    out = SymNum(r)
    p.cache[key] = (out, e)
    p.cache[("rnd", prec, r.get_id())] = (out, r)
    return out


def materialise(t):
    """Create the z3 characters of a token."""
    if t.material:
        return
    t.material = True
    p = ST.path
    r = reg()
    codes = [c for c in t.codes if r.get(c) is not None]
    chars = [r.get(c) for c in codes]
    for ch in chars:
        ch.var = p.int_var("c")
        p.add(in_dom(ch.var, ch.dom))
    if t.kind == "int":
        e = t.x.e
        w = len(chars)
        if t.spec == "neg":
            e = -e
            _digits(chars, e)
        elif not chars[0].pad or w == 1:
            _digits(chars, e)
        else:
            alts = []
            for neg in (False, True):
                a = -e if neg else e
                for n in range(1, w + (0 if neg else 1)):
                    lo = 10 ** (n - 1) if n > 1 else (1 if neg else 0)
                    cs = [a >= lo, a < 10 ** n]
                    start = w - n
                    for i in range(start - (1 if neg else 0)):
                        cs.append(chars[i].var == SP)
                    if neg:
                        cs.append(chars[start - 1].var == 45)
                    val = z3.IntVal(0)
                    for ch in chars[start:]:
                        cs.append(z3.And(ch.var >= 48, ch.var <= 57))
                        val = val * 10 + (ch.var - 48)
                    cs.append(val == a)
                    alts.append(z3.And(*cs))
            p.add(z3.Or(*alts))
    elif t.kind == "e":
        e = _to_real(t.x.e)
        if chars[0].pad:
            p.add((chars[0].var == 45) == (e < 0))
        # digits and exponent are left unconstrained (over-approximation); a use of
        # them outside a whole-token read concretises the number instead.


def _digits(chars, a):
    val = z3.IntVal(0)
    for ch in chars:
        val = val * 10 + (ch.var - 48)
    ST.path.add(val == a)


def token_text_value(t):
    """Exact text of a token after concretising its number."""
    v = ST.path.concretise(t.x.e, "torn number text")
    n = len(t.codes)
    if t.kind == "opaque":
        if t.prec is not None:
            return format(float(v), t.spec.replace(">", ""))
        return repr(int(v) if t.x.kind == "int" else float(v))
    if t.kind == "int":
        s = str(int(v))
        return s.rjust(n)
    s = ("%%.%d%s" % (t.prec, t.spec)) % float(v)
    return s.rjust(n)


def concretise_str(s, why="string inspected by unmodelled code"):
    """A concrete string feasible on this path (under-approximation, recorded)."""
    if not has_sym(s):
        return s
    p = ST.path
    out = []
    for c in s:
        ch = reg().get(c)
        if ch is None:
            out.append(c)
            continue
        ghost = ch.ghost is not None
        if ghost:
            c = ch.ghost
            ch = reg().get(c)
        if ch.tok is not None:
            t = ch.tok
            if t.kind == "opaque":
                out.append(token_text_value(t))
                continue
            txt = token_text_value(t)
            k = t.codes.index(c)
            o = txt[k] if len(txt) == len(t.codes) else None
            if o is None:
                raise PathAbort("torn number changed its length")
        else:
            o = chr(int(p.concretise(cvar(c), why)))
        if ghost and o == " ":
            continue
        out.append(o)
    return "".join(out)


# -- predicates and comparisons ---------------------------------------------------------------

def eq_expr(a, b):
    """z3 Bool (or bool) for equality of two resolved strings."""
    if len(a) != len(b):
        if has_opaque(a) or has_opaque(b):
            return None
        return False
    cs = []
    for x, y in zip(a, b):
        if x == y:
            continue
        dx, dy = dom(x), dom(y)
        if not (dx & dy):
            return False
        cs.append((x, y))
    if not cs:
        return True
    if has_opaque(a) or has_opaque(b):
        return None
    return z3.And(*[cvar(x) == cvar(y) for x, y in cs])


def has_opaque(s):
    if not has_sym(s):
        return False
    for c in s:
        ch = reg().get(c)
        if ch is not None and ch.tok is not None and ch.tok.kind == "opaque":
            return True
    return False


def eq(a, b):
    a, b = resolve(a), resolve(b)
    e = eq_expr(a, b)
    if e is None:
        return concretise_str(a) == concretise_str(b)
    if isinstance(e, bool):
        return e
    r = ST.path.decide(e)
    if r:
        for x, y in zip(a, b):
            d = dom(x) & dom(y)
            narrow(x, d)
            narrow(y, d)
    return r


def lt(a, b):
    """a < b lexicographically."""
    a, b = resolve(a), resolve(b)
    if has_opaque(a) or has_opaque(b):
        return concretise_str(a) < concretise_str(b)
    for x, y in zip(a, b):
        if x == y:
            continue
        vx, vy = cvar(x), cvar(y)
        if ST.path.decide(vx == vy):
            continue
        return ST.path.decide(vx < vy)
    return len(a) < len(b)


def startswith(s, p, *a):
    if a:
        s = getitem(s, slice(*a))
    if isinstance(p, tuple):
        return any(startswith(s, q) for q in p)
    s, p = resolve(s), resolve(p)
    if len(p) > len(s) and not has_opaque(s):
        return False
    return eq(s[: len(p)], p)


def endswith(s, p, *a):
    if a:
        s = getitem(s, slice(*a))
    if isinstance(p, tuple):
        return any(endswith(s, q) for q in p)
    s, p = resolve(s), resolve(p)
    if not p:
        return True
    if len(p) > len(s):
        return False
    return eq(s[-len(p):], p)


def find(s, sub, start=0, end=None, rev=False):
    s, sub = resolve(s), resolve(sub)
    if has_opaque(s):
        # an opaque number contains only number characters
        if has_sym(sub) or any(ord(c) in b"0123456789.e+-ainf" for c in sub):
            s = concretise_str(s)
    end = len(s) if end is None else end
    rng = range(start, min(end, len(s)) - len(sub) + 1)
    for i in (reversed(rng) if rev else rng):
        if eq(s[i: i + len(sub)], sub):
            return i
    return -1


def contains(s, sub):
    if isinstance(sub, str) and not sub:
        return True
    return find(s, sub) >= 0


def strip(s, chars=None, left=True, right=True):
    cls = WS if chars is None else frozenset(ord(c) for c in chars)
    n = len(s)
    i, j = 0, n
    ghosts = set()
    if left:
        while i < j:
            c = s[i]
            if is_ghost(c):
                if SP in cls:
                    k = i + 1
                    # keep the ghost; what follows decides
                    ghosts.add(i)
                    i2 = k
                    # look past ghosts
                    i = i2
                    continue
                break
            d = dom(c)
            if d <= cls:
                if ghosts:
                    # ghost then blank: the ghost must be decided
                    return strip(resolve(s), chars, left, right)
                i += 1
                continue
            if not (d & cls):
                break
            ch = reg().get(c)
            if ch is not None and ch.pad and SP in cls and (d & cls) == frozenset((SP,)):
                ghosts.add(i)
                i += 1
                continue
            if test(c, cls):
                if ghosts:
                    return strip(resolve(s), chars, left, right)
                i += 1
                continue
            break
        first = min(ghosts) if ghosts else i
    else:
        first = 0
    if right:
        while j > i:
            c = s[j - 1]
            d = dom(c)
            if is_ghost(c):
                return strip(resolve(s), chars, left, right)
            if d <= cls:
                j -= 1
                continue
            if not (d & cls):
                break
            if test(c, cls):
                j -= 1
                continue
            break
    if ghosts:
        out = []
        for k in range(first, j):
            c = s[k]
            if k in ghosts and not is_ghost(c):
                g = reg().new(frozenset(), ghost=c)
                out.append(g)
            else:
                out.append(c)
        return "".join(out)
    return s[first:j]


def split(s, sep=None, maxsplit=-1):
    if sep is not None:
        s = resolve(s)
        if has_opaque(s) and (has_sym(sep) or any(ord(c) in b"0123456789.e+-" for c in sep)):
            s = concretise_str(s)
        out, cur, i = [], 0, 0
        while i + len(sep) <= len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if eq(s[i: i + len(sep)], sep):
                out.append(s[cur:i])
                i += len(sep)
                cur = i
            else:
                i += 1
        out.append(s[cur:])
        return out
    out, cur = [], []
    for i, c in enumerate(s):
        if maxsplit >= 0 and len(out) >= maxsplit and (cur or not test(c, WS)):
            rest = "".join(cur) + s[i:]
            out.append(strip(rest, None, True, True) if cur else strip(s[i:], None, True, True))
            return out
        d = dom(c)
        if is_ghost(c):
            cur.append(c)
            continue
        ch = reg().get(c)
        if d <= WS:
            if cur:
                if all(is_ghost(k) for k in cur):
                    return split(resolve(s), sep, maxsplit)
                out.append("".join(cur))
                cur = []
        elif not (d & WS):
            cur.append(c)
        elif ch is not None and ch.pad and all(is_ghost(k) for k in cur):
            cur.append(reg().new(frozenset(), ghost=c))
        elif test(c, WS):
            if cur:
                out.append("".join(cur))
                cur = []
        else:
            cur.append(c)
    if cur:
        out.append("".join(cur))
    return out


def _all(s, cls_test):
    s = resolve(s)
    return s != "" and all(cls_test(c) for c in s)


_cls_cache = {}


def _cls(name):
    if name not in _cls_cache:
        _cls_cache[name] = frozenset(o for o in range(0, 256) if getattr(chr(o), name)())
    return _cls_cache[name]


def isclass(s, name):
    if has_opaque(s):
        s = concretise_str(s)
    s = resolve(s)
    if name in ("isupper", "islower", "istitle", "isidentifier", "isprintable", "isascii"):
        if name in ("isupper", "islower"):
            bad = _cls("islower" if name == "isupper" else "isupper")
            good = _cls(name)
            any_good = False
            for c in s:
                if test(c, bad):
                    return False
                if test(c, good):
                    any_good = True
            return any_good
        return getattr(concretise_str(s), name)()
    cls = _cls(name)
    return s != "" and all(test(c, cls) for c in s)


def mapcase(s, name):
    if not has_sym(s):
        return getattr(s, name)()
    if name not in ("upper", "lower"):
        return getattr(concretise_str(s), name)()
    out = []
    for c in s:
        ch = reg().get(c)
        if ch is None:
            out.append(getattr(c, name)())
            continue
        if ch.ghost is not None:
            out.append(c)
            continue
        src = frozenset(range(97, 123)) if name == "upper" else frozenset(range(65, 91))
        if ch.tok is not None or not (ch.dom & src):
            if ch.tok is not None and (ch.dom & src):
                # 'e' of a number: case does not change what it reads as
                out.append(c)
                continue
            out.append(c)
            continue
        sh = -32 if name == "upper" else 32
        nd = frozenset(o + sh if o in src else o for o in ch.dom)
        key = ("case", name, c)
        if key not in ST.path.cache:
            v = cvar(c)
            nc = reg().new(nd)
            reg().get(nc).var = z3.simplify(z3.If(in_dom(v, src & ch.dom), v + sh, v))
            ST.path.cache[key] = (nc,)
        out.append(ST.path.cache[key][0])
    return "".join(out)


def replace(s, old, new, count=-1):
    s = resolve(s)
    if not old:
        return concretise_str(s).replace(old, new, count)
    if has_opaque(s) and any(ord(c) in b"0123456789.e+-" for c in old):
        s = concretise_str(s)
    out, i, n = [], 0, 0
    while i < len(s):
        if (count < 0 or n < count) and i + len(old) <= len(s) and eq(s[i: i + len(old)], old):
            out.append(new)
            i += len(old)
            n += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def count(s, sub):
    s = resolve(s)
    i, n = 0, 0
    while i + len(sub) <= len(s):
        if eq(s[i: i + len(sub)], sub):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def slen(s):
    if has_opaque(s):
        s = concretise_str(s)
    return len(resolve(s))


def getitem(s, key):
    if has_opaque(s) and key == 0 and isinstance(key, int):
        ch = reg().get(s[0])
        if ch is not None and ch.tok is not None and ch.tok.kind == "opaque":
            # the first character of a number: its sign or a digit
            if ST.path.decide(ch.tok.x.e < 0):
                return "-"
            k = ("first", s[0])
            if k not in ST.path.cache:
                ST.path.cache[k] = (reg().new(DIG),)
            return ST.path.cache[k][0]
        if ch is None:
            return s[0]
    if has_opaque(s):
        s = concretise_str(s)
    return resolve(s)[key]


# -- reading numbers ---------------------------------------------------------------------------

def whole_token(s):
    """The token whose whole text is s (blanks around it ignored), else None."""
    r = reg()
    k = 0
    while k < len(s) and s[k] in " \t\n\r":
        k += 1
    j = len(s)
    while j > k and s[j - 1] in " \t\n\r":
        j -= 1
    body = s[k:j]
    if not body:
        return None
    if body[0] == "-" and len(body) > 1:
        ch = r.get(body[1])
        if ch is not None and ch.tok is not None and ch.tok.spec == "neg" and list(body) == ch.tok.codes:
            return ch.tok
    tok = None
    seq = []
    if body[0] == "-" and len(body) > 1:
        # a sign that is known, written by itself
        t = r.get(body[1])
        t = t.tok if t is not None else None
        if t is not None and t.kind == "e" and body[1] in t.codes:
            k = t.codes.index(body[1])
            if k and r.get(t.codes[k - 1]) is not None and r.get(t.codes[k - 1]).dom == frozenset((45,)):
                body = t.codes[k - 1] + body[1:]
    for c in body:
        ch = r.get(c)
        if ch is None:
            return None
        g = ch.ghost
        if g is not None:
            ch = r.get(g)
            c = g
        if ch.tok is None or (tok is not None and ch.tok is not tok):
            return None
        tok = ch.tok
        seq.append(c)
    if not tok:
        return None
    n = len(tok.codes)
    missing = n - len(seq)
    if missing < 0 or seq != tok.codes[missing:]:
        return None
    for c in tok.codes[:missing]:
        ch = r.get(c)
        if ch is None or not ch.pad:
            return None
        if ch.dom != frozenset((SP,)):
            return None
    if missing and tok.spec == "neg":
        return None
    return tok


NUMCHARS = frozenset(b"0123456789eE.+-_")
INFNAN = frozenset(b"infatyINFATY")
INFNAN_PREFIX = re.compile(r"[+-]?[infatyINFATY]*$")
INT_PREFIX = re.compile(r"[+-]?([0-9D](_?[0-9D])*_?)?$")
FLOAT_PREFIX = re.compile(
    r"[+-]?(([0-9D](_?[0-9D])*_?)?|([0-9D](_?[0-9D])*)?\.([0-9D](_?[0-9D])*_?)?|"
    r"(([0-9D](_?[0-9D])*)\.?|([0-9D](_?[0-9D])*)?\.([0-9D](_?[0-9D])*))[eE][+-]?([0-9D](_?[0-9D])*_?)?)$")


def _parse_body(s, kind):
    """Character-level reading of a number; forks on the character classes."""
    p = ST.path
    s = strip(resolve(s))
    s = resolve(s)
    if not s:
        raise ValueError("could not convert string to %s: ''" % kind)
    shape = []
    err = lambda: ValueError("could not convert string to %s: %r" % (kind, "".join(shape)))
    prefix = FLOAT_PREFIX if kind == "float" else INT_PREFIX
    # a character that no number contains settles it
    for c in s:
        d = dom(c)
        if not (d & NUMCHARS) and not (kind == "float" and d & INFNAN):
            raise err()
    for c in s:
        d = dom(c)
        if len(d) == 1:
            shape.append(chr(next(iter(d))))
            continue
        if shape and not prefix.match("".join(shape)) and "".join(shape).isascii() and not INFNAN_PREFIX.match("".join(shape)):
            raise err()
        allowed = frozenset(ord(k) for k in "0123456789eE.+-_" if prefix.match("".join(shape) + k))
        if not (d & allowed) or not test(c, allowed):
            body = s[1:] if shape and shape[0] in "+-" else s
            if kind == "float" and any(
                len(w) == len(body) and all(any(chr(k).lower() == h for k in dom(x) if k < 128) for x, h in zip(body, w))
                for w in ("inf", "infinity", "nan")):
                p.note("text that may spell inf or nan not explored")
            shape.append("?")
            raise err()
        if test(c, DIG):
            shape.append("D")
            continue
        d = dom(c)
        got = None
        for group, rep in ((frozenset(b"eE"), "e"), (frozenset(b"."), "."), (frozenset(b"+"), "+"),
                           (frozenset(b"-"), "-"), (frozenset(b"_"), "_")):
            if d & group and test(c, group):
                got = rep
                break
            d = dom(c)
        shape.append(got or "?")
    rep = "".join("1" if ch == "D" else ch for ch in shape)
    if "?" in rep:
        raise ValueError("could not convert string to %s: %r" % (kind, rep))
    try:
        (int if kind == "int" else float)(rep)
    except ValueError:
        raise ValueError("could not convert string to %s: %r" % (kind, rep))
    if "D" not in shape:
        return (int if kind == "int" else float)("".join(chr(next(iter(dom(c)))) for c in s))
    if "_" in shape:
        s = "".join(c for c, h in zip(s, shape) if h != "_")
        shape = [h for h in shape if h != "_"]
    dig = lambda c: cvar(c) - 48
    if kind == "int":
        neg = shape[0] == "-"
        val = z3.IntVal(0)
        for c, h in zip(s, shape):
            if h in "+-":
                continue
            val = val * 10 + (dig(c) if h == "D" else int(h))
        return SymNum(z3.simplify(-val if neg else val))
    # float
    low = [h.lower() for h in shape]
    ie = low.index("e") if "e" in low else len(low)
    neg = shape[0] == "-"
    val, scale, seen = z3.RealVal(0), 0, False
    for c, h in zip(s[:ie], shape[:ie]):
        if h in "+-":
            continue
        if h == ".":
            seen = True
            continue
        val = val * 10 + (z3.ToReal(dig(c)) if h == "D" else int(h))
        scale += 1 if seen else 0
    val = -val if neg else val
    expo = s[ie + 1:]
    if any(h == "D" for h in shape[ie + 1:]):
        eneg = shape[ie + 1] == "-" if ie + 1 < len(shape) else False
        ev = z3.IntVal(0)
        for c, h in zip(expo, shape[ie + 1:]):
            if h in "+-":
                continue
            ev = ev * 10 + (dig(c) if h == "D" else int(h))
        ev = -ev if eneg else ev
        p.nonlinear = True
        return SymNum(z3.simplify(val) * P10(z3.simplify(ev - scale)))
    k = int("".join(shape[ie + 1:])) if ie < len(shape) else 0
    f = Fraction(10) ** (k - scale)
    return SymNum(z3.simplify(val * z3.RealVal(f)))


SIGNDIG = frozenset(b"0123456789+-.")


def _not_a_number(s):
    """Settled by the first character alone."""
    s = s.lstrip()
    if not s or not has_sym(s):
        return False
    ch = reg().get(s[0])
    if ch is not None and (ch.ghost is not None or ch.tok is not None or ch.pad):
        return False
    d = dom(s[0])
    if d & SIGNDIG or d & WS:
        return False
    if not (d & frozenset(b"iInN")):
        return True
    r = reg()
    for c in s:
        k = r.get(c)
        if k is not None and k.tok is not None and not k.pad:
            return True
    return False


def parse_float(s):
    if _not_a_number(s):
        raise ValueError("could not convert string to float: '<text>'")
    t = whole_token(s)
    if t is not None:
        if t.kind == "int":
            return t.x.to_real()
        if t.kind == "opaque" and t.prec is not None:
            return rounded(t.x, t.prec)
        if t.kind == "opaque":
            return t.x.to_real() if t.x.kind == "int" else t.x
        return rounded(t.x, t.prec)
    if _torn(s):
        return float(concretise_str(s, "torn number"))
    if not has_sym(s):
        return float(s)
    return _parse_body(s, "float")


def parse_int(s):
    t = whole_token(s)
    if t is not None:
        if t.kind == "int" or (t.kind == "opaque" and t.x.kind == "int" and t.prec is None):
            return t.x
        raise ValueError("invalid literal for int() with base 10: '<real>'")
    if _torn(s):
        return int(concretise_str(s, "torn number"))
    if not has_sym(s):
        return int(s)
    return _parse_body(s, "int")


def _torn(s):
    r = reg()
    for c in s:
        ch = r.get(c)
        if ch is not None and ch.ghost is not None:
            ch = r.get(ch.ghost)
        if ch is not None and ch.tok is not None and ch.tok.kind in ("e", "opaque", "f"):
            return True
    return False


STR_METHODS = {
    "strip": lambda s, c=None: strip(s, c),
    "lstrip": lambda s, c=None: strip(s, c, True, False),
    "rstrip": lambda s, c=None: strip(s, c, False, True),
    "split": lambda s, sep=None, maxsplit=-1: split(s, sep, maxsplit),
    "startswith": startswith,
    "endswith": endswith,
    "find": lambda s, sub, *a: find(s, sub, *a),
    "rfind": lambda s, sub, *a: find(s, sub, *a, rev=True),
    "upper": lambda s: mapcase(s, "upper"),
    "lower": lambda s: mapcase(s, "lower"),
    "replace": replace,
    "count": count,
}
for _n in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isnumeric", "isdecimal"):
    STR_METHODS[_n] = (lambda n: lambda s: isclass(s, n))(_n)


def _index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def _partition(s, sep):
    i = find(s, sep)
    s = resolve(s)
    return (s, "", "") if i < 0 else (s[:i], sep, s[i + len(sep):])


def _rpartition(s, sep):
    i = find(s, sep, rev=True)
    s = resolve(s)
    return ("", "", s) if i < 0 else (s[:i], sep, s[i + len(sep):])


def _rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    return concretise_str(s).rsplit(sep, maxsplit)


STR_METHODS["index"] = _index
STR_METHODS["partition"] = _partition
STR_METHODS["rpartition"] = _rpartition
STR_METHODS["rsplit"] = _rsplit
STR_NATIVE = {"join", "ljust", "rjust", "center", "splitlines", "__len__", "expandtabs"}
