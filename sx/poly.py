"""Polynomial normal forms of real terms (geometry mode).

A term over real variables is a polynomial with rational coefficients over
 - the variables,
 - square roots  s = sqrt(g), s >= 0, reduced by s*s = g,
 - inverses  i = 1/f of polynomials f that are not zero on the path.
Two terms are equal on a path if their difference, cleared of inverses, is the
zero polynomial.  The sign of a polynomial is the product of the signs of its
factors; the sign of a factor is asked of the solver.
"""
from fractions import Fraction

import z3

from .core import ST, const_of, _to_real

FACT = {}


class Table:
    """Per-path variables: index -> (name, z3 term, rule)."""

    def __init__(self):
        self.names = []
        self.terms = []
        self.rules = []       # None | ("sqrt", poly) | ("inv", poly)
        self.index = {}
        self.memo = {}
        self.signs = {}
        self.invs = {}
        self.sqrts = {}
        self.sos = {}
        self.defs = []

    def var(self, name, term, rule=None):
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.index[name] = i
            self.names.append(name)
            self.terms.append(term)
            self.rules.append(rule)
        return i


def table():
    t = ST.path.cache.get(("poly",))
    if t is None:
        t = ST.path.cache[("poly",)] = Table()
    return t


# -- arithmetic -------------------------------------------------------------------------

def _n(c):
    """Integers stay plain integers: their arithmetic is much faster."""
    if type(c) is int:
        return c
    c = Fraction(c)
    return c.numerator if c.denominator == 1 else c


def p_const(c):
    return {(): _n(c)} if c else {}


def p_add(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def p_scale(a, k):
    return {m: _n(c * k) for m, c in a.items()} if k else {}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    out = {}
    t = table()
    special = False
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    for m in out:
        for v, e in m:
            r = t.rules[v]
            if r is not None and r[0] == "sqrt" and e >= 2:
                special = True
                break
        if special:
            break
    return reduce_sqrt(out) if special else out


def reduce_sqrt(p):
    t = table()
    out, groups = {}, {}
    for m, c in p.items():
        rest, high = [], []
        for v, e in m:
            r = t.rules[v]
            if e >= 2 and r is not None and r[0] == "sqrt":
                high.append((v, e // 2))
                if e % 2:
                    rest.append((v, 1))
            else:
                rest.append((v, e))
        if high:
            g = groups.setdefault(tuple(high), {})
            rest = tuple(rest)
            g[rest] = g.get(rest, 0) + c
        else:
            out[m] = c
    for high, g in groups.items():
        for v, e in high:
            g = p_mul(g, p_pow(t.rules[v][1], e))
        for m, c in g.items():
            w = out.get(m, 0) + c
            if w:
                out[m] = w
            else:
                out.pop(m, None)
    return out


def p_pow(a, n):
    out = p_const(1)
    for _ in range(n):
        out = p_mul(out, a)
    return out


# -- conversion --------------------------------------------------------------------------

def poly(e):
    """Polynomial of a z3 real (or int) term."""
    t = table()
    stack = [e]
    while stack:
        x = stack[-1]
        k = x.get_id()
        if k in t.memo:
            stack.pop()
            continue
        c = const_of(x)
        if c is not None:
            t.memo[k] = (x, p_const(c))
            stack.pop()
            continue
        kind = x.decl().kind()
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) or (
            kind == z3.Z3_OP_DIV
        ) or (kind == z3.Z3_OP_POWER and const_of(x.arg(1)) is not None):
            todo = [c for c in x.children() if c.get_id() not in t.memo]
            if todo:
                stack.extend(todo)
                continue
            ch = [t.memo[c.get_id()][1] for c in x.children()]
            if kind == z3.Z3_OP_ADD:
                r = ch[0]
                for c in ch[1:]:
                    r = p_add(r, c)
            elif kind == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = p_add(r, c, -1)
            elif kind == z3.Z3_OP_UMINUS:
                r = p_scale(ch[0], -1)
            elif kind == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]:
                    r = p_mul(r, c)
            elif kind == z3.Z3_OP_DIV:
                r = p_mul(ch[0], inverse(ch[1]))
            else:
                n = const_of(x.arg(1))
                r = p_pow(ch[0], int(n)) if n >= 0 else p_pow(inverse(ch[0]), int(-n))
            t.memo[k] = (x, r)
            stack.pop()
            continue
        if kind == z3.Z3_OP_TO_REAL and const_of(x.arg(0)) is not None:
            t.memo[k] = (x, p_const(const_of(x.arg(0))))
            stack.pop()
            continue
        if kind == z3.Z3_OP_TO_REAL:
            i = t.var(x.sexpr(), x)
        elif z3.is_const(x):
            i = t.var(x.decl().name(), x)
        else:
            i = t.var("?%d" % k, x)
        t.memo[k] = (x, {((i, 1),): 1})
        stack.pop()
    return t.memo[e.get_id()][1]


def key_of(p):
    t = table()
    return frozenset((tuple((t.names[v], e) for v, e in m), c) for m, c in p.items())


def to_z3(p):
    """z3 term of a polynomial (built through the C interface: terms can be large)."""
    t = table()
    if not p:
        return z3.RealVal(0)
    ctx = z3.main_ctx()
    c_ = ctx.ref()
    zs = {}
    for m in p:
        for v, _ in m:
            if v not in zs:
                zs[v] = _to_real(t.terms[v]).as_ast()
    keep, terms = [], []
    for m, c in sorted(p.items()):
        f = []
        if c != 1 or not m:
            r = z3.RealVal(c)
            keep.append(r)
            f.append(r.as_ast())
        for v, e in m:
            f += [zs[v]] * e
        if len(f) == 1:
            terms.append(f[0])
            continue
        arr = (z3.Ast * len(f))(*f)
        r = z3.ArithRef(z3.Z3_mk_mul(c_, len(f), arr), ctx)
        keep.append(r)
        terms.append(r.as_ast())
    if len(terms) == 1:
        return keep[-1] if keep else _to_real(t.terms[m[0][0]])
    arr = (z3.Ast * len(terms))(*terms)
    return z3.ArithRef(z3.Z3_mk_add(c_, len(terms), arr), ctx)


# -- factors --------------------------------------------------------------------------------

def canonical(p):
    """(constant, p / constant) with coprime integer coefficients, first one positive."""
    from math import gcd

    num, den = 0, 1
    for c in p.values():
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
    k = Fraction(num, den)
    first = p[min(p)]
    if first < 0:
        k = -k
    return _n(k), {m: _n(Fraction(c) / k) for m, c in p.items()}


def factors(p):
    """(constant, [(factor, multiplicity)]) of a non-zero polynomial."""
    k, q = canonical(p)
    out = []
    # monomial content
    common = None
    for m in q:
        d = dict(m)
        common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    if common:
        for v, e in sorted(common.items()):
            out.append(({((v, 1),): 1}, e))
        q = {tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0)): c for m, c in q.items()}
    if len(q) == 1:
        return k, out
    deg = max(sum(e for _, e in m) for m in q)
    if deg == 1 or len(q) > 1500:
        return k, out + [(q, 1)]
    ck = tuple(sorted(q.items()))
    hit = FACT.get(ck)
    if hit is None:
        hit = FACT[ck] = _sympy_factor(q)
    c, fs = hit
    return k * c, out + [(dict(f), e) for f, e in fs]


def _sympy_factor(q):
    from sympy import Poly, ZZ, symbols
    from sympy.polys.factortools import dmp_factor_list  # noqa: F401

    vs = sorted({v for m in q for v, _ in m})
    syms = symbols("x0:%d" % len(vs))
    pos = {v: i for i, v in enumerate(vs)}
    d = {}
    for m, c in q.items():
        e = [0] * len(vs)
        for v, x in m:
            e[pos[v]] = x
        d[tuple(e)] = int(c)
    c, fs = Poly.from_dict(d, *syms, domain=ZZ).factor_list()
    out = []
    const = Fraction(int(c))
    for f, e in fs:
        g = {}
        for mon, co in f.terms():
            g[tuple((vs[i], x) for i, x in enumerate(mon) if x)] = int(co)
        k, g = canonical(g)
        const *= k ** e
        out.append((g, e))
    out.sort(key=lambda fe: (len(fe[0]), sorted(fe[0].items())))
    return const, [(tuple(sorted(f.items())), e) for f, e in out]


def inverse(p):
    if not p:
        raise ZeroDivisionError
    t = table()
    k, fs = factors(p)
    out = p_const(Fraction(1) / k)
    for f, e in fs:
        if len(f) == 1:
            (m, _), = f.items()
            v = m[0][0]
            r = t.rules[v]
            if r is not None and r[0] == "inv":
                out = p_mul(out, p_pow(r[1], e))
                continue
            if r is not None and r[0] == "sqrt":
                one = p_mul({m: 1}, inverse(r[1]))
                out = p_mul(out, p_pow(one, e))
                continue
        kf = key_of(f)
        i = t.invs.get(kf)
        if i is None:
            name = "inv#%d" % len(t.invs)
            i = t.var(name, z3.Real(name), ("inv", f))
            t.invs[kf] = i
            t.defs.append(lambda n=name, f=f: z3.Real(n) * to_z3(f) == 1)
        out = p_mul(out, {((i, e),): 1})
    return out


def clear(p, even=False):
    """(numerator, [(f, k)]) with p = numerator / prod f^k."""
    t = table()
    den = []
    while True:
        top = {}
        for m in p:
            for v, e in m:
                r = t.rules[v]
                if r is not None and r[0] == "inv":
                    top[v] = max(top.get(v, 0), e)
        if not top:
            return p, den
        v = max(top)
        k = top[v]
        if even and k % 2:
            k += 1
        f = t.rules[v][1]
        out = {}
        pw = [p_const(1)]
        for _ in range(k):
            pw.append(p_mul(pw[-1], f))
        groups = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(v, 0)
            groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
        for e, g in groups.items():
            out = p_add(out, p_mul(g, pw[k - e]))
        den.append((f, k))
        p = out


def is_zero(p):
    if not p:
        return True
    return not clear(p)[0]


# -- signs ---------------------------------------------------------------------------------

def _nonneg(p):
    t = table()
    for m, c in p.items():
        if c < 0:
            return False
        for v, e in m:
            r = t.rules[v]
            if e % 2 and not (r is not None and r[0] == "sqrt"):
                return False
    return True


def factor_sign(f):
    """Sign of an irreducible factor on this path; forks."""
    t = table()
    k = key_of(f)
    s = t.signs.get(k)
    if s is not None:
        return s
    p = ST.path
    if len(f) == 1:
        (m, c), = f.items()
        r = t.rules[m[0][0]] if m else None
        if r is not None and r[0] == "sqrt":
            co = t.sos.get(m[0][0])
            if co is not None:
                s = 1 if p.decide_raw(z3.Or(*[to_z3(c) != 0 for c in co])) else 0
            else:
                s = 0 if sign(r[1]) == 0 else 1
            t.signs[k] = s
            return s
        if r is not None and r[0] == "inv":
            s = sign(r[1])
            t.signs[k] = s
            return s
    e = to_z3(f)
    if _nonneg(f):
        s = 0 if ((() not in f) and p.decide_raw(e == 0)) else 1
    elif p.decide_raw(e > 0):
        s = 1
    elif p.decide_raw(e < 0):
        s = -1
    else:
        s = 0
    t.signs[k] = s
    return s


def sign(p):
    """-1, 0 or 1; forks on the signs of the factors."""
    t = table()
    if not p:
        return 0
    p, den = clear(p, even=True)
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return 1 if p[()] > 0 else -1
    # a*s1 + b*s2 with square roots: compare the squares
    roots = set()
    for m in p:
        for v, e in m:
            r = t.rules[v]
            if r is not None and r[0] == "sqrt":
                roots.add(v)
    if roots:
        with_, without = {}, {}
        v = max(roots)
        for m, c in p.items():
            d = dict(m)
            if v in d:
                d.pop(v)
                with_[tuple(sorted(d.items()))] = c
            else:
                without[m] = c
        if without and with_:
            # sign of A*s + B
            sa, sb = sign(with_), sign(without)
            g = t.rules[v][1]
            sg = sign(g)
            if sg == 0 or sa == 0:
                return sb
            if sb == 0 or sa == sb:
                return sa
            # opposite signs: compare A^2 g with B^2
            sd = sign(p_add(p_mul(p_mul(with_, with_), g), p_mul(without, without), -1))
            return sa * sd
    k, fs = factors(p)
    s = 1 if k > 0 else -1
    for f, e in fs:
        x = factor_sign(f)
        if x == 0:
            return 0
        if e % 2:
            s *= x
    return s


def sqrt_poly(p):
    """Polynomial of the square root of p >= 0."""
    t = table()
    num, den = clear(p, even=True)
    if not num:
        return {}
    out = p_const(1)
    for f, k in den:
        out = p_mul(out, p_pow(inverse(f), k // 2))
        if k // 2 % 2 and factor_sign(f) < 0:
            out = p_scale(out, -1)
    k, fs = factors(num)
    rest = p_const(k)
    for f, e in fs:
        if e // 2:
            a = p_pow(f, e // 2)
            if (e // 2) % 2 and factor_sign(f) < 0:
                a = p_scale(a, -1)
            out = p_mul(out, a)
        if e % 2:
            rest = p_mul(rest, f)
    root, rest = root_atom(rest)
    return p_mul(out, root)


def root_atom(rest, comps=None):
    """sqrt of a square-free polynomial: constant part times a variable."""
    t = table()
    kk, q = canonical(rest)
    if kk < 0:
        kk, q = -kk, p_scale(q, -1)
    a, b = kk.numerator * kk.denominator, kk.denominator
    sq = 1
    d = 2
    n = a
    while d * d <= n and d < 2000:
        while n % (d * d) == 0:
            n //= d * d
            sq *= d
        d += 1
    from math import isqrt

    if isqrt(n) ** 2 == n:
        sq, n = sq * isqrt(n), 1
    out = p_const(Fraction(sq, b))
    rest = p_scale(q, n)
    if len(rest) == 1 and () in rest and rest[()] == 1:
        return out, None
    kf = key_of(rest)
    i = t.sqrts.get(kf)
    if i is None:
        name = "sqrt#%d" % len(t.sqrts)
        v = z3.Real(name)
        i = t.var(name, v, ("sqrt", rest))
        t.sqrts[kf] = i
        t.defs.append(lambda v=v, g=rest: v * v == to_z3(g))
        ST.path.add(v >= 0)
        if comps is not None:
            t.sos[i] = comps
    return p_mul(out, {((i, 1),): 1}), i


def _to_sympy(ps):
    from sympy import Poly, QQ, symbols

    vs = sorted({v for p in ps for m in p for v, _ in m})
    if not vs:
        return None, None
    syms = symbols("x0:%d" % len(vs))
    pos = {v: i for i, v in enumerate(vs)}
    out = []
    for p in ps:
        d = {}
        for m, c in p.items():
            e = [0] * len(vs)
            for v, x in m:
                e[pos[v]] = x
            d[tuple(e)] = QQ(c.numerator, c.denominator)
        out.append(Poly.from_dict(d, *syms, domain=QQ))
    return out, vs


def _from_sympy(f, vs):
    g = {}
    for mon, co in f.rep.to_dict().items():
        g[tuple((vs[i], x) for i, x in enumerate(mon) if x)] = _n(Fraction(int(co.numerator), int(co.denominator)))
    return g


GCDS = {}


def gcd_many(ps):
    """(gcd, cofactors) of non-zero polynomials."""
    key = tuple(tuple(sorted(p.items())) for p in ps)
    hit = GCDS.get(key)
    if hit is None:
        qs, vs = _to_sympy(ps)
        if qs is None:
            hit = (p_const(1), list(ps))
        else:
            order = sorted(range(len(qs)), key=lambda i: len(ps[i]))
            g = qs[order[0]]
            for i in order[1:]:
                if g.is_ground:
                    break
                g = g.gcd(qs[i])
            if g.is_ground:
                hit = (p_const(1), list(ps))
            else:
                hit = (_from_sympy(g, vs), [_from_sympy(q.exquo(g), vs) for q in qs])
        GCDS[key] = hit
    return hit


def norm(comps):
    """sqrt of the sum of the squares of polynomials."""
    comps = [c for c in comps if c]
    if not comps:
        return {}
    # common denominator
    nums, dens = [], {}
    parts = []
    for c in comps:
        n, den = clear(c)
        if not n:
            continue
        d = {}
        for f, k in den:
            kf = key_of(f)
            d[kf] = (f, d.get(kf, (f, 0))[1] + k)
        parts.append((n, d))
        for kf, (f, k) in d.items():
            if k > dens.get(kf, (f, 0))[1]:
                dens[kf] = (f, k)
    if not parts:
        return {}
    for n, d in parts:
        for kf, (f, k) in dens.items():
            m = k - d.get(kf, (f, 0))[1]
            if m:
                n = p_mul(n, p_pow(f, m))
        nums.append(n)
    out = p_const(1)
    for f, k in dens.values():
        out = p_mul(out, p_pow(inverse(f), k))
        if k % 2 and sign(f) < 0:
            out = p_scale(out, -1)
    g, co = gcd_many(nums)
    if len(g) > 1 or () not in g:
        s = sign(g)
        if s == 0:
            return {}
        out = p_mul(out, p_scale(g, s))
    rest = {}
    for c in co:
        rest = p_add(rest, p_mul(c, c))
    root, i = root_atom(rest, co)
    return p_mul(out, root)


# -- decisions -------------------------------------------------------------------------------

OPS = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "==", z3.Z3_OP_DISTINCT: "!="}


def decide(c):
    """Truth of a boolean term over real comparisons; None if it is none of these."""
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        r = decide(c.arg(0))
        return None if r is None else not r
    if k == z3.Z3_OP_AND or k == z3.Z3_OP_OR:
        for x in c.children():
            r = decide(x)
            if r is None:
                r = ST.path.decide_raw(x)
            if r is (k == z3.Z3_OP_OR):
                return r
        return k == z3.Z3_OP_AND
    op = OPS.get(k)
    if op is None or c.num_args() != 2 or not z3.is_arith(c.arg(0)):
        return None
    a, b = c.arg(0), c.arg(1)
    if z3.is_int(a) and z3.is_int(b):
        return None
    s = sign(p_add(poly(a), poly(b), -1))
    return {"<=": s <= 0, "<": s < 0, ">=": s >= 0, ">": s > 0, "==": s == 0, "!=": s != 0}[op]
