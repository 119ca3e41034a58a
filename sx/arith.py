"""Elementary functions on symbolic reals."""
from fractions import Fraction

import z3

from .core import ST, SymNum, PathAbort, Unsupported, lift, const_of, _to_real, mk_bool

P10 = z3.Function("p10", z3.IntSort(), z3.RealSort())
EXP = z3.Function("exp_", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log_", z3.RealSort(), z3.RealSort())
POW = z3.Function("pow_", z3.RealSort(), z3.RealSort(), z3.RealSort())


def _is_sum_of_squares(e):
    if z3.is_add(e):
        return all(_is_sum_of_squares(c) for c in e.children())
    if z3.is_mul(e):
        ch = e.children()
        consts = [const_of(c) for c in ch]
        neg = False
        rest = []
        for c, k in zip(ch, consts):
            if k is None:
                rest.append(c)
            elif k < 0:
                neg = not neg
        if neg:
            return False
        while rest:
            c = rest.pop()
            for i, d in enumerate(rest):
                if c.eq(d):
                    rest.pop(i)
                    break
            else:
                return False
        return True
    k = const_of(e)
    return k is not None and k >= 0


def _exact_sqrt(fr):
    from math import isqrt

    fr = Fraction(fr)
    n, d = isqrt(fr.numerator), isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator:
        return Fraction(n, d)
    return None


def _squares(e):
    """[x, ...] of a term x*x + ..., or None."""
    out, stack = [], [e]
    while stack:
        x = stack.pop()
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            stack.extend(x.children())
        elif k == z3.Z3_OP_MUL and x.num_args() == 2 and x.arg(0).eq(x.arg(1)):
            out.append(x.arg(0))
        elif k == z3.Z3_OP_POWER and const_of(x.arg(1)) == 2:
            out.append(x.arg(0))
        else:
            c = const_of(x)
            r = None if c is None or c < 0 else _exact_sqrt(c)
            if r is None:
                return None
            out.append(z3.RealVal(r))
    return out


def sym_sqrt(x):
    p = ST.path
    e = _to_real(x.e)
    c = const_of(z3.simplify(e))
    if c is not None:
        if c < 0:
            raise PathAbort("sqrt of a negative number")
        r = _exact_sqrt(c)
        if r is not None:
            return SymNum(z3.RealVal(r))
    if p.geo:
        from . import poly

        co = _squares(e)
        if co is not None:
            return SymNum(poly.to_z3(poly.norm([poly.poly(x) for x in co])))
        q = poly.poly(e)
        if not poly._nonneg(q) and poly.sign(q) < 0:
            raise PathAbort("sqrt of a negative number")
        return SymNum(poly.to_z3(poly.sqrt_poly(q)))
    es = z3.simplify(e, som=True)
    # sqrt(k * v*v) with v known sign is left to the solver
    key = ("sqrt", es.get_id())
    if key in p.cache:
        return p.cache[key][0]
    if not _is_sum_of_squares(e) and p.decide(e < 0):
        raise PathAbort("sqrt of a negative number")
    r = p.real_var("sqrt")
    p.nonlinear = True
    p.add(z3.And(r >= 0, r * r == e))
    out = SymNum(r)
    p.cache[key] = (out, es, e)
    return out


def sym_pow(b, x):
    bs, xs = isinstance(b, SymNum), isinstance(x, SymNum)
    if not xs:
        import numpy

        if isinstance(x, numpy.generic):
            x = x.item()
        fx = Fraction(repr(float(x)))
        if fx.denominator == 1 and abs(fx) <= 8:
            n = int(fx)
            if n == 0:
                return 1.0
            out = b
            for _ in range(abs(n) - 1):
                out = out * b
            return out if n > 0 else 1.0 / out
        if fx == Fraction(1, 2):
            return sym_sqrt(b)
        x = lift(float(x))
    else:
        c = const_of(z3.simplify(x.e))
        if c is not None:
            return sym_pow(b, float(c)) if bs else lift(float(b) ** float(c))
    return gen_pow(lift(b), x)


def gen_pow(b, x):
    """b ** x for a symbolic real exponent: pow_(b, x), with the facts the checks may use.

    The facts are those of the real power on b >= 0 (b == 0 only with x > 0)."""
    p = ST.path
    be, xe = _to_real(b.e), _to_real(x.e)
    if p.decide(be < 0):
        raise TypeError("negative base with a non-integer exponent")
    key = ("pow", z3.simplify(be, som=True).get_id(), z3.simplify(xe, som=True).get_id())
    if key in p.cache:
        return p.cache[key][0]
    zero = p.decide(be == 0)
    if zero:
        if p.decide(xe > 0):
            out = SymNum(z3.RealVal(0))
        elif p.decide(xe == 0):
            out = SymNum(z3.RealVal(1))
        else:
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        p.cache[key] = (out, be, xe)
        return out
    r = POW(z3.simplify(be, som=True), z3.simplify(xe, som=True))
    out = SymNum(r)
    facts = [
        r > 0,
        z3.Implies(xe == 0, r == 1),
        z3.Implies(xe == 1, r == be),
        z3.Implies(be == 1, r == 1),
        z3.Implies(z3.And(be < 1, xe > 0), r < 1),
        z3.Implies(z3.And(be < 1, xe < 0), r > 1),
        z3.Implies(z3.And(be > 1, xe > 0), r > 1),
        z3.Implies(z3.And(be > 1, xe < 0), r < 1),
        # r versus the base, from the exponent's position with respect to 1
        z3.Implies(z3.And(be < 1, xe > 1), r < be),
        z3.Implies(z3.And(be < 1, xe < 1), r > be),
        z3.Implies(z3.And(be > 1, xe > 1), r > be),
        z3.Implies(z3.And(be > 1, xe < 1), r < be),
    ]
    # monotonicity with respect to earlier applications
    for (k, v) in list(p.cache.items()):
        if k[0] == "pow" and len(v) == 4:
            o, ob, ox, _ = v
            facts += [
                z3.Implies(z3.And(ox == xe, xe > 0), z3.And((ob < be) == (o.e < r), (ob == be) == (o.e == r))),
                z3.Implies(z3.And(ox == xe, xe < 0), z3.And((ob < be) == (o.e > r), (ob == be) == (o.e == r))),
                z3.Implies(z3.And(ob == be, be < 1), (ox < xe) == (o.e > r)),
                z3.Implies(z3.And(ob == be, be > 1), (ox < xe) == (o.e < r)),
                # (b^x)^y = b^(x y)
                z3.Implies(z3.And(be == o.e, xe * ox == 1), r == ob),
                z3.Implies(z3.And(ob == r, xe * ox == 1), o.e == be),
            ]
    p.nonlinear = True
    p.add(z3.And(*facts))
    p.cache[key] = (out, be, xe, "pow")
    return out


def sym_exp(x):
    p = ST.path
    e = z3.simplify(_to_real(x.e), som=True)
    c = const_of(e)
    if c == 0:
        return SymNum(z3.RealVal(1))
    r = EXP(e)
    key = ("exp", e.get_id())
    if key not in p.cache:
        p.cache[key] = (e, r)
        facts = [r > 0, (e > 0) == (r > 1), (e == 0) == (r == 1), r >= 1 + e, LOG(r) == e]
        for k, v in list(p.cache.items()):
            if k[0] == "exp" and v[0] is not e:
                facts += [(v[0] < e) == (v[1] < r), (v[0] == e) == (v[1] == r)]
        p.add(z3.And(*facts))
    return SymNum(r)


def sym_log(x, base=None):
    p = ST.path
    e = z3.simplify(_to_real(x.e), som=True)
    if p.decide(e <= 0):
        raise PathAbort("log of a non-positive number")
    if const_of(e) == 1:
        return SymNum(z3.RealVal(0))
    r = LOG(e)
    key = ("log", e.get_id())
    if key not in p.cache:
        p.cache[key] = (e, r)
        facts = [(e > 1) == (r > 0), (e == 1) == (r == 0), r <= e - 1, EXP(r) == e]
        for k, v in list(p.cache.items()):
            if k[0] == "log" and v[0] is not e:
                facts += [(v[0] < e) == (v[1] < r), (v[0] == e) == (v[1] == r)]
        p.add(z3.And(*facts))
    out = SymNum(r)
    if base is not None:
        ln10 = Fraction("2.302585092994046")
        out = SymNum(r / z3.RealVal(ln10))
        p.note("log10 constant approximated")
    return out
