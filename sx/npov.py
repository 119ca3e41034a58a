"""numpy on arrays that hold symbolic numbers (dtype=object)."""
import itertools
import operator
from fractions import Fraction

import numpy
import z3

from . import strs
from .core import ST, SymBool, SymNum, PathAbort, Unsupported, lift, mk_bool, const_of

OVERRIDES = {}


def has_sym_num(a):
    if isinstance(a, (SymNum, SymBool)):
        return True
    if isinstance(a, numpy.ndarray):
        return a.dtype == object and any(isinstance(x, (SymNum, SymBool)) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym_num(x) for x in a)
    return False


def deep_sym(a):
    if isinstance(a, str):
        return strs.has_sym(a)
    if isinstance(a, numpy.ndarray) and a.dtype.kind == "U":
        return any(strs.has_sym(x) for x in a.flat)
    if isinstance(a, dict):
        return any(deep_sym(x) for x in a.values())
    if isinstance(a, (list, tuple)):
        return any(deep_sym(x) for x in a)
    return has_sym_num(a)


def demote(a):
    """An object array without symbolic values becomes an ordinary numeric array."""
    if isinstance(a, numpy.ndarray) and a.dtype == object and a.size:
        kinds = {type(x) for x in a.flat}
        if kinds & {SymNum, SymBool}:
            if any(isinstance(x, (float, int, numpy.number)) for x in a.flat) and not any(
                x is None or isinstance(x, (str, list, dict, numpy.ndarray)) for x in a.flat
            ):
                out = numpy.empty(a.shape, dtype=object)
                for i in numpy.ndindex(a.shape):
                    v = a[i]
                    out[i] = lift(v) if isinstance(v, (float, int, numpy.number)) and _finite(v) else v
                return out
            return a
        if all(issubclass(k, (bool, numpy.bool_)) for k in kinds):
            return a.astype(bool)
        if all(issubclass(k, (int, numpy.integer)) for k in kinds):
            return a.astype(int)
        if all(issubclass(k, (float, int, numpy.number)) for k in kinds):
            return a.astype(float)
    return a


def _finite(v):
    return v == v and v not in (float("inf"), float("-inf"))


def concretise_arg(a):
    if isinstance(a, SymNum):
        v = ST.path.concretise(a.e, "numpy argument")
        return int(v) if a.kind == "int" else float(v)
    if isinstance(a, SymBool):
        return bool(a)
    if isinstance(a, str):
        return strs.concretise_str(a)
    if isinstance(a, numpy.ndarray) and a.dtype.kind == "U":
        return numpy.array([strs.concretise_str(str(x)) for x in a.flat]).reshape(a.shape)
    if isinstance(a, numpy.ndarray) and a.dtype == object:
        return demote(numpy.array([concretise_arg(x) for x in a.flat], dtype=object).reshape(a.shape))
    if isinstance(a, (list, tuple)):
        return type(a)(concretise_arg(x) for x in a)
    return a


def to_bool_array(k):
    """Object index array -> bool or int array (forking per element)."""
    vals = list(k.flat)
    if all(isinstance(x, (bool, numpy.bool_, SymBool)) for x in vals):
        return numpy.array([bool(x) for x in vals], dtype=bool).reshape(k.shape)
    return numpy.array([operator.index(x) for x in vals], dtype=int).reshape(k.shape)


def ov(*fns):
    def deco(f):
        for fn in fns:
            OVERRIDES[fn] = f
        return f

    return deco


def _isfloat_dtype(dt):
    if dt is None:
        return True
    try:
        return numpy.dtype(dt).kind == "f"
    except TypeError:
        return False


def _mk_ctor(fn):
    def f(shape, *a, **k):
        dt = k.get("dtype", a[0] if a else None)
        if fn is numpy.full:
            fill = a[0] if a else k.pop("fill_value")
            dt = k.get("dtype", a[1] if len(a) > 1 else None)
            if isinstance(fill, SymNum) or (isinstance(fill, (float, numpy.floating)) and (dt is None or _isfloat_dtype(dt))):
                out = numpy.empty(shape, dtype=object)
                out[...] = fill
                return out
            return numpy.full(shape, fill, **({"dtype": dt} if dt is not None else {}))
        if _isfloat_dtype(dt):
            out = numpy.empty(shape, dtype=object)
            out[...] = 1.0 if fn is numpy.ones else 0.0
            return out
        return fn(shape, *a, **k)

    return f


for _fn in (numpy.zeros, numpy.ones, numpy.empty, numpy.full):
    OVERRIDES[_fn] = _mk_ctor(_fn)


def _mk_like(fn, val):
    def f(x, *a, **k):
        dt = k.get("dtype", a[0] if a else numpy.asarray(x).dtype)
        if dt == object or _isfloat_dtype(dt):
            out = numpy.empty(numpy.shape(x), dtype=object)
            out[...] = val
            return out
        return fn(x, *a, **k)

    return f


OVERRIDES[numpy.zeros_like] = _mk_like(numpy.zeros_like, 0.0)
OVERRIDES[numpy.ones_like] = _mk_like(numpy.ones_like, 1.0)
OVERRIDES[numpy.empty_like] = _mk_like(numpy.empty_like, 0.0)


@ov(numpy.full_like)
def _full_like(x, fill, *a, **k):
    if isinstance(fill, SymNum) or isinstance(fill, float):
        out = numpy.empty(numpy.shape(x), dtype=object)
        out[...] = fill
        return out
    return numpy.full_like(x, fill, *a, **k)


@ov(numpy.array)
def _array(x, dtype=None, *a, **k):
    if isinstance(x, itertools.chain) or hasattr(x, "__next__"):
        return numpy.array(x, dtype, *a, **k)
    if has_sym_num(x):
        if dtype is None or _isfloat_dtype(dtype) or dtype == object:
            return _obj_array(x)
        if numpy.dtype(dtype).kind in "iu":
            arr = _obj_array(x)
            out = numpy.empty(arr.shape, dtype=object)
            for i in numpy.ndindex(arr.shape):
                v = arr[i]
                out[i] = v.to_int() if isinstance(v, SymNum) else int(v)
            return out
    return numpy.array(x, dtype, *a, **k) if dtype is not None else numpy.array(x, *a, **k)


@ov(numpy.asarray, numpy.ascontiguousarray, numpy.asanyarray)
def _asarray(x, dtype=None, *a, **k):
    if isinstance(x, numpy.ndarray) and x.dtype == object and (dtype is None or _isfloat_dtype(dtype)):
        return x
    if has_sym_num(x):
        return _array(x, dtype)
    return numpy.asarray(x, dtype, *a, **k) if dtype is not None else numpy.asarray(x, *a, **k)


def _obj_array(x):
    if isinstance(x, numpy.ndarray):
        return x.copy()
    if isinstance(x, SymNum):
        out = numpy.empty((), dtype=object)
        out[()] = x
        return out
    return numpy.array(x, dtype=object)


@ov(numpy.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    x = numpy.asarray(x)
    if x.dtype != object or not has_sym_num(x):
        return numpy.linalg.norm(demote(x), ord, axis, keepdims)
    if ord not in (None, 2) or (ord == 2 and x.ndim == 2 and axis is None):
        raise Unsupported("linalg.norm ord")
    sq = x * x
    s = sq.sum(axis=axis, keepdims=keepdims)
    if isinstance(s, numpy.ndarray):
        out = numpy.empty(s.shape, dtype=object)
        for i in numpy.ndindex(s.shape):
            out[i] = lift(s[i]).sqrt()
        return out
    return lift(s).sqrt()


def _lex_eq(a, b):
    for x, y in zip(a, b):
        if not _b(x == y):
            return False
    return True


def _b(r):
    return bool(r)


def _lex_lt(a, b):
    for x, y in zip(a, b):
        if _b(x == y):
            continue
        return _b(x < y)
    return False


class _K:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return _lex_lt(self.v, o.v)


def _groups(ar, rows, return_index, return_inverse, return_counts):
    """Unique rows where only the grouping matters: any order of the groups will do (see any_order)."""
    first, inverse = [], []
    for i, r in enumerate(rows):
        for g, k in enumerate(first):
            c = [lift(x).e == lift(y).e for x, y in zip(r, rows[k])]
            if ST.path.decide(z3.And(*c)):
                inverse.append(g)
                break
        else:
            inverse.append(len(first))
            first.append(i)
    n = len(first)
    if ST.path.any_order == "backward":
        first = first[::-1]
        inverse = [n - 1 - g for g in inverse]
    out = [ar[first]]
    if return_index:
        out.append(numpy.array(first, dtype=int))
    if return_inverse:
        out.append(numpy.array(inverse, dtype=int))
    if return_counts:
        out.append(numpy.array([inverse.count(g) for g in range(n)], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def sort_network(row):
    """Sorted integers without case splits."""
    row = [lift(x).e for x in row]
    n = len(row)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = row[j], row[j + 1]
            row[j], row[j + 1] = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
    return [SymNum(x) for x in row]


def all_ints(row):
    return all(isinstance(x, (int, numpy.integer)) or (isinstance(x, SymNum) and x.kind == "int") for x in row)


@ov(numpy.unique)
def _unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    ar = numpy.asarray(ar)
    symU = ar.dtype.kind == "U" and any(strs.has_sym(x) for x in ar.flat)
    if not symU and not (ar.dtype == object and has_sym_num(ar)):
        return numpy.unique(demote(ar), return_index, return_inverse, return_counts, axis, **kw)
    if axis not in (None, 0):
        raise Unsupported("unique axis")
    rows = [tuple(r) for r in ar] if (axis == 0 and ar.ndim > 1) else [(v,) for v in ar.flat]
    if not symU and ST.path.any_order and axis == 0:
        return _groups(ar, rows, return_index, return_inverse, return_counts)
    if symU:
        from .intercept import klt, sx_cmp

        order = []
        for i in range(len(rows)):
            pos = 0
            while pos < len(order) and not klt(rows[i], rows[order[pos]]):
                pos += 1
            order.insert(pos, i)
        same = lambda a, b: all(sx_cmp("Eq", x, y) for x, y in zip(a, b))
    else:
        order = sorted(range(len(rows)), key=lambda i: _K(rows[i]))
        same = _lex_eq
    uniq, index, inverse, counts = [], [], [None] * len(rows), []
    for i in order:
        if uniq and same(rows[uniq[-1]], rows[i]):
            inverse[i] = len(uniq) - 1
            counts[-1] += 1
            continue
        uniq.append(i)
        index.append(i)
        counts.append(1)
        inverse[i] = len(uniq) - 1
    u = ar[uniq] if (axis == 0 or ar.ndim == 1) else ar.ravel()[uniq]
    out = [u]
    if return_index:
        out.append(numpy.array(index, dtype=int))
    if return_inverse:
        out.append(numpy.array(inverse, dtype=int))
    if return_counts:
        out.append(numpy.array(counts, dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def _elementwise(fn, native):
    def f(*args, **k):
        if any(has_sym_num(a) for a in args):
            arrs = [numpy.asarray(a, dtype=object) if not isinstance(a, SymNum) else _obj_array(a) for a in args]
            arrs = numpy.broadcast_arrays(*arrs)
            out = numpy.empty(arrs[0].shape, dtype=object)
            for i in numpy.ndindex(arrs[0].shape):
                out[i] = fn(*[a[i] for a in arrs])
            return out if out.ndim else out[()]
        return native(*[demote(a) for a in args], **k)

    return f


OVERRIDES[numpy.isnan] = _elementwise(lambda x: False if isinstance(x, SymNum) else bool(numpy.isnan(x)), numpy.isnan)
OVERRIDES[numpy.isinf] = _elementwise(lambda x: False if isinstance(x, SymNum) else bool(numpy.isinf(x)), numpy.isinf)
OVERRIDES[numpy.isfinite] = _elementwise(lambda x: True if isinstance(x, SymNum) else bool(numpy.isfinite(x)), numpy.isfinite)


def _sb(x):
    return x if isinstance(x, SymBool) else (x != 0 if isinstance(x, SymNum) else bool(x))


def _land(a, b):
    a, b = _sb(a), _sb(b)
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return a & b


def _lor(a, b):
    a, b = _sb(a), _sb(b)
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return a | b


def _lnot(a):
    a = _sb(a)
    return (not a) if isinstance(a, bool) else ~a


OVERRIDES[numpy.logical_and] = _elementwise(_land, numpy.logical_and)
OVERRIDES[numpy.logical_or] = _elementwise(_lor, numpy.logical_or)
OVERRIDES[numpy.logical_not] = _elementwise(_lnot, numpy.logical_not)


@ov(numpy.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if has_sym_num(a) or has_sym_num(b):
        return bool(_all_expr(_isclose(a, b, rtol, atol)))
    return numpy.allclose(demote(a), demote(b), rtol, atol, **k)


def _all_expr(arr):
    e = True
    for x in numpy.asarray(arr, dtype=object).flat:
        e = _land(e, x)
    return e


@ov(numpy.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if has_sym_num(a) or has_sym_num(b):
        return _elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), None)(a, b)
    return numpy.isclose(demote(a), demote(b), rtol, atol, **k)


@ov(numpy.array_equal)
def _array_equal(a, b, **k):
    if has_sym_num(a) or has_sym_num(b):
        a, b = numpy.asarray(a, dtype=object), numpy.asarray(b, dtype=object)
        return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.flat, b.flat))
    return numpy.array_equal(demote(a), demote(b), **k)


@ov(numpy.digitize)
def _digitize(x, bins, right=False):
    if not (has_sym_num(x) or has_sym_num(bins)):
        return numpy.digitize(demote(x), demote(bins), right)
    bins = list(bins)
    inc = len(bins) < 2 or bool(bins[-1] >= bins[0])

    def one(v):
        n = 0
        for b in (bins if inc else reversed(bins)):
            if bool((v > b) if right else (v >= b)):
                n += 1
            else:
                break
        return n if inc else len(bins) - n

    if numpy.ndim(x) == 0:
        return one(x)
    return numpy.array([one(v) for v in x])


@ov(numpy.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    if not (has_sym_num(a) or has_sym_num(v)):
        return numpy.searchsorted(demote(a), demote(v), side, sorter)
    a = [a[i] for i in sorter] if sorter is not None else list(a)

    def one(q):
        n = 0
        for b in a:
            if bool((b < q) if side == "left" else (b <= q)):
                n += 1
            else:
                break
        return n

    if numpy.ndim(v) == 0:
        return one(v)
    return numpy.array([one(q) for q in v])


@ov(numpy.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    if not (has_sym_num(x) or has_sym_num(xp) or has_sym_num(fp)) or period is not None:
        return numpy.interp(demote(x), demote(xp), demote(fp), left, right, period)

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v > xp[-1]):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(v <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i]))
        return fp[-1]

    if numpy.ndim(x) == 0:
        return one(x)
    out = numpy.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        out[i] = one(v)
    return out


@ov(numpy.clip)
def _clip(a, lo, hi, *r, **k):
    def one(v, l, h):
        if l is not None and bool(v < l):
            return l
        if h is not None and bool(v > h):
            return h
        return v

    if has_sym_num(a) or has_sym_num(lo) or has_sym_num(hi):
        if isinstance(a, SymNum) or numpy.ndim(a) == 0:
            return one(a, lo, hi)
        a = numpy.asarray(a, dtype=object)
        out = numpy.empty(a.shape, dtype=object)
        for i in numpy.ndindex(a.shape):
            out[i] = one(a[i], lo if lo is None or numpy.ndim(lo) == 0 else lo[i], hi if hi is None or numpy.ndim(hi) == 0 else hi[i])
        return out
    return numpy.clip(demote(a), lo, hi, *r, **k)


def _sqrt1(x):
    return lift(x).sqrt()


for _n, _f in (("sqrt", lambda x: lift(x).sqrt()), ("log", lambda x: lift(x).log()), ("exp", lambda x: lift(x).exp()),
               ("log10", lambda x: lift(x).log10()), ("abs", abs), ("square", lambda x: x * x),
               ("fabs", abs), ("floor", lambda x: lift(x).floor()), ("ceil", lambda x: lift(x).ceil())):
    OVERRIDES[getattr(numpy, _n)] = _elementwise(_f, getattr(numpy, _n))
OVERRIDES[numpy.absolute] = OVERRIDES[numpy.abs]
OVERRIDES[numpy.power] = _elementwise(lambda a, b: a ** b, numpy.power)


@ov(numpy.where)
def _where(c, *a):
    if not a:
        c = numpy.asarray(c)
        if c.dtype == object:
            c = to_bool_array(c) if all(isinstance(x, (bool, SymBool, numpy.bool_)) for x in c.flat) else numpy.array([bool(x) for x in c.flat]).reshape(c.shape)
        return numpy.where(c)

    def one(q, x, y):
        return x if bool(q) else y

    if has_sym_num(c) or has_sym_num(a[0]) or has_sym_num(a[1]):
        return _elementwise(one, None)(c, *a) if any(has_sym_num(z) for z in (c,) + a) else numpy.where(c, *a)
    return numpy.where(demote(c), demote(a[0]), demote(a[1]))


@ov(numpy.argsort)
def _argsort(a, axis=-1, kind=None, order=None, **k):
    a = numpy.asarray(a)
    if a.dtype.kind == "U" and any(strs.has_sym(x) for x in a.flat):
        from .intercept import _LtKey

        return numpy.array(sorted(range(len(a)), key=lambda i: _LtKey(str(a[i]))), dtype=int)
    if a.dtype == object and has_sym_num(a) and a.ndim == 1:
        return numpy.array(sorted(range(len(a)), key=lambda i: _K((a[i],))), dtype=int)
    return numpy.argsort(demote(a), axis, kind, order)


@ov(numpy.sort)
def _sort(a, axis=-1, *r, **k):
    a = numpy.asarray(a)
    if a.dtype.kind == "U" and any(strs.has_sym(x) for x in a.flat):
        return a[_argsort(a)]
    if a.dtype == object and has_sym_num(a):
        if ST.path.any_order and all_ints(a.flat) and (axis == -1 or axis == a.ndim - 1):
            out = a.copy()
            flat = out.reshape(-1, a.shape[-1])
            for i in range(len(flat)):
                flat[i] = sort_network(flat[i])
            return out
        if a.ndim == 1:
            return a[_argsort(a)]
        raise Unsupported("sort nd")
    return numpy.sort(demote(a), axis, *r, **k)


@ov(numpy.lexsort)
def _lexsort(keys, axis=-1):
    keys = [numpy.asarray(k) for k in keys]
    if any(has_sym_num(k) for k in keys):
        n = len(keys[0])
        return numpy.array(sorted(range(n), key=lambda i: _K(tuple(k[i] for k in reversed(keys)))), dtype=int)
    return numpy.lexsort([demote(k) for k in keys], axis)


@ov(numpy.in1d, numpy.isin)
def _in1d(a, b, *r, **k):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if deep_sym(a) or deep_sym(b):
        from .intercept import sx_cmp

        out = [any(bool(sx_cmp("Eq", x, y)) for y in b.flat) for x in a.flat]
        out = numpy.array(out, dtype=bool).reshape(a.shape)
        return ~out if k.get("invert") else out
    return numpy.isin(demote(a), demote(b), *r, **k)


@ov(numpy.average)
def _average(a, axis=None, weights=None, **k):
    if weights is not None and (has_sym_num(a) or has_sym_num(weights)) and axis == 0 and numpy.ndim(a) > 1 and numpy.ndim(weights) == 1:
        num, den = 0, 0
        for x, w in zip(numpy.asarray(a, dtype=object), numpy.asarray(weights, dtype=object)):
            num = num + x * w
            den = den + w
        return num / den
    if weights is not None and (has_sym_num(a) or has_sym_num(weights)) and (axis is None or axis == 0 and numpy.ndim(a) == 1):
        num, den = 0, 0
        for x, w in zip(numpy.asarray(a, dtype=object).flat, numpy.asarray(weights, dtype=object).flat):
            num = num + x * w
            den = den + w
        return num / den
    return numpy.average(demote(a), axis, demote(weights) if weights is not None else None, **k)


@ov(numpy.trapz)
def _trapz(y, x=None, dx=1.0, axis=-1):
    if has_sym_num(y) or has_sym_num(x):
        tot = 0
        for i in range(len(y) - 1):
            d = dx if x is None else x[i + 1] - x[i]
            tot = tot + d * (y[i] + y[i + 1]) / 2.0
        return tot
    return numpy.trapz(demote(y), demote(x) if x is not None else None, dx, axis)


def nd_method(a, name, args, kwargs):
    if name == "astype" and a.dtype == object:
        dt = args[0] if args else kwargs.get("dtype")
        if has_sym_num(a):
            k = numpy.dtype(dt).kind
            if k == "f" or k == "O":
                return a.copy()
            if k in "iu":
                return _array(a, dt)
            if k == "b":
                return to_bool_array(a)
        return demote(a).astype(*args, **kwargs)
    if a.dtype == object:
        if name in ("any", "all"):
            if has_sym_num(a):
                vals = [bool(x) for x in a.flat] if not args and not kwargs else None
                if vals is not None:
                    return any(vals) if name == "any" else all(vals)
        if name == "argsort":
            return _argsort(a, *args, **kwargs)
        if name == "sort":
            a[...] = _sort(a)
            return None
        if name == "round" and has_sym_num(a):
            nd = args[0] if args else kwargs.get("decimals", 0)
            out = numpy.empty(a.shape, dtype=object)
            for i in numpy.ndindex(a.shape):
                out[i] = lift(a[i]).__round__(nd) if nd else lift(a[i]).rint()
            return out
        if name in ("round", "tofile", "tobytes", "std", "var"):
            if has_sym_num(a):
                raise Unsupported("ndarray.%s" % name)
            return getattr(demote(a), name)(*args, **kwargs)
        if name == "dot":
            return a.dot(*args, **kwargs)
    if a.dtype.kind == "U" and name in ("argsort", "sort"):
        if name == "argsort":
            return _argsort(a, *args, **kwargs)
        a[...] = _sort(a)
        return None
    from .intercept import call_native

    return call_native(getattr(a, name), args, kwargs)


@ov(numpy.divmod)
def _divmod_(a, b, **k):
    if not (has_sym_num(a) or has_sym_num(b)):
        return numpy.divmod(demote(a), demote(b), **k)
    if numpy.ndim(a) == 0 and numpy.ndim(b) == 0:
        return divmod(lift(a), b)
    a, b = numpy.broadcast_arrays(numpy.asarray(a, dtype=object), numpy.asarray(b, dtype=object))
    q, r = numpy.empty(a.shape, dtype=object), numpy.empty(a.shape, dtype=object)
    for i in numpy.ndindex(a.shape):
        q[i], r[i] = divmod(lift(a[i]), lift(b[i]))
    return q, r


for _n, _f in (("floor_divide", lambda a, b: lift(a) // b), ("remainder", lambda a, b: lift(a) % b), ("mod", lambda a, b: lift(a) % b)):
    OVERRIDES[getattr(numpy, _n)] = _elementwise(_f, getattr(numpy, _n))


# -- less common functions, so that rewritten code stays within reach ------------------

def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    out = 0
    for j in range(n):
        c = m[0][j]
        minor = [[r[k] for k in range(n) if k != j] for r in m[1:]]
        d = _det(minor)
        out = out + c * d if j % 2 == 0 else out - c * d
    return out


@ov(numpy.linalg.det)
def _linalg_det(a):
    a = numpy.asarray(a)
    if not has_sym_num(a):
        return numpy.linalg.det(demote(a))
    if a.ndim < 2 or a.shape[-1] != a.shape[-2] or a.shape[-1] > 4:
        raise Unsupported("linalg.det")
    if a.ndim == 2:
        return _det(a.tolist())
    out = numpy.empty(a.shape[:-2], dtype=object)
    for i in numpy.ndindex(out.shape):
        out[i] = _det(a[i].tolist())
    return out


@ov(numpy.linalg.inv)
def _linalg_inv(a):
    a = numpy.asarray(a)
    if not has_sym_num(a):
        return numpy.linalg.inv(demote(a))
    if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 3:
        raise Unsupported("linalg.inv")
    m = a.tolist()
    n = len(m)
    d = _det(m)
    if bool(lift(d) == 0):
        raise numpy.linalg.LinAlgError("Singular matrix")
    out = numpy.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            k = _det(minor) if minor else 1
            out[i, j] = (k if (i + j) % 2 == 0 else -k) / d
    return out


@ov(numpy.linalg.solve)
def _linalg_solve(a, b):
    if not has_sym_num(numpy.asarray(a)) and not has_sym_num(numpy.asarray(b)):
        return numpy.linalg.solve(demote(numpy.asarray(a)), demote(numpy.asarray(b)))
    return _linalg_inv(a) @ numpy.asarray(b)


def _hyp(*xs):
    s = 0
    for x in xs:
        s = s + lift(x) * lift(x)
    return lift(s).sqrt()


@ov(numpy.hypot)
def _hypot(a, b):
    if not has_sym_num(a) and not has_sym_num(b):
        return numpy.hypot(demote(a), demote(b))
    if numpy.ndim(a) == 0 and numpy.ndim(b) == 0:
        return _hyp(a, b)
    a, b = numpy.broadcast_arrays(numpy.asarray(a, dtype=object), numpy.asarray(b, dtype=object))
    out = numpy.empty(a.shape, dtype=object)
    for i in numpy.ndindex(a.shape):
        out[i] = _hyp(a[i], b[i])
    return out


@ov(numpy.mean)
def _mean(a, axis=None, dtype=None, out=None, **k):
    a = numpy.asarray(a)
    if not has_sym_num(a):
        return numpy.mean(demote(a), axis=axis, **k)
    if (axis is None or a.ndim == 1) and not k:
        return sum(a.flat) / a.size
    if not k:
        return numpy.add.reduce(a.astype(object), axis=axis) / (a.size // max(1, numpy.add.reduce(a.astype(object), axis=axis).size))
    return a.mean(axis=axis, **k)


@ov(numpy.median)
def _median(a, axis=None, **k):
    a = numpy.asarray(a)
    if not has_sym_num(a):
        return numpy.median(demote(a), axis=axis, **k)
    if axis == 0 and a.ndim == 2:
        return numpy.array([_median(a[:, i]) for i in range(a.shape[1])], dtype=object)
    if axis is not None and a.ndim > 1:
        raise Unsupported("median axis")
    s = list(_sort(numpy.array(list(a.flat), dtype=object)))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


@ov(numpy.linspace)
def _linspace(start, stop, num=50, endpoint=True, **k):
    if not has_sym_num(start) and not has_sym_num(stop):
        return numpy.linspace(demote(start), demote(stop), demote(num), endpoint, **k)
    if numpy.ndim(start) or numpy.ndim(stop) or k.get("retstep"):
        raise Unsupported("linspace")
    n = int(num)
    d = n - 1 if endpoint else n
    out = numpy.empty(n, dtype=object)
    for i in range(n):
        out[i] = start if i == 0 else stop if endpoint and i == n - 1 else start + (stop - start) * i / d
    return out


@ov(numpy.fromiter)
def _fromiter(it, dtype=None, count=-1, **k):
    vals = list(it)
    if count >= 0:
        vals = vals[:count]
    return _array(vals, dtype)


@ov(numpy.bincount)
def _bincount(x, weights=None, minlength=0):
    if weights is None or not has_sym_num(weights):
        return numpy.bincount(demote(numpy.asarray(x)), demote(numpy.asarray(weights)) if weights is not None else None, minlength)
    x = [int(v) for v in x]
    out = numpy.zeros(max(max(x) + 1, minlength), dtype=object)
    for i, w in zip(x, weights):
        out[i] = out[i] + w
    return out


import math as _m

OVERRIDES[_m.hypot] = lambda *a: _hyp(*a) if any(isinstance(x, SymNum) for x in a) else _m.hypot(*a)
OVERRIDES[_m.dist] = lambda p, q: _hyp(*[x - y for x, y in zip(p, q)]) if has_sym_num(list(p)) or has_sym_num(list(q)) else _m.dist(p, q)
OVERRIDES[_m.fsum] = lambda a: (lambda v: sum(v) if has_sym_num(v) else _m.fsum(v))(list(a))
OVERRIDES[_m.prod] = lambda a, start=1: (lambda v: _prod(v, start) if has_sym_num(v) else _m.prod(v, start=start))(list(a))


def _prod(v, start):
    for x in v:
        start = start * x
    return start


def _misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    a, b = lift(a), lift(b)
    d = abs(a - b)
    return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b)) or bool(d <= abs_tol)


OVERRIDES[_m.isclose] = _misclose


@ov(numpy.savetxt)
def _savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    from . import intercept, vfs

    X = numpy.asarray(X, dtype=object) if has_sym_num(X) else X
    if not has_sym_num(X) or numpy.ndim(X) not in (1, 2):
        if not vfs.is_vpath(fname):
            return numpy.savetxt(fname, X, fmt, delimiter, newline, header, footer, comments, encoding)
        with vfs.vopen(fname, "w") as f:
            return numpy.savetxt(f, X, fmt, delimiter, newline, header, footer, comments, encoding)
    rows = X if X.ndim == 2 else X[:, None]
    n = rows.shape[1]
    if isinstance(fmt, (list, tuple)):
        if len(fmt) != n:
            raise AttributeError("fmt has wrong shape.  %s" % str(fmt))
        form = delimiter.join(fmt)
    elif fmt.count("%") == 1:
        form = delimiter.join([fmt] * n)
    elif fmt.count("%") == n:
        form = fmt
    else:
        raise ValueError("fmt has wrong number of %% formats:  %s" % fmt)
    f = vfs.vopen(fname, "w") if isinstance(fname, str) else fname
    try:
        if header:
            f.write(comments + header.replace("\n", "\n" + comments) + newline)
        for row in rows:
            f.write(intercept.sx_mod(form, tuple(row)) + newline)
        if footer:
            f.write(comments + footer.replace("\n", "\n" + comments) + newline)
    finally:
        if f is not fname:
            f.close()


# -- binary records: a symbolic number is stored as a mark of the same size ---------------------

import struct as _struct

_MARK = 0x7FF8DEAD00000000


def _packed():
    return ST.path.cache.setdefault(("packed",), [])


def _spack(fmt, *args):
    if ST.path is None or not any(isinstance(a, SymNum) for a in args):
        return _struct.pack(fmt, *args)
    codes = []
    import re

    for n, c in re.findall(r"(\d*)([a-zA-Z?])", fmt):
        codes += [c] if c == "s" else [c] * int(n or 1)
    vals, known = [], _packed()
    for c, a in zip(codes, args):
        if isinstance(a, SymNum):
            known.append((c, a))
            if c == "d":
                a = _struct.unpack("<d", _struct.pack("<Q", _MARK + len(known)))[0]
            elif c in "IL" and a.kind == "int":
                a = 0xF0000000 + len(known)
            else:
                raise Unsupported("number packed as %s" % c)
        vals.append(a)
    return _struct.pack(fmt, *vals)


def _sunpack(fmt, data):
    out = _struct.unpack(fmt, data)
    if ST.path is None or not _packed():
        return out
    known, vals = _packed(), []
    for v in out:
        if isinstance(v, float) and v != v:
            k = _struct.unpack("<Q", _struct.pack("<d", v))[0] - _MARK
            if 0 < k <= len(known) and known[k - 1][0] == "d":
                v = known[k - 1][1].to_real()
        elif isinstance(v, int) and v > 0xF0000000 and v - 0xF0000000 <= len(known):
            v = known[v - 0xF0000000 - 1][1]
        vals.append(v)
    return tuple(vals)


OVERRIDES[_struct.pack] = _spack
OVERRIDES[_struct.unpack] = _sunpack
