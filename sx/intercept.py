"""Run-time entry points of the instrumented code."""
import builtins
import glob as _glob
import json as _json
import logging as _logging
import math
import operator
import os
import types

import numpy

from . import strs, vfs
from .core import ST, SymBool, SymNum, PathAbort, Unsupported, lift, mk_bool, const_of
from .npov import OVERRIDES as NP, nd_method, has_sym_num, demote, deep_sym, concretise_arg, to_bool_array

OV = {}


def _sym_arg(a):
    if isinstance(a, str):
        return strs.has_sym(a)
    return isinstance(a, (SymNum, SymBool)) or (
        isinstance(a, numpy.ndarray) and (a.dtype == object or (a.dtype.kind == "U" and any(strs.has_sym(x) for x in a.flat)))
    )


def sx_enter(name):
    p = ST.path
    if p is not None:
        p.functions.add(name)


def sx_call(fn, *args, **kwargs):
    if ST.path is None:
        return fn(*args, **kwargs)
    try:
        ov = OV.get(fn)
    except TypeError:
        ov = None
    if ov is not None:
        return ov(*args, **kwargs)
    if isinstance(fn, (types.BuiltinFunctionType, numpy.ufunc)) or (
        isinstance(fn, type) and fn.__module__ in ("builtins", "numpy")
    ) or (getattr(fn, "__module__", None) or "").startswith("numpy") or type(fn).__name__ == "_ArrayFunctionDispatcher":
        return call_native(fn, args, kwargs)
    mod = getattr(fn, "__module__", None) or ""
    if not mod.startswith("toughio") and mod.split(".")[0] in _STDLIB and args and any(
        isinstance(a, str) and strs.has_sym(a) for a in args
    ):
        args = tuple(strs.concretise_str(a) if isinstance(a, str) else a for a in args)
    return fn(*args, **kwargs)


def _path_fn(fn):
    """Functions of os.path only look for dots and slashes."""

    def call(*args):
        out = []
        for a in args:
            if isinstance(a, str) and strs.has_sym(a):
                a = strs.resolve(a)
                if any(strs.dom(c) & _DOTS for c in a if c >= "\U000F0000"):
                    a = strs.concretise_str(a)
            out.append(a)
        return fn(*out)

    return call


_DOTS = frozenset(ord(c) for c in "./\\~")
_STDLIB = {"re", "os", "posixpath", "genericpath", "string", "textwrap", "shlex", "fnmatch", "glob", "ast", "struct", "datetime", "csv"}
_MOVING = {"append", "extend", "insert", "write", "writelines", "add", "update", "setdefault", "__setitem__", "put"}


def call_native(fn, args, kwargs):
    selfobj = getattr(fn, "__self__", None)
    bound = selfobj is not None and not isinstance(selfobj, types.ModuleType)
    if any(isinstance(a, str) and strs.has_ghost(a) for a in args):
        args = tuple(strs.resolve(a) if isinstance(a, str) else a for a in args)
    numpyish = not bound
    if numpyish:
        args = tuple(demote(a) for a in args)
        kwargs = {k: demote(v) for k, v in kwargs.items()}
    try:
        return fn(*args, **kwargs)
    except (TypeError, AttributeError, ValueError) as exc:
        if bound or not (any(deep_sym(a) for a in args) or any(deep_sym(a) for a in kwargs.values())):
            raise
        nm = getattr(fn, "__name__", str(fn))
        ST.path.note("concretised arguments of %s" % nm)
        cargs = [concretise_arg(a) for a in args]
        ckw = {k: concretise_arg(v) for k, v in kwargs.items()}
        return fn(*cargs, **ckw)


def sx_callm(obj, name, *args, **kwargs):
    if ST.path is None:
        return getattr(obj, name)(*args, **kwargs)
    if isinstance(obj, str):
        if obj.isascii() and name != "format" and (not args or (len(args) == 1 and isinstance(args[0], str) and args[0].isascii())):
            return getattr(obj, name)(*args, **kwargs)
        return str_method(obj, name, args, kwargs)
    if isinstance(obj, numpy.ndarray):
        return nd_method(obj, name, args, kwargs)
    if isinstance(obj, _re.Pattern) and name in ("match", "search", "split", "sub", "findall", "fullmatch", "finditer"):
        return re_apply(name, obj, args, kwargs)
    if isinstance(obj, dict) and name in ("get", "pop", "setdefault") and args and isinstance(args[0], (str, SymNum)):
        k = find_key(obj, args[0])
        if k is not None:
            args = (k[0],) + args[1:]
    elif isinstance(obj, list) and name in ("index", "count", "remove") and args and isinstance(args[0], str):
        idx = [i for i, x in enumerate(obj) if sx_cmp("Eq", x, args[0])]
        if name == "count":
            return len(idx)
        if not idx:
            raise ValueError("%r is not in list" % args[0])
        if name == "index":
            return idx[0]
        obj.pop(idx[0])
        return None
    elif isinstance(obj, list) and name == "sort":
        obj[:] = ov_sorted(obj, *args, **kwargs)
        return None
    elif isinstance(obj, set) and name == "add" and args and isinstance(args[0], (str, SymNum)):
        if not sx_cmp("In", args[0], obj):
            obj.add(args[0])
        return None
    return sx_call(getattr(obj, name), *args, **kwargs)


def str_method(s, name, args, kwargs):
    if name == "format":
        args = tuple(strs.resolve(a) if isinstance(a, str) and strs.has_ghost(a) else a for a in args)
        kwargs = {k: strs.resolve(a) if isinstance(a, str) and strs.has_ghost(a) else a for k, a in kwargs.items()}
        return s.format(*args, **kwargs)
    if not (strs.has_sym(s) or any(isinstance(a, str) and strs.has_sym(a) for a in args)):
        return getattr(s, name)(*args, **kwargs)
    s = str(s)
    if name in strs.STR_METHODS:
        return strs.STR_METHODS[name](s, *args, **kwargs)
    if name in strs.STR_NATIVE:
        return getattr(strs.resolve(s), name)(*args, **kwargs)
    if name == "zfill":
        return strs.resolve(s).zfill(*args)
    s = strs.concretise_str(s, "str.%s" % name)
    args = [strs.concretise_str(a) if isinstance(a, str) else a for a in args]
    return getattr(s, name)(*args, **kwargs)


def find_key(d, key):
    """(key,) of the dict/set entry equal to a symbolic key, else None; forks."""
    if isinstance(key, str):
        if key in d:
            return (key,)
        ks = strs.has_sym(key)
        for k in d:
            if isinstance(k, str) and (ks or strs.has_sym(k)) and strs.eq(k, key):
                return (k,)
        return None
    if isinstance(key, SymNum):
        for k in d:
            if isinstance(k, (int, float, SymNum, numpy.number)) and (key == k):
                return (k,)
        return None
    if isinstance(key, tuple):
        if key in d:
            return (key,)
        if any(isinstance(x, str) and strs.has_sym(x) or isinstance(x, SymNum) for x in key):
            for k in d:
                if isinstance(k, tuple) and len(k) == len(key) and all(sx_cmp("Eq", a, b) for a, b in zip(k, key)):
                    return (k,)
        return None
    try:
        return (key,) if key in d else None
    except TypeError:
        raise


_OPS = {
    "Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le,
    "Gt": operator.gt, "GtE": operator.ge,
}


def sx_cmp(op, a, b):
    if ST.path is None:
        if op == "In":
            return a in b
        if op == "NotIn":
            return a not in b
        return _OPS[op](a, b)
    if op == "NotIn":
        r = sx_cmp("In", a, b)
        return not r
    if op == "In":
        if isinstance(b, str):
            if isinstance(a, str) and (strs.has_sym(a) or strs.has_sym(b)):
                return strs.contains(b, a)
            return a in b
        if isinstance(b, (dict, set, frozenset, type({}.keys()))):
            if isinstance(a, (str, SymNum, tuple)):
                return find_key(b, a) is not None
            if isinstance(a, (int, float)) and not isinstance(a, bool):
                if a in b:
                    return True
                return any(isinstance(k, SymNum) and bool(k == a) for k in b)
            return a in b
        if isinstance(b, (list, tuple, type({}.values()))):
            return any((x is a) or bool(_truth(sx_cmp("Eq", x, a))) for x in b)
        if isinstance(b, numpy.ndarray):
            return any(bool(sx_cmp("Eq", x, a)) for x in b.flat)
        return a in b
    sa, sb = isinstance(a, str), isinstance(b, str)
    if sa and sb:
        if not (strs.has_sym(a) or strs.has_sym(b)):
            return _OPS[op](a, b)
        if op == "Eq":
            return strs.eq(a, b)
        if op == "NotEq":
            return not strs.eq(a, b)
        if op == "Lt":
            return strs.lt(a, b)
        if op == "Gt":
            return strs.lt(b, a)
        if op == "LtE":
            return not strs.lt(b, a)
        return not strs.lt(a, b)
    if isinstance(a, (list, tuple)) and type(a) is type(b) and op in ("Eq", "NotEq"):
        r = len(a) == len(b) and all(bool(_truth(sx_cmp("Eq", x, y))) for x, y in zip(a, b))
        return r if op == "Eq" else not r
    na, nb = isinstance(a, numpy.ndarray), isinstance(b, numpy.ndarray)
    if (na and a.dtype.kind == "U") or (nb and b.dtype.kind == "U"):
        if any(isinstance(x, str) and strs.has_sym(x) for y in (a, b) for x in (y.flat if isinstance(y, numpy.ndarray) else [y])):
            A, B = numpy.broadcast_arrays(numpy.asarray(a), numpy.asarray(b))
            out = numpy.empty(A.shape, dtype=bool)
            for i in numpy.ndindex(A.shape):
                out[i] = sx_cmp(op, str(A[i]), str(B[i]))
            return out
    if na and isinstance(b, SymNum) or nb and isinstance(a, SymNum):
        A, B = numpy.broadcast_arrays(as_object(a), as_object(b))
        out = numpy.empty(A.shape, dtype=object)
        for i in numpy.ndindex(A.shape):
            out[i] = _OPS[op](A[i], B[i])
        return out
    return _OPS[op](a, b)


def as_object(x):
    """An object array of an array or a number."""
    if isinstance(x, numpy.ndarray):
        return x
    out = numpy.empty((), dtype=object)
    out[()] = x
    return out


def _truth(r):
    if isinstance(r, numpy.ndarray):
        return r.all() if r.size else False
    return r


def sx_getitem(obj, key):
    if ST.path is None:
        return obj[key]
    if isinstance(obj, str):
        if strs.has_sym(obj) and (strs.has_ghost(obj) or strs.has_opaque(obj)):
            return strs.getitem(obj, key)
        return obj[key]
    if isinstance(obj, dict):
        if isinstance(key, (str, SymNum, tuple)):
            k = find_key(obj, key)
            if k is None:
                return obj[key] if not isinstance(key, SymNum) else _keyerr(key)
            return obj[k[0]]
        return obj[key]
    if isinstance(obj, numpy.ndarray):
        return nd_getitem(obj, key)
    return obj[key]


def _keyerr(k):
    raise KeyError(k)


def _fix_index(k):
    if isinstance(k, numpy.ndarray) and k.dtype == object:
        return to_bool_array(k)
    if isinstance(k, list) and any(isinstance(x, (SymNum, SymBool)) for x in k):
        return [bool(x) if isinstance(x, SymBool) else operator.index(x) if isinstance(x, SymNum) else x for x in k]
    if isinstance(k, SymNum):
        return operator.index(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, tuple):
        return tuple(_fix_index(x) for x in k)
    return k


def nd_getitem(obj, key):
    if obj.ndim == 1 and obj.dtype.kind == "U" and obj.size > 8:
        if isinstance(key, SymNum) and key.kind == "int":
            r = table_pick(obj, [key])
            if r is not None:
                return r[0]
        elif isinstance(key, numpy.ndarray) and key.dtype == object and key.ndim == 1 and key.size and all(
            isinstance(x, SymNum) and x.kind == "int" for x in key
        ):
            r = table_pick(obj, list(key))
            if r is not None:
                return numpy.array(r)
    return obj[_fix_index(key)]


def _segments(col):
    """[(start, code at start, slope)] of a column of character codes, or None."""
    n = len(col)
    d = numpy.diff(col)
    if n > 1 and len(numpy.unique(d)) > 40:
        return None
    out, i = [], 0
    while i < n:
        slope = int(d[i]) if i < n - 1 and d[i] in (0, 1) else 0
        j = i
        while j < n - 1 and d[j] == slope:
            j += 1
        out.append((i, int(col[i]), slope))
        if len(out) > 80:
            return None
        i = j + 1
    return out


def table_pick(arr, idx):
    """Rows of a table of texts of equal length at symbolic positions; None if it has no closed form."""
    import z3

    n = arr.size
    if strs.has_sym("".join(arr[:64].tolist())):
        return None
    w = len(arr[0])
    codes = arr.astype("U%d" % max(w, 1)).view(numpy.uint32).reshape(n, -1).astype(numpy.int64)
    if w == 0 or codes.shape[1] != w or (codes == 0).any():
        return None
    forms = []
    ar = numpy.arange(n)
    for p in range(w):
        col = codes[:, p]
        q = next((q for q in range(8) if numpy.array_equal(col, 48 + (ar // 10 ** q) % 10)), None)
        if q is not None:
            forms.append(("digit", q))
            continue
        seg = _segments(col)
        if seg is None:
            return None
        forms.append(("seg", seg))
    out = []
    for k in idx:
        if ST.path.decide(z3.Or(k.e >= n, k.e < -n)):
            raise IndexError("index out of bounds for axis 0 with size %d" % n)
        e = k.e
        if ST.path.decide(e < 0):
            e = e + n
        s = ""
        for p, (kind, f) in enumerate(forms):
            c = strs.fresh_char(frozenset(int(x) for x in numpy.unique(codes[:, p])))
            v = strs.cvar(c)
            if kind == "digit":
                x = 48 + (e / z3.IntVal(10 ** f)) % 10
            else:
                x = None
                for i, c0, sl in f:
                    t = c0 + (e - i) * sl if sl else z3.IntVal(c0)
                    x = t if x is None else z3.If(e >= i, t, x)
            ST.path.add(v == x)
            s += c
        out.append(s)
    return out


def sample_of(a):
    """Sampled positions standing for range(n), if n is a sampled size."""
    if len(a) == 1 and isinstance(a[0], SymNum):
        for e, idx in ST.path.cache.get(("sample",), ()):
            if e.eq(a[0].e):
                return idx
    return None


def sx_iter(x):
    if ST.path is not None and isinstance(x, str) and strs.has_sym(x):
        if strs.has_opaque(x):
            x = strs.concretise_str(x)
        return strs.resolve(x)
    return x


def sx_mod(a, b):
    if ST.path is None or not isinstance(a, str):
        return a % b
    vals = b if isinstance(b, tuple) else (b,)
    if isinstance(b, dict) or not any(isinstance(v, (SymNum, SymBool)) or (isinstance(v, str) and strs.has_sym(v)) for v in vals):
        return a % b
    import re

    out, pos, i = [], 0, 0
    for m in re.finditer(r"%(?:%|([-+ 0#]*)(\d*)(?:\.(\d+))?([a-zA-Z]))", a):
        out.append(a[pos:m.start()])
        pos = m.end()
        if m.group(0) == "%%":
            out.append("%")
            continue
        v = vals[i]
        i += 1
        fl, w, pr, t = m.group(1), m.group(2), m.group(3), m.group(4)
        if isinstance(v, SymNum) and t in "sr":
            s = str(v)
            s = s if not w else (s.ljust(int(w)) if "-" in fl else s.rjust(int(w)))
            out.append(s)
        elif isinstance(v, SymNum):
            if t in "di":
                v = v.to_int() if v.kind == "real" else v
                spec = ("<" if "-" in fl else ">") + ("0" if "0" in fl else "") + w + "d"
            else:
                if v.kind == "int" and t in "eEfg":
                    v = v.to_real()
                spec = ("<" if "-" in fl else ">") + w + ("." + pr if pr else "") + t
            out.append(format(v, spec))
        else:
            if isinstance(v, str) and strs.has_ghost(v):
                v = strs.resolve(v)
            out.append(m.group(0) % v)
    out.append(a[pos:])
    if i != len(vals):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


_IOPS = {
    "Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
    "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow,
    "BitAnd": operator.iand, "BitOr": operator.ior, "BitXor": operator.ixor,
    "LShift": operator.ilshift, "RShift": operator.irshift, "MatMult": operator.imatmul,
}


def sx_iop(op, a, b):
    if ST.path is None:
        return _IOPS[op](a, b)
    if isinstance(a, numpy.ndarray) and a.dtype.kind in "fiu" and has_sym_num(b):
        if a.dtype.kind == "f":
            a = a.astype(object)
    if isinstance(a, numpy.ndarray) and isinstance(b, SymNum):
        w = numpy.empty((), dtype=object)
        w[()] = b
        b = w
    return _IOPS[op](a, b)


# -- builtins --------------------------------------------------------------------------------------

def ov_len(x):
    if isinstance(x, str) and strs.has_sym(x):
        return strs.slen(x)
    return len(x)


def ov_float(x=0.0):
    if isinstance(x, SymNum):
        return x.to_real()
    if isinstance(x, SymBool):
        return x.num().to_real()
    if isinstance(x, str) and strs.has_sym(x):
        return strs.parse_float(str(x))
    if isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
        return ov_float(x.item())
    return float(x)


def ov_int(x=0, *base):
    if isinstance(x, SymNum):
        return x.to_int()
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, str) and strs.has_sym(x):
        return strs.parse_int(str(x))
    return int(x, *base)


def ov_str(x="", *a):
    if isinstance(x, str) and strs.has_sym(x):
        return str(x)
    if isinstance(x, (SymNum, SymBool)):
        return str(x)
    return str(x, *a)


def ov_repr(x):
    if isinstance(x, SymNum):
        return str(x)
    return repr(x)


def ov_bool(x=False):
    return bool(x)


class _SymTypes:
    real = (float, numpy.float64)
    int = (int,)


def ov_isinstance(x, t):
    if isinstance(x, SymNum):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for k in ts:
            flat += list(k) if isinstance(k, tuple) else [k]
        cand = (int,) if x.kind == "int" else (float,)
        import numbers

        for k in flat:
            if k in cand or k is object or k is SymNum:
                return True
            if k in (numbers.Number, numbers.Real) or (k is numbers.Integral and x.kind == "int"):
                return True
        return False
    if isinstance(x, SymBool):
        ts = t if isinstance(t, tuple) else (t,)
        return any(k in (bool, int, object) for k in ts)
    return isinstance(x, t)


def ov_type(x, *a):
    if not a:
        if isinstance(x, SymNum):
            return int if x.kind == "int" else float
        if isinstance(x, SymBool):
            return bool
    return type(x, *a)


def ov_abs(x):
    return abs(x)


class _LtKey:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return bool(klt(self.k, o.k))


def klt(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not bool(_truth(sx_cmp("Eq", x, y))):
                return klt(x, y)
        return len(a) < len(b)
    return sx_cmp("Lt", a, b)


def ov_sorted(it, key=None, reverse=False):
    items = list(sx_iter(it))
    if key is None and not reverse and getattr(ST.path, "any_order", None):
        from .npov import all_ints, sort_network

        if any(isinstance(x, SymNum) for x in items) and all_ints(items):
            return sort_network(items)
    return sorted(items, key=(lambda v: _LtKey(key(v) if key else v)), reverse=reverse)


def _minmax(items, key, less):
    best = items[0]
    kb = key(best) if key else best
    for v in items[1:]:
        kv = key(v) if key else v
        if bool(less(kv, kb)):
            best, kb = v, kv
    return best


def ov_min(*args, **kw):
    key = kw.get("key")
    items = list(sx_iter(args[0])) if len(args) == 1 else list(args)
    if not items:
        return min(*args, **kw)
    return _minmax(items, _wrapkey(key), klt)


def ov_max(*args, **kw):
    key = kw.get("key")
    items = list(sx_iter(args[0])) if len(args) == 1 else list(args)
    if not items:
        return max(*args, **kw)
    return _minmax(items, _wrapkey(key), lambda a, b: klt(b, a))


def _wrapkey(key):
    if key is len:
        return ov_len
    return key


def ov_set(it=()):
    out = set()
    n = 0
    for v in sx_iter(it):
        if isinstance(v, (SymNum, str, tuple)) or any(isinstance(k, SymNum) for k in out):
            if not _in_set(v, out):
                out.add(v)
        else:
            out.add(v)
    return out


def _in_set(v, s):
    if isinstance(v, (int, float, SymNum, numpy.number)):
        return any(isinstance(k, (int, float, SymNum, numpy.number)) and bool(k == v) for k in s)
    return find_key(s, v) is not None


def ov_round(x, nd=None):
    if isinstance(x, SymNum):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


def ov_hash(x):
    return hash(x)


def ov_print(*a, **k):
    return None


def ov_sum(it, start=0):
    tot = start
    for v in it:
        tot = tot + v
    return tot


def ov_arange(*a, **k):
    r = sample_of(a)
    if r is not None:
        out = numpy.empty(len(r), dtype=object)
        out[:] = r
        return out
    return numpy.arange(*[operator.index(x) if isinstance(x, SymNum) and x.kind == "int" else demote(x) for x in a], **k)


def ov_range(*a):
    r = sample_of(a)
    if r is not None:
        return list(r)
    return range(*[operator.index(x) if isinstance(x, (SymNum, numpy.integer)) else x for x in a])


def ov_chr(x):
    return chr(operator.index(x))


def ov_ord(c):
    if isinstance(c, str) and strs.has_sym(c):
        return SymNum(strs.cvar(c))
    return ord(c)


# -- library stubs --------------------------------------------------------------------------------

def _noop(*a, **k):
    return None


def js_default(user=None):
    def default(o):
        if isinstance(o, SymNum):
            tab = ST.path.cache.setdefault(("json",), [])
            for i, p in enumerate(tab):
                if p is o or p.e.eq(o.e):
                    return {"__sx__": i}
            tab.append(o)
            return {"__sx__": len(tab) - 1}
        if isinstance(o, SymBool):
            return bool(o)
        if user is not None:
            return user(o)
        raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)

    return default


def js_dumps(obj, **k):
    cls = k.pop("cls", None)
    user = k.pop("default", None)
    if cls is not None and user is None:
        user = lambda o: cls.default(cls(), o)
    k["ensure_ascii"] = False
    return _json.dumps(obj, default=js_default(user), **k)


def js_dump(obj, f, **k):
    f.write(js_dumps(obj, **k))


def js_loads(s, **k):
    user = k.pop("object_hook", None)

    def hook(d):
        if len(d) == 1 and "__sx__" in d:
            return ST.path.cache[("json",)][d["__sx__"]]
        return user(d) if user else d

    return _json.loads(s, object_hook=hook, **k)


def js_load(f, **k):
    return js_loads(f.read(), **k)


def _math1(name, np_name=None):
    fn = getattr(math, name)

    def ov(x, *a):
        if isinstance(x, SymNum):
            return getattr(x, np_name or name)(*a)
        return fn(x, *a)

    return ov


def _isnan(x):
    return False if isinstance(x, SymNum) else math.isnan(x)


OV.update({
    len: ov_len, float: ov_float, int: ov_int, str: ov_str, repr: ov_repr, isinstance: ov_isinstance,
    type: ov_type, sorted: ov_sorted, min: ov_min, max: ov_max, set: ov_set, round: ov_round,
    sum: ov_sum, range: ov_range, numpy.arange: ov_arange, ord: ov_ord, chr: ov_chr, print: ov_print, bool: ov_bool,
    builtins.open: vfs.vopen, os.path.isfile: vfs.isfile, os.path.exists: vfs.isfile, os.remove: vfs.remove,
    _glob.glob: vfs.vglob,
    os.path.splitext: _path_fn(os.path.splitext), os.path.basename: _path_fn(os.path.basename), os.path.dirname: _path_fn(os.path.dirname),
    os.path.split: _path_fn(os.path.split), os.path.join: _path_fn(os.path.join), os.path.normcase: _path_fn(os.path.normcase),
    _logging.warning: _noop, _logging.info: _noop, _logging.error: _noop, _logging.debug: _noop,
    _json.dump: js_dump, _json.dumps: js_dumps, _json.load: js_load, _json.loads: js_loads,
    math.sqrt: _math1("sqrt"), math.log: _math1("log"), math.exp: _math1("exp"), math.log10: _math1("log10"),
    math.fabs: abs, math.isnan: _isnan, numpy.float64: ov_float,
})
OV.update(NP)

# re: matched by our own matcher, or concretised if the expression is not modelled
import re as _re

from . import rx


def re_apply(name, pat, args, kw):
    strings = [x for x in list(args) + list(kw.values()) if isinstance(x, str)]
    if any(strs.has_sym(x) for x in strings):
        try:
            return rx.apply(name, pat, args, kw)
        except rx.Unsupported:
            args = [strs.concretise_str(x) if isinstance(x, str) else x for x in args]
            kw = {k: strs.concretise_str(x) if isinstance(x, str) else x for k, x in kw.items()}
    return getattr(pat, name)(*args, **kw)


def _re_fn(name):
    def ov(pattern, *args, flags=0, **kw):
        n = {"sub": 3, "split": 2}.get(name, 1)
        if len(args) > n:
            flags, args = args[n], args[:n]
        pat = pattern if isinstance(pattern, _re.Pattern) else _re.compile(strs.concretise_str(pattern), flags)
        return re_apply(name, pat, args, kw)

    return ov


for _f in ("match", "search", "split", "sub", "findall", "fullmatch", "finditer"):
    OV[getattr(_re, _f)] = _re_fn(_f)

NAMES = {
    "_sx_enter": sx_enter, "_sx_call": sx_call, "_sx_callm": sx_callm, "_sx_cmp": sx_cmp,
    "_sx_getitem": sx_getitem, "_sx_iter": sx_iter, "_sx_mod": sx_mod, "_sx_iop": sx_iop,
}
