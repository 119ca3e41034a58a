"""Path exploration core: symbolic values, decisions, solver access.

The code under test is executed by CPython; symbolic inputs are proxy objects
holding z3 terms.  Every time the code needs the truth value of a symbolic
condition, `Path.decide` asks the solver which outcomes are feasible under the
current path condition and schedules the unexplored side.  A path is replayed
from its decision prefix (depth-first re-execution).
"""
import itertools
import time
from fractions import Fraction

import z3

__all__ = [
    "Control", "PathAbort", "Infeasible", "Budget", "Unsupported", "ST", "Path",
    "SymBool", "SymNum", "is_sym", "lift", "Explorer", "mk_bool", "rat",
]


class Control(BaseException):
    """Engine control flow; never caught by `except Exception` in the code under test."""


class PathAbort(Control):
    """Ends the current path (recorded as inconclusive with a reason)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Infeasible(Control):
    """Assumption is unsatisfiable on this path."""


class Budget(Control):
    """Exploration budget exhausted."""


class Unsupported(PathAbort):
    """The code did something the encoding does not model."""


class _State:
    path = None


ST = _State()


def rat(x):
    """Exact z3 rational of a python number, read through its shortest decimal repr."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant in symbolic arithmetic")
    return z3.RealVal(Fraction(repr(f)))


def _to_real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def _each(a, f):
    import numpy

    r = numpy.empty(a.shape, dtype=object)
    for i in numpy.ndindex(a.shape):
        r[i] = f(a[i])
    return r


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ST.path.decide(self.e)

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    @staticmethod
    def _b(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, SymNum):
            return o.e != 0
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        return mk_bool(z3.And(self.e, self._b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.e, self._b(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.e, self._b(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mk_bool(self.e == self._b(o))
        return mk_bool(z3.If(self.e, 1, 0) == lift(o).e) if _isnum(o) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 11

    def num(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return format(bool(self), spec)

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return "SymBool(%s)" % self.e


def mk_bool(e):
    """SymBool, or a concrete bool when the term is trivially constant."""
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _isnum(o):
    import numpy

    return isinstance(
        o, (int, float, bool, Fraction, SymNum, SymBool, numpy.integer, numpy.floating, numpy.bool_)
    )


def lift(o):
    """Lift a python number to a SymNum."""
    import numpy

    if isinstance(o, SymNum):
        return o
    if isinstance(o, SymBool):
        return o.num()
    if isinstance(o, numpy.generic):
        o = o.item()
    if isinstance(o, numpy.ndarray) and o.ndim == 0:
        return lift(o.item())
    return SymNum(rat(o))


def const_of(e):
    """Python Fraction/int of a z3 numeral or None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


_INF = float("inf")


def _inf_cmp(op, self_left, o):
    """Comparison of a finite symbolic number with +/-inf or nan."""
    a, b = (0.0, o) if self_left else (o, 0.0)
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": False, "!=": True}[op]


class SymNum:
    """Symbolic number; kind is the sort of the z3 term (Int or Real)."""

    __slots__ = ("e", "np32")
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # -- helpers ---------------------------------------------------------------
    @property
    def kind(self):
        return "int" if z3.is_int(self.e) else "real"

    def _o(self, o):
        import numpy

        if isinstance(o, numpy.ndarray) and o.ndim > 0:
            return None
        if not (_isnum(o) or isinstance(o, numpy.ndarray)):
            return None
        return lift(o).e

    def _arith(self, o, f, swap=False):
        import numpy

        if isinstance(o, numpy.ndarray):
            return _each(o, lambda x: self._arith(x, f, swap))
        if isinstance(o, (float, numpy.floating)) and (o != o or o in (_INF, -_INF)):
            return NotImplemented
        oe = self._o(o)
        if oe is None:
            return NotImplemented
        a, b = self.e, oe
        if a.sort() != b.sort():
            a, b = _to_real(a), _to_real(b)
        if swap:
            a, b = b, a
        return SymNum(f(a, b))

    @staticmethod
    def _infarith(o):
        import numpy

        return isinstance(o, (float, numpy.floating)) and (o in (_INF, -_INF))

    def __add__(self, o):
        if self._infarith(o):
            return float(o)
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        if self._infarith(o):
            return float(o)
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if self._infarith(o):
            return -float(o)
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if self._infarith(o):
            return float(o)
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._arith(o, _mul)

    def __rmul__(self, o):
        return self._arith(o, _mul, True)

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        c = const_of(self.e)
        if c is not None:
            return SymNum(rat(abs(c)))
        if ST.path.geo and not z3.is_int(self.e):
            from .poly import sign, poly

            return self if sign(poly(self.e)) >= 0 else -self
        return SymNum(z3.If(self.e >= 0, self.e, -self.e))

    absolute = __abs__
    fabs = __abs__

    def _div(self, a, b):
        a, b = _to_real(a), _to_real(b)
        cb = const_of(b)
        if cb is not None:
            if cb == 0:
                raise ZeroDivisionError("division by zero")
            return SymNum(a / b)
        if ST.path.decide(b == 0):
            if ST.path.np_depth:
                raise PathAbort("numpy division by zero")
            raise ZeroDivisionError("division by zero")
        return SymNum(a / b)

    def __truediv__(self, o):
        import numpy

        if isinstance(o, numpy.ndarray):
            return _each(o, lambda x: self / x)
        if self._infarith(o):
            return 0.0
        oe = self._o(o)
        return NotImplemented if oe is None else self._div(self.e, oe)

    def __rtruediv__(self, o):
        import numpy

        if isinstance(o, numpy.ndarray):
            return _each(o, lambda x: x / self)
        oe = self._o(o)
        return NotImplemented if oe is None else self._div(oe, self.e)

    def _divmod(self, a, b):
        if z3.is_int(a) and z3.is_int(b):
            cb = const_of(b)
            if cb is not None and cb > 0:
                return SymNum(a / b), SymNum(a % b)
            if ST.path.decide(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if ST.path.decide(b > 0):
                return SymNum(a / b), SymNum(a % b)
            return SymNum((-a) / (-b)), SymNum(-((-a) % (-b)))
        a, b = _to_real(a), _to_real(b)
        q = self._div(a, b)
        f = SymNum(z3.ToReal(z3.ToInt(q.e)))
        return f, SymNum(a - f.e * b)

    def __floordiv__(self, o):
        oe = self._o(o)
        return NotImplemented if oe is None else self._divmod(self.e, oe)[0]

    def __rfloordiv__(self, o):
        oe = self._o(o)
        return NotImplemented if oe is None else self._divmod(oe, self.e)[0]

    def __mod__(self, o):
        oe = self._o(o)
        return NotImplemented if oe is None else self._divmod(self.e, oe)[1]

    def __rmod__(self, o):
        oe = self._o(o)
        return NotImplemented if oe is None else self._divmod(oe, self.e)[1]

    def __divmod__(self, o):
        return self._divmod(self.e, self._o(o))

    def __pow__(self, o):
        from .arith import sym_pow

        return sym_pow(self, o)

    def __rpow__(self, o):
        from .arith import sym_pow

        return sym_pow(o, self)

    # -- elementary functions (numpy calls these on object arrays) -----------------
    def sqrt(self):
        from .arith import sym_sqrt

        return sym_sqrt(self)

    def log(self):
        from .arith import sym_log

        return sym_log(self)

    def log10(self):
        from .arith import sym_log

        return sym_log(self, base=10)

    def exp(self):
        from .arith import sym_exp

        return sym_exp(self)

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def floor(self):
        return SymNum(z3.ToReal(z3.ToInt(_to_real(self.e))))

    def ceil(self):
        return SymNum(-z3.ToReal(z3.ToInt(-_to_real(self.e))))

    def rint(self):
        if self.kind == "int":
            return self
        p = ST.path
        key = ("rint", self.e.get_id())
        hit = p.cache.get(key)
        if hit is None:
            k = p.int_var("rint")
            x = _to_real(self.e)
            half = z3.RealVal("1/2")
            p.add(z3.And(z3.ToReal(k) - half <= x, x <= z3.ToReal(k) + half))
            hit = p.cache[key] = (SymNum(z3.ToReal(k)), self.e)
        return hit[0]

    def item(self):
        return self

    def tolist(self):
        return self

    @property
    def dtype(self):
        import numpy

        return numpy.dtype(int if self.kind == "int" else float)

    @property
    def real(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    def is_integer(self):
        if self.kind == "int":
            return True
        return mk_bool(z3.IsInt(self.e))

    # -- comparisons ---------------------------------------------------------------
    def _cmp(self, o, op, f):
        import numpy

        if isinstance(o, numpy.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, (float, numpy.floating)) and (o != o or o in (_INF, -_INF)):
            return _inf_cmp(op, True, float(o))
        oe = self._o(o)
        if oe is None:
            return NotImplemented
        a, b = self.e, oe
        if a.sort() != b.sort():
            a, b = _to_real(a), _to_real(b)
        if a.eq(b):
            return op in ("==", "<=", ">=")
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None:
            return {"<": ca < cb, "<=": ca <= cb, ">": ca > cb, ">=": ca >= cb,
                    "==": ca == cb, "!=": ca != cb}[op]
        return mk_bool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, "<", lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, "<=", lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, ">", lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, ">=", lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, "==", lambda a, b: a == b)
        return False if r is NotImplemented and not hasattr(o, "__array__") else r

    def __ne__(self, o):
        r = self._cmp(o, "!=", lambda a, b: a != b)
        return True if r is NotImplemented and not hasattr(o, "__array__") else r

    def __hash__(self):
        return 7

    def __bool__(self):
        return ST.path.decide(self.e != 0)

    # -- conversions -----------------------------------------------------------------
    def __index__(self):
        if self.kind != "int":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ST.path.enumerate_int(self.e)

    def __int__(self):
        if self.kind == "int":
            return ST.path.enumerate_int(self.e)
        e = _to_real(self.e)
        t = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        return ST.path.enumerate_int(t)

    __trunc__ = __int__

    def to_int(self):
        if self.kind == "int":
            return self
        e = self.e
        return SymNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def to_real(self):
        return SymNum(_to_real(self.e))

    def __float__(self):
        return float(ST.path.concretise(self.e, "float()"))

    def __round__(self, nd=None):
        if self.kind == "int" and (nd is None or nd >= 0):
            return self
        if nd is None:
            r = self.rint()
            return SymNum(r.e.arg(0))
        k = 10 ** abs(int(nd))
        return (self * k).rint() / k if nd > 0 else (self / k).rint() * k

    def __format__(self, spec):
        from .strs import format_num

        return format_num(self, spec)

    def __str__(self):
        from .strs import format_num

        return format_num(self, "")

    def __repr__(self):
        return "SymNum(%s)" % (self.e,)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _mul(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca == 0:
        return a
    if cb == 0:
        return b
    if ca == 1:
        return b
    if cb == 1:
        return a
    return a * b


class Path:
    """One execution of the harness."""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.timeout_ms)
        self.solver.set("random_seed", explorer.seed)
        self.pc = []
        self.model = None
        self.inputs = {}       # name -> (kind, payload)
        self.incomplete = []   # reasons why this path under-approximates
        self.np_depth = 0
        self.fresh = itertools.count()
        self.cache = {}        # per-path memo (sqrt variables, rounded values, ...)
        self.n_checks = 0
        self.functions = set()
        self.vfs = {}
        self.nonlinear = False
        self.geo = False
        self.plain_numbers = False
        self.any_order = None
        self.hints = {}
        from . import strs

        self.strs = strs.Registry()

    # -- solver --------------------------------------------------------------------------
    def add(self, c):
        self.solver.add(c)
        self.pc.append(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def query(self, *cs, want_model=False):
        """sat / unsat / unknown of pc + cs."""
        t = time.time()
        if t > self.x.deadline:
            raise Budget("time")
        self.x.n_queries += 1
        r = self.solver.check(*cs)
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.x.timeout_ms)
            s.add(*self.pc)
            s.add(*cs)
            r = s.check()
            if r == z3.sat:
                self._last_model = s.model()
        elif r == z3.sat:
            self._last_model = self.solver.model()
        self.x.solver_s += time.time() - t
        if r == z3.unknown:
            self.x.n_unknown += 1
        return r

    def _model_says(self, c):
        if self.model is None:
            return None
        try:
            v = self.model.eval(c, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def decide(self, cond):
        """Truth value of a condition on this path; forks when both are feasible."""
        if isinstance(cond, bool):
            return cond
        if self.geo:
            from .poly import decide

            r = decide(cond)
            if r is not None:
                return r
        return self.decide_raw(cond)

    def decide_raw(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.add(c if v else z3.Not(c))
            return v
        self.pos += 1
        if len(self.trace) > self.x.max_depth:
            raise Budget("depth")
        says = self._model_says(c)
        nc = z3.Not(c)
        mt = mf = None
        if says is True:
            can_t, mt = z3.sat, self.model
            can_f = self.query(nc)
        elif says is False:
            can_f, mf = z3.sat, self.model
            can_t = self.query(c)
            mt = self._last_model if can_t == z3.sat else None
        else:
            can_t = self.query(c)
            mt = self._last_model if can_t == z3.sat else None
            can_f = self.query(nc) if can_t != z3.unsat else z3.sat
        if z3.unknown in (can_t, can_f):
            self.note("solver unknown on a branch")
        if can_t == z3.unsat:
            self.trace.append(False)
            self.add(nc)
            return False
        if can_f == z3.unsat:
            self.trace.append(True)
            self.add(c)
            return True
        self.x.n_states += 1
        self.x.schedule(self.trace + [False])
        self.trace.append(True)
        self.model = mt
        self.solver.add(c)
        self.pc.append(c)
        return True

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        self.add(cond)
        if self.pos >= len(self.prefix):
            if self.model is None:
                r = self.query()
                if r == z3.unsat:
                    raise Infeasible()
                if r == z3.sat:
                    self.model = self._last_model

    def get_model(self):
        if self.model is None:
            r = self.query()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise PathAbort("solver unknown (no model)")
            self.model = self._last_model
        return self.model

    def enumerate_int(self, e):
        """Complete case split over the feasible values of an integer term."""
        c = const_of(z3.simplify(e))
        if c is not None:
            return int(c)
        for _ in range(self.x.max_enum):
            if self.pos < len(self.prefix):
                # value recorded in the trace as ("v", n)
                v = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(v)
                n, took = v[1], v[2]
            else:
                m = self.get_model()
                n = m.eval(e, model_completion=True).as_long()
                self.pos += 1
                took = True
                r = self.query(e != n)
                if r != z3.unsat:
                    self.x.n_states += 1
                    self.x.schedule(self.trace + [("v", n, False)])
                self.trace.append(("v", n, True))
            if took:
                self.add(e == n)
                return n
            self.add(e != n)
            self.model = None
        raise PathAbort("integer enumeration bound")

    def concretise(self, e, why):
        """Pick one feasible value (under-approximation, recorded)."""
        c = const_of(z3.simplify(e))
        if c is not None:
            return c
        key = ("conc", e.get_id())
        if key in self.cache:
            return self.cache[key][0]
        self.note("concretised: " + why)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            val = v[1]
        else:
            self.pos += 1
            val = self._pick(e)
            self.trace.append(("c", val))
        self.cache[key] = (val, e)
        self.add(e == (z3.IntVal(val) if isinstance(val, int) else z3.RealVal(val)))
        return val

    def _pick(self, e):
        m = self.get_model()
        val = self.model_value(m, e)
        if isinstance(val, int):
            return val
        # prefer a value exactly representable in binary64
        f = Fraction(float(val))
        f = Fraction(repr(float(val)))
        if f != val:
            if self.query(e == z3.RealVal(f)) == z3.sat:
                return f
        return val

    @staticmethod
    def model_value(m, e):
        v = m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(40)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        raise PathAbort("model value %s" % v)

    def note(self, why):
        if why not in self.incomplete:
            self.incomplete.append(why)

    def real_var(self, hint):
        return z3.Real("%s!%d" % (hint, next(self.fresh)))

    def int_var(self, hint):
        return z3.Int("%s!%d" % (hint, next(self.fresh)))


class Explorer:
    """Depth-first exploration of all paths of a harness."""

    def __init__(self, fn, api_factory, budget_s=30.0, max_paths=20000, max_depth=4000,
                 timeout_ms=10000, seed=1, max_enum=64):
        self.fn = fn
        self.api_factory = api_factory
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.timeout_ms = timeout_ms
        self.max_enum = max_enum
        self.seed = seed
        self.work = [[]]
        self.n_states = 0
        self.n_edges = 0
        self.n_queries = 0
        self.n_unknown = 0
        self.n_obligations = 0
        self.n_discharged = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.candidates = []
        self.grace = None
        self.notes = {}
        self.functions = set()
        self.samples = []
        self.reached = {}
        self.exhausted = False
        self.budget_hit = None
        self.aborted = 0

    def schedule(self, prefix):
        self.work.append(prefix)

    def run(self):
        while self.work:
            if self.paths >= self.max_paths:
                self.budget_hit = "paths"
                break
            if time.time() > self.deadline:
                self.budget_hit = "time"
                break
            prefix = self.work.pop()
            p = Path(self, prefix)
            ST.path = p
            api = self.api_factory(self, p)
            ended = "ok"
            try:
                try:
                    self.fn(api)
                except Control:
                    raise
                except RecursionError:
                    raise PathAbort("recursion")
                except (Exception, SystemExit) as exc:  # the code under test raised or gave up
                    api.on_exception(exc)
            except Infeasible:
                ended = "infeasible"
            except Budget as exc:
                self.budget_hit = str(exc)
                ended = "budget"
            except PathAbort as exc:
                ended = "abort"
                p.note(exc.why)
            except z3.Z3Exception as exc:
                ended = "abort"
                p.note("z3: %s" % exc)
            self.n_edges += len(p.trace) - max(0, len(prefix) - 1)
            self.functions |= p.functions
            if ended == "infeasible":
                self.infeasible += 1
            else:
                self.paths += 1
                if ended == "abort":
                    self.aborted += 1
                for n in p.incomplete:
                    self.notes[n] = self.notes.get(n, 0) + 1
                if ended != "budget":
                    try:
                        api.on_path_end() if ended == "ok" else api.on_undecided()
                    except (PathAbort, Infeasible):
                        self.notes["no sample"] = self.notes.get("no sample", 0) + 1
            ST.path = None
            if self.budget_hit in ("time",):
                break
        self.exhausted = not self.work and self.budget_hit is None
        return self
