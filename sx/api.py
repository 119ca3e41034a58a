"""Harness interface, in two modes: symbolic (solver) and concrete (replay)."""
import math
import os
import time
from fractions import Fraction

ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"


class Raised(Exception):
    pass


class Base:
    tier = "quick"

    def check_all(self, pairs, label):
        for i, c in enumerate(pairs):
            self.check(c, label)

    def close_tree(self, got, want, label, tol):
        """Structural comparison of parameters; tol(path) -> relative tolerance of a number."""
        self._tree(got, want, label, tol, ())

    def _tree(self, got, want, label, tol, path):
        import numpy

        where = "%s%s" % (label, "".join("[%s]" % (p,) for p in path))
        if isinstance(want, dict):
            if not isinstance(got, dict):
                self.check(False, where + ": not a dict")
                return
            if set(map(self._k, got)) != set(map(self._k, want)):
                self.check(False, where + ": keys")
                return
            for k in want:
                self._tree(got[k], want[k], label, tol, path + (k,))
        elif isinstance(want, (list, tuple, numpy.ndarray)):
            if not isinstance(got, (list, tuple, numpy.ndarray)) or len(got) != len(want):
                self.check(False, where + ": length")
                return
            for i, (a, b) in enumerate(zip(got, want)):
                self._tree(a, b, label, tol, path + (i,))
        elif want is None or isinstance(want, (str, bool)):
            self.check(self.eq(got, want), where)
        else:
            if got is None or isinstance(got, (str, list, dict)):
                self.check(False, where + ": type")
                return
            t = tol(path) if callable(tol) else tol
            self.check(self.close(got, want, t), where)

    @staticmethod
    def _k(k):
        return k

    def freeze(self, x):
        """Copy of the structure of parameters."""
        import numpy

        if isinstance(x, dict):
            return ("dict", type(x), [(k, self.freeze(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return ("seq", type(x), [self.freeze(v) for v in x])
        if isinstance(x, numpy.ndarray):
            return ("array", x.dtype.kind, x.shape, [self.freeze(v) for v in x.flatten().tolist()])
        return ("leaf", x)

    def frozen_same(self, x, old, label):
        """x still has the structure and values of its copy."""
        new = self.freeze(x)
        self._frozen(new, old, label)

    def _frozen(self, a, b, label):
        if a[0] != b[0] or (a[0] != "leaf" and a[1] != b[1]) or (a[0] == "array" and a[2] != b[2]):
            self.check(False, label)
            return
        if a[0] == "dict":
            if len(a[2]) != len(b[2]):
                self.check(False, label)
                return
            for (k, v), (l, w) in zip(a[2], b[2]):
                if type(k) is not type(l):
                    self.check(False, label)
                    return
                self.check(self.eq(k, l), label)
                self._frozen(v, w, label)
        elif a[0] in ("seq", "array"):
            if len(a[-1]) != len(b[-1]):
                self.check(False, label)
                return
            for v, w in zip(a[-1], b[-1]):
                self._frozen(v, w, label)
        else:
            x, y = a[1], b[1]
            if x is y:
                return
            if x is None or y is None or isinstance(x, (str, bool)) or isinstance(y, (str, bool)):
                self.check(type(x) is type(y) and self.eq(x, y), label)
            else:
                self.check(self.close(x, y), label)


class Symbolic(Base):
    symbolic = True

    def __init__(self, explorer, path, job, tier):
        self.x, self.p, self.job, self.tier = explorer, path, job, tier
        self._expect = None
        self._labels = 0
        self.ranges = {}

    # -- inputs -----------------------------------------------------------------------
    def _reg(self, name, kind, payload):
        if name in self.p.inputs:
            raise ValueError("duplicate input " + name)
        self.p.inputs[name] = (kind, payload)

    def real(self, name, lo=None, hi=None, nonzero=False):
        import z3
        from .core import SymNum, rat

        v = z3.Real("in_" + name)
        self._reg(name, "real", v)
        self.ranges[name] = (lo, hi)
        if self.p.geo:
            if lo is not None:
                self.p.add(v >= rat(float(lo)))
            if hi is not None:
                self.p.add(v <= rat(float(hi)))
            if nonzero:
                self.p.add(v != 0)
            return SymNum(v)
        lo = -1e300 if lo is None else lo
        hi = 1e300 if hi is None else hi
        self.p.add(z3.And(v >= rat(float(lo)), v <= rat(float(hi))))
        tiny = rat(1e-300)
        if lo < 0 or lo == 0:
            self.p.add(z3.Or(v == 0, v >= tiny, v <= -tiny))
        if nonzero:
            self.p.add(v != 0)
        return SymNum(v)

    def int(self, name, lo, hi):
        import z3
        from .core import SymNum

        v = z3.Int("in_" + name)
        self._reg(name, "int", v)
        self.p.add(z3.And(v >= int(lo), v <= int(hi)))
        return SymNum(v)

    def bool(self, name):
        import z3
        from .core import SymBool

        v = z3.Bool("in_" + name)
        self._reg(name, "bool", v)
        return SymBool(v)

    def choice(self, name, options):
        """One of the options; every one is explored."""
        import z3

        options = list(options)
        if len(options) == 1:
            self._reg(name, "const", 0)
            return options[0]
        v = z3.Int("in_" + name)
        self._reg(name, "int", v)
        self.p.add(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.p.decide(v == i):
                return options[i]
        self.p.add(v == len(options) - 1)
        return options[-1]

    def text(self, name, n, dom=ALNUM, first=None, last=None):
        """String of n symbolic characters."""
        from . import strs

        out = []
        for i in range(n):
            d = first if (i == 0 and first) else last if (i == n - 1 and last) else dom
            out.append(strs.fresh_char(frozenset(ord(c) for c in d)))
        s = "".join(out)
        self._reg(name, "text", s)
        return s

    def label(self, name, n=5):
        """Cell label: starts with a letter, blanks allowed inside, digits at the end."""
        return self.text(name, n, ALNUM, first=UPPER, last=DIGITS)

    def distinct(self, *strings):
        """Assume pairwise different strings."""
        import z3
        from . import strs

        for i in range(len(strings)):
            for j in range(i):
                e = strs.eq_expr(strings[i], strings[j])
                if isinstance(e, bool):
                    self.assume(not e)
                else:
                    self.assume(_sb(z3.Not(e)))

    def all_distinct(self, nums):
        """Assume pairwise different integers."""
        import z3
        from .core import lift

        self.p.add(z3.Distinct(*[lift(x).e for x in nums]))

    def assume(self, cond):
        self.p.assume(cond)

    def path(self, name):
        return "/sxvfs/" + name

    def remove_files(self):
        self.p.vfs.clear()

    def read_file(self, path):
        return self.p.vfs.get(path)

    def write_file(self, path, text):
        self.p.vfs[path] = text

    def read_bytes(self, path):
        data = self.p.vfs.get(path)
        return data.encode("utf-8", "surrogatepass") if isinstance(data, str) else data

    def write_bytes(self, path, data):
        self.p.vfs[path] = data

    def exists(self, path):
        return path in self.p.vfs

    # -- expectations -------------------------------------------------------------------
    def _bexpr(self, cond):
        import numpy
        from .core import SymBool, SymNum

        if isinstance(cond, SymBool):
            return cond.e
        if isinstance(cond, SymNum):
            return cond.e != 0
        return bool(cond)

    def reach(self, label):
        self.x.reached[label] = self.x.reached.get(label, 0) + 1

    def check(self, cond, label):
        import z3
        from .core import Infeasible

        self.reach(label)
        self.x.n_obligations += 1
        c = self._bexpr(cond)
        if isinstance(c, bool):
            if c:
                self.x.n_discharged += 1
                return
            self._candidate(label, None)
            raise Infeasible()
        if self.p.geo:
            return self._geo_check(c, label)
        c = z3.simplify(c, som=True) if self.p.nonlinear else z3.simplify(c)
        if z3.is_true(c):
            self.x.n_discharged += 1
            return
        if self.p.pos < len(self.p.prefix):
            # already discharged when this prefix was first explored
            self.x.n_discharged += 1
            self.p.add(c)
            return
        nc = z3.Not(c)
        says = self.p._model_says(c)
        if says is False:
            r, m = z3.sat, self.p.model
        else:
            r = self.p.query(nc)
            m = self.p._last_model if r == z3.sat else None
        if r == z3.unsat:
            self.x.n_discharged += 1
            return
        if r == z3.unknown:
            self.p.note("solver unknown on check " + label)
            return
        self._candidate(label, m, nc)
        self.assume(_sb(c))

    def plain_numbers(self):
        """The text of a number written without a width is one unit from here on (its length and sign are not decided)."""
        self.p.plain_numbers = True

    def geometry(self):
        """Decide real comparisons through polynomial normal forms from here on."""
        self.p.geo = True
        self.p.nonlinear = True

    def any_order(self, how="forward"):
        """Sort integers without case splits; take the groups of numpy.unique in a given order."""
        self.p.any_order = how

    def _geo_check(self, c, label):
        """A comparison of polynomials: its sign is decided; a side on which it fails is a counterexample."""
        from . import poly

        if self.p.decide(c):
            self.x.n_discharged += 1
            return
        # the failing side, with the definitions of roots and inverses, if the solver can say so
        if self._capped(label):
            raise Infeasible_()
        t = poly.table()
        r = self.p.query(*[d() for d in t.defs]) if t.defs else None
        if r is not None and str(r) == "unsat":
            raise Infeasible_()
        self._candidate(label, None)
        raise Infeasible_()

    def _choice_model(self):
        """Model of the path, or of its choices alone if the path is too hard."""
        import z3
        from .core import PathAbort

        try:
            return self.p.get_model()
        except PathAbort:
            pass
        from z3.z3util import get_vars

        s = z3.Solver()
        for c in self.p.pc:
            if all(z3.is_int(v) for v in get_vars(c)):
                s.add(c)
        s.check()
        return s.model()

    def _random_inputs(self, case, n=6):
        """The same choices with other numbers, for counterexamples that hold almost everywhere."""
        import random

        rnd = random.Random(12345)
        out = []
        for k in range(n):
            inp = dict(case["inputs"])
            for name, (kind, v) in self.p.inputs.items():
                if kind == "real" and name in self.ranges:
                    lo, hi = self.ranges[name]
                    lo = -10.0 if lo is None else max(float(lo), -1e3)
                    hi = 10.0 if hi is None else min(float(hi), 1e3)
                    inp[name] = round(rnd.uniform(lo, hi), 3 if k % 2 == 0 else 14)
            out.append(inp)
        return out

    def _capped(self, label):
        return sum(1 for c in self.x.candidates if c["label"] == label) >= self.job.max_candidates

    def _candidate(self, label, model, extra=None):
        if self._capped(label):
            return
        if self.x.grace is not None:
            # a violation is known: do not look for others for long
            self.x.deadline = min(self.x.deadline, time.time() + self.x.grace)
        if model is None:
            model = self._choice_model() if self.p.geo else self.p.get_model()
        case = self.case(label, model)
        alts = []
        # a few more models of the same violation, in case rounding spoils the first
        if extra is not None:
            alts = self._more_models(extra, model, label)
        if self.p.geo:
            alts = alts + self._random_inputs(case)
        self.x.candidates.append(dict(case, alts=alts, notes=list(self.p.incomplete)))

    def _more_models(self, extra, model, label, n=2):
        import z3

        out = []
        block = []
        for name, (kind, v) in self.p.inputs.items():
            if kind == "real":
                block.append(v)
        if not block:
            return out
        self.p.solver.push()
        try:
            self.p.solver.add(extra)
            m = model
            for k in range(n):
                cs = []
                for v in block:
                    val = m.eval(v, model_completion=True)
                    cs.append(v != val)
                # prefer values of ordinary size
                extra_c = [z3.And(v <= 1000, v >= -1000) for v in block] if k == 0 else []
                self.p.solver.add(z3.Or(*cs))
                r = self.p.solver.check(*extra_c)
                if r != z3.sat:
                    r = self.p.solver.check()
                if r != z3.sat:
                    break
                m = self.p.solver.model()
                out.append(self.case(label, m)["inputs"])
        except z3.Z3Exception:
            pass
        finally:
            self.p.solver.pop()
        return out

    def case(self, label, model):
        from . import strs

        vals = {}
        for name, (kind, v) in self.p.inputs.items():
            if kind == "const":
                vals[name] = v
            elif kind == "text":
                s = []
                for c in v:
                    ch = strs.reg().get(c)
                    if ch is None:
                        s.append(c)
                    elif ch.var is None:
                        s.append(None)
                    else:
                        s.append(chr(int(self.p.model_value(model, ch.var))))
                vals[name] = s
            elif kind == "bool":
                vals[name] = bool(self.p.model_value(model, v))
            elif kind == "int":
                vals[name] = int(self.p.model_value(model, v))
            else:
                vals[name] = _tofloat(self.p.model_value(model, v))
        self._fill_text(vals)
        return {"job": self.job.key, "label": label, "inputs": vals}

    def _fill_text(self, vals):
        """Characters the solver left free get varied values of their domain."""
        from . import strs

        k = 0
        for name, (kind, v) in self.p.inputs.items():
            if kind != "text":
                continue
            s = vals[name]
            for i, c in enumerate(s):
                if c is None:
                    d = sorted(strs.dom(v[i]))
                    s[i] = chr(d[(k * 7 + i * 3) % len(d)])
            k += 1
            vals[name] = "".join(s)

    def close(self, got, want, rel=0.0, abs_=0.0):
        """|got - want| <= rel |want| + abs_ (with the slack used by the symbolic side)."""
        import numpy
        from .core import SymNum, lift, mk_bool

        if not _isnum(got) or not _isnum(want):
            return False
        if not isinstance(got, SymNum) and not isinstance(want, SymNum):
            g, w = float(got), float(want)
            return abs(g - w) <= 1.01 * rel * abs(w) + abs_ + 1e-9 * abs(w) + 1e-300
        g, w = lift(got), lift(want)
        if g.e.eq(w.e):
            return True
        if (rel == 0 and abs_ == 0) or self.p.geo:
            return self.same(g, w)
        tol = abs(w) * (1.01 * rel) + 1.01 * abs_
        d = g - w
        return (d <= tol) & (-d <= tol) if not isinstance(d <= tol, bool) else bool(d <= tol) and bool(-d <= tol)

    def same(self, got, want, rel=1e-6):
        """Equality over the reals; a violation must exceed a relative margin."""
        import z3
        from .core import SymNum, SymBool, lift, _to_real

        g, w = lift(got), lift(want)
        if z3.is_int(g.e) and z3.is_int(w.e):
            return g == w
        ge, we = _to_real(g.e), _to_real(w.e)
        if self.p.geo:
            from . import poly

            if poly.is_zero(poly.p_add(poly.poly(ge), poly.poly(we), -1)):
                return True
            return SymBool(ge == we)
        diff = z3.simplify(ge - we, som=True)
        from .core import const_of

        if const_of(diff) == 0:
            return True
        q = z3.simplify(diff == 0)
        if z3.is_true(q):
            return True
        if self.p.pos >= len(self.p.prefix):
            r = self.p.query(z3.Not(q))
            if r == z3.unsat:
                return True
        aw = z3.If(we >= 0, we, -we)
        m = z3.RealVal(Fraction(repr(rel)))
        return SymBool(z3.And(diff <= m * aw + z3.RealVal(Fraction(1, 10**12)), -diff <= m * aw + z3.RealVal(Fraction(1, 10**12))))

    def le(self, a, b, slack=1e-9):
        """a <= b; a violation must exceed the slack (relative to |b|+1)."""
        from .core import lift

        return lift(a) <= lift(b) + slack * (abs(lift(b)) + 1)

    def lt(self, a, b):
        from .core import lift

        return lift(a) < lift(b)

    def eq(self, a, b):
        """Equality of strings / ints / None."""
        from .core import SymNum, SymBool
        from . import strs

        if isinstance(a, str) and isinstance(b, str):
            a, b = strs.resolve(a), strs.resolve(b)
            e = strs.eq_expr(a, b)
            if e is None:
                return strs.eq(a, b)
            return e if isinstance(e, bool) else _sb(e)
        if isinstance(a, str) != isinstance(b, str):
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all_([self.eq(x, y) for x, y in zip(a, b)])
        if a is None or b is None:
            return a is b
        return a == b

    def text_same(self, a, b):
        """Equality of texts written from the same numbers."""
        import z3
        from . import strs
        from .core import _to_real

        if len(a) != len(b):
            a, b = strs.resolve(a), strs.resolve(b)
            if len(a) != len(b):
                return False
        r = strs.reg()
        conds, done = [], {}
        for x, y in zip(a, b):
            if x == y:
                continue
            cx, cy = r.get(x), r.get(y)
            if cx is not None and cy is not None and cx.tok is not None and cy.tok is not None:
                tx, ty = cx.tok, cy.tok
                if cx.idx != cy.idx or cx.pad != cy.pad:
                    return False
                k = (id(tx), id(ty))
                if k not in done:
                    if (tx.kind, tx.prec, str(tx.spec)) != (ty.kind, ty.prec, str(ty.spec)):
                        return False
                    ex, ey = tx.x.e, ty.x.e
                    if not ex.eq(ey):
                        if ex.sort() != ey.sort():
                            ex, ey = _to_real(ex), _to_real(ey)
                        conds.append(ex == ey)
                    done[k] = True
                continue
            if not (strs.dom(x) & strs.dom(y)):
                return False
            conds.append(strs.cvar(x) == strs.cvar(y))
        return _sb(z3.And(*conds)) if conds else True

    def all_(self, conds):
        import z3
        from .core import mk_bool

        es = [self._bexpr(c) for c in conds]
        if any(e is False for e in es):
            return False
        es = [e for e in es if e is not True]
        return _sb(z3.And(*es)) if es else True

    def any_(self, conds):
        import z3

        es = [self._bexpr(c) for c in conds]
        if any(e is True for e in es):
            return True
        es = [e for e in es if e is not False]
        return _sb(z3.Or(*es)) if es else False

    def not_(self, c):
        import z3

        e = self._bexpr(c)
        return (not e) if isinstance(e, bool) else _sb(z3.Not(e))

    def implies(self, a, b):
        return self.any_([self.not_(a), b])

    def ite(self, c, a, b):
        import z3
        from .core import SymNum, lift, _to_real

        e = self._bexpr(c)
        if isinstance(e, bool):
            return a if e else b
        a, b = lift(a), lift(b)
        ae, be = a.e, b.e
        if ae.sort() != be.sort():
            ae, be = _to_real(ae), _to_real(be)
        return SymNum(z3.If(e, ae, be))

    def p10(self, n):
        from .arith import P10
        from .core import SymNum, lift
        import z3

        return SymNum(P10(z3.simplify(lift(n).e)))

    def digit(self, c):
        """Value of a digit character."""
        from . import strs
        from .core import SymNum

        return SymNum(strs.cvar(c) - 48)

    def num_text(self, x, spec):
        """Text of a number in a format."""
        from . import strs
        from .core import SymNum

        return strs.format_num(x, spec) if isinstance(x, SymNum) else format(x, spec)

    def field(self, text):
        """Number in the columns of a line, None if they are blank."""
        from . import strs

        t = strs.strip(text)
        return strs.parse_float(t) if t else None

    def num(self, x):
        """Force a symbolic number (constants included)."""
        from .core import lift

        return lift(x)

    def sqrt(self, x):
        from .core import lift

        return lift(x).sqrt()

    def decide(self, cond):
        """Case split."""
        return bool(cond)

    def sampled(self, module, fn, n, idx):
        """[fn(n)[i] for i in idx] for a function that maps every position below n on its own."""
        self.p.cache.setdefault(("sample",), []).append((n.e, list(idx)))
        out = fn(n)
        if len(out) != len(idx):
            self.p.note("sampled positions")
            raise _unsupported("function does not map positions one by one")
        return list(out)

    def raises(self, *types):
        return _Raises(self, types)

    def terminates(self, fn, cpu=8):
        """Run fn, which may raise any error but has to come to an end: (value, ended with a value)."""
        import signal
        from .vfs import HangDetected

        def stop(*a):
            raise HangDetected("more than %d s of computing" % cpu)

        old = signal.signal(signal.SIGVTALRM, stop)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu, 1)
        ok = None
        try:
            ok = fn(), True
        except (HangDetected, MemoryError):
            pass
        except Exception:
            ok = None, False
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
        self.check(ok is not None, "terminates")
        return ok if ok is not None else (None, False)

    def on_exception(self, exc):
        from .core import Infeasible

        label = "no exception (%s)" % type(exc).__name__
        self.reach(label)
        self.x.n_obligations += 1
        import traceback

        tb = traceback.extract_tb(exc.__traceback__)
        where = ["%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-4:]
        case = self.case(label, self.p.get_model())
        if sum(1 for c in self.x.candidates if c["label"] == label) < self.job.max_candidates:
            self.x.candidates.append(dict(case, alts=[], notes=list(self.p.incomplete),
                                          exception="%s: %s" % (type(exc).__name__, str(exc)[:200]), where=where))

    def on_undecided(self):
        """A path the encoding does not follow to its end (or only for some values): its inputs are tried on the real code."""
        label = "undecided path"
        if sum(1 for c in self.x.candidates if c["label"] == label) >= 4:
            return
        case = self.case(label, self._choice_model())
        self.x.candidates.append(dict(case, alts=self._random_inputs(case, 4), notes=list(self.p.incomplete) or ["undecided"]))

    def on_path_end(self):
        if self.p.incomplete:
            self.on_undecided()
        if len(self.x.samples) < self.job.max_samples:
            if len(self.x.samples) >= 2 and self.x.paths % 5:
                return
            self.x.samples.append(self.case("sample", self.p.get_model()))


class _Raises:
    def __init__(self, api, types):
        self.api, self.types = api, types or (Exception,)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        name = "raises " + "/".join(k.__name__ for k in self.types)
        if t is None:
            self.api.check(False, name)
            return False
        if issubclass(t, self.types):
            self.api.check(True, name)
            return True
        return False


def Infeasible_():
    from .core import Infeasible

    return Infeasible()


def _unsupported(why):
    from .core import Unsupported

    return Unsupported(why)


def _sb(e):
    from .core import mk_bool

    return mk_bool(e)


def _isnum(x):
    import numpy
    from numbers import Number

    if type(x).__name__ in ("SymNum", "SymBool"):
        return True
    return isinstance(x, (Number, numpy.number)) or (isinstance(x, numpy.ndarray) and x.ndim == 0)


def _tofloat(v):
    f = float(Fraction(v))
    return f


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


class Concrete(Base):
    """Replay of a case on the real, uninstrumented code."""

    symbolic = False

    def __init__(self, inputs, tmpdir, tier="quick", job=None):
        self.inputs, self.tmp, self.tier, self.job = inputs, tmpdir, tier, job
        self.failed = []
        self.n_checks = 0

    def num_text(self, x, spec):
        return format(x, spec)

    def _get(self, name):
        if name not in self.inputs:
            raise AssumeFailed("input %s not in the case" % name)
        return self.inputs[name]

    def real(self, name, lo=None, hi=None, nonzero=False):
        v = float(self._get(name))
        if (lo is not None and v < lo - 1e-12 * abs(lo)) or (hi is not None and v > hi + 1e-12 * abs(hi)) or (nonzero and v == 0):
            raise AssumeFailed(name)
        return v

    def int(self, name, lo, hi):
        return int(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        return list(options)[int(self._get(name))]

    def text(self, name, n, dom=ALNUM, first=None, last=None):
        return self._get(name)

    def label(self, name, n=5):
        return self._get(name)

    def distinct(self, *strings):
        if len(set(strings)) != len(strings):
            raise AssumeFailed("distinct")

    def all_distinct(self, nums):
        if len(set(nums)) != len(nums):
            raise AssumeFailed("distinct")

    def assume(self, cond):
        if not bool(cond):
            raise AssumeFailed("assume")

    def path(self, name):
        return os.path.join(self.tmp, name)

    def remove_files(self):
        for n in os.listdir(self.tmp):
            os.remove(os.path.join(self.tmp, n))

    def read_file(self, path):
        with open(path) as f:
            return f.read()

    def write_file(self, path, text):
        with open(path, "w") as f:
            f.write(text)

    def read_bytes(self, path):
        with open(path, "rb") as f:
            return f.read()

    def write_bytes(self, path, data):
        with open(path, "wb") as f:
            f.write(data)

    def terminates(self, fn, cpu=8):
        ok = None
        try:
            ok = fn(), True
        except MemoryError:
            pass
        except Exception:
            ok = None, False
        self.check(ok is not None, "terminates")
        ok = ok or (None, False)
        return ok

    def exists(self, path):
        return os.path.exists(path)

    def reach(self, label):
        pass

    def check(self, cond, label):
        self.n_checks += 1
        if not bool(cond):
            self.failed.append(label)
            if isinstance(cond, bool) and cond is False:
                # the symbolic side stops here as well
                pass

    def close(self, got, want, rel=0.0, abs_=0.0):
        if not _isnum(got) or not _isnum(want):
            return False
        g, w = float(got), float(want)
        if math.isnan(g) or math.isnan(w):
            return False
        if math.isinf(g) or math.isinf(w):
            return g == w
        return abs(g - w) <= 1.001 * rel * abs(w) + 1.001 * abs_ + 1e-9 * abs(w) * (1 if not rel else 1e-3) + 1e-300

    def same(self, got, want, rel=1e-6):
        if not _isnum(got) or not _isnum(want):
            return False
        g, w = float(got), float(want)
        return abs(g - w) <= 1e-7 * abs(w) + 1e-13

    def le(self, a, b, slack=1e-9):
        return float(a) <= float(b) + 0.5 * slack * (abs(float(b)) + 1)

    def lt(self, a, b):
        return float(a) < float(b)

    def eq(self, a, b):
        import numpy

        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return a is b
        if isinstance(a, str) != isinstance(b, str):
            return False
        return bool(a == b)

    def text_same(self, a, b):
        return a == b

    def all_(self, conds):
        return all(bool(c) for c in conds)

    def any_(self, conds):
        return any(bool(c) for c in conds)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def p10(self, n):
        return 10.0 ** int(n)

    def digit(self, c):
        return int(c)

    def field(self, text):
        return float(text) if text.strip() else None

    def num(self, x):
        return x

    def sqrt(self, x):
        return math.sqrt(x)

    def decide(self, cond):
        return bool(cond)

    def plain_numbers(self):
        pass

    def geometry(self):
        pass

    def any_order(self, how="forward"):
        pass

    def sampled(self, module, fn, n, idx, limit=4000000):
        if n <= limit:
            out = fn(n)
            if len(out) != n:
                return []
            return [out[i] for i in idx]
        # too many positions to build: the real function, with the positions listed
        import builtins

        numpy = module.numpy

        class Np:
            def __getattr__(self, k):
                return getattr(numpy, k)

            @staticmethod
            def arange(*a, **k):
                return numpy.array(idx) if len(a) == 1 and a[0] == n else numpy.arange(*a, **k)

        module.numpy = Np()
        module.range = lambda *a: list(idx) if len(a) == 1 and a[0] == n else builtins.range(*a)
        try:
            return list(fn(n))
        finally:
            module.numpy = numpy
            del module.range

    def raises(self, *types):
        return _CRaises(self, types)


class _CRaises(_Raises):
    def __exit__(self, t, v, tb):
        name = "raises " + "/".join(k.__name__ for k in self.types)
        if t is None:
            self.api.check(False, name)
            return False
        if issubclass(t, self.types):
            self.api.check(True, name)
            return True
        return False
