"""
A small symbolic execution engine for Python code.

The code under test is executed by CPython itself, unchanged, but on proxy
values (``SymVal``, ``SymStr``, ``SymInt``, ``SymBool``) that stand for *every*
value of their domain.  Whenever the code under test branches on a symbolic
condition, the condition is handed to z3: the branches that are satisfiable
together with the path condition are explored (depth first, by re-executing the
harness with a decision prefix).  At the end of a path, z3 decides whether the
path condition together with the negation of the property is satisfiable.

* unsat on every path  -> the property holds for all values within the bounds
* sat                  -> the model is turned into concrete inputs and the
                          harness is replayed on plain Python values

Nothing in this file knows anything about the code under test.
"""

import gc
import os
import re
import signal
import sys
import time
import traceback

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import z3  # noqa: E402


class PathAbort(BaseException):
    """The path is infeasible (assumption can't hold)."""


class PathTimeout(BaseException):
    """The path didn't finish in time."""


class NonDeterminism(BaseException):
    """Re-execution of a prefix took a different decision."""


class PathLimit(BaseException):
    """Too many decisions in one path."""


class SolverUnknown(BaseException):
    pass


class CheckFailed(Exception):
    """Raised in concrete mode when a check doesn't hold."""


ENG = None  # The active engine

ATOM = z3.DeclareSort("Atom")
TRUTHY = z3.Function("truthy", ATOM, z3.BoolSort())


def current():
    return ENG


# --------------------------------------------------------------------------
# Symbolic values
# --------------------------------------------------------------------------


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __invert__(self):
        return sym_not(self)

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return mk_bool(self.e == other.e)
        if other is True:
            return self
        if other is False:
            return mk_bool(z3.Not(self.e))
        return False

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    __hash__ = None

    def __repr__(self):
        return f"<{self.e}>"


def mk_bool(e):
    if isinstance(e, bool):
        return e
    n = norm(e)
    return n[0] if n[2] is None else SymBool(e)


_NORM = {}


def norm(e):
    """-> (bool, False, None) or (expression without negations, negated?, id).
    Cached on the identity of the (hash-consed) expression."""
    r = e.__dict__.get("_norm")
    if r is None:
        i = e.get_id()
        r = _NORM.get(i)
        if r is None or not r[3].eq(e):
            c, neg = e, False
            while z3.is_not(c):
                c = c.arg(0)
                neg = not neg
            if z3.is_true(c) or z3.is_false(c):
                r = (z3.is_true(c) != neg, False, None, e)
            else:
                if len(_NORM) > 50000:
                    _NORM.clear()
                r = (c, neg, c.get_id(), e)
            _NORM[i] = r
        e._norm = r
    return r


def sym_not(x):
    if isinstance(x, SymBool):
        return mk_bool(z3.Not(x.e))
    return not x


def to_expr(x):
    """bool / SymBool / z3 expr -> z3 expr or bool"""
    if isinstance(x, SymBool):
        return x.e
    return x


_EQ_CACHE = {}
_CONST_CACHE = {}


def _const(name):
    e = _CONST_CACHE.get(name)
    if e is None:
        e = _CONST_CACHE[name] = z3.Const(name, ATOM)
    return e



def _atom_eq(a, b):
    # Normalize the order, so that a == b and b == a are the same condition
    ka, kb = a.get_id(), b.get_id()
    if ka == kb:
        return True
    if ka > kb:
        a, b, ka, kb = b, a, kb, ka
    r = _EQ_CACHE.get((ka, kb))
    if r is None:
        r = _EQ_CACHE[(ka, kb)] = (a == b, a, b)
    return r[0]


# Symbolic values that are turned into text are represented by tokens within the text.
# The text of a value is opaque: two texts are equal when they consist of the same
# literals and equal values.
TOKEN = re.compile("\ue000(.*?)\ue001")


def text_token(name):
    return f"\ue000{name}\ue001"


def text_eq(a, b):
    """Equality (formula) of two texts with tokens"""
    pa, pb = TOKEN.split(a), TOKEN.split(b)
    if pa[::2] != pb[::2]:
        return False
    return f_and(*[to_expr(_atom_eq(_const(x), _const(y))) for x, y in zip(pa[1::2], pb[1::2])])


class SymVal:
    """An arbitrary (hashable, immutable) value. Nothing is known about it, except
    for which other symbolic values it is equal to and whether it's truthy."""

    __slots__ = ("e", "name", "__weakref__")

    def __init__(self, e, name):
        self.e = e
        self.name = name

    def __eq__(self, other):
        if other is self:
            return True
        if isinstance(other, (SymVal, SymStr)):
            return mk_bool(_atom_eq(self.e, other.e))
        return False

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def __hash__(self):
        return 7

    def __bool__(self):
        return ENG.branch(TRUTHY(self.e))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return text_token(self.name)


class SymStr(str):
    """An arbitrary non-empty string, different from every literal string in the
    code under test, but possibly equal to other symbolic strings."""

    def __new__(cls, e, name):
        obj = str.__new__(cls, text_token(name))
        obj.e = e
        obj.name = name
        return obj

    def __eq__(self, other):
        if other is self:
            return True
        if isinstance(other, (SymVal, SymStr)):
            return mk_bool(_atom_eq(self.e, other.e))
        return False

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def __hash__(self):
        return 7

    def __bool__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.name}>"

    def lower(self):
        return self

    def startswith(self, *a):
        return False


def _int_expr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool) or not isinstance(x, int):
        return None
    return z3.IntVal(x)


class SymInt:
    """An arbitrary (mathematical) integer."""

    __slots__ = ("e", "name")

    def __init__(self, e, name=None):
        self.e = e
        self.name = name

    def _arith(self, other, fn):
        o = _int_expr(other)
        if o is None:
            o = _real_expr(other)
            return NotImplemented if o is None else SymReal(fn(z3.ToReal(self.e), o))
        return SymInt(fn(self.e, o))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e < 0, -self.e, self.e))

    # Division in python rounds down. Division in z3 keeps the remainder positive, which
    # is the same for a positive divisor: branch on the sign of the divisor.

    def _divmod(self, a, b):
        if b is None or a is None:
            return NotImplemented
        zero, negative = z3.simplify(b == 0), z3.simplify(b < 0)
        if mk_bool(zero):
            raise ZeroDivisionError("integer division or modulo by zero")
        if mk_bool(negative):
            a, b = -a, -b
            return SymInt(a / b), SymInt(-(a % b))
        return SymInt(a / b), SymInt(a % b)

    def __divmod__(self, o):
        return self._divmod(self.e, _int_expr(o))

    def __rdivmod__(self, o):
        return self._divmod(_int_expr(o), self.e)

    def __floordiv__(self, o):
        r = self._divmod(self.e, _int_expr(o))
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        r = self._divmod(_int_expr(o), self.e)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self._divmod(self.e, _int_expr(o))
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        r = self._divmod(_int_expr(o), self.e)
        return r if r is NotImplemented else r[1]

    def __truediv__(self, o):
        o = _int_expr(o)
        if o is None:
            return NotImplemented
        if mk_bool(z3.simplify(o == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal(z3.ToReal(self.e) / z3.ToReal(o))

    def __round__(self, ndigits=None):
        return self

    __floor__ = __ceil__ = __trunc__ = __round__

    def _cmp(self, other, fn):
        o = _int_expr(other)
        if o is None:
            if isinstance(other, float) and abs(other) == float("inf"):
                return fn(0, 1 if other > 0 else -1)
            o = _real_expr(other)
            return NotImplemented if o is None else mk_bool(z3.simplify(fn(z3.ToReal(self.e), o)))
        return mk_bool(z3.simplify(fn(self.e, o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __bool__(self):
        return ENG.branch(z3.simplify(self.e != 0))

    def __hash__(self):
        return 11

    def __repr__(self):
        return f"<{self.e}>"


def _real_expr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else None
    x = _int_expr(x)
    return None if x is None else z3.ToReal(x)


class SymReal:
    """The exact result of a division. (Rounding of floats is not modelled.)"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _arith(self, other, fn):
        o = _real_expr(other)
        return NotImplemented if o is None else SymReal(fn(self.e, o))

    def _cmp(self, other, fn):
        if isinstance(other, float) and abs(other) == float("inf"):
            return fn(0, 1 if other > 0 else -1)
        o = _real_expr(other)
        return NotImplemented if o is None else mk_bool(z3.simplify(fn(self.e, o)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _real_expr(o)
        if o is None:
            return NotImplemented
        if mk_bool(z3.simplify(o == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal(self.e / o)

    def __neg__(self):
        return SymReal(-self.e)

    def __abs__(self):
        return SymReal(z3.If(self.e < 0, -self.e, self.e))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __bool__(self):
        return ENG.branch(z3.simplify(self.e != 0))

    def __hash__(self):
        return 13

    def __repr__(self):
        return f"<{self.e}>"


# --------------------------------------------------------------------------
# Formula helpers, usable in both symbolic and concrete mode
# --------------------------------------------------------------------------


def f_and(*items):
    out = []
    for it in items:
        it = to_expr(it)
        if it is True or it is None:
            continue
        if it is False:
            return False
        n = norm(it)
        if n[2] is None:
            if not n[0]:
                return False
            continue
        out.append(it)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def f_or(*items):
    out = []
    for it in items:
        it = to_expr(it)
        if it is False or it is None:
            continue
        if it is True:
            return True
        n = norm(it)
        if n[2] is None:
            if n[0]:
                return True
            continue
        out.append(it)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def f_not(x):
    x = to_expr(x)
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def f_eq(a, b):
    """Equality of two values as a formula: never branches."""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        if "\ue000" in a or "\ue000" in b:
            return text_eq(a, b)
        return a.__eq__(b)
    if isinstance(a, (SymVal, SymStr, SymInt, SymBool)) or isinstance(
        b, (SymVal, SymStr, SymInt, SymBool)
    ):
        if not isinstance(a, (SymVal, SymStr, SymInt, SymBool)):
            a, b = b, a
        return to_expr(a.__eq__(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return f_and(*[f_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a), list(b)
        if any(isinstance(k, (SymVal, SymStr)) for k in ka + kb):
            if len(ka) != len(kb):
                return False
            return f_and(*[f_eq(a[k], b.get(k)) for k in ka])
        if set(ka) != set(kb):
            return False
        return f_and(*[f_eq(a[k], b[k]) for k in ka])
    if type(a) is not type(b) and not (
        isinstance(a, (int, float)) and isinstance(b, (int, float))
    ):
        if isinstance(a, str) and isinstance(b, str):
            return bool(a == b)
        return False
    return bool(a == b)


def perm_eq(xs, ys):
    """Formula: xs is a permutation of ys (as multisets)."""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    if not xs:
        return True
    return f_or(
        *[
            f_and(f_eq(xs[0], y), perm_eq(xs[1:], ys[:i] + ys[i + 1 :]))
            for i, y in enumerate(ys)
        ]
    )


# --------------------------------------------------------------------------
# Engine
# --------------------------------------------------------------------------

class Blank(tuple):
    """A falsy value, of which there can be several that are equal"""


# Equal values are not necessarily the very same object
FALSY_POOL = [lambda: 0, str, lambda: Blank(), frozenset, bytes]
FRESH_POOL = [lambda: float("0"), lambda: Blank(), *FALSY_POOL[1:2], *FALSY_POOL[3:]]


class Frame:
    __slots__ = ("cond", "value", "alt", "cid")

    def __init__(self, cond, value, alt, cid=None):
        self.cond = cond
        self.cid = cid
        self.value = value
        self.alt = alt  # whether the alternative is feasible and still to be done


class Violation:
    def __init__(self, message, inputs, detail=""):
        self.message = message
        self.inputs = inputs
        self.detail = detail


class BaseEngine:
    """What the harnesses see: the same interface in symbolic/concrete mode."""

    concrete = False

    # -- inputs ------------------------------------------------------------
    # val(name): any hashable value;  text(name): any non-empty string
    # boolean(name), choice(name, n), integer(name)

    def opt(self, name):
        """None or any value"""
        if self.boolean(f"{name}?none"):
            return None
        return self.val(name)

    def vals(self, prefix, n):
        return [self.val(f"{prefix}{i}") for i in range(n)]

    def distinct(self, items):
        items = list(items)
        for i in range(len(items)):
            for j in range(i):
                self.assume(f_not(f_eq(items[i], items[j])))

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def pick(self, name, options):
        return options[self.choice(name, len(options))]


class SymEngine(BaseEngine):
    def __init__(self, path_timeout=20, max_decisions=4000):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 20000)
        self.path_timeout = path_timeout
        self.max_decisions = max_decisions
        self.frames = []
        self.fixed = 0
        self.stats = dict(
            paths=0, aborted=0, queries=0, sat=0, unsat=0, decisions=0, checks=0,
            solver_s=0.0, forced=0,
        )
        self.covers = {}
        self.violations = []
        self.samples = []
        self.max_len = 0
        # When set, the inputs of the current path are written to this file, to be
        # able to tell which inputs made the process crash (native code)
        self.crash_file = None
        self.crash_info = {}

    def _crash_note(self):
        if self.crash_file and self.pos >= len(self.frames):
            import json

            with open(self.crash_file, "w") as f:
                json.dump(dict(self.crash_info, inputs=self.concretize()), f)

    # -- solver ------------------------------------------------------------
    def _check(self, *assumptions, model=True):
        t = time.perf_counter()
        if assumptions:
            self.solver.push()
            self.solver.add(*assumptions)
        r = self.solver.check()
        if r == z3.sat:
            self.stats["sat"] += 1
        elif r == z3.unsat:
            self.stats["unsat"] += 1
        self.stats["queries"] += 1
        result = None
        if r == z3.sat:
            result = self.solver.model() if model else True
        if assumptions:
            self.solver.pop()
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.unknown:
            raise SolverUnknown(str(self.solver.reason_unknown()))
        return result

    def sat(self, *assumptions):
        return self._check(*assumptions, model=False) is not None

    # -- decisions -----------------------------------------------------------
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond, neg, cid, _ = norm(cond)
        if cid is None:
            return cond
        return self._branch(cond, cid) != neg

    def _branch(self, cond, cid):
        known = self.known.get(cid)
        if known is not None:
            return known
        pos = self.pos
        if pos < len(self.frames):
            frame = self.frames[pos]
            if frame.cond is None:
                # Part of a prefix that was handed to this worker
                frame.cond = cond
                frame.cid = cid
                self._push(cond if frame.value else z3.Not(cond))
            elif frame.cid != cid:
                raise NonDeterminism(f"{frame.cond} vs {cond}")
            value = frame.value
        else:
            if len(self.frames) >= self.max_decisions:
                raise PathLimit(str(self.max_decisions))
            self.stats["decisions"] += 1
            can_true = self.sat(cond)
            can_false = self.sat(z3.Not(cond)) if can_true else True
            value = can_true
            self.frames.append(Frame(cond, value, can_true and can_false, cid))
            if not (can_true and can_false):
                self.stats["forced"] += 1
            self._push(cond if value else z3.Not(cond))
        self.pos = pos + 1
        self.known[cid] = value
        self.keep.append(cond)
        self._crash_note()
        return value

    def _push(self, e):
        self.solver.push()
        self.solver.add(e)

    def assume(self, cond):
        """Restrict the inputs. Implemented as a branch of which only the true
        side is explored."""
        cond = to_expr(cond)
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        base, neg, cid, _ = norm(cond)
        if cid is None:
            if not base:
                raise PathAbort()
            return
        want = not neg
        known = self.known.get(cid)
        if known is not None:
            if known is not want:
                raise PathAbort()
            return
        pos = self.pos
        if pos < len(self.frames):
            frame = self.frames[pos]
            if frame.cond is None:
                frame.cond = base
                frame.cid = cid
                self._push(cond)
            elif frame.cid != cid:
                raise NonDeterminism(f"assume {frame.cond} vs {cond}")
            if frame.value is not want:
                raise PathAbort()
        else:
            if not self.sat(cond):
                raise PathAbort()
            self.frames.append(Frame(base, want, False, cid))
            self._push(cond)
        self.pos = pos + 1
        self.known[cid] = want
        self.keep.append(base)

    # -- inputs --------------------------------------------------------------
    def _input(self, name, kind, e):
        assert name not in self.inputs, f"duplicate input {name}"
        self.inputs[name] = (kind, e)

    def val(self, name):
        e = _const(name)
        self._input(name, "val", e)
        return SymVal(e, name)

    def text(self, name):
        e = _const(name)
        self._input(name, "text", e)
        # Strings in this domain are non-empty, hence truthy
        self.assume(TRUTHY(e))
        return SymStr(e, name)

    def boolean(self, name):
        e = z3.Bool(name)
        self._input(name, "bool", e)
        return self.branch(e)

    def symbool(self, name):
        e = z3.Bool(name)
        self._input(name, "bool", e)
        return SymBool(e)

    def choice(self, name, n):
        if n == 1:
            return 0
        e = z3.Int(name)
        self._input(name, "int", e)
        self.assume(z3.And(e >= 0, e < n))
        for i in range(n - 1):
            if self.branch(e == i):
                return i
        return n - 1

    def integer(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self._input(name, "int", e)
        if lo is not None:
            self.assume(e >= _int_expr(lo))
        if hi is not None:
            self.assume(e <= _int_expr(hi))
        return SymInt(e, name)

    # -- assertions ------------------------------------------------------------
    def check(self, cond, message):
        """The property: has to hold for all values on this path."""
        self.stats["checks"] += 1
        cond = to_expr(cond)
        if cond is True or (cond is not False and norm(cond)[0] is True):
            self.trivial += 1
            return
        if cond is False:
            cond = z3.BoolVal(False)
        self.pending.append((cond, message))

    def _decide(self):
        """Decide all the assertions made on this path with one query (and, only
        in case of a violation, find out which one it is)."""
        if not self.pending:
            return
        model = self._check(z3.Not(z3.And(*[c for c, _ in self.pending])))
        if model is None:
            return
        bad = "?"
        for c, m in self.pending:
            if not z3.is_true(model.eval(c, model_completion=True)):
                bad = m() if callable(m) else m
                break
        self._violated(bad, model)

    def _violated(self, message, model=None):
        """Report, with variants of the inputs that might be easier to reproduce"""
        inputs = self.concretize(model)
        self.violations.append(Violation(message, inputs))
        values = [e for kind, e in self.inputs.values() if kind == "val"]
        if not values:
            return
        try:
            extra = [z3.Not(z3.And(*[c for c, _ in self.pending]))] if model is not None else []
            other = self._check(*extra, *[TRUTHY(e) for e in values])
            if other is not None:
                self.violations.append(Violation(message, self.concretize(other)))
        except SolverUnknown:
            pass
        self.violations.append(Violation(message, {**inputs, "fresh!": ["val", None, True]}))

    def concretize(self, model=None):
        """Turn a model into concrete values for all the inputs of this path"""
        if model is None:
            model = self._check()
        groups = {}
        out = {}
        for name, (kind, e) in self.inputs.items():
            v = model.eval(e, model_completion=True)
            if kind in ("val", "text"):
                g = groups.setdefault(str(v), len(groups))
                truthy = z3.is_true(model.eval(TRUTHY(e), model_completion=True))
                out[name] = [kind, g, bool(truthy)]
            elif kind == "bool":
                out[name] = [kind, bool(z3.is_true(v))]
            else:
                out[name] = [kind, v.as_long()]
        return out

    # -- exploration -------------------------------------------------------------
    def run_path(self, harness, params):
        global ENG
        ENG = self
        self.pos = 0
        self.known = {}
        self.keep = []
        self.inputs = {}
        self.pending = []
        self.trivial = 0
        self.notes = []
        aborted = False
        old = None
        if self.path_timeout:

            def on_alarm(*_):
                raise PathTimeout()

            old = signal.signal(signal.SIGALRM, on_alarm)
            signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
        try:
            try:
                harness(self, **params)
            finally:
                if self.path_timeout:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            self._decide()
        except PathAbort:
            aborted = True
        except PathTimeout:
            self._violated("no termination within the time limit")
        except PathLimit:
            self._violated("no termination within the decision limit")
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            where = " < ".join(f"{f.name}:{f.lineno}" for f in reversed(frames[-3:]))
            self._violated(f"unexpected {type(e).__name__}: {str(e)[:200]} at {where}")
        finally:
            if old is not None:
                signal.signal(signal.SIGALRM, old)
        if self.crash_file and os.path.exists(self.crash_file):
            os.unlink(self.crash_file)
        self.max_len = max(self.max_len, self.pos)
        if aborted:
            self.stats["aborted"] += 1
        else:
            self.stats["paths"] += 1
            n = self.stats["paths"]
            if n in (1, 7, 50) and len(self.samples) < 3 and not self.violations:
                self.samples.append(
                    {"inputs": self.concretize(), "path_condition": self.pc_text()}
                )

    def pc_text(self):
        out = []
        for f in self.frames[: self.pos]:
            out.append(str(f.cond) if f.value else f"Not({f.cond})")
        return "; ".join(out)[:400].replace("\n", " ")

    def backtrack(self):
        """Go to the next unexplored branch. Returns False when there is none."""
        while len(self.frames) > self.fixed:
            frame = self.frames.pop()
            self.solver.pop()
            if frame.alt:
                frame.value = not frame.value
                frame.alt = False
                self.frames.append(frame)
                self._push(frame.cond if frame.value else z3.Not(frame.cond))
                return True
        return False

    def explore(self, harness, params, prefix=(), max_paths=None, deadline=None,
                max_violations=1, after_path=None):
        """Explore all the paths with the given prefix of decisions. Returns True
        when the exploration is exhaustive."""
        self.frames = [Frame(None, v, False) for v in prefix]
        self.fixed = len(prefix)
        n = 0
        while True:
            self.run_path(harness, params)
            n += 1
            if after_path:
                after_path(n)
            if n == 1 and self.pos < self.fixed:
                raise NonDeterminism("prefix not consumed")
            if len(self.violations) >= max_violations:
                return False
            if not self.backtrack():
                return True
            if max_paths and n >= max_paths:
                return False
            if deadline and time.time() > deadline:
                return False

    def frontier(self, harness, params, count):
        """Breadth first expansion to at least `count` prefixes (if there are)."""
        # Run DFS limited by depth, increasing the depth until enough prefixes
        prefixes = [()]
        done = []
        rounds = 0
        while prefixes and len(prefixes) + len(done) < count and rounds < 400:
            rounds += 1
            prefixes.sort(key=len)
            prefix = prefixes.pop(0)
            eng = SymEngine(self.path_timeout, self.max_decisions)
            eng.crash_file, eng.crash_info = self.crash_file, self.crash_info
            eng.frames = [Frame(None, v, False) for v in prefix]
            eng.fixed = len(prefix)
            eng.run_path(harness, params)
            self.stats["queries"] += eng.stats["queries"]
            self.stats["solver_s"] += eng.stats["solver_s"]
            if eng.violations:
                self.violations.extend(eng.violations)
                return None
            # First open decision after the prefix
            split = None
            for i in range(len(prefix), len(eng.frames)):
                if eng.frames[i].alt:
                    split = i
                    break
            values = [f.value for f in eng.frames]
            if split is None:
                done.append(tuple(prefix))
                continue
            base = tuple(values[:split])
            prefixes.append(base + (values[split],))
            prefixes.append(base + (not values[split],))
        return done + prefixes


class ConcreteEngine(BaseEngine):
    """Replays a harness on concrete values."""

    concrete = True

    def __init__(self, inputs):
        self.given = inputs
        # Falsy values: different objects, even when equal?
        self.fresh = "fresh!" in inputs
        self.covers = {}
        self.pos = 0
        self.failures = []

    def _get(self, name):
        if name not in self.given:
            # Input that was not reached on the symbolic path
            return None
        return self.given[name]

    def val(self, name):
        g = self._get(name) or ["val", 900 + len(name), True]
        _, group, truthy = g
        if not truthy and group is not None:
            falsy = sorted(
                {v[1] for v in self.given.values() if v[0] == "val" and not v[2]}
            )
            idx = falsy.index(group)
            pool = FRESH_POOL if self.fresh else FALSY_POOL
            if idx < len(pool):
                return pool[idx]()
        # Fresh object every time: equal but not identical
        return "".join(["v", str(group)])

    def text(self, name):
        g = self._get(name) or ["text", 900 + len(name), True]
        return "".join(["v", str(g[1])])

    def boolean(self, name):
        g = self._get(name)
        return bool(g[1]) if g else False

    symbool = boolean

    def choice(self, name, n):
        if n == 1:
            return 0
        g = self._get(name)
        return min(max(g[1], 0), n - 1) if g else 0

    def integer(self, name, lo=None, hi=None):
        g = self._get(name)
        if g:
            return g[1]
        return lo if isinstance(lo, int) else 0

    def assume(self, cond):
        if not isinstance(cond, bool):
            cond = bool(cond)
        if not cond:
            raise PathAbort()

    def check(self, cond, message):
        if not isinstance(cond, bool):
            cond = bool(z3.is_true(z3.simplify(cond)))
        if not cond:
            raise CheckFailed(message() if callable(message) else message)
