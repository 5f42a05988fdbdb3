"""Scalar term layer: an element is either a concrete Python value or a z3 expression.

float elements : Fraction (exact rational) | float inf/-inf/nan | z3 Real
int elements   : int | z3 Int
bool elements  : bool | z3 Bool
Concrete operands fold at once, so constant parts of a graph cost the solver nothing.
Transcendental functions over symbolic reals are uninterpreted functions Real -> Real shared by both
sides of an equivalence; over concrete values they are evaluated in double precision.
"""
import math
from fractions import Fraction

import numpy as np
import z3

INF = float("inf")


class Unsupported(Exception):
    """The evaluator has no semantics for this construct (never silently approximated)."""


class EvalError(Exception):
    """The program is erroneous for this input (e.g. index out of range)."""


_realval = {}
# an infinity that a selection merges with finite values: larger than every float a program can produce
_BIG = z3.RealVal("1" + "0" * 60)


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_special(x):
    return isinstance(x, float)


def F(x):
    """python/numpy number -> element of float type"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, np.floating) and not isinstance(x, np.float64):
        if not np.isfinite(x):
            return float(x)
        return Fraction(repr(float(str(x)))) if np.isfinite(x) else float(x)
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        return x
    return Fraction(repr(x))


def z(x):
    """element -> z3 expression"""
    if is_sym(x):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Fraction):
        r = _realval.get(x)
        if r is None:
            r = z3.RealVal("%d/%d" % (x.numerator, x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
            if len(_realval) < 20000:
                _realval[x] = r
        return r
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, np.integer):
        return z3.IntVal(int(x))
    if isinstance(x, float) and x in (INF, -INF):
        return _BIG if x > 0 else -_BIG
    raise Unsupported("no z3 form for %r" % (x,))


def as_float(x):
    return float(x)


def _sp(op, a, b):
    """arithmetic with at least one special float; the other may be concrete"""
    fa, fb = float(a), float(b)
    with np.errstate(all="ignore"):
        r = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.divide}[op](np.float64(fa), np.float64(fb))
    return F(r)


def add(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        if is_special(a) or is_special(b):
            return _sp("+", a, b)
        return a + b
    if not sa:
        if is_special(a):
            return a          # inf + finite
        if a == 0:
            return b
        return z(a) + b
    if not sb:
        if is_special(b):
            return b
        if b == 0:
            return a
        return a + z(b)
    return a + b


def neg(a):
    return -a


def sub(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        if is_special(a) or is_special(b):
            return _sp("-", a, b)
        return a - b
    if not sa:
        if is_special(a):
            return a
        return z(a) - b
    if not sb:
        if is_special(b):
            return -b
        if b == 0:
            return a
        return a - z(b)
    if a.eq(b):
        return 0 if a.is_int() else Fraction(0)
    return a - b


def mul(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        if is_special(a) or is_special(b):
            return _sp("*", a, b)
        return a * b
    if not sa:
        a, b, sa, sb = b, a, sb, sa
    # a symbolic
    if not sb:
        if is_special(b):
            if math.isnan(b):
                return b
            raise Unsupported("inf * symbolic")
        if b == 0:
            return b
        if b == 1:
            return a
        return a * z(b)
    return a * b


def fsum(xs):
    """sum of elements"""
    conc = None
    syms = []
    for x in xs:
        if is_sym(x):
            syms.append(x)
        elif conc is None:
            conc = x
        else:
            conc = add(conc, x)
    if conc is not None and is_special(conc):
        return conc
    if not syms:
        return conc
    if conc is not None and conc != 0:
        syms.append(z(conc))
    return syms[0] if len(syms) == 1 else z3.Sum(syms)


def fdiv(a, b):
    """real division"""
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        if is_special(a) or is_special(b) or b == 0:
            return _sp("/", a, b)
        return a / b
    if not sb:
        if is_special(b):
            return Fraction(0) if math.isinf(b) else b
        if b == 1:
            return a
        if b == 0:
            raise Unsupported("symbolic / 0")
        return a * z(1 / b)
    if not sa and is_special(a):
        raise Unsupported("special / symbolic")
    if not sa and a == 0:
        return a
    CTX.need(z(b) != 0)
    return z(a) / z(b)


class _Ctx:
    """Side conditions collected while evaluating (e.g. denominators are non-zero) plus UF instances."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.assume = []
        self._seen = set()
        self.ufapps = {}

    def need(self, c):
        k = c.get_id()
        if k not in self._seen:
            self._seen.add(k)
            self.assume.append(c)


CTX = _Ctx()


def ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            if bool(a) == bool(b):
                return bool(a)
            return c if a else bnot(c)
        if is_special(a) or is_special(b):
            if is_special(a) and is_special(b) and (a == b or (math.isnan(a) and math.isnan(b))):
                return a
            if (is_special(a) and math.isnan(a)) or (is_special(b) and math.isnan(b)):
                raise Unsupported("ite over nan")
        if a == b:
            return a
    elif (not is_sym(a) and is_special(a) and math.isnan(a)) or (not is_sym(b) and is_special(b) and math.isnan(b)):
        raise Unsupported("ite over nan")
    elif is_sym(a) and is_sym(b) and a.eq(b):
        return a
    return z3.If(c, z(a), z(b))


def _cmp(a, b, pyop, zop):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        if is_special(a) or is_special(b):
            return bool(pyop(float(a), float(b)))
        return bool(pyop(a, b))
    if not sa and is_special(a):
        return bool(pyop(a, 0.0))
    if not sb and is_special(b):
        return bool(pyop(0.0, b))
    return zop(z(a), z(b))


def lt(a, b):
    return _cmp(a, b, lambda x, y: x < y, lambda x, y: x < y)


def le(a, b):
    return _cmp(a, b, lambda x, y: x <= y, lambda x, y: x <= y)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    if isinstance(a, (bool, np.bool_)) and is_sym(b):
        return b if a else bnot(b)
    if isinstance(b, (bool, np.bool_)) and is_sym(a):
        return a if b else bnot(a)
    return _cmp(a, b, lambda x, y: x == y, lambda x, y: x == y)


def ne(a, b):
    return bnot(eq(a, b))


def bnot(a):
    if is_sym(a):
        if z3.is_not(a):
            return a.arg(0)
        return z3.Not(a)
    return not a


def band(a, b):
    if not is_sym(a):
        return b if a else False
    if not is_sym(b):
        return a if b else False
    return z3.And(a, b)


def bor(a, b):
    if not is_sym(a):
        return True if a else b
    if not is_sym(b):
        return True if b else a
    return z3.Or(a, b)


def bxor(a, b):
    if not is_sym(a):
        return bnot(b) if a else b
    if not is_sym(b):
        return bnot(a) if b else a
    return z3.Xor(a, b)


def fmax(a, b):
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if not is_sym(a) and is_special(a):
        return b if a == -INF else a
    if not is_sym(b) and is_special(b):
        return a if b == -INF else b
    return ite(ge(a, b), a, b)


def fmin(a, b):
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if not is_sym(a) and is_special(a):
        return b if a == INF else a
    if not is_sym(b) and is_special(b):
        return a if b == INF else b
    return ite(le(a, b), a, b)


def fabs(a):
    if not is_sym(a):
        return abs(a)
    return z3.If(a >= 0, a, -a)


def sign(a):
    if not is_sym(a):
        if is_special(a):
            return a if math.isnan(a) else F(math.copysign(1, a))
        return type(a)((a > 0) - (a < 0))
    one = z3.RealVal(1) if a.is_real() else z3.IntVal(1)
    return z3.If(a > 0, one, z3.If(a < 0, -one, one - one))


# ---------------------------------------------------------------- integers
def ifloordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            raise EvalError("integer division by zero")
        return a // b
    a, b = z(a), z(b)
    CTX.need(b != 0)
    # z3 div is Euclidean: remainder in [0,|b|)
    q, r = a / b, a % b
    return z3.If(b > 0, q, z3.If(r == 0, q, q - 1))


def itruncdiv(a, b):
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            raise EvalError("integer division by zero")
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    a, b = z(a), z(b)
    CTX.need(b != 0)
    ab = z3.If(b > 0, b, -b)
    q = z3.If(a >= 0, a / ab, -((-a) / ab))
    return z3.If(b > 0, q, -q)


def ifloormod(a, b):
    """python-style, sign of divisor"""
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            raise EvalError("integer mod by zero")
        return a % b
    a, b = z(a), z(b)
    CTX.need(b != 0)
    r = a % b
    return z3.If(z3.Or(b > 0, r == 0), r, r + b)


def itruncmod(a, b):
    """C-style, sign of dividend"""
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            raise EvalError("integer mod by zero")
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    a, b = z(a), z(b)
    CTX.need(b != 0)
    ab = z3.If(b > 0, b, -b)
    return z3.If(a >= 0, a % ab, -((-a) % ab))


# ---------------------------------------------------------------- rounding
def floor_i(a):
    """real element -> int element"""
    if not is_sym(a):
        if is_special(a):
            raise Unsupported("floor of special")
        return math.floor(a)
    return z3.ToInt(a)


def ceil_i(a):
    if not is_sym(a):
        if is_special(a):
            raise Unsupported("ceil of special")
        return math.ceil(a)
    return -z3.ToInt(-a)


def trunc_i(a):
    if not is_sym(a):
        if is_special(a):
            raise Unsupported("trunc of special")
        return math.trunc(a)
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def round_even_i(a):
    if not is_sym(a):
        if is_special(a):
            raise Unsupported("round of special")
        return round(a)
    f = z3.ToInt(a)
    d = a - z3.ToReal(f)
    h = z3.RealVal("1/2")
    return z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def round_away_i(a):
    if not is_sym(a):
        return math.floor(a + Fraction(1, 2)) if a >= 0 else -math.floor(-a + Fraction(1, 2))
    h = z3.RealVal("1/2")
    return z3.If(a >= 0, z3.ToInt(a + h), -z3.ToInt(-a + h))


def i2f(a):
    if is_sym(a):
        return z3.ToReal(a)
    return Fraction(int(a))


def floor_f(a):
    if not is_sym(a) and is_special(a):
        return a
    return i2f(floor_i(a))


def ceil_f(a):
    if not is_sym(a) and is_special(a):
        return a
    return i2f(ceil_i(a))


def round_even_f(a):
    if not is_sym(a) and is_special(a):
        return a
    return i2f(round_even_i(a))


# ---------------------------------------------------------------- uninterpreted functions
def _softplus(x):
    return math.log1p(math.exp(-abs(x))) + max(x, 0)


CONCRETE = {
    "exp": math.exp, "log": lambda x: math.log(x) if x > 0 else (-INF if x == 0 else math.nan),
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "asin": lambda x: math.asin(x) if abs(x) <= 1 else math.nan,
    "acos": lambda x: math.acos(x) if abs(x) <= 1 else math.nan,
    "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
    "asinh": math.asinh, "acosh": lambda x: math.acosh(x) if x >= 1 else math.nan,
    "atanh": lambda x: math.atanh(x) if abs(x) < 1 else (math.copysign(INF, x) if abs(x) == 1 else math.nan),
    "erf": math.erf,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.,
}
_ufs = {}


def uf(name, *args):
    if not any(is_sym(a) for a in args):
        try:
            return F(CONCRETE[name](*[float(a) for a in args]))
        except OverflowError:
            return INF
    f = _ufs.get((name, len(args)))
    if f is None:
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        _ufs[(name, len(args))] = f
    r = f(*[z(a) for a in args])
    k = r.get_id()
    if k not in CTX.ufapps:
        CTX.ufapps[k] = (name, r)
    return r


def fpow(a, b):
    if not is_sym(a) and not is_sym(b):
        try:
            r = math.pow(float(a), float(b))
        except (ValueError, ZeroDivisionError):
            with np.errstate(all="ignore"):
                r = float(np.power(np.float64(float(a)), np.float64(float(b))))
        except OverflowError:
            r = INF
        return F(r)
    if not is_sym(b) and not is_special(b):
        fb = Fraction(b)
        if fb.denominator == 1 and 0 <= fb <= 8:
            n = int(fb)
            if n == 0:
                return Fraction(1) if a.is_real() else 1
            r = a
            for _ in range(n - 1):
                r = r * a
            return r
        if a.is_real() and fb == Fraction(1, 2):
            return uf("sqrt", a)
        if a.is_real() and fb == Fraction(-1, 2):
            return fdiv(Fraction(1), uf("sqrt", a))
        if a.is_real() and fb == -1:
            return fdiv(Fraction(1), a)
    CONCRETE.setdefault("pow", lambda x, y: float(np.power(np.float64(x), np.float64(y))))
    return uf("pow", z3.ToReal(z(a)) if z(a).is_int() else a, z3.ToReal(z(b)) if z(b).is_int() else b)


# recurrent cells: sigmoid is one uninterpreted function, so that both sides stay polynomial in it
OPAQUE_SIGMOID = [False]


def sigmoid(a):
    if OPAQUE_SIGMOID[0]:
        return uf("sigmoid", a)
    return fdiv(Fraction(1), add(Fraction(1), uf("exp", neg(a))))


def uf_axioms(apps):
    """Sound facts about the uninterpreted functions that occur in a query (instances, not quantified)."""
    out = []
    zero, one = z3.RealVal(0), z3.RealVal(1)
    by = {}
    for name, t in apps.values():
        x = t.arg(0)
        by.setdefault(name, []).append((x, t))
        if name == "exp":
            out += [t > 0, z3.Implies(x == zero, t == one), z3.Implies(x > zero, t > one), z3.Implies(x < zero, t < one)]
        elif name == "sqrt":
            out += [z3.Implies(x >= zero, z3.And(t >= zero, t * t == x))]
        elif name == "tanh":
            out += [t > -1, t < 1, z3.Implies(x == zero, t == zero), z3.Implies(x > zero, t > zero),
                    z3.Implies(x < zero, t < zero)]
        elif name == "sigmoid":
            out += [t > 0, t < 1, z3.Implies(x == zero, t == z3.RealVal("1/2")), z3.Implies(x > zero, t > z3.RealVal("1/2")),
                    z3.Implies(x < zero, t < z3.RealVal("1/2"))]
        elif name == "erf":
            out += [t >= -1, t <= 1]
        elif name in ("sin", "cos"):
            out += [t >= -1, t <= 1]
    return out


# ---------------------------------------------------------------- equality
def diff(l, r, tol=None, is_float=True):
    """A condition (bool or z3) that is true iff elements l and r differ (beyond tol for floats)."""
    sl, sr = is_sym(l), is_sym(r)
    if sl and sr and l.eq(r):
        return False
    if not sl and not sr:
        if is_float:
            fl, fr = float(l), float(r)
            if math.isnan(fl) and math.isnan(fr):
                return False
            if math.isinf(fl) or math.isinf(fr) or math.isnan(fl) or math.isnan(fr):
                return not fl == fr
            return abs(fl - fr) > 1e-5 + 2e-4 * max(abs(fl), abs(fr)) if tol is None else abs(fl - fr) > tol
        return l != r
    if (not sl and is_special(l)) or (not sr and is_special(r)):
        return True
    zl, zr = z(l), z(r)
    if zl.sort() != zr.sort():
        if z3.is_bool(zl) or z3.is_bool(zr):
            return True
        if zl.is_int():
            zl = z3.ToReal(zl)
        if zr.is_int():
            zr = z3.ToReal(zr)
    if tol is None or not is_float:
        return zl != zr
    d = zl - zr
    t = z(Fraction(repr(tol)))
    return z3.Or(d > t, d < -t)
