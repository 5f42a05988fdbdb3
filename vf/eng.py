"""Path explorer: depth-first exploration by re-execution, every branch decided by the solver.

  explore(fn)            runs fn once per feasible path
  branch(cond)           forks on a symbolic condition
  concretize(term)       case-split a symbolic Int over every feasible value (solver enumerated, exhaustive)
  assume(cond)           restrict the path (an infeasible path is dropped)
SymInt / SymBool proxies let plain Python code of the implementation run on symbolic integers.
"""
import time

import z3

from . import terms as T


class PathDropped(Exception):
    pass


class Budget(Exception):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.unknown = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + (o[k] if isinstance(o, dict) else getattr(o, k)))

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()


def check(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    if r == z3.unknown:
        STATS.unknown += 1
    return r


class Explorer:
    cur = None

    def __init__(self, max_paths=100000, timeout_ms=20000):
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.solver = None
        self.trace = []     # list of [value, list of pending alternatives]
        self.pos = 0
        self.pc = []
        self.nvar = 0

    # -- symbolic inputs
    def fresh_name(self, base):
        self.nvar += 1
        return "%s!%d" % (base, self.nvar)

    # -- constraints
    def _push(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        if isinstance(c, SymBool):
            c = c.e
        if not T.is_sym(c):
            if not c:
                raise PathDropped()
            return
        self._push(c)
        if check(self.solver) == z3.unsat:
            raise PathDropped()

    def feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        r = check(self.solver)
        self.solver.pop()
        return r != z3.unsat

    def branch(self, c):
        if isinstance(c, SymBool):
            c = c.e
        if not T.is_sym(c):
            return bool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f:
                raise PathDropped()
            alts = []
            v = t
            if t and f:
                alts = [False]
                STATS.forks += 1
            self.trace.append([v, alts])
        self.pos += 1
        self._push(c if v else z3.Not(c))
        return v

    def concretize(self, e):
        if isinstance(e, SymInt):
            e = e.e
        if not T.is_sym(e):
            return int(e)
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
        else:
            vals = []
            self.solver.push()
            while True:
                r = check(self.solver)
                if r == z3.unknown:
                    raise T.Unsupported("solver unknown while case-splitting")
                if r == z3.unsat:
                    break
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > 4096:
                    raise T.Unsupported("case split wider than 4096")
                self.solver.add(e != v)
            self.solver.pop()
            if not vals:
                raise PathDropped()
            vals.sort()
            v = vals[0]
            self.trace.append([v, vals[1:]])
            STATS.forks += len(vals) - 1
        self.pos += 1
        self._push(e == v)
        return v

    def explore(self, fn, on_path):
        """run fn() on every feasible path; on_path(result, explorer) with the path condition still in force"""
        self.trace = []
        npaths = 0
        while True:
            self.pos, self.pc, self.nvar = 0, [], 0
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout_ms)
            Explorer.cur = self
            T.CTX.reset()
            try:
                try:
                    res = fn()
                except PathDropped:
                    res = None
                else:
                    npaths += 1
                    STATS.paths += 1
                    on_path(res, self)
            finally:
                Explorer.cur = None
            while self.trace and not self.trace[-1][1]:
                self.trace.pop()
            if not self.trace:
                return npaths
            last = self.trace[-1]
            last[0] = last[1].pop(0)
            if npaths > self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)


def branch(c):
    if isinstance(c, SymBool):
        c = c.e
    if not T.is_sym(c):
        return bool(c)
    if Explorer.cur is None:
        raise T.Unsupported("symbolic branch outside an explorer")
    return Explorer.cur.branch(c)


def concretize(e):
    if not T.is_sym(e) and not isinstance(e, SymInt):
        return int(e)
    if Explorer.cur is None:
        raise T.Unsupported("symbolic case split outside an explorer")
    return Explorer.cur.concretize(e)


def assume(c):
    if Explorer.cur is None:
        raise T.Unsupported("assume outside an explorer")
    Explorer.cur.assume(c)


# ------------------------------------------------------------------ proxies
def _e(x):
    if isinstance(x, (SymInt, SymBool)):
        return x.e
    return x


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return branch(self.e)

    def __eq__(self, o):
        o = _e(o)
        if not T.is_sym(o):
            o = bool(o)
        return wrapb(T.eq(self.e, o))

    def __ne__(self, o):
        return wrapb(T.bnot(_e(self == o)))

    def __and__(self, o):
        return wrapb(T.band(self.e, _e(o)))

    def __or__(self, o):
        return wrapb(T.bor(self.e, _e(o)))

    __rand__, __ror__ = __and__, __or__

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__


def wrapb(e):
    return SymBool(e) if T.is_sym(e) else bool(e)


def wrapi(e):
    return SymInt(e) if T.is_sym(e) else int(e)


class SymInt:
    """Python-int look-alike; hashing, indexing, str() and C boundaries case-split exhaustively."""
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f):
        o = _e(o)
        if isinstance(o, float):
            return f(int(self), o) if not T.is_sym(o) else NotImplemented
        if not T.is_sym(o):
            try:
                o = int(o)
            except Exception:  # noqa
                return NotImplemented
        return wrapi(f(self.e, o))

    def __add__(self, o):
        return self._bin(o, T.add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: T.add(b, a))

    def __sub__(self, o):
        return self._bin(o, T.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: T.sub(b, a))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * int(self)
        return self._bin(o, T.mul)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        self._nz(o)
        return self._bin(o, T.ifloordiv)

    def __rfloordiv__(self, o):
        self._nz(self)
        return self._bin(o, lambda a, b: T.ifloordiv(b, a))

    def __mod__(self, o):
        self._nz(o)
        return self._bin(o, T.ifloormod)

    def __rmod__(self, o):
        self._nz(self)
        return self._bin(o, lambda a, b: T.ifloormod(b, a))

    @staticmethod
    def _nz(o):
        if bool(wrapb(T.eq(_e(o), 0))):
            raise ZeroDivisionError

    def __truediv__(self, o):
        return int(self) / int(o)

    def __rtruediv__(self, o):
        return o / int(self)

    def __neg__(self):
        return wrapi(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrapi(T.fabs(self.e))

    def __pow__(self, o):
        return int(self) ** int(o)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        o = _e(o)
        if not T.is_sym(o) and o >= 0 and (o + 1) & o == 0:
            return self % (o + 1)
        if not T.is_sym(o) and o > 0 and o & (o - 1) == 0:   # single bit
            return ((self // o) % 2) * o
        return int(self) & int(wrapi(o))

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(wrapi(_e(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(wrapi(_e(o)))

    __rxor__ = __xor__

    def _c(self, o, f):
        o = _e(o)
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return NotImplemented
        if isinstance(o, float):
            return f(int(self), o)
        if not T.is_sym(o):
            o = int(o)
        return wrapb(f(self.e, o))

    def __lt__(self, o):
        return self._c(o, T.lt)

    def __le__(self, o):
        return self._c(o, T.le)

    def __gt__(self, o):
        return self._c(o, T.gt)

    def __ge__(self, o):
        return self._c(o, T.ge)

    def __eq__(self, o):
        r = self._c(o, T.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, T.ne)
        return True if r is NotImplemented else r

    def __bool__(self):
        return branch(T.ne(self.e, 0))

    def __int__(self):
        return concretize(self.e)

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __str__(self):
        return str(int(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(int(self), spec)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __array__(self, dtype=None, copy=None):
        import numpy as np
        return np.array(int(self), dtype=dtype or np.int64)


def sym_int(name, lo=None, hi=None):
    """a symbolic integer in [lo, hi]; call with the same names in the same order on each path"""
    v = z3.Int(name)
    if lo is not None:
        Explorer.cur._push(v >= lo)
    if hi is not None:
        Explorer.cur._push(v <= hi)
    return SymInt(v)


def sym_bool(name):
    return SymBool(z3.Bool(name))


def choice(name, options):
    """symbolic choice between concrete alternatives: case-split by the solver over the index"""
    options = list(options)
    v = z3.Int(name)
    Explorer.cur._push(v >= 0)
    Explorer.cur._push(v < len(options))
    return options[concretize(v)]
