"""Symbolic constants inside the optimizer: the folding code of the repository runs on arrays whose elements are solver terms.

A SymArr stands for the numpy array of a constant node. Structural numpy functions move its elements, arithmetic and astype build terms of
the declared element type. Whatever the code under test does that cannot be expressed (a comparison of values, say) sets ESCAPED, and the
program is then run with concrete constants instead."""
import numpy as np

from . import tens as X
from . import terms as T
from .tens import Ten


class Escape(Exception):
    pass


class Reg:
    def __init__(self):
        self.on = False
        self.vals = {}
        self.escaped = None
        self.used = 0


REG = Reg()


def escape(why):
    REG.escaped = REG.escaped or why
    raise Escape(why)


def _un(x):
    return x.t.a if isinstance(x, SymArr) else x


def _dt(x):
    return x.dtype if isinstance(x, SymArr) else np.asarray(x).dtype


def _ten(x):
    return x.t if isinstance(x, SymArr) else X.from_np(np.asarray(x))


def _wrapout(r, dt):
    if isinstance(r, np.ndarray):
        return SymArr(Ten(r, dt))
    if isinstance(r, (list, tuple)):
        return type(r)(_wrapout(v, dt) for v in r)
    return SymArr(Ten(X.scal(r), dt)) if T.is_sym(r) or not isinstance(r, (bool, int, np.integer)) else r


STRUCT = {"concatenate", "split", "array_split", "transpose", "reshape", "squeeze", "expand_dims", "stack", "tile", "swapaxes", "moveaxis", "broadcast_to", "repeat", "ravel",
          "copy", "flip", "take", "hstack", "vstack", "atleast_1d", "atleast_2d", "array", "asarray", "roll", "pad"}


class SymArr:
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    dtype = property(lambda s: s.t.dt)
    shape = property(lambda s: s.t.a.shape)
    ndim = property(lambda s: s.t.a.ndim)
    size = property(lambda s: s.t.a.size)
    itemsize = property(lambda s: s.t.dt.itemsize)
    nbytes = property(lambda s: s.t.a.size * s.t.dt.itemsize)
    T = property(lambda s: SymArr(Ten(s.t.a.T, s.t.dt)))

    def __len__(self):
        return len(self.t.a)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def _s(name):  # noqa
        def f(self, *a, **k):
            return SymArr(Ten(getattr(self.t.a, name)(*a, **k), self.t.dt))
        return f

    transpose, reshape, squeeze, flatten = _s("transpose"), _s("reshape"), _s("squeeze"), _s("flatten")
    ravel, copy, swapaxes, take, repeat = _s("ravel"), _s("copy"), _s("swapaxes"), _s("take"), _s("repeat")

    def astype(self, dt, *a, **k):
        REG.used += 1
        return SymArr(X.cast(self.t, np.dtype(dt)))

    def __getitem__(self, i):
        r = self.t.a[i]
        return SymArr(Ten(r if isinstance(r, np.ndarray) else X.scal(r), self.t.dt))

    def __setitem__(self, i, v):
        self.t.a[i] = X.cast(_ten(v), self.dtype).a if isinstance(v, SymArr) else X.from_np(np.asarray(v, dtype=self.dtype)).a

    def tolist(self):
        escape("tolist")

    item = tolist

    def __array__(self, *a, **k):
        escape("__array__")

    def __bool__(self):
        escape("truth of a symbolic constant")

    def __eq__(self, o):
        escape("comparison")

    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = __index__ = __eq__
    __hash__ = None

    def __array_ufunc__(self, uf, method, *ins, **kw):
        REG.used += 1
        if method != "__call__" or kw.get("out") is not None:
            escape("ufunc %s.%s" % (uf.__name__, method))
        dt = np.result_type(*[_dt(x) if not (isinstance(x, (int, float)) and not isinstance(x, bool)) else x for x in ins])
        if "dtype" in kw:
            dt = np.dtype(kw["dtype"])
        ts = [X.cast(_ten(x), dt) for x in ins]
        fn = {"add": T.add, "subtract": T.sub, "multiply": T.mul, "negative": T.neg, "absolute": T.fabs, "maximum": T.fmax, "minimum": T.fmin}.get(uf.__name__)
        if fn is None or dt.kind == "b":
            escape("ufunc " + uf.__name__)
        if len(ts) == 1:
            r = X.u1(fn)(ts[0].a)
        else:
            a, b = np.broadcast_arrays(ts[0].a, ts[1].a)
            r = X.u2(fn)(a, b)
        return SymArr(Ten(X.wrap_arr(X.arr(r), dt), dt))

    def _b(uf, rev=False):  # noqa
        def f(self, o):
            return uf(o, self) if rev else uf(self, o)
        return f
    __add__, __sub__, __mul__ = _b(np.add), _b(np.subtract), _b(np.multiply)
    __radd__, __rsub__, __rmul__ = _b(np.add, True), _b(np.subtract, True), _b(np.multiply, True)
    __truediv__ = __rtruediv__ = __floordiv__ = __matmul__ = __pow__ = __eq__

    def __neg__(self):
        return np.negative(self)

    def __array_function__(self, fn, types, args, kw):
        REG.used += 1
        if fn.__name__ in ("shape", "ndim", "size"):
            return fn(self.t.a)
        if fn.__name__ not in STRUCT:
            escape("numpy." + fn.__name__)
        found = []

        def go(x):
            if isinstance(x, SymArr):
                found.append(x.dtype)
                return x.t.a
            if isinstance(x, (list, tuple)):
                return type(x)(go(v) for v in x)
            return x
        if fn.__name__ in ("concatenate", "stack", "hstack", "vstack"):
            arrs = args[0] if args else kw.pop("arrays")
            dt = np.result_type(*[_dt(v) for v in arrs])
            args = ([X.cast(_ten(v), dt).a for v in arrs],) + tuple(args[1:])
        else:
            args, kw = go(tuple(args)), {k: go(v) for k, v in kw.items()}
            dt = found[0]
        return _wrapout(fn(*args, **kw), dt)


MARK = "vf_const:"


def _mark(node, ten):
    """remember the symbolic value of a constant node in the doc string of its tensor, which stays with it"""
    REG.n += 1
    REG.vals[MARK + str(REG.n)] = ten
    node.get_attr("value").t.doc_string = MARK + str(REG.n)


def _stand_in(ten):
    """concrete content of a symbolic constant: no two alike where possible"""
    rng = np.random.default_rng(REG.n + 1)
    return np.asarray(rng.integers(0, 120, ten.a.shape)).astype(ten.dt)


def install():
    from tf2onnx.graph import Graph, Node
    if getattr(Node, "_vf_sym", False):
        return
    Node._vf_sym = True
    og, om, os_ = Node.get_tensor_value, Graph.make_const, Node.set_tensor_value

    def get_tensor_value(self, as_list=True):
        if REG.on and self.is_const():
            t = self.get_attr("value")
            v = REG.vals.get(t.t.doc_string) if t else None
            if v is not None:
                if as_list is True:
                    escape("list of a symbolic constant")
                REG.used += 1
                return SymArr(v)
        return og(self, as_list)

    def make_const(self, name, np_val, *a, **k):
        ten = None
        if isinstance(np_val, SymArr):
            ten = np_val.t
        elif REG.on and name in REG.init:
            ten = REG.init.pop(name)
        if ten is None:
            return om(self, name, np_val, *a, **k)
        node = om(self, name, _stand_in(ten), *a, **k)
        _mark(node, ten)
        return node

    def set_tensor_value(self, new_val):
        ten = new_val.t if isinstance(new_val, SymArr) else None
        r = os_(self, new_val if ten is None else _stand_in(ten))
        if ten is not None:
            _mark(self, ten)
        return r
    Node.get_tensor_value, Graph.make_const, Node.set_tensor_value = get_tensor_value, make_const, set_tensor_value


def run(fn, vals):
    """fn() with the named constants symbolic: (result, {name or mark: Ten} afterwards) or None if the code needs concrete values"""
    install()
    REG.on, REG.init, REG.vals, REG.escaped, REG.used, REG.n = True, dict(vals), {}, None, 0, 0
    try:
        r = fn()
    except Exception as e:  # noqa
        REG.escaped = REG.escaped or "%s: %s" % (type(e).__name__, str(e)[:80])
        return None
    finally:
        REG.on = False
    if REG.escaped:
        return None
    return r, dict(REG.vals)
