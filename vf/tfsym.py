"""Symbolic evaluator for TensorFlow graphs (tf.Graph / FuncGraph of kernels the converter supports)."""
import math
from fractions import Fraction

import numpy as np
import z3

from . import terms as T
from . import tens as X
from .eng import branch, concretize
from .onnxsym import cumulate, log_softmax, reverse_sequence, bv_binop, det as _detf
from .tens import Ten, arr, obj
from .terms import EvalError, Unsupported

OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


class TList:
    """a TensorList value: elements are Ten or None (uninitialised)"""

    def __init__(self, items, dt, eshape=None):
        self.items, self.dt, self.eshape = list(items), np.dtype(dt), eshape


class C:
    def __init__(self, ev, o):
        self.ev, self.o = ev, o

    def at(self, name, default=None):
        try:
            return self.o.get_attr(name)
        except ValueError:
            return default

    def s(self, name, default=b""):
        v = self.at(name, default)
        return v.decode() if isinstance(v, bytes) else v

    def dt(self, name):
        return np.dtype(self.at(name).as_numpy_dtype)


class Evaluator:
    """evaluates tensors of one graph on demand"""

    def __init__(self, graph, feeds, parent=None):
        self.graph = graph
        self.v = dict(feeds)
        self.parent = parent
        self.fcache = parent.fcache if parent else {}
        self.ops_used = parent.ops_used if parent else set()

    def get(self, t):
        if t.name in self.v:
            return self.v[t.name]
        stack = [t.op]
        while stack:
            o = stack[-1]
            if o.outputs and o.outputs[0].name in self.v:
                stack.pop()
                continue
            miss = [i.op for i in o.inputs if i.name not in self.v]
            if miss:
                stack += miss
                continue
            self.run_op(o)
            stack.pop()
        return self.v[t.name]

    def run_op(self, o):
        f = OPS.get(o.type)
        if f is None:
            raise Unsupported("tf op " + o.type)
        self.ops_used.add(o.type)
        ins = [self.v[i.name] for i in o.inputs]
        try:
            outs = f(C(self, o), ins)
        except (EvalError, Unsupported):
            raise
        except (IndexError, ZeroDivisionError) as e:
            raise EvalError("%s: %s: %s" % (o.type, type(e).__name__, e))
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        for t, v in zip(o.outputs, outs):
            self.v[t.name] = v

    def function(self, name):
        if isinstance(name, bytes):
            name = name.decode()
        if name in self.fcache:
            return self.fcache[name]
        from tensorflow.python.framework import function_def_to_graph as f2g
        g = self.graph
        root = self
        while root.parent is not None:
            root = root.parent
        if "__lib" not in self.fcache:
            self.fcache["__lib"] = {f.signature.name: f for f in root.graph.as_graph_def().library.function}
        fd = self.fcache["__lib"][name]
        with root.graph.as_default():
            fg = f2g.function_def_to_graph(fd)
        self.fcache[name] = fg
        return fg

    def call(self, name, args):
        fg = self.function(name)
        ev = Evaluator(fg, {i.name: v for i, v in zip(fg.inputs, args)}, self)
        return [ev.get(t) for t in fg.outputs]


def nd(c):
    return c.s("data_format", "NHWC") or "NHWC"


def to_nc(a, fmt):
    if fmt.startswith("NC"):
        return a
    return np.moveaxis(a, -1, 1)


def from_nc(a, fmt):
    if fmt.startswith("NC"):
        return a
    return np.moveaxis(a, 1, -1)


def spatial(lst, fmt):
    return list(lst[2:]) if fmt.startswith("NC") else list(lst[1:-1])


# ================================================================= elementwise
def un(name, fn, kinds="f"):
    g = X.u1(fn)

    @op(name)
    def f(c, ins):
        t = ins[0]
        if t.k not in kinds:
            raise Unsupported("%s on %s" % (name, t.dt))
        return Ten(X.wrap_arr(g(t.a), t.dt), t.dt)


def ufn(u):
    return lambda x: T.uf(u, x) if T.is_sym(x) or not T.is_special(x) else T.F(T.CONCRETE[u](x))


H = Fraction(1, 2)
ONE = Fraction(1)
Z = Fraction(0)
un("Abs", T.fabs, "fi")
un("Neg", T.neg, "fi")
un("Sign", T.sign, "fi")
un("Square", lambda x: T.mul(x, x), "fi")
un("Ceil", T.ceil_f)
un("Floor", T.floor_f)
un("Rint", T.round_even_f)
un("Round", lambda x: T.round_even_f(x) if (T.is_sym(x) and x.is_real()) or isinstance(x, (Fraction, float)) else x, "fi")
for _n, _u in [("Exp", "exp"), ("Log", "log"), ("Sin", "sin"), ("Cos", "cos"), ("Tan", "tan"), ("Asin", "asin"), ("Acos", "acos"),
               ("Atan", "atan"), ("Sinh", "sinh"), ("Cosh", "cosh"), ("Tanh", "tanh"), ("Asinh", "asinh"), ("Acosh", "acosh"),
               ("Atanh", "atanh"), ("Erf", "erf")]:
    un(_n, ufn(_u))
un("Sqrt", lambda x: T.uf("sqrt", x))
un("Rsqrt", lambda x: T.fdiv(ONE, T.uf("sqrt", x)))
un("Log1p", lambda x: T.uf("log", T.add(x, ONE)))
un("Expm1", lambda x: T.sub(T.uf("exp", x), ONE))
un("Reciprocal", lambda x: T.fdiv(ONE, x))
un("Inv", lambda x: T.fdiv(ONE, x))
un("Sigmoid", T.sigmoid)
un("Softplus", lambda x: T.uf("log", T.add(T.uf("exp", x), ONE)))
un("Softsign", lambda x: T.fdiv(x, T.add(ONE, T.fabs(x))))
un("Relu", lambda x: T.fmax(x, Z if isinstance(x, (Fraction, float)) or (T.is_sym(x) and x.is_real()) else 0), "fi")
un("Relu6", lambda x: T.fmin(T.fmax(x, Z), Fraction(6)) if isinstance(x, (Fraction, float)) or (T.is_sym(x) and x.is_real())
   else T.fmin(T.fmax(x, 0), 6), "fi")
un("Elu", lambda x: T.ite(T.lt(x, 0), T.sub(T.uf("exp", x), ONE), x))
_SA, _SS = Fraction("1.6732632423543772848170429916717"), Fraction("1.0507009873554804934193349852946")
un("Selu", lambda x: T.ite(T.lt(x, 0), T.mul(_SS * _SA, T.sub(T.uf("exp", x), ONE)), T.mul(_SS, x)))
un("Invert", lambda x: T.sub(T.neg(x), 1), "i")


@op("Identity", "StopGradient", "Snapshot", "PreventGradient", "CheckNumerics", "EnsureShape", "ReadVariableOp", "PlaceholderWithDefault")
def _identity(c, ins):
    return ins[0]


@op("IdentityN")
def _idn(c, ins):
    return ins


@op("Const")
def _const(c, ins):
    import tensorflow as tf
    return X.from_np(tf.make_ndarray(c.at("value")))


@op("ZerosLike")
def _zl(c, ins):
    if isinstance(ins[0], TList):
        raise Unsupported("ZerosLike list")
    return Ten(X.fill(ins[0].shape, X.zero(ins[0].dt)), ins[0].dt)


@op("OnesLike")
def _ol(c, ins):
    return Ten(X.fill(ins[0].shape, X.one(ins[0].dt)), ins[0].dt)


@op("LeakyRelu")
def _lrelu(c, ins):
    al = T.F(np.float32(c.at("alpha")))
    return Ten(X.u1(lambda x: T.ite(T.lt(x, 0), T.mul(x, al), x))(ins[0].a), ins[0].dt)


@op("LogicalNot")
def _lnot(c, ins):
    return Ten(X.vnot(ins[0].a), bool)


@op("IsNan", "IsInf")
def _isnan(c, ins):
    f = math.isnan if c.o.type == "IsNan" else math.isinf
    return Ten(X.u1(lambda x: (not T.is_sym(x)) and T.is_special(x) and f(x))(ins[0].a), bool)


@op("IsFinite")
def _isfin(c, ins):
    return Ten(X.u1(lambda x: T.is_sym(x) or not T.is_special(x))(ins[0].a), bool)


@op("Cast")
def _cast(c, ins):
    return X.cast(ins[0], c.dt("DstT"))


@op("Bitcast")
def _bitcast(c, ins):
    raise Unsupported("Bitcast")


def bi(name, fn, out=None, kinds="fi"):
    g = X.u2(fn)

    @op(name)
    def f(c, ins):
        a, b = ins
        if a.k not in kinds:
            raise Unsupported("%s on %s" % (name, a.dt))
        X.bcast_check(a.shape, b.shape)
        r = g(a.a, b.a)
        return Ten(X.wrap_arr(r, a.dt), a.dt) if out is None else Ten(r, out)


def _isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool) or (T.is_sym(x) and x.is_int())


bi("Add", T.add)
bi("AddV2", T.add)
bi("Sub", T.sub)
bi("Mul", T.mul)
bi("Maximum", T.fmax)
bi("Minimum", T.fmin)
bi("RealDiv", T.fdiv, kinds="f")
bi("Div", lambda a, b: T.itruncdiv(a, b) if _isint(a) else T.fdiv(a, b))
bi("FloorDiv", lambda a, b: T.ifloordiv(a, b) if _isint(a) else T.floor_f(T.fdiv(a, b)))
bi("TruncateDiv", lambda a, b: T.itruncdiv(a, b), kinds="i")
bi("DivNoNan", lambda a, b: _dnn(a, b), kinds="f")
bi("MulNoNan", lambda a, b: T.mul(a, b), kinds="f")
bi("SquaredDifference", lambda a, b: T.mul(T.sub(a, b), T.sub(a, b)))
bi("Less", T.lt, bool)
bi("LessEqual", T.le, bool)
bi("Greater", T.gt, bool)
bi("GreaterEqual", T.ge, bool)
bi("Equal", T.eq, bool, "fibs")
bi("NotEqual", T.ne, bool, "fibs")
bi("LogicalAnd", T.band, bool, "b")
bi("LogicalOr", T.bor, bool, "b")


def _dnn(a, b):
    if not T.is_sym(b):
        return Z if b == 0 else T.fdiv(a, b)
    q = z3.If(b == 0, z3.RealVal(1), b)
    return T.ite(b == 0, Z, T.z(a) / q)


def _fmod(a, b):
    if _isint(a):
        return T.ifloormod(a, b)
    q = T.fdiv(a, b)
    return T.sub(a, T.mul(b, T.floor_f(q)))


def _tmod(a, b):
    if _isint(a):
        return T.itruncmod(a, b)
    q = T.fdiv(a, b)
    return T.sub(a, T.mul(b, T.i2f(T.trunc_i(q))))


bi("FloorMod", _fmod)
bi("Mod", _tmod)
bi("TruncateMod", _tmod)


@op("Pow")
def _pow(c, ins):
    a, b = ins
    X.bcast_check(a.shape, b.shape)
    if a.k == "i":
        def p(x, y):
            if not T.is_sym(y):
                if y < 0:
                    raise Unsupported("negative integer power")
                r = 1
                for _ in range(y):
                    r = T.mul(r, x)
                return r
            raise Unsupported("symbolic integer power")
        return Ten(X.wrap_arr(X.u2(p)(a.a, b.a), a.dt), a.dt)
    return Ten(X.u2(T.fpow)(a.a, b.a), a.dt)


for _nm, _fn in [("BitwiseAnd", "and"), ("BitwiseOr", "or"), ("BitwiseXor", "xor")]:
    def _mk(nm, fn):
        @op(nm)
        def f(c, ins):
            a, b = ins
            X.bcast_check(a.shape, b.shape)
            return Ten(X.u2(bv_binop(fn)(a.dt))(a.a, b.a), a.dt)
    _mk(_nm, _fn)


@op("LeftShift", "RightShift")
def _shift(c, ins):
    a, b = ins
    X.bcast_check(a.shape, b.shape)
    bits = a.dt.itemsize * 8
    left = c.o.type == "LeftShift"

    def f(x, y):
        y = concretize(y)
        if y < 0 or y >= bits:
            raise Unsupported("shift amount outside the type's width (implementation-defined)")
        return X.wrap(T.mul(x, 1 << y), a.dt) if left else T.ifloordiv(x, 1 << y)
    return Ten(X.u2(f)(a.a, b.a), a.dt)


@op("AddN")
def _addn(c, ins):
    r = ins[0].a
    for t in ins[1:]:
        r = X.vadd(r, t.a)
    return Ten(X.wrap_arr(r, ins[0].dt), ins[0].dt)


@op("SelectV2")
def _sel2(c, ins):
    s = X.bcast_check(*[t.shape for t in ins])
    a = [np.broadcast_to(t.a, s) for t in ins]
    return Ten(X.vite(*a), ins[1].dt)


@op("Select")
def _sel(c, ins):
    cnd, a, b = ins
    ca = cnd.a
    if cnd.shape != a.shape and cnd.rank == 1:
        ca = ca.reshape((-1,) + (1,) * (a.rank - 1))
    return Ten(X.vite(np.broadcast_to(ca, a.shape), a.a, b.a), a.dt)


@op("ClipByValue")
def _clip(c, ins):
    x, lo, hi = ins
    return Ten(X.vmin(X.vmax(x.a, lo.a), hi.a), x.dt)


@op("BiasAdd", "BiasAddV1")
def _bias(c, ins):
    x, b = ins
    if nd(c).startswith("NC") and x.rank > 1:
        ba = b.a.reshape((-1,) + (1,) * (x.rank - 2))
    else:
        ba = b.a
    return Ten(X.wrap_arr(X.vadd(x.a, ba), x.dt), x.dt)


# ================================================================= reductions
def _red(name, mk, dt=None):
    @op(name)
    def f(c, ins):
        x = ins[0]
        ax = X.ints(ins[1])
        return Ten(X.reduce(x.a, ax, bool(c.at("keep_dims")), mk(x.dt)), x.dt if dt is None else dt) \
            if True else None


_red("Sum", X.red_sum)
_red("Mean", X.red_mean)
_red("Prod", X.red_prod)
_red("Max", X.red_max)
_red("Min", X.red_min)
_red("All", lambda dt: X.red_all)
_red("Any", lambda dt: X.red_any)
_red("EuclideanNorm", lambda dt: lambda xs: T.uf("sqrt", T.fsum([T.mul(x, x) for x in xs])))


@op("ArgMax", "ArgMin")
def _arg(c, ins):
    x = ins[0]
    better = T.gt if c.o.type == "ArgMax" else T.lt
    return Ten(X.reduce(x.a, [X.int0(ins[1])], False, lambda xs: X.argext(xs, better)), c.dt("output_type"))


@op("Cumsum", "Cumprod")
def _cum(c, ins):
    x = ins[0]
    f, i = (T.add, X.zero(x.dt)) if c.o.type == "Cumsum" else (T.mul, X.one(x.dt))
    return Ten(X.wrap_arr(cumulate(x.a, X.int0(ins[1]), c.at("exclusive"), c.at("reverse"), f, i), x.dt), x.dt)


@op("Softmax")
def _softmax(c, ins):
    return Ten(X.along(ins[0].a, -1, X.softmax), ins[0].dt)


@op("LogSoftmax")
def _lsoftmax(c, ins):
    return Ten(X.along(ins[0].a, -1, log_softmax), ins[0].dt)


@op("TopKV2")
def _topk(c, ins):
    x, k = ins[0], X.int0(ins[1])
    return [Ten(X.along(x.a, -1, lambda xs: X.topk(xs, k)[0]), x.dt), Ten(X.along(x.a, -1, lambda xs: X.topk(xs, k)[1]), c.dt("index_type") if c.at("index_type") is not None else np.int32)]


@op("SoftmaxCrossEntropyWithLogits")
def _sce(c, ins):
    lg, lb = ins
    sh = np.broadcast_shapes(lg.shape, lb.shape)
    lga, lbb = np.broadcast_to(lg.a, sh), np.broadcast_to(lb.a, sh)
    ls = X.along(lga, -1, log_softmax)
    loss = X.reduce(X.vneg(X.vmul(ls, lbb)), [1], False, X.red_sum(lg.dt))
    bp = X.vsub(X.along(lga, -1, X.softmax), lbb)
    return [Ten(loss, lg.dt), Ten(bp, lg.dt)]


@op("SparseSoftmaxCrossEntropyWithLogits")
def _ssce(c, ins):
    lg, lb = ins
    ls = X.along(lg.a, -1, log_softmax)
    n = lg.shape[-1]
    out = obj((lg.shape[0],))
    for i in range(lg.shape[0]):
        out[i] = T.neg(X.select(list(ls[i]), X.norm_idx(lb.a[i], n, False)))
    return [Ten(out, lg.dt), None]


@op("L2Loss")
def _l2loss(c, ins):
    return Ten(X.scal(T.fdiv(T.fsum([T.mul(x, x) for x in ins[0].a.reshape(-1)]), Fraction(2))), ins[0].dt)


def _segred(kind, dt):
    z, o = X.zero(dt), X.one(dt)
    if kind == "Sum":
        return z, T.add
    if kind == "Prod":
        return o, T.mul
    ii = np.iinfo(dt) if X.kind(dt) == "i" else None
    if kind == "Max":
        return (int(ii.min) if ii else T.F(np.finfo(dt).min)), T.fmax
    return (int(ii.max) if ii else T.F(np.finfo(dt).max)), T.fmin


@op("UnsortedSegmentSum", "UnsortedSegmentProd", "UnsortedSegmentMax", "UnsortedSegmentMin")
def _useg(c, ins):
    x, ids, n = ins[0], ins[1], X.int0(ins[2])
    init, f = _segred(c.o.type[len("UnsortedSegment"):], x.dt)
    r = ids.rank
    rest = x.shape[r:]
    flat = x.a.reshape((-1,) + rest)
    fid = ids.a.reshape(-1)
    out = obj((n,) + rest)
    for s in range(n):
        for q in np.ndindex(*rest):
            acc = init
            for i in range(flat.shape[0]):
                hit = T.eq(fid[i], s)
                if not T.is_sym(hit) and not hit:
                    continue
                acc = T.ite(hit, f(acc, flat[(i,) + q]), acc)
            out[(s,) + q] = acc
    for i in range(flat.shape[0]):
        if T.is_sym(fid[i]):
            T.CTX.need(fid[i] < n)
        elif fid[i] >= n:
            raise EvalError("segment id out of range")
    return Ten(X.wrap_arr(out, x.dt), x.dt)


@op("SegmentSum", "SegmentProd", "SegmentMax", "SegmentMin", "SegmentMean")
def _seg(c, ins):
    x = ins[0]
    ids = X.ints(ins[1])
    if any(b < a for a, b in zip(ids, ids[1:])) or (ids and ids[0] < 0):
        raise EvalError("segment ids not sorted")
    n = ids[-1] + 1 if ids else 0
    return Ten(_seg_apply(x, ids, n, c.o.type[len("Segment"):]), x.dt)


def _seg_apply(x, ids, n, kind):
    rest = x.shape[1:]
    out = obj((n,) + rest)
    for s in range(n):
        rows = [i for i, v in enumerate(ids) if v == s]
        for q in np.ndindex(*rest):
            vs = [x.a[(i,) + q] for i in rows]
            if not vs:
                out[(s,) + q] = X.one(x.dt) if kind == "Prod" else X.zero(x.dt)
            elif kind == "Sum":
                out[(s,) + q] = T.fsum(vs)
            elif kind == "Mean":
                out[(s,) + q] = T.fdiv(T.fsum(vs), Fraction(len(vs))) if x.k == "f" else T.itruncdiv(T.fsum(vs), len(vs))
            elif kind == "SqrtN":
                out[(s,) + q] = T.fdiv(T.fsum(vs), T.uf("sqrt", Fraction(len(vs))))
            else:
                f = {"Prod": T.mul, "Max": T.fmax, "Min": T.fmin}[kind]
                acc = vs[0]
                for v in vs[1:]:
                    acc = f(acc, v)
                out[(s,) + q] = acc
    return X.wrap_arr(out, x.dt)


@op("SparseSegmentSum", "SparseSegmentMean", "SparseSegmentSqrtN", "SparseSegmentSumWithNumSegments",
    "SparseSegmentMeanWithNumSegments", "SparseSegmentSqrtNWithNumSegments")
def _sseg(c, ins):
    x, idx = ins[0], ins[1]
    ids = X.ints(ins[2])
    if any(b < a for a, b in zip(ids, ids[1:])) or (ids and ids[0] < 0):
        raise EvalError("segment ids not sorted")
    n = X.int0(ins[3]) if "NumSegments" in c.o.type else (ids[-1] + 1 if ids else 0)
    if ids and ids[-1] >= n:
        raise EvalError("segment id out of range")
    g = Ten(X.gather(x.a, idx.a, 0, False), x.dt)
    return Ten(_seg_apply(g, ids, n, c.o.type.replace("SparseSegment", "").replace("WithNumSegments", "")), x.dt)


@op("Bincount")
def _bincount(c, ins):
    a, size, w = ins
    n = X.int0(size)
    return Ten(_binc(a.a.reshape(-1), n, w, c.dt("T"), False), c.dt("T"))


def _binc(v, n, w, dt, binary):
    out = obj((n,))
    wa = w.a.reshape(-1) if w is not None and w.a.size else None
    for s in range(n):
        acc = X.zero(dt)
        for i, x in enumerate(v):
            T_ = T.eq(x, s)
            inc = wa[i] if wa is not None else X.one(dt)
            acc = T.ite(T_, X.one(dt) if binary else T.add(acc, inc), acc)
        out[s] = acc
    return out


@op("DenseBincount")
def _dbincount(c, ins):
    a, size, w = ins
    n = X.int0(size)
    dt = c.dt("T")
    b = bool(c.at("binary_output"))
    for x in a.a.reshape(-1):
        if T.is_sym(x):
            T.CTX.need(x >= 0)
    if a.rank == 2:
        rows = [_binc(a.a[i], n, Ten(w.a[i], w.dt) if w.a.size else None, dt, b) for i in range(a.shape[0])]
        return Ten(np.stack(rows), dt)
    return Ten(_binc(a.a.reshape(-1), n, w, dt, b), dt)


# ================================================================= shapes
def ilist(vals, dt=np.int32):
    a = obj((len(vals),))
    for i, v in enumerate(vals):
        a[i] = v
    return Ten(a, dt)


@op("Shape")
def _shape(c, ins):
    return ilist([int(s) for s in ins[0].shape], c.dt("out_type"))


@op("ShapeN")
def _shapen(c, ins):
    return [ilist([int(s) for s in t.shape], c.dt("out_type")) for t in ins]


@op("Size")
def _size(c, ins):
    return Ten(X.scal(int(ins[0].a.size)), c.dt("out_type"))


@op("Rank")
def _rank(c, ins):
    return Ten(X.scal(int(ins[0].rank)), np.int32)


@op("Reshape")
def _reshape(c, ins):
    s = X.ints(ins[1])
    return Ten(X.reshape(ins[0].a, s), ins[0].dt)


@op("Squeeze")
def _squeeze(c, ins):
    x = ins[0]
    d = list(c.at("squeeze_dims") or [])
    ax = [X.nrm_axis(i, x.rank) for i in d] if d else [i for i, s in enumerate(x.shape) if s == 1]
    if any(x.shape[i] != 1 for i in ax):
        raise EvalError("squeeze of dim != 1")
    return Ten(x.a.reshape([s for i, s in enumerate(x.shape) if i not in ax]), x.dt)


@op("ExpandDims")
def _expand(c, ins):
    x, ax = ins[0], X.int0(ins[1])
    ax = X.nrm_axis(ax, x.rank + 1)
    return Ten(x.a.reshape(x.shape[:ax] + (1,) + x.shape[ax:]), x.dt)


@op("Transpose")
def _transpose(c, ins):
    p = X.ints(ins[1])
    r = ins[0].rank
    p = [X.nrm_axis(i, r) for i in p]
    if sorted(p) != list(range(r)):
        raise EvalError("bad perm")
    return Ten(np.transpose(ins[0].a, p), ins[0].dt)


@op("InvertPermutation")
def _invperm(c, ins):
    p = X.ints(ins[0])
    n = len(p)
    if sorted(p) != list(range(n)):
        raise EvalError("not a permutation")
    return ilist([p.index(i) for i in range(n)], ins[0].dt)


@op("ConcatV2", "Concat")
def _concat(c, ins):
    if c.o.type == "Concat":
        ins = ins[1:] + ins[:1]
    ax = X.nrm_axis(X.int0(ins[-1]), ins[0].rank)
    xs = ins[:-1]
    for t in xs:
        if t.rank != xs[0].rank or any(i != ax and a != b for i, (a, b) in enumerate(zip(t.shape, xs[0].shape))):
            raise EvalError("concat shapes")
    return Ten(np.concatenate([t.a for t in xs], axis=ax), xs[0].dt)


@op("Pack")
def _pack(c, ins):
    ax = X.nrm_axis(c.at("axis"), ins[0].rank + 1)
    if any(t.shape != ins[0].shape for t in ins):
        raise EvalError("pack shapes")
    return Ten(np.stack([t.a for t in ins], axis=ax), ins[0].dt)


@op("Unpack")
def _unpack(c, ins):
    x = ins[0]
    ax = X.nrm_axis(c.at("axis"), x.rank)
    if x.shape[ax] != c.at("num"):
        raise EvalError("unpack num")
    return [Ten(arr(np.take(x.a, i, axis=ax)), x.dt) for i in range(x.shape[ax])]


@op("Split")
def _split(c, ins):
    ax, x = X.nrm_axis(X.int0(ins[0]), ins[1].rank), ins[1]
    n = c.at("num_split")
    if x.shape[ax] % n:
        raise EvalError("uneven split")
    return [Ten(a, x.dt) for a in np.split(x.a, n, axis=ax)]


@op("SplitV")
def _splitv(c, ins):
    x, sz = ins[0], X.ints(ins[1])
    ax = X.nrm_axis(X.int0(ins[2]), x.rank)
    n = x.shape[ax]
    if -1 in sz:
        rest = sum(s for s in sz if s != -1)
        sz = [n - rest if s == -1 else s for s in sz]
    if sum(sz) != n or any(s < 0 for s in sz):
        raise EvalError("splitv sizes")
    out, p = [], 0
    for s in sz:
        out.append(Ten(x.a[(slice(None),) * ax + (slice(p, p + s),)], x.dt))
        p += s
    return out


@op("Slice")
def _slice(c, ins):
    x, b, s = ins[0], X.ints(ins[1]), X.ints(ins[2])
    sl = []
    for i in range(x.rank):
        n = x.shape[i]
        sz = n - b[i] if s[i] == -1 else s[i]
        if b[i] < 0 or sz < 0 or b[i] + sz > n:
            raise EvalError("slice out of range")
        sl.append(slice(b[i], b[i] + sz))
    return Ten(x.a[tuple(sl)], x.dt)


@op("StridedSlice")
def _sslice(c, ins):
    x = ins[0]
    b, e, s = [X.ints(t) for t in ins[1:4]]
    bm, em, elm, nm, sm = [c.at(k) for k in ("begin_mask", "end_mask", "ellipsis_mask", "new_axis_mask", "shrink_axis_mask")]
    n = len(b)
    el = [i for i in range(n) if elm >> i & 1]
    if len(el) > 1:
        raise EvalError("multiple ellipses")
    nnew = sum(1 for i in range(n) if (nm >> i & 1) and not (elm >> i & 1))
    used = n - nnew - len(el)
    # new axes after/before ellipsis do not consume dims
    a = x.a
    dim = 0
    key = []
    for i in range(n):
        if elm >> i & 1:
            for _ in range(x.rank - used):
                key.append(slice(None))
                dim += 1
            continue
        if nm >> i & 1:
            key.append(None)
            continue
        if dim >= x.rank:
            raise EvalError("too many indices")
        d = x.shape[dim]
        dim += 1
        if sm >> i & 1:
            j = b[i]
            if s[i] <= 0:
                raise EvalError("shrink with stride <= 0")
            if bm >> i & 1:
                j = 0
                # TF ignores the begin mask for shrunk axes: begin is used as given
                j = b[i]
            if j < -d or j >= d:
                raise EvalError("index out of range")
            key.append(j + d if j < 0 else j)
            continue
        st = s[i]
        if st == 0:
            raise EvalError("stride 0")
        key.append(slice(None if bm >> i & 1 else b[i], None if em >> i & 1 else e[i], st))
    return Ten(arr(a[tuple(key)]), x.dt)


@op("Tile")
def _tile(c, ins):
    m = X.ints(ins[1])
    if any(v < 0 for v in m):
        raise EvalError("negative multiples")
    return Ten(np.tile(ins[0].a, m), ins[0].dt)


@op("BroadcastTo")
def _bto(c, ins):
    try:
        return Ten(np.broadcast_to(ins[0].a, X.ints(ins[1])), ins[0].dt)
    except ValueError as e:
        raise EvalError(str(e))


@op("Fill")
def _fill(c, ins):
    s = X.ints(ins[0])
    if any(v < 0 for v in s):
        raise EvalError("negative dims")
    return Ten(X.fill(s, ins[1].a[()]), ins[1].dt)


@op("Range")
def _range(c, ins):
    s, l, d = [t.a[()] for t in ins]
    if ins[0].k == "i":
        s, l, d = concretize(s), concretize(l), concretize(d)
        if d == 0 or (s > l and d > 0) or (s < l and d < 0):
            raise EvalError("range")
        return ilist(list(range(s, l, d)), ins[0].dt)
    if any(T.is_sym(v) for v in (s, l, d)):
        raise Unsupported("symbolic float range")
    n = math.ceil((l - s) / d)
    return ilist([s + i * d for i in range(max(n, 0))], ins[0].dt)


def _pads(t):
    p = X.ints(t)
    return p[0::2], p[1::2]


@op("Pad", "PadV2")
def _pad(c, ins):
    b, e = _pads(ins[1])
    if any(v < 0 for v in b + e):
        raise EvalError("negative paddings")
    v = ins[2].a[()] if len(ins) > 2 else X.zero(ins[0].dt)
    return Ten(X.pad_const(ins[0].a, b, e, v), ins[0].dt)


@op("MirrorPad")
def _mpad(c, ins):
    b, e = _pads(ins[1])
    if any(v < 0 for v in b + e):
        raise EvalError("negative paddings")
    return Ten(X.pad_mode(ins[0].a, b, e, {"REFLECT": "reflect", "SYMMETRIC": "symmetric"}[c.s("mode")]), ins[0].dt)


@op("Roll")
def _roll(c, ins):
    x = ins[0]
    sh, ax = X.ints(ins[1]), X.ints(ins[2])
    a = x.a
    for s, i in zip(sh, ax):
        a = np.roll(a, s, axis=X.nrm_axis(i, x.rank))
    return Ten(a, x.dt)


@op("ReverseV2")
def _rev(c, ins):
    return Ten(np.flip(ins[0].a, [X.nrm_axis(i, ins[0].rank) for i in X.ints(ins[1])]) if ins[1].a.size else ins[0].a, ins[0].dt)


@op("ReverseSequence")
def _revseq(c, ins):
    x, l = ins
    return Ten(reverse_sequence(x.a, X.ints(l), X.nrm_axis(c.at("batch_dim"), x.rank), X.nrm_axis(c.at("seq_dim"), x.rank)), x.dt)


@op("SpaceToDepth")
def _s2d(c, ins):
    bs, fmt = c.at("block_size"), nd(c)
    a = ins[0].a if fmt == "NHWC" else np.moveaxis(ins[0].a, 1, -1)
    n, h, w, ch = a.shape
    if h % bs or w % bs:
        raise EvalError("block")
    r = a.reshape(n, h // bs, bs, w // bs, bs, ch).transpose(0, 1, 3, 2, 4, 5).reshape(n, h // bs, w // bs, bs * bs * ch)
    return Ten(r if fmt == "NHWC" else np.moveaxis(r, -1, 1), ins[0].dt)


@op("DepthToSpace")
def _d2s(c, ins):
    bs, fmt = c.at("block_size"), nd(c)
    a = ins[0].a if fmt == "NHWC" else np.moveaxis(ins[0].a, 1, -1)
    n, h, w, ch = a.shape
    if ch % (bs * bs):
        raise EvalError("block")
    r = a.reshape(n, h, w, bs, bs, ch // (bs * bs)).transpose(0, 1, 3, 2, 4, 5).reshape(n, h * bs, w * bs, ch // (bs * bs))
    return Ten(r if fmt == "NHWC" else np.moveaxis(r, -1, 1), ins[0].dt)


@op("SpaceToBatchND")
def _s2b(c, ins):
    x, bl = ins[0], X.ints(ins[1])
    pb, pe = _pads(ins[2])
    k = len(bl)
    r = x.rank - 1 - k
    a = X.pad_const(x.a, [0] + pb + [0] * r, [0] + pe + [0] * r, X.zero(x.dt))
    n, rest = a.shape[0], a.shape[1 + k:]
    sh = [n]
    for i in range(k):
        if a.shape[1 + i] % bl[i]:
            raise EvalError("block")
        sh += [a.shape[1 + i] // bl[i], bl[i]]
    a = a.reshape(tuple(sh) + rest)
    perm = [2 + 2 * i for i in range(k)] + [0] + [1 + 2 * i for i in range(k)] + list(range(1 + 2 * k, a.ndim))
    a = a.transpose(perm)
    return Ten(a.reshape((n * int(np.prod(bl)),) + tuple(sh[1::2]) + rest), x.dt)


@op("BatchToSpaceND")
def _b2s(c, ins):
    x, bl = ins[0], X.ints(ins[1])
    cb, ce = _pads(ins[2])
    k = len(bl)
    pb = int(np.prod(bl))
    if x.shape[0] % pb:
        raise EvalError("block")
    n = x.shape[0] // pb
    a = x.a.reshape(tuple(bl) + (n,) + x.shape[1:])
    perm = [k]
    for i in range(k):
        perm += [k + 1 + i, i]
    perm += list(range(2 * k + 1, a.ndim))
    a = a.transpose(perm).reshape((n,) + tuple(x.shape[1 + i] * bl[i] for i in range(k)) + x.shape[1 + k:])
    sl = [slice(None)]
    for i in range(k):
        if cb[i] + ce[i] > a.shape[1 + i]:
            raise EvalError("crops")
        sl.append(slice(cb[i], a.shape[1 + i] - ce[i]))
    return Ten(a[tuple(sl)], x.dt)


# ================================================================= gather / scatter
@op("Gather")
def _gather1(c, ins):
    return Ten(X.gather(ins[0].a, ins[1].a, 0, False), ins[0].dt)


@op("GatherV2")
def _gather(c, ins):
    x, i, ax = ins[0], ins[1], X.int0(ins[2])
    bd = c.at("batch_dims") or 0
    if bd < 0:
        bd += i.rank
    ax = X.nrm_axis(ax, x.rank)
    if bd == 0:
        return Ten(X.gather(x.a, i.a, ax, False), x.dt)
    if ax < bd or x.shape[:bd] != i.shape[:bd]:
        raise EvalError("gather batch dims")
    bs = x.shape[:bd]
    out = obj(bs + x.shape[bd:ax] + i.shape[bd:] + x.shape[ax + 1:])
    for p in np.ndindex(*bs):
        r = X.gather(x.a[p], arr(i.a[p]), ax - bd, False)
        out[p] = r if r.ndim else r[()]
    return Ten(out, x.dt)


@op("GatherNd")
def _gathernd(c, ins):
    return Ten(X.gather_nd(ins[0].a, ins[1].a, 0, False), ins[0].dt)


@op("ScatterNd")
def _scatternd(c, ins):
    i, u, s = ins[0], ins[1], X.ints(ins[2])
    return Ten(X.wrap_arr(X.scatter_nd(X.fill(s, X.zero(u.dt)), i.a, u.a, T.add if u.k != "b" else T.bor, False), u.dt), u.dt)


@op("SparseToDense")
def _s2d(c, ins):
    i, s, v, d = ins[0], X.ints(ins[1]), ins[2], ins[3]
    ia = i.a.reshape(-1, 1) if i.rank < 2 else i.a
    va = np.broadcast_to(v.a, (ia.shape[0],))
    return Ten(X.wrap_arr(X.scatter_nd(X.fill(s, d.a[()]), ia, va, lambda a, b: b, False), v.dt), v.dt)


@op("BroadcastArgs")
def _bargs(c, ins):
    a, b = X.ints(ins[0]), X.ints(ins[1])
    return Ten(arr(np.array(np.broadcast_shapes(tuple(a), tuple(b)), object)), ins[0].dt)


@op("TensorScatterUpdate", "TensorScatterAdd", "TensorScatterSub", "TensorScatterMax", "TensorScatterMin")
def _tscat(c, ins):
    x, i, u = ins
    f = {"Update": lambda a, b: b, "Add": T.add, "Sub": T.sub, "Max": T.fmax, "Min": T.fmin}[c.o.type[len("TensorScatter"):]]
    return Ten(X.wrap_arr(X.scatter_nd(x.a, i.a, u.a, f, False), x.dt), x.dt)


@op("OneHot")
def _onehot(c, ins):
    i, d = ins[0], X.int0(ins[1])
    on, off = ins[2].a[()], ins[3].a[()]
    ax = c.at("axis")
    r = i.rank
    ax = r if ax == -1 else ax
    out = obj(i.shape + (d,))
    for p in np.ndindex(*i.shape):
        for k in range(d):
            out[p + (k,)] = T.ite(T.eq(i.a[p], k), on, off)
    return Ten(np.moveaxis(out, -1, ax), ins[2].dt)


@op("Where")
def _where(c, ins):
    x = ins[0]
    rows = []
    for p in np.ndindex(*x.shape):
        v = x.a[p]
        if branch(v if x.k == "b" else T.ne(v, X.zero(x.dt))):
            rows.append(p)
    a = obj((len(rows), x.rank))
    for i, p in enumerate(rows):
        for j, v in enumerate(p):
            a[i, j] = int(v)
    return Ten(a, np.int64)


@op("Unique", "UniqueWithCounts")
def _unique(c, ins):
    x = ins[0]
    uniq, inv = [], []
    for v in x.a.reshape(-1):
        for j, u in enumerate(uniq):
            if branch(T.eq(u, v)):
                inv.append(j)
                break
        else:
            inv.append(len(uniq))
            uniq.append(v)
    dt = c.dt("out_idx")
    return [ilist(uniq, x.dt), ilist(inv, dt), ilist([inv.count(j) for j in range(len(uniq))], dt)]


@op("DynamicPartition")
def _dynpart(c, ins):
    x, p = ins
    n = c.at("num_partitions")
    r = p.rank
    ids = X.ints(p)
    flat = x.a.reshape((-1,) + x.shape[r:])
    if any(i < 0 or i >= n for i in ids):
        raise EvalError("partition id")
    out = []
    for k in range(n):
        rows = [i for i, v in enumerate(ids) if v == k]
        out.append(Ten(flat[rows] if rows else obj((0,) + x.shape[r:]), x.dt))
    return out


@op("DynamicStitch", "ParallelDynamicStitch")
def _dynstitch(c, ins):
    n = c.at("N")
    idx, data = ins[:n], ins[n:]
    rows = {}
    rest = data[0].shape[idx[0].rank:]
    for i, d in zip(idx, data):
        fl = d.a.reshape((-1,) + rest)
        for k, v in enumerate(X.ints(i)):
            rows[v] = fl[k]
    m = max(rows) + 1 if rows else 0
    if sorted(rows) != list(range(m)):
        raise Unsupported("dynamic stitch with holes")
    out = obj((m,) + rest)
    for k, v in rows.items():
        out[k] = v
    return Ten(out, data[0].dt)


# ================================================================= matrices
@op("MatMul")
def _matmul(c, ins):
    a, b = ins[0].a, ins[1].a
    if c.at("transpose_a"):
        a = a.T
    if c.at("transpose_b"):
        b = b.T
    return Ten(X.matmul(a, b, ins[0].dt), ins[0].dt)


@op("BatchMatMul", "BatchMatMulV2", "BatchMatMulV3")
def _bmm(c, ins):
    a, b = ins[0].a, ins[1].a
    if c.at("adj_x"):
        a = np.swapaxes(a, -1, -2)
    if c.at("adj_y"):
        b = np.swapaxes(b, -1, -2)
    dt = c.dt("Tout") if c.at("Tout") is not None else ins[0].dt
    return Ten(X.matmul(a, b, dt), dt)


@op("Einsum")
def _einsum(c, ins):
    return Ten(X.einsum(c.s("equation"), [t.a for t in ins], ins[0].dt), ins[0].dt)


@op("MatrixBandPart")
def _band(c, ins):
    x, lo, hi = ins[0], X.int0(ins[1]), X.int0(ins[2])
    out = x.a.copy()
    m, n = x.shape[-2:]
    for i in range(m):
        for j in range(n):
            if not ((lo < 0 or i - j <= lo) and (hi < 0 or j - i <= hi)):
                out[..., i, j] = X.zero(x.dt)
    return Ten(out, x.dt)


def _diag_len(d, m, n):
    return min(m + min(d, 0), n - max(d, 0))


def _diag_off(d, ml, m, n, align):
    ln = _diag_len(d, m, n)
    sup, sub = align.split("_")
    right = (d > 0 and sup == "RIGHT") or (d < 0 and sub == "RIGHT") or (d == 0 and sup == "RIGHT" and sub == "RIGHT")
    right = (sup == "RIGHT") if d >= 0 else (sub == "RIGHT")
    return (ml - ln) if right else 0


@op("MatrixDiag")
def _mdiag1(c, ins):
    x = ins[0]
    n = x.shape[-1]
    out = X.fill(x.shape + (n,), X.zero(x.dt))
    for i in range(n):
        out[..., i, i] = x.a[..., i]
    return Ten(out, x.dt)


def _kk(t):
    k = X.ints(t)
    return (k[0], k[0]) if len(k) == 1 else (k[0], k[1])


@op("MatrixDiagV2", "MatrixDiagV3")
def _mdiag(c, ins):
    x = ins[0]
    k0, k1 = _kk(ins[1])
    nr, nc, pv = X.int0(ins[2]), X.int0(ins[3]), ins[4].a[()]
    align = c.s("align", b"LEFT_LEFT") or "LEFT_LEFT"
    if k0 > k1:
        raise EvalError("k")
    multi = k0 != k1
    if multi and (x.rank < 2 or x.shape[-2] != k1 - k0 + 1):
        raise EvalError("number of diagonals")
    ml = x.shape[-1]
    minr, minc = ml - min(k1, 0), ml + max(k0, 0)
    if nr == -1 and nc == -1:
        nr = nc = max(minr, minc)
    elif nr == -1:
        nr = minr
    elif nc == -1:
        nc = minc
    if nr < minr or nc < minc or (nr != minr and nc != minc):
        raise EvalError("rows/cols")
    batch = x.shape[:-2] if multi else x.shape[:-1]
    out = obj(batch + (nr, nc))
    for i in range(nr):
        for j in range(nc):
            d = j - i
            if k0 <= d <= k1:
                o = _diag_off(d, ml, nr, nc, align)
                p = min(i, j) + o
                out[..., i, j] = x.a[..., k1 - d, p] if multi else x.a[..., p]
            else:
                out[..., i, j] = pv
    return Ten(out, x.dt)


@op("MatrixDiagPart", "MatrixDiagPartV2", "MatrixDiagPartV3")
def _mdpart(c, ins):
    x = ins[0]
    m, n = x.shape[-2:]
    if c.o.type == "MatrixDiagPart":
        q = min(m, n)
        return Ten(np.stack([x.a[..., i, i] for i in range(q)], axis=-1), x.dt)
    k0, k1 = _kk(ins[1])
    pv = ins[2].a[()]
    align = c.s("align", b"LEFT_LEFT") or "LEFT_LEFT"
    if k0 > k1 or k0 <= -m or k1 >= n:
        raise EvalError("k")
    ml = min(m + min(k1, 0), n - max(k0, 0))
    out = X.fill(x.shape[:-2] + (k1 - k0 + 1, ml), pv)
    for d in range(k0, k1 + 1):
        o = _diag_off(d, ml, m, n, align)
        for t in range(_diag_len(d, m, n)):
            out[..., k1 - d, t + o] = x.a[..., t + max(0, -d), t + max(0, d)]
    return Ten(out[..., 0, :] if k0 == k1 else out, x.dt)


@op("MatrixSetDiagV3", "MatrixSetDiag", "MatrixSetDiagV2")
def _mset(c, ins):
    x, dg = ins[0], ins[1]
    k0, k1 = _kk(ins[2]) if len(ins) > 2 else (0, 0)
    align = c.s("align", b"LEFT_LEFT") or "LEFT_LEFT"
    m, n = x.shape[-2:]
    ml = dg.shape[-1]
    out = x.a.copy()
    for d in range(k0, k1 + 1):
        o = _diag_off(d, ml, m, n, align) if k0 != k1 else 0
        for t in range(_diag_len(d, m, n)):
            v = dg.a[..., k1 - d, t + o] if k0 != k1 else dg.a[..., t]
            out[..., t + max(0, -d), t + max(0, d)] = v
    return Ten(out, x.dt)


@op("MatrixDeterminant")
def _mdet(c, ins):
    return Ten(_detf(ins[0].a), ins[0].dt)


@op("Cross")
def _cross(c, ins):
    a, b = ins[0].a, ins[1].a
    f = lambda i, j: X.vsub(X.vmul(a[..., i], b[..., j]), X.vmul(a[..., j], b[..., i]))  # noqa
    return Ten(np.stack([f(1, 2), f(2, 0), f(0, 1)], -1), ins[0].dt)


# ================================================================= conv / pool
def same_pads(insz, k, s, d):
    b, e = [], []
    for n, kk, ss, dd in zip(insz, k, s, d):
        o = -(-n // ss)
        t = max((o - 1) * ss + (kk - 1) * dd + 1 - n, 0)
        b.append(t // 2)
        e.append(t - t // 2)
    return b, e


def geom(c, sp, k, st, dl, fmt):
    pad = c.s("padding")
    if pad == "SAME":
        return same_pads(sp, k, st, dl)
    if pad == "VALID":
        return [0] * len(sp), [0] * len(sp)
    p = list(c.at("explicit_paddings"))
    pairs = [(p[2 * i], p[2 * i + 1]) for i in range(len(p) // 2)]
    pairs = spatial(pairs, fmt)
    return [q[0] for q in pairs], [q[1] for q in pairs]


def _nosize(sp, k, dl, b, e):
    for i in range(len(sp)):
        if sp[i] + b[i] + e[i] < (k[i] - 1) * dl[i] + 1:
            raise EvalError("window larger than the input")


@op("Conv2D", "Conv3D", "Conv1D")
def _conv(c, ins):
    x, w = ins
    fmt = nd(c)
    st = spatial(c.at("strides"), fmt)
    dl = spatial(c.at("dilations") or [1] * (len(st) + 2), fmt)
    xa = to_nc(x.a, fmt)
    wa = np.moveaxis(np.moveaxis(w.a, -1, 0), -1, 1)     # [k.., I, O] -> [O, I, k..]
    b, e = geom(c, xa.shape[2:], wa.shape[2:], st, dl, fmt)
    _nosize(xa.shape[2:], wa.shape[2:], dl, b, e)
    if xa.shape[1] % wa.shape[1]:
        raise EvalError("channels")
    g = xa.shape[1] // wa.shape[1]
    return Ten(from_nc(X.conv_nc(xa, wa, st, dl, b, e, g), fmt), x.dt)


@op("DepthwiseConv2dNative", "DepthwiseConv2d")
def _dw(c, ins):
    x, w = ins
    fmt = nd(c)
    st = spatial(c.at("strides"), fmt)
    dl = spatial(c.at("dilations") or [1] * 4, fmt)
    xa = to_nc(x.a, fmt)
    kh, kw, ch, mu = w.shape
    wa = w.a.reshape(kh, kw, 1, ch * mu).transpose(3, 2, 0, 1)
    b, e = geom(c, xa.shape[2:], (kh, kw), st, dl, fmt)
    _nosize(xa.shape[2:], (kh, kw), dl, b, e)
    return Ten(from_nc(X.conv_nc(xa, wa, st, dl, b, e, ch), fmt), x.dt)


@op("Conv2DBackpropInput", "Conv3DBackpropInputV2")
def _convbp(c, ins):
    sz, w, y = X.ints(ins[0]), ins[1], ins[2]
    fmt = nd(c)
    st = spatial(c.at("strides"), fmt)
    dl = spatial(c.at("dilations") or [1] * (len(st) + 2), fmt)
    ya = to_nc(y.a, fmt)
    k = w.shape[:-2]
    wa = np.moveaxis(np.moveaxis(w.a, -1, 0), -1, 1)     # [k.., outC, inC] -> [inC, outC, k..]
    if len(sz) == len(k):
        isp = sz
    else:
        isp = spatial(sz, fmt)
    b, e = geom(c, isp, k, st, dl, fmt)
    sp = ya.shape[2:]
    for i in range(len(k)):
        o = (isp[i] + b[i] + e[i] - ((k[i] - 1) * dl[i] + 1)) // st[i] + 1
        if o != sp[i]:
            raise EvalError("conv backprop sizes")
    if ya.shape[1] != wa.shape[0]:
        raise EvalError("conv backprop channels")
    n, m = ya.shape[0], wa.shape[1]
    out = X.fill((n, m) + tuple(isp), Fraction(0))
    acc = {}
    for nn in range(n):
        for cc in range(ya.shape[1]):
            for p in np.ndindex(*sp):
                for q in np.ndindex(*k):
                    o = tuple(p[i] * st[i] + q[i] * dl[i] - b[i] for i in range(len(k)))
                    if any(o[i] < 0 or o[i] >= isp[i] for i in range(len(k))):
                        continue
                    for mm in range(m):
                        acc.setdefault((nn, mm) + o, []).append(T.mul(ya[(nn, cc) + p], wa[(cc, mm) + q]))
    for kk, vs in acc.items():
        out[kk] = T.fsum(vs)
    return Ten(from_nc(out, fmt), y.dt)


@op("MaxPool", "AvgPool", "MaxPool3D", "AvgPool3D", "MaxPoolV2", "MaxPoolWithArgmax")
def _pool(c, ins):
    x = ins[0]
    fmt = nd(c)
    if c.o.type == "MaxPoolV2":
        ks, st = X.ints(ins[1]), X.ints(ins[2])
    else:
        ks, st = list(c.at("ksize")), list(c.at("strides"))
    full_k = ks
    k, s = spatial(ks, fmt), spatial(st, fmt)
    if full_k[0] != 1 or (full_k[-1] if fmt.endswith("C") else full_k[1]) != 1:
        raise Unsupported("pooling over batch/channels")
    xa = to_nc(x.a, fmt)
    b, e = geom(c, xa.shape[2:], k, s, [1] * len(k), fmt)
    _nosize(xa.shape[2:], k, [1] * len(k), b, e)
    mode = "max" if c.o.type.startswith("Max") else "avg"
    if c.o.type == "MaxPoolWithArgmax":
        r, i = X.pool_nc(xa, k, s, [1] * len(k), b, e, "max", want_idx=True)
        nc = xa.shape[1]
        sp = int(np.prod(xa.shape[2:]))
        ib = c.at("include_batch_in_index")
        for p in np.ndindex(*i.shape):
            v = T.add(T.mul(i[p], nc), p[1])
            i[p] = T.add(v, p[0] * sp * nc) if ib else v
        return [Ten(from_nc(r, fmt), x.dt), Ten(from_nc(i, fmt), c.dt("Targmax"))]
    return Ten(from_nc(X.pool_nc(xa, k, s, [1] * len(k), b, e, mode), fmt), x.dt)


@op("ExtractImagePatches")
def _patches(c, ins):
    x = ins[0]
    ks, st, rt = [list(c.at(n))[1:3] for n in ("ksizes", "strides", "rates")]
    n, h, w, ch = x.shape
    if c.s("padding") == "SAME":
        b, e = same_pads((h, w), ks, st, rt)
    else:
        b, e = [0, 0], [0, 0]
    a = X.pad_const(x.a, [0, b[0], b[1], 0], [0, e[0], e[1], 0], X.zero(x.dt))
    oh = (a.shape[1] - ((ks[0] - 1) * rt[0] + 1)) // st[0] + 1
    ow = (a.shape[2] - ((ks[1] - 1) * rt[1] + 1)) // st[1] + 1
    out = obj((n, oh, ow, ks[0] * ks[1] * ch))
    for nn in range(n):
        for i in range(oh):
            for j in range(ow):
                v = []
                for p in range(ks[0]):
                    for q in range(ks[1]):
                        v += list(a[nn, i * st[0] + p * rt[0], j * st[1] + q * rt[1]])
                for m, u in enumerate(v):
                    out[nn, i, j, m] = u
    return Ten(out, x.dt)


# ================================================================= normalisation
@op("FusedBatchNorm", "FusedBatchNormV2", "FusedBatchNormV3")
def _fbn(c, ins):
    x, g, b, m, v = ins
    fmt = nd(c)
    eps = T.F(np.float32(c.at("epsilon")))
    xa = to_nc(x.a, fmt)
    mo, vo, ma, va = m, v, m.a, v.a
    if c.at("is_training"):
        f = c.at("exponential_avg_factor")
        f = ONE if f is None else T.F(np.float32(f))
        ax = [0] + list(range(2, xa.ndim))
        mu = X.reduce(xa, ax, True, X.red_mean(g.dt))
        dv = X.vsub(xa, mu)
        va = X.reduce(X.vmul(dv, dv), ax, False, X.red_mean(g.dt))
        ma = mu.reshape(-1)
        n = xa.size // max(xa.shape[1], 1)
        bes = Fraction(n, max(n - 1, 1))
        vb = X.u1(lambda t: T.mul(t, bes))(va)
        if f != 1:
            raise Unsupported("training batch norm with a running average")
        mo, vo = Ten(ma, g.dt), Ten(vb, g.dt)
    sh = (-1,) + (1,) * (xa.ndim - 2)
    den = X.u1(lambda t: T.uf("sqrt", T.add(t, eps)))(va)
    r = X.vadd(X.vmul(X.vfdiv(X.vsub(xa, ma.reshape(sh)), den.reshape(sh)), g.a.reshape(sh)), b.a.reshape(sh))
    return [Ten(from_nc(r, fmt), x.dt), mo, vo, None, None, None]


@op("LRN")
def _lrn(c, ins):
    from .onnxsym import lrn
    x = ins[0]
    r = c.at("depth_radius")
    f = lambda n: T.F(np.float32(c.at(n)))  # noqa
    # y = x / (bias + alpha * sum sqr)^beta
    a = np.moveaxis(x.a, -1, 1)
    return Ten(np.moveaxis(lrn(a, 1, r, r, f("alpha"), f("beta"), f("bias")), 1, -1), x.dt)


# ================================================================= resize
def _axis_taps(n, o, mode, align, half):
    """list over output positions of [(index, weight)] for one axis (weights are exact fractions)"""
    sc = Fraction(n - 1, o - 1) if align and o > 1 else Fraction(n, o)
    res = []
    for i in range(o):
        if mode == "nearest":
            fsc = np.float32(n - 1) / np.float32(o - 1) if align and o > 1 else np.float32(n) / np.float32(o)
            p = (Fraction(i) + H) * sc if half else i * sc
            q = p + H if align else p
            if abs(q - round(q)) < Fraction(1, 10 ** 5):
                # the rounding of the single precision product decides
                fp = np.float32(i + 0.5 if half else i) * fsc
                q = math.floor(float(fp) + 0.5) if align else math.floor(fp)
            j = math.floor(q)
            res.append([(min(max(j, 0), n - 1), ONE)])
        elif mode == "linear":
            p = (Fraction(i) + H) * sc - H if half else i * sc
            f = math.floor(p)
            lo = max(f, 0)
            hi = min(f + 1, n - 1) if not (not half) else min(f + 1, n - 1)
            d = p - f
            if half:
                lo, hi = max(f, 0), min(math.ceil(p), n - 1)
                d = p - f
            res.append([(lo, 1 - d), (hi, d)])
        elif mode == "cubic":
            A = Fraction(-1, 2) if half else Fraction(-3, 4)
            p = (Fraction(i) + H) * sc - H if half else i * sc
            f = math.floor(p)
            d = Fraction(round((p - f) * 1024), 1024)

            def k1(x):
                return ((A + 2) * x - (A + 3)) * x * x + 1

            def k2(x):
                return ((A * x - 5 * A) * x + 8 * A) * x - 4 * A
            ws = [k2(d + 1), k1(d), k1(1 - d), k2(2 - d)]
            idx = [f - 1, f, f + 1, f + 2]
            if half:
                ws = [w if 0 <= j < n else Fraction(0) for w, j in zip(ws, idx)]
                s = sum(ws)
                if abs(s) >= Fraction(1, 10 ** 9):
                    ws = [w / s for w in ws]
            res.append([(min(max(j, 0), n - 1), w) for j, w in zip(idx, ws)])
    return res


def _resize(c, x, size, mode, align, half, odt):
    a = x.a
    if x.k == "i":
        a = X.vi2f(a)
    for ax, o in ((1, size[0]), (2, size[1])):
        taps = _axis_taps(a.shape[ax], o, mode, align, half)
        a = X.along(a, ax, lambda xs: [T.fsum([T.mul(w, xs[j]) for j, w in tp if w != 0]) for tp in taps])
    if odt != np.float32 and X.kind(odt) == "i":
        a = X.u1(T.trunc_i)(a)
    return Ten(a, odt)


@op("ResizeNearestNeighbor")
def _rnn(c, ins):
    x, s = ins[0], X.ints(ins[1])
    a = x.a
    for ax, o in ((1, s[0]), (2, s[1])):
        taps = _axis_taps(a.shape[ax], o, "nearest", c.at("align_corners"), c.at("half_pixel_centers"))
        a = np.take(a, np.array([t[0][0] for t in taps], dtype=np.int64), axis=ax)
    return Ten(a, x.dt)


@op("ResizeBilinear")
def _rbl(c, ins):
    return _resize(c, ins[0], X.ints(ins[1]), "linear", c.at("align_corners"), c.at("half_pixel_centers"), np.float32)


@op("ResizeBicubic")
def _rbc(c, ins):
    return _resize(c, ins[0], X.ints(ins[1]), "cubic", c.at("align_corners"), c.at("half_pixel_centers"), np.float32)


@op("ResizeArea")
def _rarea(c, ins):
    x, size = ins[0], X.ints(ins[1])
    align = c.at("align_corners")
    a = x.a
    if x.k == "i":
        a = X.vi2f(a)
    for ax, o in ((1, size[0]), (2, size[1])):
        n = a.shape[ax]
        if o <= 0:
            raise EvalError("output size")
        sc = Fraction(n - 1, o - 1) if align and o > 1 else Fraction(n, o)
        taps = []
        for y in range(o):
            p, e = y * sc, (y + 1) * sc
            tp = []
            for i in range(math.floor(p), math.ceil(e)):
                if i < p:
                    w = sc if i + 1 > e else i + 1 - p
                else:
                    w = e - i if i + 1 > e else Fraction(1)
                tp.append((min(max(i, 0), n - 1), w / sc))
            taps.append(tp)
        a = X.along(a, ax, lambda xs: [T.fsum([T.mul(w, xs[j]) for j, w in tp if w != 0]) for tp in taps])
    return Ten(a, np.float32)


@op("AdjustContrastv2")
def _contrast(c, ins):
    x, f = ins
    if x.rank < 3:
        raise EvalError("contrast rank")
    n = Fraction(1, int(np.prod(x.shape[-3:-1])))
    m = X.reduce(x.a, [x.rank - 3, x.rank - 2], True, lambda v: T.mul(T.fsum(list(v)), n))
    return Ten(X.vadd(X.vmul(X.vsub(x.a, m), f.a), m), x.dt)


@op("CropAndResize")
def _car(c, ins):
    x, boxes, bi_, size = ins
    bx = boxes.a
    ids = X.ints(bi_)
    oh, ow = X.ints(size)
    method = c.s("method")
    ext = T.F(np.float32(c.at("extrapolation_value")))
    n, h, w, ch = x.shape
    out = obj((len(ids), oh, ow, ch))

    def pos(lo, hi, n, o):
        r = []
        for i in range(o):
            if o > 1:
                p = T.add(T.mul(lo, Fraction(n - 1)), T.mul(Fraction(i * (n - 1), o - 1), T.sub(hi, lo)))
            else:
                p = T.mul(T.mul(H, T.add(lo, hi)), Fraction(n - 1))
            if T.is_sym(p):
                raise Unsupported("symbolic boxes")
            r.append(p)
        return r
    for k, b in enumerate(ids):
        if b < 0 or b >= n:
            raise EvalError("box index")
        ys, xs = pos(bx[k, 0], bx[k, 2], h, oh), pos(bx[k, 1], bx[k, 3], w, ow)
        for i, py in enumerate(ys):
            for j, px in enumerate(xs):
                for cc in range(ch):
                    if py < 0 or py > h - 1 or px < 0 or px > w - 1:
                        out[k, i, j, cc] = ext
                    elif method == "bilinear":
                        y0, x0 = math.floor(py), math.floor(px)
                        y1, x1 = math.ceil(py), math.ceil(px)
                        dy, dx = py - y0, px - x0
                        v = [T.mul((1 - dy) * (1 - dx), x.a[b, y0, x0, cc]), T.mul((1 - dy) * dx, x.a[b, y0, x1, cc]),
                             T.mul(dy * (1 - dx), x.a[b, y1, x0, cc]), T.mul(dy * dx, x.a[b, y1, x1, cc])]
                        out[k, i, j, cc] = T.fsum(v)
                    else:
                        out[k, i, j, cc] = x.a[b, math.floor(py + H), math.floor(px + H), cc]
    return Ten(out, np.float32)


# ================================================================= quantisation
@op("FakeQuantWithMinMaxArgs", "FakeQuantWithMinMaxVars")
def _fq(c, ins):
    x = ins[0]
    if c.o.type.endswith("Args"):
        mn, mx = float(c.at("min")), float(c.at("max"))
    else:
        if not (ins[1].is_concrete() and ins[2].is_concrete()):
            raise Unsupported("symbolic fake-quant range")
        mn, mx = float(ins[1].a[()]), float(ins[2].a[()])
    nb, nar = c.at("num_bits"), c.at("narrow_range")
    qmin, qmax = (1 if nar else 0), 2 ** nb - 1
    f32 = np.float32
    scale = f32((f32(mx) - f32(mn)) / f32(qmax - qmin))
    zp = f32(qmin) - f32(mn) / scale
    nzp = qmin if zp < qmin else (qmax if zp > qmax else int(np.floor(zp + f32(0.5))))
    nmin, nmax = f32((f32(qmin) - f32(nzp)) * scale), f32((f32(qmax) - f32(nzp)) * scale)
    S, lo, hi = T.F(scale), T.F(nmin), T.F(nmax)

    def q(v):
        cl = T.sub(T.fmin(T.fmax(v, lo), hi), lo)
        r = T.floor_f(T.add(T.fdiv(cl, S), H))
        return T.add(T.mul(r, S), lo)
    return Ten(X.u1(q)(x.a), x.dt)


# ================================================================= control flow
@op("If", "StatelessIf")
def _if(c, ins):
    p = ins[0]
    v = p.a.reshape(-1)[0] if p.a.size else False
    if p.k in "fi":
        v = T.ne(v, X.zero(p.dt))
    f = c.at("then_branch") if branch(v) else c.at("else_branch")
    return c.ev.call(f.name, ins[1:])


MAXIT = 12


@op("While", "StatelessWhile")
def _while(c, ins):
    st = list(ins)
    cf, bf = c.at("cond").name, c.at("body").name
    for _ in range(MAXIT + 1):
        r = c.ev.call(cf, st)[0]
        v = r.a.reshape(-1)[0]
        if not branch(v):
            return st
        st = c.ev.call(bf, st)
    raise Unsupported("more than %d loop iterations" % MAXIT)


@op("PartitionedCall", "StatefulPartitionedCall")
def _pcall(c, ins):
    return c.ev.call(c.at("f").name, ins)


@op("NoOp")
def _noop(c, ins):
    return []


@op("TensorListReserve")
def _tlr(c, ins):
    n = X.int0(ins[1])
    es = X.ints(ins[0])
    return TList([None] * n, c.dt("element_dtype"), es if all(s >= 0 for s in es) and ins[0].rank == 1 else None)


@op("EmptyTensorList")
def _tle(c, ins):
    es = X.ints(ins[0])
    return TList([], c.dt("element_dtype"), es if all(s >= 0 for s in es) and ins[0].rank == 1 else None)


@op("TensorListSetItem")
def _tls(c, ins):
    l, i, v = ins
    i = X.int0(i)
    items = list(l.items)
    if i < 0 or (i >= len(items) and not c.at("resize_if_index_out_of_bounds")):
        raise EvalError("list index")
    while i >= len(items):
        items.append(None)
    items[i] = v
    return TList(items, l.dt, l.eshape)


@op("TensorListGetItem")
def _tlg(c, ins):
    l, i = ins[0], X.int0(ins[1])
    if i < 0 or i >= len(l.items):
        raise EvalError("list index")
    v = l.items[i]
    if v is None:
        es = X.ints(ins[2])
        es = es if ins[2].rank == 1 and all(s >= 0 for s in es) else l.eshape
        if es is None:
            raise EvalError("uninitialised element of unknown shape")
        return Ten(X.fill(es, X.zero(l.dt)), l.dt)
    return v


@op("TensorListStack")
def _tlstack(c, ins):
    l = ins[0]
    es = X.ints(ins[1])
    es = es if ins[1].rank == 1 and all(s >= 0 for s in es) else l.eshape
    init = [v for v in l.items if v is not None]
    if init:
        es = init[0].shape
    if es is None:
        raise EvalError("stack of unknown shape")
    rows = [v.a if v is not None else X.fill(es, X.zero(l.dt)) for v in l.items]
    return Ten(np.stack(rows) if rows else obj((0,) + tuple(es)), l.dt)


@op("TensorListFromTensor")
def _tlft(c, ins):
    x = ins[0]
    return TList([Ten(arr(x.a[i]), x.dt) for i in range(x.shape[0])], x.dt, x.shape[1:])


@op("TensorListLength")
def _tll(c, ins):
    return Ten(X.scal(len(ins[0].items)), np.int32)


@op("TensorListResize")
def _tlrs(c, ins):
    n = X.int0(ins[1])
    it = list(ins[0].items)[:n]
    return TList(it + [None] * (n - len(it)), ins[0].dt, ins[0].eshape)


@op("TensorListPushBack")
def _tlpb(c, ins):
    return TList(list(ins[0].items) + [ins[1]], ins[0].dt, ins[0].eshape)


# ================================================================= recurrent kernels
@op("BlockLSTM", "LSTMBlockCell")
def _lstmblock(c, ins):
    raise Unsupported("block lstm")


# ================================================================= random, fused, quantise-and-dequantise
def _rnd(shape, kind_, dt, name):
    out = X.obj(shape)
    for i, v in zip(np.ndindex(*shape), X.random_symbols(kind_, int(np.prod(shape)) if len(shape) else 1)):
        out[i] = v
    return Ten(out, dt)


@op("RandomUniform")
def _ru(c, ins):
    return _rnd(tuple(X.ints(ins[0])), "u", c.dt("dtype"), c.o.name)


@op("RandomStandardNormal")
def _rn(c, ins):
    return _rnd(tuple(X.ints(ins[0])), "n", c.dt("dtype"), c.o.name)


@op("_FusedMatMul", "_FusedConv2D", "_FusedDepthwiseConv2dNative")
def _fused(c, ins):
    r = OPS[c.o.type.replace("_Fused", "")](c, ins[:2])
    extra = list(ins[2:])
    for f in c.at("fused_ops"):
        f = f.decode()
        if f == "BiasAdd":
            r = _bias(c, [r, extra.pop(0)])
        elif f == "LeakyRelu":
            al = T.F(np.float32(c.at("leakyrelu_alpha", 0.2)))
            r = Ten(X.u1(lambda x: T.ite(T.lt(x, 0), T.mul(x, al), x))(r.a), r.dt)
        elif f == "FusedBatchNorm":
            sc, off, mean, var = [extra.pop(0).a for _ in range(4)]
            eps = T.F(np.float32(c.at("epsilon", 0.0001)))
            xa = to_nc(r.a, nd(c))
            sh = (-1,) + (1,) * (xa.ndim - 2)
            inv = X.u1(lambda t: T.fdiv(ONE, T.uf("sqrt", T.add(t, eps))))(var)
            ra = X.vadd(X.vmul(X.vmul(X.vsub(xa, mean.reshape(sh)), inv.reshape(sh)), sc.reshape(sh)), off.reshape(sh))
            r = Ten(from_nc(ra, nd(c)), r.dt)
        elif f in OPS:
            r = OPS[f](c, [r] + extra)
        else:
            raise Unsupported("fused " + f)
    return r


@op("QuantizeAndDequantizeV2", "QuantizeAndDequantizeV3", "QuantizeAndDequantizeV4")
def _qdq(c, ins):
    x, mn, mx = ins[:3]
    if c.o.type.endswith("V3"):
        nb = X.int0(ins[3])
    else:
        nb = c.at("num_bits")
    sg, nar, given, ax = c.at("signed_input"), c.at("narrow_range"), c.at("range_given"), c.at("axis", -1)
    if sg:
        qmin, qmax = -(2 ** (nb - 1)) + (1 if nar else 0), 2 ** (nb - 1) - 1
    else:
        qmin, qmax = 0, 2 ** nb - 1
    up = c.s("round_mode", "HALF_TO_EVEN") == "HALF_UP"
    out = x.a.copy()
    for ch in range(x.shape[ax] if ax != -1 else 1):
        ix = tuple(slice(None) if d != ax or ax == -1 else ch for d in range(x.rank))
        part = arr(x.a[ix])
        if given:
            lo, hi = (t.a.reshape(-1)[ch if ax != -1 else 0] for t in (mn, mx))
            if branch(T.gt(lo, hi)):
                raise EvalError("invalid range")
        else:
            fl = list(part.reshape(-1))
            lo, hi = X.red_min(x.dt)(fl), X.red_max(x.dt)(fl)
        # inverse scale: the wider of the two sides
        Z = Fraction(0)
        side_lo = T.ite(T.lt(lo, 0), T.fdiv(lo, Fraction(qmin)), Z) if qmin < 0 else Z
        side_hi = T.ite(T.gt(hi, 0), T.fdiv(hi, Fraction(qmax)), Z)
        inv = T.fmax(side_lo, side_hi)
        if not T.is_sym(inv):
            inv = T.F(np.float32(float(inv)))
        if branch(T.le(inv, Z)):
            raise EvalError("empty quantisation range")

        def q(v):
            w = T.fdiv(v, inv)
            w = T.fmax(Fraction(qmin), T.fmin(Fraction(qmax), w))
            r = T.floor_f(T.add(w, H)) if up else T.round_even_f(w)
            return T.mul(r, inv)
        out[ix] = X.u1(q)(part)
    return Ten(out, x.dt)
