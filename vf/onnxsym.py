"""Opset-aware symbolic evaluator for ONNX graphs (default domain + the few com.microsoft ops tf2onnx emits)."""
import math
from fractions import Fraction

import numpy as np
import z3
from onnx import TensorProto, defs as onnx_defs, helper, numpy_helper

from . import terms as T
from . import tens as X
from .eng import branch, concretize
from .tens import Ten, arr, obj
from .terms import EvalError, Unsupported

OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def np_dtype(onnx_t):
    if onnx_t == TensorProto.BFLOAT16:
        return X._BF16
    if onnx_t == TensorProto.STRING:
        return np.dtype(object)
    return np.dtype(helper.tensor_dtype_to_np_dtype(onnx_t))


def tensor_from_proto(tp):
    if tp.data_type == TensorProto.STRING:
        vals = [s.decode("utf8", "replace") for s in tp.string_data]
        a = obj(tuple(tp.dims))
        f = a.reshape(-1)
        for i, v in enumerate(vals):
            f[i] = v
        return Ten(f.reshape(tuple(tp.dims)), object)
    return X.from_np(numpy_helper.to_array(tp))


def attrs_of(node):
    return {a.name: helper.get_attribute_value(a) for a in node.attribute}


class Env:
    def __init__(self, parent=None):
        self.v = {}
        self.parent = parent

    def get(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.parent
        raise EvalError("undefined value %r" % n)


class C:
    """evaluation context handed to op functions"""

    def __init__(self, ev, node, env):
        self.ev, self.node, self.env = ev, node, env
        self.opset = ev.opset
        self.nout = len(node.output)


_SCHEMA = {}
_DT2S = {np.dtype(k): "tensor(%s)" % v for k, v in [("f4", "float"), ("f8", "double"), ("f2", "float16"), ("i1", "int8"), ("i2", "int16"),
         ("i4", "int32"), ("i8", "int64"), ("u1", "uint8"), ("u2", "uint16"), ("u4", "uint32"), ("u8", "uint64"), ("?", "bool"), ("O", "string")]}


def schema_of(op_type, opset):
    k = (op_type, opset)
    if k not in _SCHEMA:
        r = None
        if onnx_defs.has(op_type):
            try:
                s = onnx_defs.get_schema(op_type, opset, "")
                cons = {c.type_param_str: set(c.allowed_type_strs) for c in s.type_constraints}
                opt = onnx_defs.OpSchema.FormalParameterOption
                r = (s.deprecated, s.min_input, s.max_input, s.min_output, s.max_output,
                     {n: int(a.type) for n, a in s.attributes.items()}, {n for n, a in s.attributes.items() if a.required},
                     [(i.type_str, i.option == opt.Variadic, i.is_homogeneous, i.option == opt.Optional) for i in s.inputs], cons)
            except onnx_defs.SchemaError:
                r = "absent"
        else:
            r = "absent"
        _SCHEMA[k] = r
    return _SCHEMA[k]


def schema_problem(node, opset, dts=None):
    """why the operator schema of this opset does not allow this node (dts: element types of the inputs, None where unknown)"""
    s = schema_of(node.op_type, opset)
    if s == "absent":
        return "%s does not exist at opset %d" % (node.op_type, opset)
    dep, mi, xi, mo, xo, attrs, req, formal, cons = s
    if dep:
        return "%s is deprecated at opset %d" % (node.op_type, opset)
    ni, no = len(node.input), len(node.output)
    if not mi <= ni <= xi or not mo <= no <= xo:
        return "%s has %d inputs and %d outputs" % (node.op_type, ni, no)
    for a in node.attribute:
        if a.name not in attrs:
            return "%s has no attribute %s at opset %d" % (node.op_type, a.name, opset)
        if attrs[a.name] != a.type:
            return "%s: attribute %s has type %d, not %d" % (node.op_type, a.name, a.type, attrs[a.name])
    for n in req:
        if all(a.name != n for a in node.attribute):
            return "%s: attribute %s is missing" % (node.op_type, n)
    bound = {}
    for k in range(ni):
        ts, var, homo, opt = formal[min(k, len(formal) - 1)]
        if not node.input[k]:
            if not opt and not var:
                return "%s: input %d is missing" % (node.op_type, k)
            continue
        d = dts[k] if dts and k < len(dts) else None
        t = _DT2S.get(d) if d is not None else None
        if t is None:
            continue
        ok = cons.get(ts, {ts})
        if t not in ok:
            return "%s: input %d is %s at opset %d" % (node.op_type, k, t, opset)
        if homo and ts in cons and bound.setdefault(ts, t) != t:
            return "%s: input %d is %s, others are %s" % (node.op_type, k, t, bound[ts])
    return None


class Evaluator:
    def __init__(self, model, consts=None):
        self.model = model
        self.opset = 1
        self.domains = {}
        for o in model.opset_import:
            self.domains[o.domain] = o.version
            if o.domain in ("", "ai.onnx"):
                self.opset = o.version
        self.ops_used = set()
        self.consts = consts or {}

    def const(self, t):
        v = self.consts.get(t.doc_string or t.name)
        return v if v is not None else tensor_from_proto(t)

    def run(self, feeds, outputs=None):
        X.RCOUNT[0] = 0
        g = self.model.graph
        env = Env()
        for t in g.initializer:
            env.v[t.name] = self.const(t)
        if g.sparse_initializer:
            raise Unsupported("sparse initializer")
        for n, v in feeds.items():
            env.v[n] = v
        self.exec(g, env)
        return [env.get(o.name) for o in g.output] if outputs is None else [env.get(o) for o in outputs]

    def exec(self, g, env):
        # the graph must be in topological order: undefined names are errors
        for node in g.node:
            self.node(node, env)

    def subgraph(self, g, env, feeds):
        e = Env(env)
        for t in g.initializer:
            e.v[t.name] = self.const(t)
        for i, v in zip(g.input, feeds):
            e.v[i.name] = v
        self.exec(g, e)
        return [e.get(o.name) for o in g.output]

    def node(self, node, env):
        key = node.op_type if node.domain in ("", "ai.onnx") else node.domain + "::" + node.op_type
        f = OPS.get(key)
        if f is None:
            raise Unsupported("onnx op " + key)
        self.ops_used.add(key)
        ins = [env.get(n) if n else None for n in node.input]
        if node.domain in ("", "ai.onnx"):
            p = schema_problem(node, self.opset, [t.dt if isinstance(t, Ten) else None for t in ins])
            if p:
                raise EvalError(p)
        while ins and ins[-1] is None:
            ins.pop()
        try:
            outs = f(C(self, node, env), ins, attrs_of(node))
        except (EvalError, Unsupported):
            raise
        except (ValueError, IndexError, KeyError, TypeError, AttributeError, ZeroDivisionError) as e:
            raise EvalError("%s: %s: %s" % (key, type(e).__name__, e))
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        if len(node.output) > len(outs):
            raise EvalError("%s: %d outputs requested, %d produced" % (key, len(node.output), len(outs)))
        for n, v in zip(node.output, outs):
            if n:
                if n in env.v:
                    raise EvalError("value %s assigned twice" % n)
                env.v[n] = v


# ================================================================= elementwise
def un(name, fn, kinds="f"):
    g = X.u1(fn)

    @op(name)
    def f(c, ins, at):
        t = ins[0]
        if t.k not in kinds:
            raise EvalError("%s on %s" % (name, t.dt))
        return Ten(X.wrap_arr(g(t.a), t.dt), t.dt)


un("Abs", T.fabs, "fi")
un("Neg", T.neg, "fi")
un("Ceil", T.ceil_f)
un("Floor", T.floor_f)
un("Round", T.round_even_f)
for _n, _u in [("Exp", "exp"), ("Log", "log"), ("Sin", "sin"), ("Cos", "cos"), ("Tan", "tan"), ("Asin", "asin"),
               ("Acos", "acos"), ("Atan", "atan"), ("Sinh", "sinh"), ("Cosh", "cosh"), ("Tanh", "tanh"),
               ("Asinh", "asinh"), ("Acosh", "acosh"), ("Atanh", "atanh"), ("Erf", "erf")]:
    un(_n, (lambda u: lambda x: T.uf(u, x) if not (not T.is_sym(x) and T.is_special(x)) else T.F(T.CONCRETE[u](x)))(_u))
un("Sqrt", lambda x: T.uf("sqrt", x))
un("Reciprocal", lambda x: T.fdiv(Fraction(1), x))
un("Sigmoid", T.sigmoid)
un("Relu", lambda x: T.fmax(x, Fraction(0) if isinstance(x, (Fraction, float)) or (T.is_sym(x) and x.is_real()) else 0), "fi")
un("Sign", T.sign, "fi")
un("Softplus", lambda x: T.uf("log", T.add(T.uf("exp", x), Fraction(1))))
un("Softsign", lambda x: T.fdiv(x, T.add(Fraction(1), T.fabs(x))))
un("Mish", lambda x: T.mul(x, T.uf("tanh", T.uf("log", T.add(T.uf("exp", x), Fraction(1))))))
un("HardSwish", lambda x: T.mul(x, T.fmax(Fraction(0), T.fmin(Fraction(1), T.add(T.mul(x, Fraction(1, 6)), Fraction(1, 2))))))


def _f(v):
    return T.F(np.float32(v))


def una(name, mk):
    @op(name)
    def f(c, ins, at):
        return Ten(X.u1(mk(at))(ins[0].a), ins[0].dt)


una("LeakyRelu", lambda at: lambda x: T.ite(T.lt(x, 0), T.mul(x, _f(at.get("alpha", 0.01))), x))
una("Elu", lambda at: lambda x: T.ite(T.lt(x, 0), T.mul(_f(at.get("alpha", 1.0)), T.sub(T.uf("exp", x), Fraction(1))), x))
una("Selu", lambda at: lambda x: T.ite(
    T.gt(x, 0), T.mul(_f(at.get("gamma", 1.0507009873554805)), x),
    T.mul(_f(at.get("gamma", 1.0507009873554805)),
          T.sub(T.mul(_f(at.get("alpha", 1.6732632423543772)), T.uf("exp", x)), _f(at.get("alpha", 1.6732632423543772))))))
una("Celu", lambda at: lambda x: T.add(T.fmax(x, Fraction(0)), T.fmin(Fraction(0), T.mul(
    _f(at.get("alpha", 1.0)), T.sub(T.uf("exp", T.fdiv(x, _f(at.get("alpha", 1.0)))), Fraction(1))))))
una("ThresholdedRelu", lambda at: lambda x: T.ite(T.gt(x, _f(at.get("alpha", 1.0))), x, Fraction(0)))
una("HardSigmoid", lambda at: lambda x: T.fmax(Fraction(0), T.fmin(Fraction(1), T.add(
    T.mul(x, _f(at.get("alpha", 0.2))), _f(at.get("beta", 0.5))))))


@op("Not")
def _not(c, ins, at):
    if ins[0].k != "b":
        raise EvalError("Not on " + str(ins[0].dt))
    return Ten(X.vnot(ins[0].a), bool)


@op("Identity")
def _identity(c, ins, at):
    return ins[0]


@op("Dropout")
def _dropout(c, ins, at):
    if c.opset >= 12 and len(ins) > 2 and ins[2] is not None and branch(ins[2].a.reshape(-1)[0]):
        raise Unsupported("Dropout in training mode")
    t = ins[0]
    return [t, Ten(X.fill(t.shape, True), bool)]


@op("IsNaN")
def _isnan(c, ins, at):
    return Ten(X.u1(lambda x: (not T.is_sym(x)) and T.is_special(x) and math.isnan(x))(ins[0].a), bool)


@op("IsInf")
def _isinf(c, ins, at):
    p, n = at.get("detect_positive", 1), at.get("detect_negative", 1)
    return Ten(X.u1(lambda x: (not T.is_sym(x)) and T.is_special(x) and ((x == T.INF and bool(p)) or (x == -T.INF and bool(n))))(ins[0].a), bool)


@op("Cast")
def _cast(c, ins, at):
    return X.cast(ins[0], np_dtype(at["to"]))


@op("CastLike")
def _castlike(c, ins, at):
    return X.cast(ins[0], ins[1].dt)


def same_dt(ins, name):
    d = {i.dt for i in ins if i is not None}
    if len(d) > 1:
        raise EvalError("%s on mixed dtypes %s" % (name, sorted(map(str, d))))


def check_bcast_old(c, ins, at):
    """opset < 7 limited broadcasting"""
    if c.opset >= 7 or len(ins) < 2:
        return ins
    a, b = ins
    if not at.get("broadcast", 0):
        if a.shape != b.shape:
            raise EvalError("opset<7 without broadcast")
        return ins
    ax = at.get("axis", a.rank - b.rank)
    sh = (1,) * ax + b.shape + (1,) * (a.rank - ax - b.rank)
    return [a, Ten(b.a.reshape(sh), b.dt)]


def bi(name, fn, kinds="fi", out=None):
    g = X.u2(fn)

    @op(name)
    def f(c, ins, at):
        ins = check_bcast_old(c, ins, at)
        a, b = ins
        same_dt(ins, name)
        if a.k not in kinds:
            raise EvalError("%s on %s" % (name, a.dt))
        X.bcast_check(a.shape, b.shape)
        r = g(a.a, b.a)
        if out is not None:
            return Ten(r, out)
        return Ten(X.wrap_arr(r, a.dt), a.dt)


bi("Add", T.add)
bi("Sub", T.sub)
bi("Mul", T.mul)
bi("Less", T.lt, out=bool)
bi("Greater", T.gt, out=bool)
bi("LessOrEqual", T.le, out=bool)
bi("GreaterOrEqual", T.ge, out=bool)
bi("Equal", T.eq, "fibs", out=bool)
bi("And", T.band, "b", out=bool)
bi("Or", T.bor, "b", out=bool)
bi("Xor", T.bxor, "b", out=bool)


@op("Div")
def _div(c, ins, at):
    a, b = check_bcast_old(c, ins, at)
    same_dt(ins, "Div")
    X.bcast_check(a.shape, b.shape)
    if a.k == "f":
        return Ten(X.vfdiv(a.a, b.a), a.dt)
    return Ten(X.wrap_arr(X.u2(T.itruncdiv)(a.a, b.a), a.dt), a.dt)


@op("Mod")
def _mod(c, ins, at):
    a, b = ins
    same_dt(ins, "Mod")
    X.bcast_check(a.shape, b.shape)
    if at.get("fmod", 0):
        if a.k == "f":
            def fm(x, y):
                if not T.is_sym(x) and not T.is_sym(y):
                    return T.F(math.fmod(float(x), float(y)))
                q = T.i2f(T.trunc_i(T.fdiv(x, y)))
                return T.sub(x, T.mul(q, y))
            return Ten(X.u2(fm)(a.a, b.a), a.dt)
        return Ten(X.u2(T.itruncmod)(a.a, b.a), a.dt)
    if a.k == "f":
        raise EvalError("Mod fmod=0 on float")
    return Ten(X.u2(T.ifloormod)(a.a, b.a), a.dt)


@op("Pow")
def _pow(c, ins, at):
    a, b = ins
    X.bcast_check(a.shape, b.shape)

    def pw(x, y):
        if a.k == "i" and b.k == "i":
            if not T.is_sym(x) and not T.is_sym(y):
                return int(np.power(np.array(x, dtype=a.dt), np.array(y, dtype=np.int64))) if y >= 0 else int(float(x) ** y)
            if not T.is_sym(y) and 0 <= y <= 6:
                return T.fpow(x, y)
            raise Unsupported("symbolic integer pow")
        xf = x if a.k == "f" else T.i2f(x)
        yf = y if b.k == "f" else (T.i2f(y))
        r = T.fpow(xf, yf)
        return r if a.k == "f" else T.trunc_i(r)
    return Ten(X.u2(pw)(a.a, b.a), a.dt)


def _variadic(name, fn):
    @op(name)
    def f(c, ins, at):
        same_dt(ins, name)
        X.bcast_check(*[i.shape for i in ins])
        if c.opset < 8 and len({i.shape for i in ins}) > 1:
            raise EvalError("%s: opset<8 does not broadcast" % name)
        r = ins[0].a
        for i in ins[1:]:
            r = arr(fn(r, i.a))
        return Ten(X.wrap_arr(r, ins[0].dt), ins[0].dt)


_variadic("Max", X.vmax)
_variadic("Min", X.vmin)
_variadic("Sum", X.vadd)


@op("Mean")
def _meanop(c, ins, at):
    r = ins[0].a
    for i in ins[1:]:
        r = X.vadd(r, i.a)
    n = Fraction(len(ins))
    return Ten(X.u1(lambda x: T.fdiv(x, n))(r), ins[0].dt)


@op("Where")
def _where(c, ins, at):
    cc, a, b = ins
    same_dt([a, b], "Where")
    if cc.k != "b":
        raise EvalError("Where condition dtype")
    X.bcast_check(cc.shape, a.shape, b.shape)
    return Ten(X.vite(cc.a, a.a, b.a), a.dt)


@op("Clip")
def _clip(c, ins, at):
    x = ins[0]
    if c.opset < 11:
        lo = _f(at["min"]) if "min" in at else None
        hi = _f(at["max"]) if "max" in at else None
    else:
        lo = ins[1].a.reshape(-1)[0] if len(ins) > 1 and ins[1] is not None else None
        hi = ins[2].a.reshape(-1)[0] if len(ins) > 2 and ins[2] is not None else None
        same_dt([i for i in ins if i is not None], "Clip")
    r = x.a
    if lo is not None:
        r = X.vmax(r, X.scal(lo))
    if hi is not None:
        r = X.vmin(r, X.scal(hi))
    return Ten(arr(r).reshape(x.shape), x.dt)


@op("PRelu")
def _prelu(c, ins, at):
    x, s = ins
    if c.opset >= 7:
        if X.bcast_check(x.shape, s.shape) != x.shape:
            raise EvalError("PRelu slope not unidirectionally broadcastable")
        sa = s.a
    else:
        sa = s.a.reshape((1, -1) + (1,) * (x.rank - 2)) if s.a.size > 1 else s.a.reshape(-1)[0:1]
    return Ten(X.u2(lambda a, b: T.ite(T.lt(a, 0), T.mul(a, b), a))(x.a, sa), x.dt)


@op("BitShift")
def _bitshift(c, ins, at):
    a, b = ins
    d = at["direction"].decode()
    w = a.dt.itemsize * 8

    def sh(x, y):
        y = concretize(y)
        if y >= w:
            return 0
        return X.wrap(T.mul(x, 1 << y), a.dt) if d == "LEFT" else T.ifloordiv(x, 1 << y)
    return Ten(X.u2(sh)(a.a, b.a), a.dt)


def bv_binop(fn):
    def mk(dt):
        w = np.dtype(dt).itemsize * 8
        signed = np.dtype(dt).kind == "i"

        def f(x, y):
            if not T.is_sym(x) and not T.is_sym(y):
                return X.wrap({"and": x & y, "or": x | y, "xor": x ^ y}[fn], dt)
            bx, by = z3.Int2BV(T.z(x), w), z3.Int2BV(T.z(y), w)
            r = {"and": bx & by, "or": bx | by, "xor": bx ^ by}[fn]
            return z3.BV2Int(r, is_signed=signed)
        return f
    return mk


for _nm, _k in (("BitwiseAnd", "and"), ("BitwiseOr", "or"), ("BitwiseXor", "xor")):
    def _mkbw(k, nm):
        @op(nm)
        def f(c, ins, at):
            same_dt(ins, nm)
            return Ten(X.u2(bv_binop(k)(ins[0].dt))(ins[0].a, ins[1].a), ins[0].dt)
    _mkbw(_k, _nm)


@op("BitwiseNot")
def _bwnot(c, ins, at):
    dt = ins[0].dt
    if dt.kind == "u":
        m = int(np.iinfo(dt).max)
        return Ten(X.u1(lambda x: T.sub(m, x))(ins[0].a), dt)
    return Ten(X.u1(lambda x: T.sub(-1, x))(ins[0].a), dt)


# ================================================================= shape / data movement
def i64(vals):
    return X.from_np(np.array(vals, dtype=np.int64))


@op("Constant")
def _constant(c, ins, at):
    if "value" in at:
        return tensor_from_proto(at["value"])
    for k, dt in (("value_float", np.float32), ("value_floats", np.float32), ("value_int", np.int64), ("value_ints", np.int64)):
        if k in at:
            return X.from_np(np.array(at[k], dtype=dt))
    raise Unsupported("Constant form")


@op("ConstantOfShape")
def _cos(c, ins, at):
    sh = X.ints(ins[0])
    if any(s < 0 for s in sh):
        raise EvalError("negative dim")
    if int(np.prod(sh, dtype=int)) > 100000:
        raise Unsupported("huge ConstantOfShape")
    if "value" in at:
        v = tensor_from_proto(at["value"])
        if v.a.size != 1:
            raise EvalError("ConstantOfShape value size")
        return Ten(X.fill(sh, v.a.reshape(-1)[0]), v.dt)
    return Ten(X.fill(sh, Fraction(0)), np.float32)


@op("Shape")
def _shape(c, ins, at):
    s = list(ins[0].shape)
    r = len(s)
    st, en = at.get("start", 0), at.get("end", r)
    if st < 0:
        st += r
    if en < 0:
        en += r
    return i64(s[max(st, 0):min(en, r)])


@op("Size")
def _size(c, ins, at):
    return i64(ins[0].a.size)


@op("Reshape")
def _reshape(c, ins, at):
    x = ins[0]
    sh = list(at["shape"]) if c.opset < 5 else X.ints(ins[1])
    if c.opset >= 5 and ins[1].dt != np.int64:
        raise EvalError("Reshape shape must be int64")
    if not at.get("allowzero", 0):
        sh = [x.shape[i] if s == 0 and i < x.rank else s for i, s in enumerate(sh)]
    return Ten(X.reshape(x.a, sh), x.dt)


@op("Flatten")
def _flatten(c, ins, at):
    x = ins[0]
    ax = at.get("axis", 1)
    if ax < 0:
        ax += x.rank
    n = int(np.prod(x.shape[:ax], dtype=int))
    m = int(np.prod(x.shape[ax:], dtype=int))
    return Ten(x.a.reshape((n, m)), x.dt)


@op("Transpose")
def _transpose(c, ins, at):
    x = ins[0]
    perm = at.get("perm")
    perm = list(perm) if perm is not None else list(range(x.rank))[::-1]
    if sorted(perm) != list(range(x.rank)):
        raise EvalError("bad perm %s for rank %d" % (perm, x.rank))
    return Ten(np.transpose(x.a, perm), x.dt)


def axes_arg(c, ins, at, since, pos=1):
    if c.opset >= since:
        if "axes" in at:
            raise EvalError("axes attribute at opset >= %d" % since)
        return X.ints(ins[pos]) if len(ins) > pos and ins[pos] is not None else None
    if len(ins) > pos:
        raise EvalError("axes input at opset < %d" % since)
    return list(at["axes"]) if "axes" in at else None


@op("Squeeze")
def _squeeze(c, ins, at):
    x = ins[0]
    ax = axes_arg(c, ins, at, 13)
    if ax is None:
        ax = [i for i, s in enumerate(x.shape) if s == 1]
    if c.opset < 11 and any(a < 0 for a in ax):
        raise EvalError("negative axes before opset 11")
    ax = [X.nrm_axis(a, x.rank) for a in ax]
    if any(x.shape[a] != 1 for a in ax):
        raise EvalError("squeeze of non-1 dim")
    return Ten(x.a.reshape([s for i, s in enumerate(x.shape) if i not in ax]), x.dt)


@op("Unsqueeze")
def _unsqueeze(c, ins, at):
    x = ins[0]
    ax = axes_arg(c, ins, at, 13)
    if c.opset < 11 and any(a < 0 for a in ax):
        raise EvalError("negative axes before opset 11")
    r = x.rank + len(ax)
    ax = [X.nrm_axis(a, r) for a in ax]
    if len(set(ax)) != len(ax):
        raise EvalError("duplicate axes")
    it = iter(x.shape)
    return Ten(x.a.reshape([1 if i in ax else next(it) for i in range(r)]), x.dt)


@op("Concat")
def _concat(c, ins, at):
    same_dt(ins, "Concat")
    ax = at.get("axis", 1) if c.opset < 4 else at["axis"]
    r = ins[0].rank
    ax = X.nrm_axis(ax, r)
    for i in ins:
        if i.rank != r or any(i.shape[d] != ins[0].shape[d] for d in range(r) if d != ax):
            raise EvalError("concat shapes %s" % [i.shape for i in ins])
    return Ten(np.concatenate([i.a for i in ins], axis=ax), ins[0].dt)


@op("Split")
def _split(c, ins, at):
    x = ins[0]
    ax = at.get("axis", 0)
    ax = X.nrm_axis(ax, x.rank)
    n = x.shape[ax]
    k = c.nout
    if c.opset >= 13:
        sp = X.ints(ins[1]) if len(ins) > 1 else None
        if "split" in at:
            raise EvalError("split attr at opset 13")
    else:
        sp = list(at["split"]) if "split" in at else None
    if c.opset >= 18:
        if sp is None and "num_outputs" not in at:
            raise EvalError("Split-18 needs split or num_outputs")
        if sp is not None and "num_outputs" in at:
            raise EvalError("Split-18 has both split and num_outputs")
    elif "num_outputs" in at:
        raise EvalError("num_outputs before opset 18")
    if sp is None:
        if c.opset >= 18:
            k = at["num_outputs"]
            ch = -(-n // k)
            sp = [ch] * (k - 1) + [n - ch * (k - 1)]
        else:
            if n % k:
                raise EvalError("uneven split")
            sp = [n // k] * k
    if sum(sp) != n or any(s < 0 for s in sp):
        raise EvalError("split sizes")
    outs, p = [], 0
    for s in sp:
        outs.append(Ten(x.a[(slice(None),) * ax + (slice(p, p + s),)], x.dt))
        p += s
    return outs


@op("Slice")
def _slice(c, ins, at):
    x = ins[0]
    if c.opset < 10:
        st, en = list(at["starts"]), list(at["ends"])
        ax = list(at.get("axes", range(len(st))))
        sp = [1] * len(st)
    else:
        st, en = X.ints(ins[1]), X.ints(ins[2])
        ax = X.ints(ins[3]) if len(ins) > 3 and ins[3] is not None else list(range(len(st)))
        sp = X.ints(ins[4]) if len(ins) > 4 and ins[4] is not None else [1] * len(st)
        same_dt(ins[1:], "Slice")
        if ins[1].dt not in (np.dtype(np.int32), np.dtype(np.int64)):
            raise EvalError("Slice index dtype %s" % ins[1].dt)
    if len({len(st), len(en), len(ax), len(sp)}) != 1:
        raise EvalError("slice arg lengths")
    if c.opset < 10 and any(a < 0 for a in ax):
        raise EvalError("negative axes")
    na = [X.nrm_axis(a, x.rank) for a in ax]
    if len(set(na)) != len(na):
        raise EvalError("repeated slice axes")
    return Ten(X.slice_np(x.a, st, en, na, sp), x.dt)


@op("Gather")
def _gather(c, ins, at):
    x, i = ins
    if i.dt not in (np.dtype(np.int32), np.dtype(np.int64)):
        raise EvalError("Gather index dtype")
    return Ten(X.gather(x.a, i.a, at.get("axis", 0), c.opset >= 11), x.dt)


@op("GatherElements")
def _gather_elements(c, ins, at):
    x, i = ins
    ax = X.nrm_axis(at.get("axis", 0), x.rank)
    out = obj(i.shape)
    for p in np.ndindex(*i.shape):
        col = [x.a[p[:ax] + (j,) + p[ax + 1:]] for j in range(x.shape[ax])]
        out[p] = X.select(col, X.norm_idx(i.a[p], x.shape[ax], True))
    return Ten(out, x.dt)


@op("GatherND")
def _gathernd(c, ins, at):
    x, i = ins
    if i.dt != np.int64:
        raise EvalError("GatherND index dtype")
    if i.rank < 1 or x.rank < 1:
        raise EvalError("GatherND rank")
    return Ten(X.gather_nd(x.a, i.a, at.get("batch_dims", 0), True), x.dt)


_COMB = {"none": lambda o, u: u, "add": T.add, "mul": T.mul, "max": T.fmax, "min": T.fmin}


@op("ScatterND")
def _scatternd(c, ins, at):
    x, i, u = ins
    same_dt([x, u], "ScatterND")
    if i.dt != np.int64:
        raise EvalError("ScatterND index dtype")
    red = at.get("reduction", b"none").decode()
    if red != "none" and c.opset < 16:  # onnxruntime knows max and min from 16 on (P10 judges the schema)
        raise EvalError("ScatterND reduction at opset %d" % c.opset)
    return Ten(X.scatter_nd(x.a, i.a, u.a, _COMB[red], True), x.dt)


@op("ScatterElements", "Scatter")
def _scatterel(c, ins, at):
    x, i, u = ins
    same_dt([x, u], "ScatterElements")
    ax = X.nrm_axis(at.get("axis", 0), x.rank)
    comb = _COMB[at.get("reduction", b"none").decode()]
    if i.shape != u.shape:
        raise EvalError("ScatterElements shapes")
    out = x.a.copy()
    n = x.shape[ax]
    for p in np.ndindex(*i.shape):
        ix = X.norm_idx(i.a[p], n, True)
        if not T.is_sym(ix):
            q = p[:ax] + (ix,) + p[ax + 1:]
            out[q] = comb(out[q], u.a[p])
        else:
            for j in range(n):
                q = p[:ax] + (j,) + p[ax + 1:]
                out[q] = T.ite(T.eq(ix, j), comb(out[q], u.a[p]), out[q])
    return Ten(out, x.dt)


@op("Tile")
def _tile(c, ins, at):
    x = ins[0]
    if c.opset < 6:
        raise Unsupported("Tile-1")
    reps = X.ints(ins[1])
    if len(reps) != x.rank:
        raise EvalError("tile repeats length")
    a = x.a
    for ax, r in enumerate(reps):
        if r < 0:
            raise EvalError("negative repeat")
        a = np.concatenate([a] * r, axis=ax) if r else a[(slice(None),) * ax + (slice(0, 0),)]
    return Ten(a, x.dt)


@op("Expand")
def _expand(c, ins, at):
    x = ins[0]
    sh = X.ints(ins[1])
    if any(s < 0 for s in sh):
        raise EvalError("expand dim")
    s = X.bcast_check(x.shape, tuple(sh))
    return Ten(np.broadcast_to(x.a, s), x.dt)


@op("Pad")
def _pad(c, ins, at):
    x = ins[0]
    mode = at.get("mode", b"constant").decode()
    r = x.rank
    if c.opset < 11:
        pads = list(at["pads"] if "pads" in at else at["paddings"])
        v = _f(at.get("value", 0.0))
        if x.k != "f":
            raise EvalError("Pad before opset 11 is float only")
    else:
        pads = X.ints(ins[1])
        v = ins[2].a.reshape(-1)[0] if len(ins) > 2 and ins[2] is not None else X.zero(x.dt)
        if ins[1].dt != np.int64:
            raise EvalError("Pad pads dtype")
    axes = None
    if len(ins) > 3 and ins[3] is not None:
        if c.opset < 18:
            raise EvalError("Pad axes before 18")
        axes = [X.nrm_axis(a, r) for a in X.ints(ins[3])]
    if axes is None:
        if len(pads) != 2 * r:
            raise EvalError("pads length")
        b, e = pads[:r], pads[r:]
    else:
        b, e = [0] * r, [0] * r
        h = len(pads) // 2
        for k, a in enumerate(axes):
            b[a], e[a] = pads[k], pads[h + k]
    if mode == "constant":
        return Ten(X.pad_const(x.a, b, e, v), x.dt)
    return Ten(X.pad_mode(x.a, b, e, mode), x.dt)


@op("Range", "com.microsoft::Range")
def _range(c, ins, at):
    s, l, d = [i.a.reshape(-1)[0] for i in ins]
    same_dt(ins, "Range")
    if ins[0].k == "i":
        s, l, d = concretize(s), concretize(l), concretize(d)
    elif any(T.is_sym(v) for v in (s, l, d)):
        raise Unsupported("symbolic float Range")
    if d == 0:
        raise EvalError("Range delta 0")
    n = max(math.ceil((l - s) / d) if ins[0].k == "f" else -((-(l - s)) // d), 0)
    out = obj((n,))
    for i in range(n):
        out[i] = s + i * d
    return Ten(out, ins[0].dt)


@op("OneHot")
def _onehot(c, ins, at):
    idx, depth, vals = ins
    d = concretize(depth.a.reshape(-1)[0] if depth.k == "i" else T.trunc_i(depth.a.reshape(-1)[0]))
    ax = at.get("axis", -1)
    r = idx.rank + 1
    ax = X.nrm_axis(ax, r)
    off, on = vals.a[0], vals.a[1]
    out = obj(idx.shape[:ax] + (d,) + idx.shape[ax:])
    for p in np.ndindex(*out.shape):
        i = idx.a[p[:ax] + p[ax + 1:]]
        if idx.k == "f":
            i = T.trunc_i(i)
        hit = T.bor(T.eq(i, p[ax]), T.eq(i, p[ax] - d))
        out[p] = T.ite(hit, on, off)
    return Ten(out, vals.dt)


@op("NonZero")
def _nonzero(c, ins, at):
    x = ins[0]
    z0 = X.zero(x.dt)
    pos = [p for p in np.ndindex(*x.shape) if branch(x.a[p] if x.k == "b" else T.ne(x.a[p], z0))]
    out = obj((x.rank, len(pos)))
    for j, p in enumerate(pos):
        for k in range(x.rank):
            out[k, j] = int(p[k])
    return Ten(out, np.int64)


@op("Compress")
def _compress(c, ins, at):
    x, cond = ins
    keep = [i for i in range(cond.a.size) if branch(cond.a.reshape(-1)[i])]
    if "axis" in at:
        return Ten(np.take(x.a, np.array(keep, dtype=np.int64), axis=X.nrm_axis(at["axis"], x.rank)), x.dt)
    return Ten(x.a.reshape(-1)[np.array(keep, dtype=np.int64)], x.dt)


@op("EyeLike")
def _eyelike(c, ins, at):
    x = ins[0]
    if x.rank != 2:
        raise EvalError("EyeLike rank")
    dt = np_dtype(at["dtype"]) if "dtype" in at else x.dt
    k = at.get("k", 0)
    out = X.fill(x.shape, X.zero(dt))
    for i in range(x.shape[0]):
        if 0 <= i + k < x.shape[1]:
            out[i, i + k] = X.one(dt)
    return Ten(out, dt)


@op("Trilu")
def _trilu(c, ins, at):
    x = ins[0]
    k = X.int0(ins[1]) if len(ins) > 1 else 0
    out = x.a.copy()
    up = at.get("upper", 1)
    for p in np.ndindex(*x.shape):
        i, j = p[-2], p[-1]
        if (up and j - i < k) or (not up and j - i > k):
            out[p] = X.zero(x.dt)
    return Ten(out, x.dt)


@op("ReverseSequence")
def _revseq(c, ins, at):
    x, sl = ins
    b, t = at.get("batch_axis", 1), at.get("time_axis", 0)
    return Ten(reverse_sequence(x.a, sl.a, b, t), x.dt)


def reverse_sequence(a, lens, b, t):
    out = obj(a.shape)
    n = a.shape[t]
    for p in np.ndindex(*a.shape):
        ln = lens[p[b]]
        if T.is_sym(ln):
            T.CTX.need(z3.And(ln >= 0, ln <= n))
        elif ln > n or ln < 0:
            raise EvalError("sequence length")
        col = [a[p[:t] + (j,) + p[t + 1:]] for j in range(n)]
        k = p[t]
        if not T.is_sym(ln):
            out[p] = col[ln - 1 - k] if k < ln else col[k]
        else:
            r = col[k]
            for L in range(k + 1, n + 1):
                r = T.ite(T.eq(ln, L), col[L - 1 - k], r)
            out[p] = r
    return out


@op("DepthToSpace")
def _d2s(c, ins, at):
    x = ins[0]
    n, ch, h, w = x.shape
    b = at["blocksize"]
    if at.get("mode", b"DCR") == b"DCR":
        y = x.a.reshape(n, b, b, ch // (b * b), h, w).transpose(0, 3, 4, 1, 5, 2)
    else:
        y = x.a.reshape(n, ch // (b * b), b, b, h, w).transpose(0, 1, 4, 2, 5, 3)
    return Ten(y.reshape(n, ch // (b * b), h * b, w * b), x.dt)


@op("SpaceToDepth")
def _s2d(c, ins, at):
    x = ins[0]
    n, ch, h, w = x.shape
    b = at["blocksize"]
    y = x.a.reshape(n, ch, h // b, b, w // b, b).transpose(0, 3, 5, 1, 2, 4)
    return Ten(y.reshape(n, ch * b * b, h // b, w // b), x.dt)


@op("Unique")
def _unique(c, ins, at):
    x = ins[0]
    srt = at.get("sorted", 1)
    if "axis" in at and x.rank != 1:
        raise Unsupported("Unique axis")
    vals = list(x.a.reshape(-1))
    uniq, first, inv = [], [], []
    for i, v in enumerate(vals):
        for j, u in enumerate(uniq):
            if branch(T.eq(u, v)):
                inv.append(j)
                break
        else:
            inv.append(len(uniq))
            uniq.append(v)
            first.append(i)
    if srt:
        import functools

        def cmp(i, j):
            return -1 if branch(T.lt(uniq[i], uniq[j])) else 1
        order = sorted(range(len(uniq)), key=functools.cmp_to_key(cmp))
        pos = {o: k for k, o in enumerate(order)}
        uniq = [uniq[o] for o in order]
        first = [first[o] for o in order]
        inv = [pos[j] for j in inv]
    cnt = [inv.count(j) for j in range(len(uniq))]
    ua = obj((len(uniq),))
    for i, v in enumerate(uniq):
        ua[i] = v
    return [Ten(ua, x.dt), i64(first), i64(inv), i64(cnt)]


# ================================================================= reductions
def _reduce(name, mk, since):
    @op(name)
    def f(c, ins, at):
        x = ins[0]
        ax = axes_arg(c, ins, at, since)
        keep = bool(at.get("keepdims", 1))
        if c.opset < 11 and ax is not None and any(a < 0 for a in ax):
            raise EvalError("negative axes before 11")
        if ax is None or len(ax) == 0:
            if c.opset >= since and at.get("noop_with_empty_axes", 0):
                return x
            ax = list(range(x.rank))
        return Ten(X.reduce(x.a, ax, keep, mk(x.dt)), x.dt)


def _sumsq(dt):
    s = X.red_sum(dt)
    return lambda xs: s([T.mul(x, x) for x in xs])


def _l1(dt):
    s = X.red_sum(dt)
    return lambda xs: s([T.fabs(x) for x in xs])


_reduce("ReduceSum", X.red_sum, 13)
_reduce("ReduceMean", X.red_mean, 18)
_reduce("ReduceProd", X.red_prod, 18)
_reduce("ReduceMax", X.red_max, 18)
_reduce("ReduceMin", X.red_min, 18)
_reduce("ReduceSumSquare", _sumsq, 18)
_reduce("ReduceL1", _l1, 18)
_reduce("ReduceL2", lambda dt: lambda xs: T.uf("sqrt", _sumsq(dt)(xs)), 18)
_reduce("ReduceLogSum", lambda dt: lambda xs: T.uf("log", T.fsum(xs)), 18)
_reduce("ReduceLogSumExp", lambda dt: lambda xs: T.uf("log", T.fsum([T.uf("exp", x) for x in xs])), 18)


def _arg(name, better):
    @op(name)
    def f(c, ins, at):
        x = ins[0]
        if at.get("select_last_index", 0):
            raise Unsupported("select_last_index")
        ax = X.nrm_axis(at.get("axis", 0), x.rank)
        r = X.reduce(x.a, [ax], bool(at.get("keepdims", 1)), lambda xs: X.argext(xs, better))
        return Ten(r, np.int64)


_arg("ArgMax", T.gt)
_arg("ArgMin", T.lt)


@op("CumSum")
def _cumsum(c, ins, at):
    x = ins[0]
    ax = X.int0(ins[1])
    exc, rev = at.get("exclusive", 0), at.get("reverse", 0)
    return Ten(cumulate(x.a, ax, exc, rev, T.add, X.zero(x.dt)), x.dt)


def cumulate(a, ax, exc, rev, f, init):
    def g(xs):
        if rev:
            xs = xs[::-1]
        out, acc = [], init
        for x in xs:
            if exc:
                out.append(acc)
                acc = f(acc, x)
            else:
                acc = f(acc, x)
                out.append(acc)
        return out[::-1] if rev else out
    return X.along(a, ax, g)


@op("TopK")
def _topk(c, ins, at):
    x = ins[0]
    k = at["k"] if c.opset < 10 else X.int0(ins[1])
    if c.opset >= 10 and ins[1].dt != np.int64:
        raise EvalError("TopK k dtype")
    ax = X.nrm_axis(at.get("axis", -1), x.rank)
    lg = bool(at.get("largest", 1))
    if k > x.shape[ax] or k < 0:
        raise EvalError("topk k")
    v = X.along(x.a, ax, lambda xs: X.topk(xs, k, lg)[0])
    i = X.along(x.a, ax, lambda xs: X.topk(xs, k, lg)[1])
    return [Ten(v, x.dt), Ten(i, np.int64)]


def _softmax_like(name, fn):
    @op(name)
    def f(c, ins, at):
        x = ins[0]
        if c.opset < 13:
            ax = at.get("axis", 1)
            if ax < 0:
                ax += x.rank
            n = int(np.prod(x.shape[:ax], dtype=int))
            y = x.a.reshape((n, -1)) if x.a.size else x.a.reshape((n, 0))
            return Ten(X.along(y, -1, fn).reshape(x.shape), x.dt)
        return Ten(X.along(x.a, at.get("axis", -1), fn), x.dt)


def log_softmax(xs):
    es = [T.uf("exp", x) for x in xs]
    ls = T.uf("log", T.fsum(es))
    return [T.sub(x, ls) for x in xs]


_softmax_like("Softmax", X.softmax)
_softmax_like("LogSoftmax", log_softmax)


def _hardmax(xs):
    j = X.argext(xs, T.gt)
    return [T.ite(T.eq(j, i), Fraction(1), Fraction(0)) for i in range(len(xs))]


_softmax_like("Hardmax", _hardmax)


# ================================================================= matmul / conv / norm
@op("MatMul")
def _matmul(c, ins, at):
    same_dt(ins, "MatMul")
    return Ten(X.matmul(ins[0].a, ins[1].a, ins[0].dt), ins[0].dt)


@op("MatMulInteger")
def _matmuli(c, ins, at):
    i32 = np.dtype(np.int32)

    def wide(t, z):
        a = X.cast(t, i32).a
        if z is not None:
            if z.shape not in ((), (1,)):
                raise Unsupported("MatMulInteger zero point per row")
            zp = z.a.reshape(-1)[0]
            a = np.frompyfunc(lambda v: T.sub(v, zp), 1, 1)(a) if T.is_sym(zp) or zp != 0 else a
        return a
    for t in ins[:2]:
        if t.dt not in (np.dtype(np.int8), np.dtype(np.uint8)):
            raise EvalError("MatMulInteger of %s" % t.dt)
    z = list(ins[2:]) + [None, None]
    return Ten(X.matmul(wide(ins[0], z[0]), wide(ins[1], z[1]), np.dtype(np.int32)), np.dtype(np.int32))


@op("Gemm")
def _gemm(c, ins, at):
    a, b = ins[0].a, ins[1].a
    if a.ndim != 2 or b.ndim != 2:
        raise EvalError("Gemm rank")
    if at.get("transA", 0):
        a = a.T
    if at.get("transB", 0):
        b = b.T
    r = X.matmul(a, b, ins[0].dt)
    al, be = _f(at.get("alpha", 1.0)), _f(at.get("beta", 1.0))
    if al != 1:
        r = X.vmul(r, X.scal(al))
    if len(ins) > 2 and ins[2] is not None:
        cc = ins[2].a
        if X.bcast_check(r.shape, cc.shape) != r.shape:
            raise EvalError("Gemm C not unidirectional")
        if be != 1:
            cc = X.vmul(cc, X.scal(be))
        r = X.vadd(r, cc)
    return Ten(r, ins[0].dt)


@op("Einsum")
def _einsum(c, ins, at):
    return Ten(X.einsum(at["equation"].decode(), [i.a for i in ins], ins[0].dt), ins[0].dt)


def conv_geom(x_sp, k, at, pool=False):
    n = len(k)
    st = list(at.get("strides", [1] * n))
    dl = list(at.get("dilations", [1] * n))
    ap = at.get("auto_pad", b"NOTSET").decode()
    pads = list(at.get("pads", [0] * (2 * n)))
    if ap == "NOTSET":
        b, e = pads[:n], pads[n:]
    elif ap == "VALID":
        b, e = [0] * n, [0] * n
    else:
        b, e = [], []
        for i in range(n):
            o = -(-x_sp[i] // st[i])
            t = (o - 1) * st[i] + dl[i] * (k[i] - 1) + 1 - x_sp[i]
            if not pool:
                t = max(0, t)
            # onnxruntime does not clamp the padding of pools: int(t / 2) is its truncating division
            lo = int(t / 2) if ap == "SAME_UPPER" else t - int(t / 2)
            b.append(lo)
            e.append(t - lo)
    return st, dl, b, e


@op("Conv")
def _conv(c, ins, at):
    x, w = ins[0], ins[1]
    same_dt([i for i in ins if i is not None], "Conv")
    k = w.shape[2:]
    if "kernel_shape" in at and list(at["kernel_shape"]) != list(k):
        raise EvalError("kernel_shape %s vs weights %s" % (at["kernel_shape"], w.shape))
    st, dl, b, e = conv_geom(x.shape[2:], k, at)
    r = X.conv_nc(x.a, w.a, st, dl, b, e, at.get("group", 1))
    if len(ins) > 2 and ins[2] is not None:
        if ins[2].shape != (w.shape[0],):
            raise EvalError("conv bias shape")
        r = X.vadd(r, ins[2].a.reshape((1, -1) + (1,) * len(k)))
    return Ten(r, x.dt)


@op("ConvTranspose")
def _convT(c, ins, at):
    x, w = ins[0], ins[1]
    k = w.shape[2:]
    n = len(k)
    if "kernel_shape" in at and list(at["kernel_shape"]) != list(k):
        raise EvalError("kernel_shape")
    st = list(at.get("strides", [1] * n))
    dl = list(at.get("dilations", [1] * n))
    op_ = list(at.get("output_padding", [0] * n))
    ap = at.get("auto_pad", b"NOTSET").decode()
    if "output_shape" in at and len(at["output_shape"]):
        os = list(at["output_shape"])[-n:]
        b, e = [], []
        for i in range(n):
            t = st[i] * (x.shape[2 + i] - 1) + op_[i] + ((k[i] - 1) * dl[i] + 1) - os[i]
            # onnxruntime: a negative total is a zero tail; the odd element is at the tail only for SAME_UPPER
            lo = max(t, 0) // 2
            if ap != "SAME_UPPER":
                lo = max(t, 0) - lo
            b.append(lo)
            e.append(t - lo)
    elif ap in ("SAME_UPPER", "SAME_LOWER"):
        b, e = [], []
        for i in range(n):
            t = st[i] * (x.shape[2 + i] - 1) + op_[i] + ((k[i] - 1) * dl[i] + 1) - x.shape[2 + i] * st[i]
            lo = t // 2 if ap == "SAME_UPPER" else t - t // 2
            b.append(lo)
            e.append(t - lo)
    else:
        pads = list(at.get("pads", [0] * 2 * n))
        b, e = pads[:n], pads[n:]
    r = X.convT_nc(x.a, w.a, st, dl, b, e, op_, at.get("group", 1))
    if len(ins) > 2 and ins[2] is not None:
        r = X.vadd(r, ins[2].a.reshape((1, -1) + (1,) * n))
    return Ten(r, x.dt)


@op("MaxPool")
def _maxpool(c, ins, at):
    x = ins[0]
    k = list(at["kernel_shape"])
    if len(k) != x.rank - 2:
        raise EvalError("MaxPool rank")
    st, dl, b, e = conv_geom(x.shape[2:], k, at, True)
    r, idx = X.pool_nc(x.a, k, st, dl, b, e, "max", bool(at.get("ceil_mode", 0)), want_idx=True)
    if c.nout > 1:
        if at.get("storage_order", 0):
            raise Unsupported("storage_order")
        sp = int(np.prod(x.shape[2:]))
        for p in np.ndindex(*idx.shape):
            idx[p] = T.add(idx[p], int(p[0] * x.shape[1] + p[1]) * sp)
        return [Ten(r, x.dt), Ten(idx, np.int64)]
    return Ten(r, x.dt)


@op("AveragePool")
def _avgpool(c, ins, at):
    x = ins[0]
    k = list(at["kernel_shape"])
    if len(k) != x.rank - 2:
        raise EvalError("AveragePool rank")
    st, dl, b, e = conv_geom(x.shape[2:], k, at, True)
    return Ten(X.pool_nc(x.a, k, st, dl, b, e, "avg", bool(at.get("ceil_mode", 0)),
                         bool(at.get("count_include_pad", 0))), x.dt)


@op("GlobalAveragePool")
def _gap(c, ins, at):
    x = ins[0]
    return Ten(X.reduce(x.a, list(range(2, x.rank)), True, X.red_mean(x.dt)), x.dt)


@op("GlobalMaxPool")
def _gmp(c, ins, at):
    x = ins[0]
    return Ten(X.reduce(x.a, list(range(2, x.rank)), True, X.red_max(x.dt)), x.dt)


@op("BatchNormalization")
def _bn(c, ins, at):
    x, s, bb, m, v = ins[:5]
    if c.opset >= 14 and at.get("training_mode", 0):
        raise Unsupported("BN training")
    eps = _f(at.get("epsilon", 1e-5))
    for t in (s, bb, m, v):
        if t.shape != (x.shape[1],):
            raise EvalError("BN param shape %s" % (t.shape,))
    sh = (1, -1) + (1,) * (x.rank - 2)
    inv = X.u1(lambda q: T.uf("sqrt", T.add(q, eps)))(v.a)
    y = X.vsub(x.a, m.a.reshape(sh))
    y = X.vfdiv(y, inv.reshape(sh))
    y = X.vadd(X.vmul(y, s.a.reshape(sh)), bb.a.reshape(sh))
    return [Ten(y, x.dt)] + [m, v, m, v][: max(0, c.nout - 1)]


@op("InstanceNormalization")
def _in(c, ins, at):
    x, s, b = ins
    eps = _f(at.get("epsilon", 1e-5))
    ax = list(range(2, x.rank))
    mu = X.reduce(x.a, ax, True, X.red_mean(x.dt))
    d = X.vsub(x.a, mu)
    var = X.reduce(X.vmul(d, d), ax, True, X.red_mean(x.dt))
    den = X.u1(lambda q: T.uf("sqrt", T.add(q, eps)))(var)
    sh = (1, -1) + (1,) * (x.rank - 2)
    return Ten(X.vadd(X.vmul(X.vfdiv(d, den), s.a.reshape(sh)), b.a.reshape(sh)), x.dt)


@op("LayerNormalization")
def _ln(c, ins, at):
    x, s = ins[:2]
    b = ins[2] if len(ins) > 2 else None
    eps = _f(at.get("epsilon", 1e-5))
    ax = list(range(X.nrm_axis(at.get("axis", -1), x.rank), x.rank))
    mu = X.reduce(x.a, ax, True, X.red_mean(x.dt))
    d = X.vsub(x.a, mu)
    var = X.reduce(X.vmul(d, d), ax, True, X.red_mean(x.dt))
    den = X.u1(lambda q: T.uf("sqrt", T.add(q, eps)))(var)
    y = X.vmul(X.vfdiv(d, den), s.a)
    if b is not None:
        y = X.vadd(y, b.a)
    return Ten(y, x.dt)


@op("LRN")
def _lrn(c, ins, at):
    x = ins[0]
    size = at["size"]
    al, be, bias = _f(at.get("alpha", 1e-4)), _f(at.get("beta", 0.75)), _f(at.get("bias", 1.0))
    return Ten(lrn(x.a, 1, (size - 1) // 2, size - 1 - (size - 1) // 2, T.fdiv(al, Fraction(size)), be, bias), x.dt)


def lrn(a, ax, lo, hi, al, be, bias):
    def g(xs):
        n = len(xs)
        out = []
        for i in range(n):
            s = T.fsum([T.mul(xs[j], xs[j]) for j in range(max(0, i - lo), min(n, i + hi + 1))])
            out.append(T.fdiv(xs[i], T.fpow(T.add(bias, T.mul(al, s)), be)))
        return out
    return X.along(a, ax, g)


@op("LpNormalization")
def _lpn(c, ins, at):
    x = ins[0]
    p = at.get("p", 2)

    def g(xs):
        d = T.uf("sqrt", T.fsum([T.mul(v, v) for v in xs])) if p == 2 else T.fsum([T.fabs(v) for v in xs])
        return [T.fdiv(v, d) for v in xs]
    return Ten(X.along(x.a, at.get("axis", -1), g), x.dt)


# ================================================================= quantisation
def q_params(t, rank, axis):
    if t.a.size == 1 and t.rank <= 1:
        return t.a.reshape(())
    sh = [1] * rank
    sh[X.nrm_axis(axis, rank)] = t.a.size
    return t.a.reshape(sh)


@op("QuantizeLinear")
def _ql(c, ins, at):
    x, s = ins[:2]
    zp = ins[2] if len(ins) > 2 and ins[2] is not None else Ten(X.fill(s.shape, 0), np.uint8)
    ax = at.get("axis", 1)
    if (s.rank and s.a.size > 1 or s.rank == 1) and c.opset < 13 and s.a.size > 1:
        raise EvalError("per-axis quantisation before 13")
    if s.rank and s.a.size > 1 and x.shape[X.nrm_axis(ax, x.rank)] != s.a.size:
        raise EvalError("per-axis scale size")
    ii = np.iinfo(zp.dt)

    def q(v, sc, z):
        r = T.add(T.round_even_i(T.fdiv(v, sc)), z)
        return T.fmax(int(ii.min), T.fmin(int(ii.max), r))
    return Ten(X.u3(q)(x.a, q_params(s, x.rank, ax), q_params(zp, x.rank, ax)).reshape(x.shape), zp.dt)


@op("DequantizeLinear")
def _dql(c, ins, at):
    x, s = ins[:2]
    zp = ins[2] if len(ins) > 2 and ins[2] is not None else Ten(X.fill(s.shape, 0), x.dt)
    same_dt([x, zp], "DequantizeLinear")
    ax = at.get("axis", 1)
    if s.a.size > 1 and c.opset < 13:
        raise EvalError("per-axis before 13")
    if s.rank and s.a.size > 1 and x.shape[X.nrm_axis(ax, x.rank)] != s.a.size:
        raise EvalError("per-axis scale size")
    f = X.u3(lambda v, sc, z: T.mul(T.i2f(T.sub(v, z)), sc))
    return Ten(f(x.a, q_params(s, x.rank, ax), q_params(zp, x.rank, ax)).reshape(x.shape), s.dt)


@op("DynamicQuantizeLinear")
def _dynql(c, ins, at):
    x = ins[0]
    fl = list(x.a.reshape(-1))
    mn = T.fmin(Fraction(0), X.red_min(x.dt)(fl))
    mx = T.fmax(Fraction(0), X.red_max(x.dt)(fl))
    sc = T.fdiv(T.sub(mx, mn), Fraction(255))
    iz = T.fdiv(T.neg(mn), sc)
    zp = T.round_even_i(T.fmax(Fraction(0), T.fmin(Fraction(255), iz)))

    def q(v):
        r = T.add(T.round_even_i(T.fdiv(v, sc)), zp)
        return T.fmax(0, T.fmin(255, r))
    return [Ten(X.u1(q)(x.a), np.uint8), Ten(X.scal(sc), np.float32), Ten(X.scal(zp), np.uint8)]


# ================================================================= resize
@op("Upsample", "Resize")
def _resize(c, ins, at):
    x = ins[0]
    up = c.node.op_type == "Upsample"
    mode = at.get("mode", b"nearest").decode()
    if up or c.opset < 11:
        sc = [Fraction(float(_f(v))) for v in at["scales"]] if (up and c.opset < 9) else [v if T.is_sym(v) else Fraction(v) for v in ins[1].a.reshape(-1)]
        if any(T.is_sym(v) for v in sc):
            raise Unsupported("symbolic resize scale")
        if len(sc) != x.rank:
            raise EvalError("Resize scales")
        if up and any(v < 1 for v in sc):
            raise EvalError("Upsample with a scale below one")
        out = [int(np.float32(x.shape[i]) * np.float32(sc[i])) for i in range(x.rank)]
        # Resize-10 leaves the rounding of "nearest" open: onnxruntime takes the next pixel when it shrinks
        ctm, nm = "asymmetric", "legacy"
        axes = None
        rsc = sc
    else:
        axes = list(at["axes"]) if "axes" in at else None
        ctm = at.get("coordinate_transformation_mode", b"half_pixel").decode()
        nm = at.get("nearest_mode", b"round_prefer_floor").decode()
        scales = ins[2] if len(ins) > 2 else None
        sizes = ins[3] if len(ins) > 3 else None
        if at.get("keep_aspect_ratio_policy", b"stretch") != b"stretch" or at.get("antialias", 0):
            raise Unsupported("Resize option")
        if ctm == "tf_crop_and_resize":
            roi = list(ins[1].a.reshape(-1))
            if any(T.is_sym(v) for v in roi):
                raise Unsupported("symbolic roi")
            if len(roi) != 2 * x.rank:
                raise EvalError("Resize roi")
        if scales is not None and scales.a.size == 0:
            scales = None
        if sizes is not None and sizes.a.size == 0:
            sizes = None
        if (sizes is None) == (scales is None):
            raise EvalError("Resize wants either scales or sizes")
        if sizes is not None:
            out = X.ints(sizes)
            if axes is not None:
                o = list(x.shape)
                for a, v in zip(axes, out):
                    o[a] = v
                out = o
            if len(out) != x.rank:
                raise EvalError("Resize sizes")
            rsc = [Fraction(o, i) if i else Fraction(1) for o, i in zip(out, x.shape)]
        else:
            sc = list(scales.a.reshape(-1))
            if any(T.is_sym(v) for v in sc):
                raise Unsupported("symbolic resize scale")
            if len(sc) != x.rank:
                raise EvalError("Resize scales")
            out = [int(np.float32(x.shape[i]) * np.float32(sc[i])) for i in range(x.rank)]
            rsc = sc
    a = x.a
    for d in range(x.rank):
        if out[d] == a.shape[d] and rsc[d] == 1 and ctm != "tf_crop_and_resize":
            continue
        rr = (roi[d], roi[x.rank + d]) if ctm == "tf_crop_and_resize" else None
        a = resize1(a, d, out[d], rsc[d], mode, ctm, nm, at, rr)
    return Ten(a, x.dt)


def resize1(a, d, n_out, scale, mode, ctm, nm, at={}, roi=None):
    n_in = a.shape[d]
    m = np.moveaxis(a, d, 0)
    rows = []
    if n_in == 0 and n_out:
        raise EvalError("resize of an empty dimension")
    for o in range(n_out):
        if ctm == "asymmetric":
            src = Fraction(o) / scale
            if mode == "nearest" and nm in ("floor", "legacy") and abs(src - round(src)) < Fraction(1, 10**5):
                src = Fraction(float(np.float32(o) / np.float32(scale)))
        elif ctm == "tf_crop_and_resize":
            if n_out > 1:
                src = roi[0] * (n_in - 1) + o * (roi[1] - roi[0]) * (n_in - 1) / (n_out - 1)
            else:
                src = (roi[0] + roi[1]) * (n_in - 1) / 2
            if src < 0 or src > n_in - 1:
                rows.append(X.fill(m.shape[1:], _f(at.get("extrapolation_value", 0.0))))
                continue
        elif ctm == "half_pixel":
            src = (Fraction(o) + Fraction(1, 2)) / scale - Fraction(1, 2)
        elif ctm == "pytorch_half_pixel":
            src = (Fraction(o) + Fraction(1, 2)) / scale - Fraction(1, 2) if n_out > 1 else Fraction(0)
        elif ctm == "align_corners":
            src = Fraction(o) * Fraction(n_in - 1, n_out - 1) if n_out > 1 else Fraction(0)
        elif ctm == "tf_half_pixel_for_nn":
            src = (Fraction(o) + Fraction(1, 2)) / scale
            if mode == "nearest" and abs(src - round(src)) < Fraction(1, 10**5):
                src = Fraction(float(np.float32(o + 0.5) / np.float32(scale)))
        else:
            raise Unsupported("ctm " + ctm)
        if mode == "nearest":
            if nm == "floor":
                j = math.floor(src)
            elif nm == "legacy":
                j = math.ceil(src) if scale < 1 else math.floor(src)
            elif nm == "ceil":
                j = math.ceil(src)
            elif nm == "round_prefer_floor":
                j = math.ceil(src - Fraction(1, 2))
            else:
                j = math.floor(src + Fraction(1, 2))
            rows.append(m[min(max(j, 0), n_in - 1)])
        elif mode == "linear":
            lo = math.floor(src)
            fr = src - lo
            p, q = min(max(lo, 0), n_in - 1), min(max(lo + 1, 0), n_in - 1)
            rows.append(X.vadd(X.vmul(m[p], X.scal(1 - fr)), X.vmul(m[q], X.scal(fr))))
        elif mode == "cubic":
            f = math.floor(src)
            fr = src - f
            A = _f(at.get("cubic_coeff_a", -0.75))
            k1 = lambda t: ((A + 2) * t - (A + 3)) * t * t + 1  # noqa
            k2 = lambda t: ((A * t - 5 * A) * t + 8 * A) * t - 4 * A  # noqa
            ws = [k2(fr + 1), k1(fr), k1(1 - fr), k2(2 - fr)]
            idx = [f - 1, f, f + 1, f + 2]
            if at.get("exclude_outside", 0):
                ws = [w if 0 <= j < n_in else Fraction(0) for w, j in zip(ws, idx)]
                s = sum(ws)
                ws = [w / s for w in ws]
            acc = None
            for w, j in zip(ws, idx):
                t = X.vmul(m[min(max(j, 0), n_in - 1)], X.scal(w))
                acc = t if acc is None else X.vadd(acc, t)
            rows.append(acc)
        else:
            raise EvalError("resize mode " + mode)
    r = np.stack([arr(t) for t in rows], axis=0) if rows else m[:0]
    return np.moveaxis(r, 0, d)


@op("RoiAlign")
def _roialign(c, ins, at):
    x, rois, bi = ins
    if any(T.is_sym(v) for v in rois.a.reshape(-1)):
        raise Unsupported("symbolic roi")
    if at.get("mode", b"avg") != b"avg" or at.get("sampling_ratio", 0) != 1:
        raise Unsupported("RoiAlign option")
    oh, ow, ss = at.get("output_height", 1), at.get("output_width", 1), _f(at.get("spatial_scale", 1.0))
    half = c.opset >= 16 and at.get("coordinate_transformation_mode", b"half_pixel") == b"half_pixel"
    off = Fraction(1, 2) if half else Fraction(0)
    n, ch, h, w = x.shape
    if rois.a.ndim != 2 or rois.shape[1] != 4:
        raise EvalError("RoiAlign rois")
    out = X.obj((rois.shape[0], ch, oh, ow))
    ids = X.ints(bi)

    def axis(lo, hi, o, n):
        lo, hi = Fraction(lo) * ss - off, Fraction(hi) * ss - off
        ln = hi - lo if half else max(hi - lo, Fraction(1))
        r = []
        for i in range(o):
            p = lo + (i + Fraction(1, 2)) * ln / o
            if p < -1 or p > n:
                r.append(None)
                continue
            p = max(p, Fraction(0))
            f = math.floor(p)
            if f >= n - 1:
                r.append([(n - 1, Fraction(1))])
            else:
                r.append([(f, 1 - (p - f)), (f + 1, p - f)])
        return r
    for k, b in enumerate(ids):
        if b < 0 or b >= n:
            raise EvalError("RoiAlign batch index")
        xs, ys = axis(rois.a[k, 0], rois.a[k, 2], ow, w), axis(rois.a[k, 1], rois.a[k, 3], oh, h)
        for cc in range(ch):
            for i, ty in enumerate(ys):
                for j, tx in enumerate(xs):
                    out[k, cc, i, j] = Fraction(0) if ty is None or tx is None else T.fsum([T.mul(p * q, x.a[b, cc, yy, xx]) for yy, p in ty for xx, q in tx if p * q])
    return Ten(out, x.dt)


# ================================================================= recurrent
def _act(name, alpha=None, beta=None):
    name = name.decode() if isinstance(name, bytes) else name
    n = name.lower()
    if n == "sigmoid":
        return T.sigmoid
    if n == "tanh":
        return lambda x: T.uf("tanh", x)
    if n == "relu":
        return lambda x: T.fmax(x, Fraction(0))
    if n == "softsign":
        return lambda x: T.fdiv(x, T.add(Fraction(1), T.fabs(x)))
    if n == "softplus":
        return lambda x: T.uf("log", T.add(T.uf("exp", x), Fraction(1)))
    if n == "affine":
        return lambda x: T.add(T.mul(x, _f(1.0 if alpha is None else alpha)), _f(0.0 if beta is None else beta))
    if n == "hardsigmoid":
        return lambda x: T.fmax(Fraction(0), T.fmin(Fraction(1), T.add(T.mul(x, _f(0.2 if alpha is None else alpha)), _f(0.5 if beta is None else beta))))
    if n == "elu":
        return lambda x: T.ite(T.lt(x, 0), T.mul(_f(1.0 if alpha is None else alpha), T.sub(T.uf("exp", x), Fraction(1))), x)
    if n == "leakyrelu":
        return lambda x: T.ite(T.lt(x, 0), T.mul(x, _f(0.01 if alpha is None else alpha)), x)
    if n == "thresholdedrelu":
        return lambda x: T.ite(T.gt(x, _f(1.0 if alpha is None else alpha)), x, Fraction(0))
    raise Unsupported("activation " + name)


def _acts(at, defaults):
    names = [a.decode() if isinstance(a, bytes) else a for a in at.get("activations", defaults)]
    al, be = list(at.get("activation_alpha", [])), list(at.get("activation_beta", []))
    out = []
    uses_a = {"affine", "hardsigmoid", "elu", "leakyrelu", "thresholdedrelu"}
    uses_b = {"affine", "hardsigmoid"}
    for n in names:
        a = al.pop(0) if al and n.lower() in uses_a else None
        b = be.pop(0) if be and n.lower() in uses_b else None
        out.append(_act(n, a, b))
    return out


def _rnn_common(c, ins, at, ng, defaults):
    x, w, r = ins[:3]
    get = lambda i: ins[i] if len(ins) > i else None  # noqa
    direction = at.get("direction", b"forward").decode()
    nd = 2 if direction == "bidirectional" else 1
    h = at["hidden_size"]
    lay = at.get("layout", 0)
    if lay:
        raise Unsupported("rnn layout 1")
    s, b, _ = x.shape
    if w.shape != (nd, ng * h, x.shape[2]) or r.shape != (nd, ng * h, h):
        raise EvalError("rnn weight shapes")
    bias = get(3)
    ba = bias.a if bias is not None else X.fill((nd, 2 * ng * h), Fraction(0))
    if ba.shape != (nd, 2 * ng * h):
        raise EvalError("rnn bias shape")
    lens = get(4)
    la = list(lens.a.reshape(-1)) if lens is not None else [s] * b
    if len(la) != b:
        raise EvalError("sequence_lens shape")
    for L in la:
        if T.is_sym(L):
            T.CTX.need(z3.And(L >= 0, L <= s))
    h0 = get(5).a if get(5) is not None else X.fill((nd, b, h), Fraction(0))
    if h0.shape != (nd, b, h):
        raise EvalError("initial_h shape %s" % (h0.shape,))
    acts = _acts(at, defaults * nd)
    clip = _f(at["clip"]) if "clip" in at else None
    return x.a, w.a, r.a, ba, la, h0, direction, nd, h, s, b, acts, clip, get


def _rnn_run(x, la, s, b, direction, nd, step, states0, h):
    """step(d, xt[b,:], states) -> new states; returns Y [s,nd,b,h] and final states per direction"""
    Y = X.fill((s, nd, b, h), Fraction(0))
    finals = []
    for d in range(nd):
        rev = direction == "reverse" or d == 1
        st = [q[d] for q in states0]
        for k in range(s):
            # per-batch time index
            xt = obj((b, x.shape[2]))
            tix = []
            for bb in range(b):
                L = la[bb]
                if not rev:
                    xt[bb] = x[k, bb]
                    tix.append(k)
                else:
                    if T.is_sym(L):
                        col = obj((x.shape[2],))
                        for f in range(x.shape[2]):
                            v = x[k, bb, f]
                            for LL in range(k + 1, s + 1):
                                v = T.ite(T.eq(L, LL), x[LL - 1 - k, bb, f], v)
                            col[f] = v
                        xt[bb] = col
                    else:
                        xt[bb] = x[L - 1 - k, bb] if k < L else x[k, bb]
                    tix.append(None)
            ns = step(d, xt, st)
            for bb in range(b):
                L = la[bb]
                act = T.lt(k, L)
                for q in range(len(st)):
                    for f in range(h):
                        ns[q][bb, f] = T.ite(act, ns[q][bb, f], st[q][bb, f])
                for f in range(h):
                    v = T.ite(act, ns[0][bb, f], Fraction(0))
                    if not rev:
                        Y[k, d, bb, f] = v
                    else:
                        if T.is_sym(L):
                            for LL in range(k + 1, s + 1):
                                pos = LL - 1 - k
                                Y[pos, d, bb, f] = T.ite(T.eq(L, LL), v, Y[pos, d, bb, f])
                        elif k < L:
                            Y[L - 1 - k, d, bb, f] = v
            st = ns
        finals.append(st)
    return Y, finals


def _clipf(v, clip):
    return v if clip is None else T.fmax(T.neg(clip), T.fmin(clip, v))


def _lin(xt, w, hs, r, bsum):
    """xt[b,i] w[g,i] hs[b,h] r[g,h] -> [b,g]"""
    out = obj((xt.shape[0], w.shape[0]))
    for bb in range(xt.shape[0]):
        for g in range(w.shape[0]):
            out[bb, g] = T.fsum(X.dot(xt[bb], w[g]) + X.dot(hs[bb], r[g]) + [bsum[g]])
    return out


@op("LSTM")
def _lstm(c, ins, at):
    x, w, r, B, la, h0, direction, nd, h, s, b, acts, clip, get = _rnn_common(c, ins, at, 4, ["Sigmoid", "Tanh", "Tanh"])
    c0 = get(6).a if get(6) is not None else X.fill((nd, b, h), Fraction(0))
    P = get(7).a if get(7) is not None else X.fill((nd, 3 * h), Fraction(0))
    if at.get("input_forget", 0):
        raise Unsupported("input_forget")

    def step(d, xt, st):
        hs, cs = st
        f_, g_, h_ = acts[3 * d: 3 * d + 3]
        lin = _lin(xt, w[d], hs, r[d], X.vadd(B[d][: 4 * h], B[d][4 * h:]))
        nh, nc = obj((b, h)), obj((b, h))
        for bb in range(b):
            for j in range(h):
                gi = f_(_clipf(T.add(lin[bb, j], T.mul(P[d][j], cs[bb, j])), clip))
                gf = f_(_clipf(T.add(lin[bb, 2 * h + j], T.mul(P[d][2 * h + j], cs[bb, j])), clip))
                gc = g_(_clipf(lin[bb, 3 * h + j], clip))
                ct = T.add(T.mul(gf, cs[bb, j]), T.mul(gi, gc))
                go = f_(_clipf(T.add(lin[bb, h + j], T.mul(P[d][h + j], ct)), clip))
                nc[bb, j] = ct
                nh[bb, j] = T.mul(go, h_(ct))
        return [nh, nc]
    Y, fin = _rnn_run(x, la, s, b, direction, nd, step, [h0, c0], h)
    return [Ten(Y, np.float32), Ten(np.stack([f[0] for f in fin]), np.float32), Ten(np.stack([f[1] for f in fin]), np.float32)]


@op("GRU")
def _gru(c, ins, at):
    x, w, r, B, la, h0, direction, nd, h, s, b, acts, clip, get = _rnn_common(c, ins, at, 3, ["Sigmoid", "Tanh"])
    lbr = at.get("linear_before_reset", 0)

    def step(d, xt, st):
        hs = st[0]
        f_, g_ = acts[2 * d: 2 * d + 2]
        Wb, Rb = B[d][: 3 * h], B[d][3 * h:]
        zr = _lin(xt, w[d][: 2 * h], hs, r[d][: 2 * h], X.vadd(Wb[: 2 * h], Rb[: 2 * h]))
        nh = obj((b, h))
        for bb in range(b):
            zg = [f_(_clipf(zr[bb, j], clip)) for j in range(h)]
            rg = [f_(_clipf(zr[bb, h + j], clip)) for j in range(h)]
            for j in range(h):
                xw = X.dot(xt[bb], w[d][2 * h + j])
                if lbr:
                    rec = T.mul(rg[j], T.fsum(X.dot(hs[bb], r[d][2 * h + j]) + [Rb[2 * h + j]]))
                    pre = T.fsum(xw + [rec, Wb[2 * h + j]])
                else:
                    rh = [T.mul(rg[q], hs[bb, q]) for q in range(h)]
                    pre = T.fsum(xw + X.dot(rh, r[d][2 * h + j]) + [Rb[2 * h + j], Wb[2 * h + j]])
                ht = g_(_clipf(pre, clip))
                nh[bb, j] = T.add(T.mul(T.sub(Fraction(1), zg[j]), ht), T.mul(zg[j], hs[bb, j]))
        return [nh]
    Y, fin = _rnn_run(x, la, s, b, direction, nd, step, [h0], h)
    return [Ten(Y, np.float32), Ten(np.stack([f[0] for f in fin]), np.float32)]


@op("RNN")
def _rnn(c, ins, at):
    x, w, r, B, la, h0, direction, nd, h, s, b, acts, clip, get = _rnn_common(c, ins, at, 1, ["Tanh"])

    def step(d, xt, st):
        lin = _lin(xt, w[d], st[0], r[d], X.vadd(B[d][:h], B[d][h:]))
        return [X.u1(lambda v: acts[d](_clipf(v, clip)))(lin)]
    Y, fin = _rnn_run(x, la, s, b, direction, nd, step, [h0], h)
    return [Ten(Y, np.float32), Ten(np.stack([f[0] for f in fin]), np.float32)]


# ================================================================= control flow
@op("If")
def _if(c, ins, at):
    cond = ins[0]
    if cond.k != "b" or cond.a.size != 1:
        raise EvalError("If condition")
    g = at["then_branch"] if branch(cond.a.reshape(-1)[0]) else at["else_branch"]
    if {i.name for i in g.input} - {t.name for t in g.initializer}:
        raise EvalError("If branch with inputs")
    outs = c.ev.subgraph(g, c.env, [])
    return outs


MAXITER = 12


@op("Loop")
def _loop(c, ins, at):
    m = ins[0] if len(ins) > 0 else None
    cond = ins[1] if len(ins) > 1 else None
    n_state = len(c.node.input) - 2
    body = at["body"]
    state = list(ins[2:])
    while len(state) < n_state:
        state.append(None)
    trips = X.int0(m) if m is not None else None
    keep = True if cond is None else cond.a.reshape(-1)[0]
    n_scan = len(body.output) - 1 - n_state
    if len(body.input) != 2 + n_state:
        raise EvalError("Loop body input count")
    scans = [[] for _ in range(n_scan)]
    i = 0
    while (trips is None or i < trips) and branch(keep):
        if i >= MAXITER:
            raise Unsupported("Loop longer than %d" % MAXITER)
        # the rank the body declares for the iteration number (0 or 1) is what it gets
        it = i64([i]) if len(body.input[0].type.tensor_type.shape.dim) == 1 else i64(i)
        outs = c.ev.subgraph(body, c.env, [it, Ten(X.scal(True), bool)] + state)
        keep = outs[0].a.reshape(-1)[0]
        state = outs[1:1 + n_state]
        for k, o in enumerate(outs[1 + n_state:]):
            scans[k].append(o)
        i += 1
    res = list(state)
    for k, s in enumerate(scans):
        if not s:
            o = body.output[1 + n_state + k].type.tensor_type
            dims = [d.dim_value if d.HasField("dim_value") else 0 for d in o.shape.dim]
            res.append(Ten(obj([0] + dims), np_dtype(o.elem_type)))
            continue
        if len({q.shape for q in s}) > 1:
            raise EvalError("Loop scan output shapes differ")
        res.append(Ten(np.stack([q.a for q in s]), s[0].dt))
    return res


@op("Scan")
def _scan(c, ins, at):
    body = at["body"]
    k = at["num_scan_inputs"]
    if c.opset < 9:
        # batched scan-8: first input optional sequence_lens
        ins = ins[1:]
        nst = len(ins) - k
        st, xs = ins[:nst], ins[nst:]
        B = xs[0].shape[0]
        allr = None
        dirs = list(at.get("directions", [0] * k))
        for b in range(B):
            r = _scan_run(c, body, [Ten(q.a[b], q.dt) for q in st], [Ten(q.a[b], q.dt) for q in xs], nst, dirs, None, None)
            allr = [[q] for q in r] if allr is None else [p + [q] for p, q in zip(allr, r)]
        return [Ten(np.stack([q.a for q in p]), p[0].dt) for p in allr]
    nst = len(ins) - k
    st, xs = ins[:nst], ins[nst:]
    ax = list(at.get("scan_input_axes", [0] * k))
    dirs = list(at.get("scan_input_directions", [0] * k))
    xs = [Ten(np.moveaxis(q.a, X.nrm_axis(a, q.rank), 0), q.dt) for q, a in zip(xs, ax)]
    return _scan_run(c, body, st, xs, nst, dirs, at.get("scan_output_axes"), at.get("scan_output_directions"))


def _scan_run(c, body, st, xs, nst, dirs, oax, odir):
    n = xs[0].shape[0]
    if any(x.shape[0] != n for x in xs):
        raise EvalError("scan lengths")
    nout = len(body.output) - nst
    acc = [[] for _ in range(nout)]
    for t in range(n):
        cur = [Ten(arr(x.a[n - 1 - t if d else t]), x.dt) for x, d in zip(xs, dirs)]
        o = c.ev.subgraph(body, c.env, list(st) + cur)
        st = o[:nst]
        for q, v in zip(acc, o[nst:]):
            q.append(v)
    res = list(st)
    for j, q in enumerate(acc):
        if not q:
            raise Unsupported("empty scan")
        if odir and odir[j]:
            q = q[::-1]
        a = np.stack([v.a for v in q])
        if oax and oax[j]:
            a = np.moveaxis(a, 0, X.nrm_axis(oax[j], a.ndim))
        res.append(Ten(a, q[0].dt))
    return res


# ---- sequences: a python list of Ten
@op("SequenceEmpty")
def _seqempty(c, ins, at):
    return [_Seq([])]


class _Seq:
    def __init__(self, items):
        self.items = items
        self.dt = None


@op("SequenceConstruct")
def _seqcons(c, ins, at):
    return [_Seq(list(ins))]


@op("SequenceInsert")
def _seqins(c, ins, at):
    s = list(ins[0].items)
    pos = X.int0(ins[2]) if len(ins) > 2 and ins[2] is not None else len(s)
    if pos < 0:
        pos += len(s)
    s.insert(pos, ins[1])
    return [_Seq(s)]


@op("SequenceErase")
def _seqerase(c, ins, at):
    s = list(ins[0].items)
    pos = X.int0(ins[1]) if len(ins) > 1 and ins[1] is not None else -1
    del s[pos]
    return [_Seq(s)]


@op("SequenceAt")
def _seqat(c, ins, at):
    p = X.int0(ins[1])
    if p >= len(ins[0].items) or p < -len(ins[0].items):
        raise EvalError("SequenceAt range")
    return ins[0].items[p]


@op("SequenceLength")
def _seqlen(c, ins, at):
    return i64(len(ins[0].items))


@op("ConcatFromSequence")
def _seqconcat(c, ins, at):
    its = ins[0].items
    if not its:
        raise EvalError("empty sequence")
    if at.get("new_axis", 0):
        return Ten(np.stack([i.a for i in its], axis=at["axis"]), its[0].dt)
    return Ten(np.concatenate([i.a for i in its], axis=at["axis"]), its[0].dt)


@op("SplitToSequence")
def _splitseq(c, ins, at):
    x = ins[0]
    ax = X.nrm_axis(at.get("axis", 0), x.rank)
    if len(ins) > 1:
        raise Unsupported("SplitToSequence split")
    keep = at.get("keepdims", 1)
    its = []
    for i in range(x.shape[ax]):
        v = x.a[(slice(None),) * ax + (slice(i, i + 1),)]
        if not keep:
            v = v.reshape(x.shape[:ax] + x.shape[ax + 1:])
        its.append(Ten(v, x.dt))
    return [_Seq(its)]


@op("ai.onnx.ml::CategoryMapper")
def _catmap(c, ins, at):
    raise Unsupported("CategoryMapper")


@op("NonMaxSuppression")
def _nms(c, ins, at):
    raise Unsupported("NonMaxSuppression")


@op("Det")
def _det(c, ins, at):
    return Ten(det(ins[0].a), ins[0].dt)


def det(a):
    out = obj(a.shape[:-2])
    for p in np.ndindex(*out.shape):
        out[p] = _det1(a[p])
    return out


def _det1(m):
    n = m.shape[0]
    if n == 0:
        return Fraction(1)
    if n == 1:
        return m[0, 0]
    ts = []
    for j in range(n):
        sub = np.delete(m[1:], j, axis=1)
        t = T.mul(m[0, j], _det1(sub))
        ts.append(T.neg(t) if j % 2 else t)
    return T.fsum(ts)


# ================================================================= random
def _rnd(shape, kind_, at, dt, lo, k):
    out = X.obj(shape)
    for i, v in zip(np.ndindex(*shape), X.random_symbols(kind_, int(np.prod(shape)) if len(shape) else 1)):
        out[i] = T.add(T.mul(v, k), lo)
    return Ten(out, dt)


def _rparams(c, at):
    if "Uniform" in c.node.op_type:
        lo, hi = _f(at.get("low", 0.0)), _f(at.get("high", 1.0))
        return "u", lo, T.sub(hi, lo)
    return "n", _f(at.get("mean", 0.0)), _f(at.get("scale", 1.0))


@op("RandomUniform", "RandomNormal")
def _random(c, ins, at):
    k, lo, sc = _rparams(c, at)
    return _rnd(tuple(int(d) for d in at["shape"]), k, at, np_dtype(at.get("dtype", 1)), lo, sc)


@op("RandomUniformLike", "RandomNormalLike")
def _randomlike(c, ins, at):
    k, lo, sc = _rparams(c, at)
    return _rnd(ins[0].shape, k, at, np_dtype(at["dtype"]) if "dtype" in at else ins[0].dt, lo, sc)
