"""Bit-exact elementwise semantics: integers are bit vectors of their width, floats IEEE-754 terms.  A scalar TensorFlow program and
its conversion are executed over them, so overflow, rounding, precision lost by casts, infinities and (where allowed) NaN are decided."""
from . import env
import numpy as np
import z3
from onnx import TensorProto as TP
import onnx

from . import eng
from . import onnx_tv as O
from . import tf_tv as V
from . import tv
from .fpcast import FP, INT, RNE, RTZ, cast, to_np
from .terms import EvalError, Unsupported
from .tv import Outcome


def sort(t):
    return z3.FPSort(*FP[t]) if t in FP else z3.BitVecSort(INT[t][0]) if t in INT else z3.BoolSort()


def sym(t, name):
    return z3.Const(name, sort(t))


def const(v, t):
    v = np.asarray(v).reshape(-1)
    if v.size != 1:
        raise Unsupported("not a scalar")
    v = v[0]
    if t in FP:
        f = float(v)
        if np.isnan(f):
            return z3.fpNaN(sort(t))
        return z3.FPVal(f, sort(t)) if not np.isinf(f) else (z3.fpPlusInfinity(sort(t)) if f > 0 else z3.fpMinusInfinity(sort(t)))
    if t in INT:
        return z3.BitVecVal(int(v), INT[t][0])
    return z3.BoolVal(bool(v))


def num(x, t):
    return const(x, t)


def lt(a, b, t):
    if t in FP:
        return z3.fpLT(a, b)
    return a < b if INT[t][1] else z3.ULT(a, b)


def le(a, b, t):
    if t in FP:
        return z3.fpLEQ(a, b)
    return a <= b if INT[t][1] else z3.ULE(a, b)


def eq(a, b, t):
    return z3.fpEQ(a, b) if t in FP else a == b


def add(a, b, t):
    return z3.fpAdd(RNE, a, b) if t in FP else a + b


def sub(a, b, t):
    return z3.fpSub(RNE, a, b) if t in FP else a - b


def _mask(x, t):
    """condition c if x is If(c, 1, 0)"""
    if z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(1).eq(num(1, t)) and x.arg(2).eq(num(0, t)):
        return x.arg(0)
    return None


def mul(a, b, t):
    for x, m in ((a, _mask(b, t)), (b, _mask(a, t))):
        if m is not None:  # exact: 1 * x and 0 * x
            if t in INT:
                return z3.If(m, x, num(0, t))
            z = z3.If(z3.Or(z3.fpIsInf(x), z3.fpIsNaN(x)), z3.fpNaN(sort(t)), z3.If(z3.fpIsNegative(x), z3.fpMinusZero(sort(t)), z3.fpPlusZero(sort(t))))
            return z3.If(m, x, z)
    return z3.fpMul(RNE, a, b) if t in FP else a * b


def neg(a, t):
    return z3.fpNeg(a) if t in FP else -a


def absv(a, t):
    if t in FP:
        return z3.fpAbs(a)
    return z3.If(a < 0, -a, a) if INT[t][1] else a


def sign(a, t):
    one = num(1, t)
    if t in INT and not INT[t][1]:
        return z3.If(a == 0, num(0, t), one)
    return z3.If(lt(num(0, t), a, t), one, z3.If(lt(a, num(0, t), t), num(-1, t), num(0, t)))


def mx(a, b, t):
    return z3.If(lt(a, b, t), b, a)


def mn(a, b, t):
    return z3.If(lt(b, a, t), b, a)


def tdiv(a, b, t):
    if t in FP:
        return z3.fpDiv(RNE, a, b)
    return a / b if INT[t][1] else z3.UDiv(a, b)


def _wide(f):
    """narrow signed integers are done in 32 bits (the quotient and remainder always fit, MIN / -1 is excluded)"""
    def g(a, b, t):
        n = INT[t][0]
        if INT[t][1] and n < 32:
            return z3.Extract(n - 1, 0, f(z3.SignExt(32 - n, a), z3.SignExt(32 - n, b), TP.INT32))
        return f(a, b, t)
    return g


@_wide
def trem(a, b, t):
    return a - tdiv(a, b, t) * b


@_wide
def fdiv(a, b, t):
    q = tdiv(a, b, t)
    if not INT[t][1]:
        return q
    r = a - q * b
    return z3.If(z3.And(r != 0, (r < 0) != (b < 0)), q - 1, q)


@_wide
def fmod(a, b, t):
    r = trem(a, b, t)
    if not INT[t][1]:
        return r
    return z3.If(z3.And(r != 0, (r < 0) != (b < 0)), r + b, r)


CMP = {"Less": lambda a, b, t: lt(a, b, t), "Greater": lambda a, b, t: lt(b, a, t),
       "LessEqual": lambda a, b, t: le(a, b, t), "GreaterEqual": lambda a, b, t: le(b, a, t),
       "LessOrEqual": lambda a, b, t: le(a, b, t), "GreaterOrEqual": lambda a, b, t: le(b, a, t),
       "Equal": lambda a, b, t: eq(a, b, t), "NotEqual": lambda a, b, t: z3.Not(eq(a, b, t))}
BIN = {"Add": add, "AddV2": add, "Sub": sub, "Mul": mul, "Maximum": mx, "Minimum": mn}
UN = {"Neg": neg, "Abs": absv, "Sign": sign, "Square": lambda a, t: mul(a, a, t),
      "Relu": lambda a, t: mx(num(0, t), a, t),
      "Floor": lambda a, t: z3.fpRoundToIntegral(z3.RTN(), a), "Ceil": lambda a, t: z3.fpRoundToIntegral(z3.RTP(), a),
      "Rint": lambda a, t: z3.fpRoundToIntegral(RNE, a), "Round": lambda a, t: z3.fpRoundToIntegral(RNE, a) if t in FP else a,
      "Invert": lambda a, t: ~a, "BitwiseNot": lambda a, t: ~a}
BITS = {"BitwiseAnd": lambda a, b: a & b, "BitwiseOr": lambda a, b: a | b, "BitwiseXor": lambda a, b: a ^ b}


class TFEval:
    def __init__(self, g, inputs):
        self.val, self.side = dict(inputs), []

    def get(self, t):
        if t.name in self.val:
            return self.val[t.name]
        for o, v in zip(t.op.outputs, self.op(t.op)):
            self.val[o.name] = v
        return self.val[t.name]

    def op(self, op):
        k = op.type
        if k == "Const":
            import tensorflow as tf
            v = tf.make_ndarray(op.get_attr("value"))
            t = O.NP2ONNX[v.dtype]
            return [(v, None)] if v.size != 1 else [(const(v, t), t)]
        ins = [self.get(i) for i in op.inputs]
        (a, t) = ins[0]
        b = ins[1][0] if len(ins) > 1 else None
        ot = O.NP2ONNX[np.dtype(op.outputs[0].dtype.as_numpy_dtype)]
        if k in ("Identity", "StopGradient", "Reshape", "ExpandDims", "Squeeze"):
            return [(a, t)]
        if k in CMP:
            return [(CMP[k](a, b, t), TP.BOOL)]
        if k in BIN:
            return [(BIN[k](a, b, t), t)]
        if k in UN:
            return [(UN[k](a, t), t)]
        if k in BITS:
            return [(BITS[k](a, b), t)]
        if k in ("LeftShift", "RightShift"):
            n = INT[t][0]
            self.side.append(z3.And(z3.ULT(b, n)))
            return [(a << b if k == "LeftShift" else a >> b if INT[t][1] else z3.LShR(a, b), t)]
        if k in ("LogicalAnd", "LogicalOr"):
            return [((z3.And if k == "LogicalAnd" else z3.Or)(a, b), t)]
        if k == "LogicalNot":
            return [(z3.Not(a), t)]
        if k in ("SelectV2", "Select"):
            return [(z3.If(a, b, ins[2][0]), ins[1][1])]
        if k == "Relu6":
            return [(mn(mx(num(0, t), a, t), num(6, t), t), t)]
        if k == "ClipByValue":
            self.side.append(le(b, ins[2][0], t))
            return [(mx(b, mn(a, ins[2][0], t), t), t)]
        if k == "Cast":
            return [(cast(a, t, ot, self.side), ot)]
        if k == "IsNan":
            return [(z3.fpIsNaN(a), TP.BOOL)]
        if k == "IsInf":
            return [(z3.fpIsInf(a), TP.BOOL)]
        if k == "IsFinite":
            return [(z3.Not(z3.Or(z3.fpIsInf(a), z3.fpIsNaN(a))), TP.BOOL)]
        if k in ("ZerosLike", "OnesLike"):
            return [(num(k == "OnesLike", t), t)]
        if k == "AddN":
            v = a
            for o in ins[1:]:
                v = add(v, o[0], t)
            return [(v, t)]
        if k == "SquaredDifference":
            d = sub(a, b, t)
            return [(mul(d, d, t), t)]
        if k == "Reciprocal":
            return [(tdiv(num(1, t), a, t), t)]
        if t in FP and k in ("RealDiv", "Div"):
            return [(tdiv(a, b, t), t)]
        if t in FP and k == "FloorDiv":
            return [(z3.fpRoundToIntegral(z3.RTN(), tdiv(a, b, t)), t)]
        if k == "DivNoNan":
            return [(z3.If(z3.fpIsZero(b), num(0, t), tdiv(a, b, t)), t)]
        if k in ("TruncateDiv", "FloorDiv", "FloorMod", "TruncateMod", "Div", "RealDiv", "Mod") and t in INT:
            self.side.append(b != 0)
            if INT[t][1]:
                self.side.append(z3.Not(z3.And(a == 1 << (INT[t][0] - 1), b == -1)))
            return [({"TruncateDiv": tdiv, "Div": tdiv, "RealDiv": tdiv, "FloorDiv": fdiv, "FloorMod": fmod, "TruncateMod": trem, "Mod": trem}[k](a, b, t), t)]
        raise Unsupported("bit-exact tf op " + k)


def onnx_run(model, env):
    env = dict(env)
    for i in model.graph.initializer:
        v = onnx.numpy_helper.to_array(i)
        env[i.name] = (const(v, i.data_type), i.data_type) if v.size == 1 else (v, None)
    for n in model.graph.node:
        ins = [env[i] if i else None for i in n.input]
        at = {a.name: onnx.helper.get_attribute_value(a) for a in n.attribute}
        k = n.op_type
        if k == "Constant":
            v = onnx.numpy_helper.to_array(at["value"])
            env[n.output[0]] = (const(v, at["value"].data_type), at["value"].data_type) if v.size == 1 else (v, None)
            continue
        a, t = ins[0]
        b = ins[1][0] if len(ins) > 1 and ins[1] is not None else None
        if len(ins) > 1 and ins[1] is not None and k in set(CMP) | {"Add", "Sub", "Mul", "Div", "Mod", "Max", "Min", "And", "Or", "Xor"} | set(BITS) and ins[1][1] != t:
            raise EvalError("%s with operands of types %s and %s" % (k, t, ins[1][1]))
        if k in ("Identity", "Reshape", "Squeeze", "Unsqueeze", "Expand", "Transpose"):
            r = (a, t)
        elif k in CMP:
            r = (CMP[k](a, b, t), TP.BOOL)
        elif k in ("Add", "Sub", "Mul"):
            r = (BIN[k](a, b, t), t)
        elif k in ("Max", "Min"):
            v = a
            for o in ins[1:]:
                v = (mx if k == "Max" else mn)(v, o[0], t)
            r = (v, t)
        elif k in UN:
            r = (UN[k](a, t), t)
        elif k in BITS:
            r = (BITS[k](a, b), t)
        elif k == "BitShift":
            if INT[t][1]:
                raise EvalError("BitShift of a signed type")
            r = (a << b if at["direction"] == b"LEFT" else z3.LShR(a, b), t)
        elif k in ("And", "Or", "Xor"):
            r = ({"And": z3.And, "Or": z3.Or, "Xor": z3.Xor}[k](a, b), TP.BOOL)
        elif k == "Not":
            r = (z3.Not(a), TP.BOOL)
        elif k == "Where":
            if ins[1][1] != ins[2][1]:
                raise EvalError("Where with operands of two types")
            r = (z3.If(a, b, ins[2][0]), ins[1][1])
        elif k == "Clip":
            lo = b if b is not None else num(at["min"], t) if "min" in at else None
            hi = ins[2][0] if len(ins) > 2 and ins[2] is not None else num(at["max"], t) if "max" in at else None
            v = mx(lo, a, t) if lo is not None else a
            r = (mn(v, hi, t) if hi is not None else v, t)
        elif k == "Cast":
            r = (cast(a, t, at["to"], []), at["to"])
        elif k == "IsNaN":
            r = (z3.fpIsNaN(a), TP.BOOL)
        elif k == "IsInf":
            r = (z3.Or(z3.And(z3.fpIsInf(a), z3.fpIsPositive(a)) if at.get("detect_positive", 1) else False,
                       z3.And(z3.fpIsInf(a), z3.fpIsNegative(a)) if at.get("detect_negative", 1) else False), TP.BOOL)
        elif k == "Sum":
            v = a
            for o in ins[1:]:
                v = add(v, o[0], t)
            r = (v, t)
        elif k == "Reciprocal":
            r = (tdiv(num(1, t), a, t), t)
        elif k == "Div":
            r = (tdiv(a, b, t), t)
        elif k == "Mod" and t in INT:
            r = (trem(a, b, t) if at.get("fmod", 0) else fmod(a, b, t), t)
        else:
            raise Unsupported("bit-exact onnx op " + k)
        env[n.output[0]] = r
    return [env[o.name] for o in model.graph.output]


HEAVY = {z3.Z3_OP_BSDIV, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUREM, z3.Z3_OP_BMUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_MUL,
         z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM_I}


def abstract(conds):
    """the conjunction with products and quotients replaced by unconstrained values (unsat carries over)"""
    memo, keep = {}, []

    def go(e):
        k = e.get_id()
        if k not in memo:
            ch = [go(c) for c in e.children()]
            if z3.is_app(e) and e.decl().kind() in HEAVY:
                r = z3.FreshConst(e.sort(), "h")
            else:
                r = e.decl()(*ch) if ch else e
            keep.append(e)
            memo[k] = r
        return memo[k]
    return [go(c) for c in conds]


class Job(V.Job):
    def __init__(self, key, build, nan=False, fin=False, **kw):
        super().__init__(key, build, **kw)
        self.nan = nan
        self.fin = fin


def differ(p, q):
    p, q = np.asarray(p), np.asarray(q)
    if p.dtype != q.dtype or p.shape != q.shape:
        return "%s%s vs %s%s" % (p.dtype, p.shape, q.dtype, q.shape)
    ok = (p == q) | ((p != p) & (q != q))
    return None if np.all(ok) else "%s vs %s" % (p, q)


@O.keep_ctx
def replay(g, b, model, inp):
    want = V.tf_session(g, b, inp)
    got, rt = O.run_concrete(model, inp)
    for w, r in zip(want, got):
        d = differ(w, r)
        if d:
            return "tensorflow vs %s: %s for %s" % (rt, d, {k: v.reshape(-1).tolist() for k, v in inp.items()})
    return None


def check(job):
    out = Outcome(job.key)
    env.schedule(job.key)
    try:
        g, b = V.make_graph(job)
    except (ValueError, TypeError) as e:
        out.skip = True
        return out.fail("vacuous", str(e)[:100])
    try:
        model, _ = V.convert(g, b, job)
    except Exception as e:  # noqa
        return out.fail("refused", "%s: %s" % (type(e).__name__, str(e)[:200]))
    bad = V.bad_nodes(model.graph, [])
    if bad:
        return out.fail("refused", "no conversion for " + ",".join(sorted(set(bad))))
    p = V.iface_problem(b, model, job)
    if p:
        return out.fail("diff", "interface: " + p)
    vals = {}
    s = z3.Solver()
    s.set("timeout", 15000)
    for sp in b.specs:
        t = O.NP2ONNX[sp.dt]
        if sp.value is not None:
            vals[sp.name] = (const(sp.value, t), t)
            continue
        x = sym(t, sp.name)
        vals[sp.name] = (x, t)
        if t in FP and not job.nan:
            s.add(z3.Not(z3.fpIsNaN(x)))
        if t in FP and job.fin:
            s.add(z3.Not(z3.fpIsInf(x)))
    te = TFEval(g, vals)
    L = [te.get(t) for t in b.outs]
    out.paths += 1
    s.add(*te.side)
    try:
        Rr = onnx_run(model, vals)
    except EvalError as e:
        return out.fail("error", "converted model is invalid: %s" % e)
    for (p, tp), (q, tq) in zip(L, Rr):
        if tp != tq:
            return out.fail("diff", "output type %s vs %s" % (tp, tq))
        out.elems += 1
        s.push()
        s.add(z3.Not(z3.Or(z3.fpEQ(p, q), z3.And(z3.fpIsNaN(p), z3.fpIsNaN(q)))) if tp in FP else p != q)
        sa = z3.Solver()
        sa.set("timeout", 5000)
        sa.add(*abstract(s.assertions()))
        easy = eng.check(sa) == z3.unsat
        for _ in range(3):
            r = z3.unsat if easy else eng.check(s)
            if r == z3.unsat:
                break
            if r == z3.unknown:
                out.fail("unknown", s.reason_unknown())
                break
            m = s.model()
            inp = {sp.name: np.asarray(sp.value, sp.dt) if sp.value is not None else
                   to_np(m, vals[sp.name][0], vals[sp.name][1]).reshape(sp.shape) for sp in b.specs}
            try:
                d = replay(g, b, model, inp)
            except RuntimeError as e:
                out.fail("spurious", "replay failed: %s" % str(e)[:200], inp)
                break
            if d:
                out.replayed = d
                return out.fail("diff", d, inp)
            s.add(z3.Or([vals[sp.name][0] != m.eval(vals[sp.name][0], model_completion=True) for sp in b.specs if sp.value is None]))
        else:
            out.fail("spurious", "counterexample does not reproduce", inp)
        s.pop()
    return out
