"""Exact (bit-vector / IEEE float) semantics of Cast chains, for the merge rules of the back-to-back pass."""
import numpy as np
import onnx
import z3
from onnx import TensorProto as TP

from . import onnx_tv as O
from .terms import EvalError
from .tv import Outcome

FP = {TP.FLOAT16: (5, 11), TP.FLOAT: (8, 24), TP.DOUBLE: (11, 53)}
INT = {TP.INT8: (8, True), TP.INT16: (16, True), TP.INT32: (32, True), TP.INT64: (64, True),
       TP.UINT8: (8, False), TP.UINT16: (16, False), TP.UINT32: (32, False), TP.UINT64: (64, False)}
RNE, RTZ = z3.RNE(), z3.RTZ()
STAT = {"queries": 0}


def sym(t, name):
    if t in FP:
        return z3.FP(name, z3.FPSort(*FP[t]))
    if t in INT:
        return z3.BitVec(name, INT[t][0])
    return z3.Bool(name)


def cast(v, s, d, side):
    """value v of type s cast to d; side collects the conditions under which the conversion is defined"""
    if s == d:
        return v
    if s in FP:
        if d in FP:
            return z3.fpToFP(RNE, v, z3.FPSort(*FP[d]))
        if d == TP.BOOL:
            return z3.Not(z3.fpIsZero(v))
        n, sg = INT[d]
        # out-of-range values have no defined result: keep |v| strictly inside
        lo = float(-(2 ** (n - 1))) if sg else 0.0
        hi = float(2 ** (n - 1 if sg else n))
        srt = z3.FPSort(*FP[s])
        big = z3.FPVal(min(hi, 2.0 ** 15) if s == TP.FLOAT16 else hi, srt)
        small = z3.FPVal(max(lo, -2.0 ** 15) if s == TP.FLOAT16 else lo, srt)
        side.append(z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, big), z3.fpGEQ(v, small)))
        return z3.fpToSBV(RTZ, v, z3.BitVecSort(n)) if sg else z3.fpToUBV(RTZ, v, z3.BitVecSort(n))
    if s in INT:
        n, sg = INT[s]
        if d in INT:
            m = INT[d][0]
            if m <= n:
                return z3.Extract(m - 1, 0, v)
            return z3.SignExt(m - n, v) if sg else z3.ZeroExt(m - n, v)
        if d == TP.BOOL:
            return v != 0
        srt = z3.FPSort(*FP[d])
        r = z3.fpSignedToFP(RNE, v, srt) if sg else z3.fpUnsignedToFP(RNE, v, srt)
        return r
    # bool
    if d in INT:
        return z3.If(v, z3.BitVecVal(1, INT[d][0]), z3.BitVecVal(0, INT[d][0]))
    srt = z3.FPSort(*FP[d])
    return z3.If(v, z3.FPVal(1.0, srt), z3.FPVal(0.0, srt))


def run(model, env, side):
    env = {k: v for k, v in env.items()}
    for n in model.graph.node:
        if any(i not in env for i in n.input):
            raise EvalError("input of %s not available" % n.op_type)
        if n.op_type == "Identity":
            env[n.output[0]] = env[n.input[0]]
        elif n.op_type == "Cast":
            v, s = env[n.input[0]]
            to = [a.i for a in n.attribute if a.name == "to"][0]
            env[n.output[0]] = (cast(v, s, to, side), to)
        else:
            raise EvalError("operator " + n.op_type)
    return [env[o.name] for o in model.graph.output]


def to_np(m, v, t):
    x = m.eval(v, model_completion=True)
    if t == TP.BOOL:
        return np.array([z3.is_true(x)])
    if t in INT:
        return np.array([x.as_signed_long() if INT[t][1] else x.as_long()], dtype=O.helper.tensor_dtype_to_np_dtype(t))
    if z3.is_true(z3.simplify(z3.fpIsNaN(x))):
        return np.array([np.nan], dtype=O.helper.tensor_dtype_to_np_dtype(t))
    b = z3.simplify(z3.fpToIEEEBV(x)).as_long()
    w = {TP.FLOAT16: np.uint16, TP.FLOAT: np.uint32, TP.DOUBLE: np.uint64}[t]
    return np.array([b], dtype=w).view(O.helper.tensor_dtype_to_np_dtype(t))


def run_nodes(model, inp):
    """operator by operator on onnxruntime (which itself merges consecutive casts of one model)"""
    env = dict(inp)
    for n in model.graph.node:
        if n.op_type == "Identity":
            env[n.output[0]] = env[n.input[0]]
            continue
        to = [a.i for a in n.attribute if a.name == "to"][0]
        v = env[n.input[0]]
        g = onnx.helper.make_graph([n], "g", [onnx.helper.make_tensor_value_info(n.input[0], O.ot(v.dtype), list(v.shape))],
                                   [onnx.helper.make_tensor_value_info(n.output[0], to, None)])
        m = onnx.helper.make_model(g, opset_imports=list(model.opset_import))
        m.ir_version = model.ir_version
        env[n.output[0]] = O.run_concrete(m, {n.input[0]: v})[0][0]
    return [env[o.name] for o in model.graph.output]


def check(key, model, names):
    out = Outcome(key)
    try:
        after = O.optimize(model, names)
    except Exception as e:  # noqa
        return out.fail("error", "optimizer raised %s: %s" % (type(e).__name__, e))
    if O.interface(model) != O.interface(after):
        return out.fail("diff", "interface changed: %s -> %s" % (O.interface(model), O.interface(after)))
    out.changed = O.graph_sig(model) != O.graph_sig(after)
    gi = model.graph.input[0]
    t = gi.type.tensor_type.elem_type
    x = sym(t, "x")
    side = []
    a = run(model, {gi.name: (x, t)}, side)
    try:
        b = run(after, {gi.name: (x, t)}, [])
    except EvalError as e:
        return out.fail("error", "optimised model is invalid: %s" % e)
    out.paths += 1
    s = z3.Solver()
    s.set("timeout", 60000)
    for c in side:
        s.add(c)
    if t in FP:
        s.add(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)))
    dif = []
    for (p, tp), (q, tq), o in zip(a, b, model.graph.output):
        if tp != tq:
            return out.fail("diff", "output %s: type %s vs %s" % (o.name, tp, tq))
        out.elems += 1
        if tp in FP:
            s.add(z3.Not(z3.fpIsInf(p)))
            dif.append(z3.Not(z3.Or(z3.fpEQ(p, q), z3.And(z3.fpIsNaN(p), z3.fpIsNaN(q)))))
        else:
            dif.append(p != q)
    s.add(z3.Or(dif))
    STAT["queries"] += 1
    from . import eng
    r = eng.check(s)
    if r == z3.unsat:
        return out
    if r == z3.unknown:
        return out.fail("unknown", s.reason_unknown())
    inp = {gi.name: to_np(s.model(), x, t)}
    try:
        ra, rb = run_nodes(model, inp), run_nodes(after, inp)
    except RuntimeError as e:
        return out.fail("spurious", "replay failed: %s" % e, inp)
    for p, q, o in zip(ra, rb, model.graph.output):
        if p.dtype != q.dtype or p.tobytes() != q.tobytes():
            out.replayed = "output %s: %s vs %s for input %r" % (o.name, p, q, inp[gi.name])
            return out.fail("diff", out.replayed, inp)
    return out.fail("spurious", "counterexample does not reproduce", inp)
