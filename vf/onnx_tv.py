"""ONNX -> ONNX translation validation: run the real optimizer, evaluate both models symbolically, ask the solver."""
from . import env
env.load_tf()
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from . import onnxsym, tv
from . import terms as T
from . import tens as X
from .eng import Explorer
from .terms import EvalError, Unsupported
from .tv import Outcome, Spec

import tf2onnx
from tf2onnx import constants as t2o_constants
from tf2onnx import optimizer as t2o_optimizer
from tf2onnx.graph import GraphUtil

NP2ONNX = {np.dtype(k): v for k, v in {
    np.float32: TensorProto.FLOAT, np.float64: TensorProto.DOUBLE, np.float16: TensorProto.FLOAT16,
    np.int8: TensorProto.INT8, np.int16: TensorProto.INT16, np.int32: TensorProto.INT32, np.int64: TensorProto.INT64,
    np.uint8: TensorProto.UINT8, np.uint16: TensorProto.UINT16, np.uint32: TensorProto.UINT32,
    np.uint64: TensorProto.UINT64, np.bool_: TensorProto.BOOL}.items()}
IR = {7: 3, 8: 3, 9: 4, 10: 5, 11: 6, 12: 7, 13: 7, 14: 7, 15: 8, 16: 8, 17: 8, 18: 8}


def ot(dt):
    return NP2ONNX[np.dtype(dt)]


class B:
    """small ONNX model builder"""

    def __init__(self, opset=13, prefix=""):
        self.opset = opset
        self.nodes, self.inits, self.ins, self.outs, self.specs = [], [], [], [], []
        self.cspecs = []
        self.n = 0
        self.prefix = prefix
        self.vi = []

    def nm(self, base="t"):
        self.n += 1
        return "%s%s_%d" % (self.prefix, base, self.n)

    def input(self, dt, shape, name=None, decl="same", **rng):
        """decl: 'same' static dims | None unknown rank | list with None for unknown dims"""
        name = name or self.nm("x")
        d = list(shape) if decl == "same" else decl
        if d is not None:
            d = [("d%d_%s" % (i, name) if v is None else v) for i, v in enumerate(d)]
        self.ins.append(helper.make_tensor_value_info(name, ot(dt), d))
        self.specs.append(Spec(name, dt, shape, **rng))
        return name

    def symconst(self, dt, shape, name=None, **rng):
        """an initializer whose elements are symbolic; its stored values are used for a concrete fallback"""
        name = name or self.nm("sc")
        n = int(np.prod(shape, dtype=int))
        v = np.array([(i * 7 + 3) % 11 - 5 + i / 16. for i in range(n)]).reshape(shape)
        v = v > 0 if np.dtype(dt) == np.bool_ else np.abs(v).astype(dt) if np.dtype(dt).kind == "u" else v.astype(dt)
        self.inits.append(numpy_helper.from_array(v, name))
        self.cspecs.append(Spec(name, dt, shape, **rng))
        return name

    def const(self, val, dt=None, name=None):
        a = np.asarray(val) if dt is None else np.asarray(val, dtype=dt)
        name = name or self.nm("c")
        self.inits.append(numpy_helper.from_array(a, name))
        return name

    def constnode(self, val, dt=None):
        a = np.asarray(val) if dt is None else np.asarray(val, dtype=dt)
        o = self.nm("k")
        self.nodes.append(helper.make_node("Constant", [], [o], name=self.nm("Const"), value=numpy_helper.from_array(a, o)))
        return o

    def node(self, op, ins, nout=1, outs=None, domain="", **attrs):
        outs = outs or [self.nm(op.lower()) for _ in range(nout)]
        attrs = {k: v for k, v in attrs.items() if v is not None}
        self.nodes.append(helper.make_node(op, list(ins), outs, name=self.nm(op), domain=domain, **attrs))
        return outs[0] if len(outs) == 1 else outs

    # ops whose parameters moved from attribute to input
    def axes_op(self, op, x, axes, since, pos_pad=0, **attrs):
        if axes is None:
            return self.node(op, [x], **attrs)
        if self.opset >= since:
            return self.node(op, [x, self.const(np.array(axes, np.int64))], **attrs)
        return self.node(op, [x], axes=list(axes), **attrs)

    def squeeze(self, x, axes):
        return self.axes_op("Squeeze", x, axes, 13)

    def unsqueeze(self, x, axes):
        return self.axes_op("Unsqueeze", x, axes, 13)

    def transpose(self, x, perm):
        return self.node("Transpose", [x], perm=list(perm))

    def reshape(self, x, shape, **kw):
        return self.node("Reshape", [x, self.const(np.array(shape, np.int64))], **kw)

    def reduce(self, op, x, axes, keepdims=1):
        return self.axes_op(op, x, axes, 13 if op == "ReduceSum" else 18, keepdims=keepdims)

    def slice(self, x, starts, ends, axes=None, steps=None):
        if self.opset < 10:
            return self.node("Slice", [x], starts=starts, ends=ends, axes=axes)
        ins = [x, self.const(np.array(starts, np.int64)), self.const(np.array(ends, np.int64))]
        if axes is not None or steps is not None:
            ins.append(self.const(np.array(axes if axes is not None else range(len(starts)), np.int64)))
        if steps is not None:
            ins.append(self.const(np.array(steps, np.int64)))
        return self.node("Slice", ins)

    def pad(self, x, pads, mode="constant", value=None):
        if self.opset < 11:
            return self.node("Pad", [x], pads=pads, mode=mode, value=float(value or 0.0))
        ins = [x, self.const(np.array(pads, np.int64))]
        if value is not None:
            ins.append(self.const(np.array(value, np.float32)))
        return self.node("Pad", ins, mode=mode)

    def clip(self, x, lo, hi):
        if self.opset < 11:
            return self.node("Clip", [x], min=float(lo), max=float(hi))
        return self.node("Clip", [x, self.const(np.float32(lo)), self.const(np.float32(hi))])

    def split(self, x, axis, sizes):
        if self.opset < 13:
            return self.node("Split", [x], nout=len(sizes), axis=axis, split=list(sizes))
        return self.node("Split", [x, self.const(np.array(sizes, np.int64))], nout=len(sizes), axis=axis)

    def out(self, name, dt=np.float32, decl=None):
        self.outs.append((name, dt, decl))
        return name

    def graph(self, name="g"):
        outs = []
        for nme, dt, decl in self.outs:
            outs.append(helper.make_tensor_value_info(nme, ot(dt), decl))
        return helper.make_graph(self.nodes, name, self.ins, outs, self.inits)

    def model(self, extra=()):
        m = helper.make_model(self.graph(), opset_imports=[helper.make_opsetid("", self.opset)] +
                              [helper.make_opsetid(d, v) for d, v in extra])
        m.ir_version = IR.get(self.opset, 8)
        return m


class OptJob:
    def __init__(self, key, build, optimizers=None, expect_change=False, precise=False):
        self.key, self.build, self.optimizers = key, build, optimizers
        self.precise = precise


def optimize(model, names=None, catch_errors=True):
    opts = None
    if names is not None:
        allo = t2o_optimizer._get_optimizers()
        from collections import OrderedDict
        opts = OrderedDict((k, v) for k, v in allo.items() if k in names) or None
    m = onnx.ModelProto()
    m.CopyFrom(model)
    return GraphUtil.optimize_model_proto(m, catch_errors=catch_errors, optimizers=opts)


def graph_sig(m):
    """structure of a graph up to names: does the optimizer do anything to this program?"""
    num = {}

    def nid(n):
        return num.setdefault(n, len(num)) if n else -1
    return [(n.op_type, [nid(i) for i in n.input], [nid(o) for o in n.output],
             sorted((a.name, str(helper.get_attribute_value(a))[:80]) for a in n.attribute if a.name != "value"))
            for n in m.graph.node if n.op_type != "Constant"]


_ORT = [None]


def ort():
    if _ORT[0] is None:
        import onnxruntime as o
        o.set_default_logger_severity(4)
        _ORT[0] = o
    return _ORT[0]


def run_ort(model, feeds, outputs=None):
    o = ort()
    so = o.SessionOptions()
    so.graph_optimization_level = o.GraphOptimizationLevel.ORT_DISABLE_ALL
    so.intra_op_num_threads = 1
    so.inter_op_num_threads = 1
    so.log_severity_level = 4
    try:
        from onnxruntime_extensions import get_library_path
        if any(d.domain in ("ai.onnx.contrib", "com.microsoft.extensions") for d in model.opset_import):
            so.register_custom_ops_library(get_library_path())
    except ImportError:
        pass
    s = o.InferenceSession(model.SerializeToString(), so, providers=["CPUExecutionProvider"])
    need = {i.name for i in s.get_inputs()}
    return s.run(outputs, {k: v for k, v in feeds.items() if k in need})


def run_concrete(model, feeds):
    """(outputs, runtime): onnxruntime, else the onnx reference evaluator, else our evaluator"""
    err = []
    try:
        return run_ort(model, feeds), "onnxruntime"
    except Exception as e:  # noqa
        err.append("onnxruntime: " + str(e)[:300])
        if ("INVALID_GRAPH" in err[0] or "Type Error" in err[0]) and "Op registered" not in err[0] and "is not a registered" not in err[0]:
            # the operator schema rejects the node
            raise RuntimeError(err[0])
    try:
        from onnx.reference import ReferenceEvaluator
        need = {i.name for i in model.graph.input}
        return ReferenceEvaluator(model).run(None, {k: v for k, v in feeds.items() if k in need}), "onnx.reference"
    except Exception as e:  # noqa
        err.append("onnx.reference: " + str(e)[:300])
    try:
        ev = onnxsym.Evaluator(model)
        T.CTX.reset()
        r = ev.run({k: X.from_np(v) for k, v in feeds.items() if k in {i.name for i in model.graph.input}})
        return [X.to_np(t) for t in r], "evaluator"
    except Exception as e:  # noqa
        err.append("evaluator: " + str(e)[:300])
    raise RuntimeError("; ".join(err))


def keep_ctx(fn):
    """run fn without disturbing the side-condition context of the current path"""
    def g(*a, **k):
        sv = (T.CTX.assume, T.CTX._seen, T.CTX.ufapps)
        T.CTX.reset()
        try:
            return fn(*a, **k)
        finally:
            T.CTX.assume, T.CTX._seen, T.CTX.ufapps = sv
    return g


@keep_ctx
def compare_models(before, after, inp):
    """None if they agree concretely, else a description; raises if the reference model cannot run"""
    a, _ = run_concrete(before, inp)
    try:
        b, rt = run_concrete(after, inp)
    except RuntimeError as e:
        return "optimised model does not run: " + str(e)
    for n, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, list) or isinstance(y, list):
            continue
        d = tv.np_differ(x, y)
        if d:
            return "output %d (%s): %s" % (n, rt, d)
    return None


@keep_ctx
def compare_stats(before, after, inp):
    """models that draw random numbers: moments of many runs"""
    import onnxruntime as rt
    res = []
    for m in (before, after):
        s = rt.InferenceSession(m.SerializeToString(), rt_opts(), providers=["CPUExecutionProvider"])
        need = {i.name for i in s.get_inputs()}
        rs = [s.run(None, {k: v for k, v in inp.items() if k in need}) for _ in range(400)]
        res.append([np.stack([r[k] for r in rs]) for k in range(len(rs[0]))])
    for n, (x, y) in enumerate(zip(*res)):
        if x.shape != y.shape or x.dtype != y.dtype:
            return "output %d: %s %s vs %s %s" % (n, x.shape, x.dtype, y.shape, y.dtype)
        sx, sy = (x.mean(), x.std(0).mean()), (y.mean(), y.std(0).mean())
        if abs(sx[0] - sy[0]) > .2 * sx[1] + 1e-3 or abs(sx[1] - sy[1]) > .2 * sx[1] + 1e-3:
            return "output %d: mean, deviation %s vs %s over 400 runs" % (n, sx, sy)
    return None


def rt_opts():
    import onnxruntime as rt
    o = rt.SessionOptions()
    o.log_severity_level = 4
    o.intra_op_num_threads = 1
    return o


def interface(m):
    return ([(i.name, i.type.tensor_type.elem_type) for i in m.graph.input if i.name not in {t.name for t in m.graph.initializer}],
            [(o.name, o.type.tensor_type.elem_type) for o in m.graph.output])


def check_opt(job, xval=False):
    out = Outcome(job.key)
    env.schedule(job.key)
    b = job.build()
    model = b.model() if isinstance(b, B) else b[0]
    specs = b.specs if isinstance(b, B) else b[1]
    if isinstance(b, B) and b.cspecs:
        job.cspecs = b.cspecs
    sv = X.PRECISE_CAST[0]
    X.PRECISE_CAST[0] = job.precise
    try:
        return _check_opt(job, out, model, specs, xval)
    finally:
        X.PRECISE_CAST[0] = sv


def with_consts(model, vals):
    m = onnx.ModelProto()
    m.CopyFrom(model)

    def go(g):
        for t in g.initializer:
            if t.name in vals:
                t.CopyFrom(numpy_helper.from_array(np.asarray(vals[t.name]), t.name))
        for n in g.node:
            for a in n.attribute:
                if a.HasField("g"):
                    go(a.g)
    go(m.graph)
    return m


def _check_opt(job, out, model, specs, xval):
    cspecs = getattr(job, "cspecs", [])
    cons0, csym, cafter = [], {}, {}
    try:
        after = None
        if cspecs:
            from . import symconst
            csym = {sp.name: tv.sym_tensor(sp, cons0) for sp in cspecs}
            r = symconst.run(lambda: optimize(model, job.optimizers, False), csym)
            if r is None:
                out.escaped = symconst.REG.escaped
                csym, cspecs = {}, []
            else:
                after, cafter = r
                out.symconst = symconst.REG.used
                specs = list(specs) + cspecs
        if after is None:
            after = optimize(model, job.optimizers)
    except Exception as e:  # noqa
        return out.fail("error", "optimizer raised %s: %s" % (type(e).__name__, e))
    out.changed = graph_sig(model) != graph_sig(after)
    ia, ib = interface(model), interface(after)
    if ia != ib:
        # the model interface (names, order, element types) must survive optimisation
        return out.fail("diff", "interface changed: %s -> %s" % (ia, ib))

    def fn():
        cons = list(cons0)
        X.RANDOM.clear()
        tens = {sp.name: csym[sp.name] if sp.name in csym else tv.sym_tensor(sp, cons) for sp in specs}
        for c in cons:
            Explorer.cur._push(c)
        feeds = {k: v for k, v in tens.items() if k not in csym}
        try:
            l = onnxsym.Evaluator(model, csym).run(dict(feeds))
        except EvalError as e:
            return ("lhs", str(e), tens)
        ev = onnxsym.Evaluator(after, cafter)
        try:
            r = ev.run(dict(feeds))
        except EvalError as e:
            return ("rhs", str(e), tens)
        return ("ok", l, r, tens)

    def refine(inp):
        try:
            if getattr(job, "stat", False):
                return compare_stats(model, after, inp)
            if csym:
                # the real optimizer on the model with these constants
                m = with_consts(model, {k: inp[k] for k in csym})
                return compare_models(m, optimize(m, job.optimizers), {k: v for k, v in inp.items() if k not in csym})
            return compare_models(model, after, inp)
        except RuntimeError:
            return None

    def on_path(res, ex):
        if res is None:
            return
        out.paths += 1
        if res[0] == "lhs":
            out.nlhs = getattr(out, "nlhs", 0) + 1
            out.lhs = res[1]
            return
        if res[0] == "rhs":
            m = tv._path_model(ex)
            if m is None:
                return
            inp = tv.model_inputs(m, specs, res[2])
            rep = refine(inp)
            if rep is None:
                rng = np.random.default_rng(3)
                for _ in range(4):
                    rep = rep or refine(tv.random_inputs(specs, rng))
            out.fail("error" if rep else "spurious", "optimised model is invalid: %s / replay: %s" % (res[1], rep), inp)
            return
        n0 = out.status
        tv.decide_equal(ex, res[1], res[2], specs, res[3], out, refine, [o.name for o in model.graph.output])
        if out.status == "diff" and n0 != "diff" and not out.replayed and out.inputs is not None:
            rep = refine(out.inputs)
            if rep is None:
                rng = np.random.default_rng(3)
                for _ in range(4):
                    inp = tv.random_inputs(specs, rng)
                    rep = rep or refine(inp)
            if rep:
                out.replayed = rep
                out.detail += " / replay: " + rep
            else:
                out.status, out.detail = "spurious", out.detail + " (does not reproduce)"

    Explorer(max_paths=4000).explore(fn, on_path)
    if out.paths == 0 or getattr(out, "nlhs", 0) == out.paths:
        out.fail("vacuous", "original model invalid on every path: %s" % getattr(out, "lhs", ""))
    if xval and out.status == "ok":
        cross_validate(model, [s for s in specs if s.name not in csym], out)
    return out


@keep_ctx
def cross_validate(model, specs, out):
    """our evaluator on concrete inputs against onnxruntime"""
    rng = np.random.default_rng(11)
    inp = tv.random_inputs(specs, rng)
    try:
        got = run_ort(model, inp)
    except Exception:  # noqa  (onnxruntime lacks a kernel)
        return
    try:
        ev = [X.to_np(t) for t in onnxsym.Evaluator(model).run({k: X.from_np(v) for k, v in inp.items()})]
    except EvalError as e:
        out.fail("spurious", "evaluator rejects a model onnxruntime accepts: %s" % e)
        return
    for a, b in zip(got, ev):
        d = tv.np_differ(a, b)
        if d:
            out.fail("spurious", "evaluator disagrees with onnxruntime: " + d)
            return
    out.xval += 1
