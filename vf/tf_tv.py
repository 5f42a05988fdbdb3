"""TensorFlow -> ONNX translation validation: convert with the real converter, execute both graphs symbolically, ask the solver."""
from . import env
env.load_tf()
import numpy as np
import onnx
import tensorflow as tf

from . import onnxsym, tfsym, tv
from . import onnx_tv as O
from . import terms as T
from . import tens as X
from .eng import Explorer
from .terms import EvalError, Unsupported
from .tv import Outcome, Spec

import tf2onnx
from tf2onnx import optimizer as t2o_optimizer
from tf2onnx.tfonnx import process_tf_graph
from tf2onnx.tf_loader import tf_optimize

tf.compat.v1.disable_eager_execution()
tf.compat.v1.enable_control_flow_v2()
tf.compat.v1.enable_v2_tensorshape()

ONNX_DOMAINS = ("", "ai.onnx", "ai.onnx.ml", "com.microsoft", "ai.onnx.contrib", "com.microsoft.extensions")


class TB:
    """builds a tf.Graph with symbolic placeholders"""

    def __init__(self):
        self.specs, self.ins, self.outs = [], [], []

    def input(self, dt, shape, name="x", decl="same", lo=None, hi=None, flo=None, fhi=None, value=None, split=False):
        d = list(shape) if decl == "same" else ([None] * len(shape) if decl in ("dyn", "rank") else decl)
        if value is not None:
            shape = np.asarray(value).shape
        t = tf.compat.v1.placeholder(np.dtype(dt), d, name=name)
        self.specs.append(Spec(t.name, dt, shape, lo=lo, hi=hi, flo=flo, fhi=fhi, value=value, split=split))
        self.ins.append(t)
        if decl == "rank":
            # an unknown rank: reshaped by a run-time shape of unknown length
            s = self.input(np.int32, (len(shape),), name + "_shape", decl="dyn", value=np.array(shape, np.int32))
            return tf.raw_ops.Reshape(tensor=t, shape=s)
        return t

    def out(self, t, name=None):
        t = tf.identity(t, name=name or ("y%d" % len(self.outs) if self.outs else "y"))
        self.outs.append(t)
        return t

    def feed(self, t, shape=None, **kw):
        """a tensor inside the graph that is requested as an input"""
        self.specs.append(Spec(t.name, t.dtype.as_numpy_dtype, shape or tuple(t.shape.as_list()), **kw))
        self.ins.append(t)
        return t

    def raw_out(self, t):
        self.outs.append(t)
        return t


class Job:
    def __init__(self, key, build, opset=15, opt=False, grappler=False, convert=None, adapt=None, precise=False,
                 interface=True, xval=True, ref=None, stat=False):
        self.key, self.build, self.opset, self.opt, self.grappler = key, build, opset, opt, grappler
        self.convert = convert or {}
        self.adapt = adapt            # (feeds or outputs transformation) for nchw checks
        self.precise = precise
        self.interface = interface
        self.xval = xval and not stat
        self.ref = ref                # builder of the program the converted model is compared with, if not the source itself
        self.stat = stat              # random program: replays compare sample statistics


def make_graph(job):
    g = tf.Graph()
    with g.as_default():
        b = TB()
        r = job.build(b)
        if r is not None and not b.outs:
            for t in (r if isinstance(r, (list, tuple)) else [r]):
                b.out(t)
        if g.get_collection(tf.compat.v1.GraphKeys.GLOBAL_VARIABLES):
            g = freeze(g, b)
    return g, b


def freeze(g, b):
    """variables become constants, as loading a saved model makes them"""
    from tensorflow.python.framework.convert_to_constants import convert_variables_to_constants_from_session_graph as conv
    with tf.compat.v1.Session(graph=g) as s:
        s.run(tf.compat.v1.global_variables_initializer())
        gd = conv(s, g.as_graph_def(add_shapes=True), [t.op.name for t in b.outs])
    ng = tf.Graph()
    with ng.as_default():
        tf.import_graph_def(gd, name="")
        b.outs = [ng.get_tensor_by_name(t.name) for t in b.outs]
        for n, t in enumerate(b.ins):
            try:
                b.ins[n] = ng.get_tensor_by_name(t.name)
            except KeyError:
                # an input nothing uses
                b.ins[n] = tf.compat.v1.placeholder(t.dtype, t.shape, name=t.op.name)
    return ng


def convert(g, b, job):
    ins = [t.name for t in b.ins]
    outs = [t.name for t in b.outs]
    kw = dict(job.convert)
    src = g
    if job.grappler:
        gd = g.as_graph_def(add_shapes=True)
        # as the loader does (lower_control_flow=False): loops and branches stay functional
        for nodes in [gd.node] + [f.node_def for f in gd.library.function]:
            for n in nodes:
                if "_lower_using_switch_merge" in n.attr:
                    n.attr["_lower_using_switch_merge"].b = False
        gd = tf_optimize(ins, outs, gd)
        src = tf.Graph()
        with src.as_default():
            tf.import_graph_def(gd, name="")
    with src.as_default():
        og = process_tf_graph(src, opset=job.opset, input_names=ins, output_names=outs, **kw)
    if job.opt:
        og = t2o_optimizer.optimize_graph(og)
    return og.make_model("t"), og


def bad_nodes(graph, acc):
    for n in graph.node:
        if n.domain in ("", "ai.onnx"):
            if not onnx.defs.has(n.op_type):
                acc.append(n.op_type)
        elif n.domain not in ONNX_DOMAINS:
            acc.append(n.domain + "::" + n.op_type)
        for a in n.attribute:
            if a.type == onnx.AttributeProto.GRAPH:
                bad_nodes(a.g, acc)
    return acc


def tf_session(g, b, feeds):
    with tf.compat.v1.Session(graph=g, config=tf.compat.v1.ConfigProto(
            intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)) as s:
        return s.run(b.outs, {t: feeds[t.name] for t in b.ins})


def stat_replay(g, b, model, inp):
    """random programs: shape, type, range and moments of many samples"""
    def col(f):
        rs = [f() for _ in range(400)]
        return [np.stack([np.asarray(r[k]) for r in rs]) for k in range(len(rs[0]))]
    with tf.compat.v1.Session(graph=g) as s:
        want = col(lambda: s.run(b.outs, {t: inp[t.name] for t in b.ins}))
    try:
        got = col(lambda: O.run_concrete(model, inp)[0])
    except (RuntimeError, ValueError) as e:
        return "converted model does not run: %s" % e
    for n, (x, y) in enumerate(zip(want, got)):
        if x.shape != y.shape or x.dtype != y.dtype:
            return "output %d: %s %s, converted %s %s" % (n, x.shape, x.dtype, y.shape, y.dtype)
        sx = [float(np.mean(x)), float(np.std(x)), float(np.min(x)), float(np.max(x))]
        sy = [float(np.mean(y)), float(np.std(y)), float(np.min(y)), float(np.max(y))]
        tol = 0.15 * sx[1] + 1e-3
        if abs(sx[0] - sy[0]) > tol or abs(sx[1] - sy[1]) > tol:
            return "output %d: mean/std/min/max %s, converted %s" % (n, sx, sy)
    return None


@O.keep_ctx
def replay(g, b, model, inp, job):
    """None if TensorFlow and the converted model agree concretely"""
    if job.stat:
        return stat_replay(g, b, model, inp)
    try:
        want = tf_session(g, b, inp)
    except Exception as e:  # noqa
        raise RuntimeError("tensorflow: " + str(e)[:300])
    if any(np.asarray(w).dtype.kind == "f" and not np.all(np.isfinite(np.asarray(w, np.float64))) for w in want):
        # a counterexample must not rest on overflow or undefined floats
        raise RuntimeError("tensorflow result is not finite")
    feeds = inp
    if job.adapt:
        feeds = job.adapt[0](inp)
        want = job.adapt[1](want)
    try:
        got, rt = O.run_concrete(model, feeds)
    except RuntimeError as e:
        return "converted model does not run: " + str(e)
    for n, (x, y) in enumerate(zip(want, got)):
        d = tv.np_differ(np.asarray(x), y)
        if d:
            return "output %d (%s), tensorflow vs converted: %s" % (n, rt, d)
    return None


def iface_problem(b, model, job):
    """the requested interface: names, order, element types, and no contradicting static dimension"""
    init = {t.name for t in model.graph.initializer}
    gi = [i for i in model.graph.input if i.name not in init]
    ren = job.convert.get("tensors_to_rename") or {}
    want_in = [ren.get(t.name, t.name) for t in b.ins]
    got_in = [i.name for i in gi]
    if got_in != want_in:
        return "inputs %s, requested %s" % (got_in, want_in)
    want_out = [ren.get(t.name, t.name) for t in b.outs]
    if [o.name for o in model.graph.output] != want_out:
        return "outputs %s, requested %s" % ([o.name for o in model.graph.output], want_out)
    nchw_i = set(job.convert.get("inputs_as_nchw") or ())
    nchw_o = set(job.convert.get("outputs_as_nchw") or ())
    for t, vi in list(zip(b.ins, gi)) + list(zip(b.outs, model.graph.output)):
        dt = O.NP2ONNX.get(np.dtype(t.dtype.as_numpy_dtype)) if t.dtype != tf.string else onnx.TensorProto.STRING
        if vi.type.tensor_type.elem_type != dt:
            return "%s has element type %s, requested %s" % (vi.name, vi.type.tensor_type.elem_type, dt)
        if not vi.type.tensor_type.HasField("shape") or t.shape.rank is None:
            continue
        dims = [d.dim_value if d.HasField("dim_value") else None for d in vi.type.tensor_type.shape.dim]
        td = t.shape.as_list()
        if (t.name in nchw_i or t.name in nchw_o) and len(td) == 4:
            td = [td[0], td[3], td[1], td[2]]
        if len(dims) != len(td):
            return "%s has rank %d, expected %d" % (vi.name, len(dims), len(td))
        for p, q in zip(dims, td):
            if p is not None and q is not None and p != q:
                return "%s has shape %s, expected %s" % (vi.name, dims, td)
    return None


def declared_problem(b, model, specs, outs):
    """declared static output dimensions must agree with the symbolic run"""
    for vi, r in zip(model.graph.output, outs):
        if not vi.type.tensor_type.HasField("shape") or not hasattr(r, "shape"):
            continue
        dims = [d.dim_value if d.HasField("dim_value") else None for d in vi.type.tensor_type.shape.dim]
        if len(dims) != len(r.shape) or any(d is not None and d != s for d, s in zip(dims, r.shape)):
            return "output %s is declared %s but has shape %s" % (vi.name, dims, r.shape)
    return None


def check_tf(job, xval=False):
    sv = X.PRECISE_CAST[0]
    X.PRECISE_CAST[0] = job.precise
    try:
        return _check_tf(job, xval)
    finally:
        X.PRECISE_CAST[0] = sv


def _check_tf(job, xval):
    out = Outcome(job.key)
    env.schedule(job.key)
    try:
        g, b = make_graph(job)
    except (ValueError, TypeError) as e:
        out.skip = True
        return out.fail("vacuous", "tensorflow rejects the program: %s" % str(e)[:200])
    specs = b.specs
    try:
        model, og = convert(g, b, job)
    except Exception as e:  # noqa
        # a program TensorFlow itself cannot run is outside the property
        return out.fail("refused", "%s: %s" % (type(e).__name__, str(e)[:200]))
    bad = bad_nodes(model.graph, [])
    if bad:
        return out.fail("refused", "no conversion for " + ",".join(sorted(set(bad))))
    out.onnx_ops = [n.op_type for n in model.graph.node]
    if job.interface:
        p = iface_problem(b, model, job)
        if p:
            return out.fail("diff", "interface: " + p)
    feed_map = job.adapt
    if job.ref:
        g, b = make_graph(Job(job.key, job.ref))

    def fn():
        cons = []
        X.RANDOM.clear()
        X.RCOUNT[0] = 0
        tens = {sp.name: tv.sym_tensor(sp, cons) for sp in specs}
        for c in cons:
            Explorer.cur._push(c)
        te = tfsym.Evaluator(g, tens)
        try:
            l = [te.get(t) for t in b.outs]
        except EvalError as e:
            return ("lhs", str(e), tens)
        feeds = dict(tens)
        if feed_map:
            feeds = feed_map[2](feeds)
            l = feed_map[3](l)
        ev = onnxsym.Evaluator(model)
        try:
            r = ev.run(feeds)
        except EvalError as e:
            return ("rhs", str(e), tens)
        return ("ok", l, r, tens)

    def refine(inp):
        try:
            return replay(g, b, model, inp, job)
        except RuntimeError:
            return None

    def some_replay(inp):
        rep = refine(inp) if inp is not None else None
        if rep is None:
            rng = np.random.default_rng(3)
            for _ in range(4):
                inp2 = tv.random_inputs(specs, rng)
                rep = rep or refine(inp2)
        return rep

    def on_path(res, ex):
        if res is None:
            return
        out.paths += 1
        if res[0] == "lhs":
            out.nlhs = getattr(out, "nlhs", 0) + 1
            out.lhs = res[1]
            return
        if out.status == "diff":
            return
        if res[0] == "rhs":
            m = tv._path_model(ex)
            if m is None:
                return
            inp = tv.model_inputs(m, specs, res[2])
            rep = some_replay(inp)
            if rep:
                out.fail("error", "converted model is invalid: %s / replay: %s" % (res[1], rep), inp)
            else:
                out.fail("spurious", "converted model is invalid: %s (does not reproduce)" % res[1], inp)
            return
        n0 = out.status
        tv.decide_equal(ex, res[1], res[2], specs, res[3], out, refine, [t.name for t in b.outs])
        if out.status == "diff" and n0 != "diff" and not out.replayed and out.inputs is not None:
            rep = some_replay(out.inputs)
            if rep:
                out.replayed = rep
                out.detail += " / replay: " + rep
            else:
                out.status, out.detail = "spurious", out.detail + " (does not reproduce)"
        if out.status in ("ok", "unknown"):
            p = declared_problem(b, model, specs, res[2])
            m = tv._path_model(ex) if p else None
            if m is not None:
                inp = tv.model_inputs(m, specs, res[3])
                try:
                    got = O.keep_ctx(O.run_concrete)(model, job.adapt[0](inp) if job.adapt else inp)[0]
                except RuntimeError:
                    return
                if declared_problem(b, model, specs, [np.asarray(x) for x in got]):
                    out.fail("diff", p, inp)
                    out.replayed = p

    Explorer(max_paths=4000).explore(fn, on_path)
    if out.paths == 0 or getattr(out, "nlhs", 0) == out.paths:
        out.fail("vacuous", "source program invalid on every path: %s" % getattr(out, "lhs", ""))
    if xval and out.status == "ok":
        cross_validate(g, b, model, job, out)
    return out


@O.keep_ctx
def cross_validate(g, b, model, job, out):
    """both evaluators on one concrete input against TensorFlow and onnxruntime"""
    rng = np.random.default_rng(11)
    inp = tv.random_inputs(b.specs, rng)
    try:
        want = tf_session(g, b, inp)
    except Exception:  # noqa
        return
    try:
        te = tfsym.Evaluator(g, {k: X.from_np(v) for k, v in inp.items()})
        got = [X.to_np(te.get(t)) for t in b.outs]
    except EvalError as e:
        out.fail("spurious", "tf evaluator rejects a program tensorflow accepts: %s" % e)
        return
    for x, y in zip(want, got):
        d = tv.np_differ(np.asarray(x), y)
        if d:
            out.fail("spurious", "tf evaluator disagrees with tensorflow: " + d)
            return
    if not job.adapt:
        O.cross_validate(model, b.specs, out)
    else:
        out.xval += 1


def run_job(job):
    return check_tf(job, xval=job.xval and (int(tv.digest(job.key), 16) % 8 == 0))
