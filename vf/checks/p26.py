"""P26 channel-first inputs and outputs on request."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
from .. import tens as X
import tensorflow as tf

PROP = "P26"
run_job = V.run_job
R = tf.raw_ops
CF = (0, 3, 1, 2)


def adapt(ins, outs):
    """the same program seen through the requested layouts"""
    def nf(feeds):
        return {k: np.ascontiguousarray(np.transpose(v, CF)) if k in ins and v.ndim == 4 else v for k, v in feeds.items()}

    def nw(want):
        return [np.transpose(w, CF) if outs[i] and np.asarray(w).ndim == 4 else w for i, w in enumerate(want)]

    def tr(t):
        return X.Ten(np.transpose(t.a, CF), t.dt)

    def sf(feeds):
        return {k: tr(v) if k in ins and len(v.shape) == 4 else v for k, v in feeds.items()}

    def sw(want):
        return [tr(w) if outs[i] and len(w.shape) == 4 else w for i, w in enumerate(want)]
    return nf, nw, sf, sw


def W(*sh):
    n = int(np.prod(sh))
    return ((np.arange(n) * 7 + 3) % (2 * n + 1) - n).reshape(sh).astype(F) / 4


def perm(t, p):
    return tf.transpose(t, p)


def cond(p, a, b):
    return tf.cond(p, a, b)


# name -> (number of rank-4 inputs, number of outputs, builder of outputs from inputs); the inputs are (1|2, 2, 3, 2)
def programs():
    P = {}

    def add(n, ni, no, fn, **kw):
        P[n] = (ni, no, fn, kw)
    add("id", 1, 1, lambda x: x)
    add("relu", 1, 1, lambda x: tf.nn.relu(x))
    add("scale", 1, 1, lambda x: x * tf.constant([1., -2.]) + tf.constant([[[.5], [1.], [2.]]]))
    add("conv", 1, 1, lambda x: tf.nn.conv2d(x, W(2, 2, 2, 3), 1, "SAME"))
    add("convrelu", 1, 1, lambda x: tf.nn.relu(tf.nn.bias_add(tf.nn.conv2d(x, W(2, 2, 2, 3), 1, "VALID"), tf.constant([1., 0., -1.]))))
    add("conv2", 1, 1, lambda x: tf.nn.conv2d(tf.nn.relu(tf.nn.conv2d(x, W(1, 2, 2, 3), 1, "SAME")), W(2, 1, 3, 2), 1, "SAME"))
    add("pool", 1, 1, lambda x: tf.nn.max_pool2d(x, 2, 1, "VALID"))
    add("avgpool", 1, 1, lambda x: tf.nn.avg_pool2d(x, [1, 2], 1, "SAME"))
    add("dw", 1, 1, lambda x: tf.nn.depthwise_conv2d(x, W(2, 2, 2, 1), [1] * 4, "SAME"))
    add("s2d", 1, 1, lambda x: R.DepthToSpace(input=tf.concat([x, x * 2.], 3), block_size=2))
    add("mean", 1, 1, lambda x: tf.reduce_mean(x, [1, 2]))
    add("meank", 1, 1, lambda x: tf.reduce_mean(x, [1, 2], keepdims=True))
    add("sumc", 1, 1, lambda x: tf.reduce_sum(x, [3]))
    add("argmax", 1, 1, lambda x: tf.argmax(x, 3))
    add("softmax", 1, 1, lambda x: tf.nn.softmax(x))
    add("flat", 1, 1, lambda x: tf.reshape(x, [tf.shape(x)[0], -1]))
    add("shape", 1, 1, lambda x: tf.shape(x))
    add("shapemul", 1, 2, lambda x: (tf.shape(x)[1], x * 2.))
    add("slice", 1, 1, lambda x: x[:, :, 1:, :1])
    add("rank3", 1, 1, lambda x: x[:, 1])
    add("concat", 1, 1, lambda x: tf.concat([x, x + 1.], 3))
    add("split", 1, 2, lambda x: tf.split(x, 2, 3))
    add("pad", 1, 1, lambda x: tf.pad(x, [[0, 0], [1, 0], [0, 2], [0, 0]]))
    add("tocf", 1, 1, lambda x: perm(x, [0, 3, 1, 2]))
    add("tocffromcf", 1, 1, lambda x: perm(tf.nn.relu(perm(x, [0, 3, 1, 2])), [0, 2, 3, 1]))
    add("tocl", 1, 1, lambda x: perm(x, [0, 2, 3, 1]))
    add("bn", 1, 1, lambda x: tf.compat.v1.nn.fused_batch_norm(x, tf.constant([1., 2.]), tf.constant([.5, 0.]), tf.constant([0., 1.]), tf.constant([1., 2.]), is_training=False)[0])
    add("two", 2, 1, lambda x, y: x + y * 2.)
    add("twocat", 2, 1, lambda x, y: tf.concat([x, y], 3))
    add("twomm", 2, 1, lambda x, y: tf.matmul(x, y, transpose_b=True))
    add("twoout", 2, 2, lambda x, y: (x + y, x * y))
    add("passboth", 2, 2, lambda x, y: (y, x))
    add("three", 3, 1, lambda x, y, z: x - y + tf.nn.relu(z))
    # an output shares its producer with another consumer
    add("shared", 1, 2, lambda x: (lambda r: (r, r + 1.))(tf.nn.relu(x)))
    add("shared2", 1, 2, lambda x: (lambda r: (r, tf.reduce_sum(r, [3])))(tf.nn.relu(x)))
    add("sharedconv", 1, 2, lambda x: (lambda r: (r, tf.nn.conv2d(r, W(1, 1, 3, 2), 1, "SAME")))(tf.nn.conv2d(x, W(2, 2, 2, 3), 1, "SAME")))
    add("same2", 1, 2, lambda x: (lambda r: (r, r))(tf.nn.relu(x)))
    add("same3", 1, 3, lambda x: (lambda r: (r, r, r * 2.))(tf.nn.relu(x)))
    add("inout", 1, 2, lambda x: (x, tf.nn.relu(x)))
    add("inoutrank", 1, 2, lambda x: (x, tf.reduce_sum(x, [1])))
    add("chain", 1, 3, lambda x: (lambda a: (lambda b: (a, b, b - a))(tf.nn.relu(a)))(x * 2.))
    add("multiout", 1, 3, lambda x: (lambda s: (s[0], s[1], s[0] + s[1]))(tf.split(x, 2, 3)))
    add("unused", 2, 1, lambda x, y: tf.nn.relu(x))
    add("const", 1, 2, lambda x: (tf.constant(W(1, 2, 2, 3)), x + 1.))
    # captured by a branch
    add("cond", 1, 1, lambda x: cond(tf.reduce_sum(x) > 0., lambda: x * 2., lambda: x + tf.constant([1., 3.])))
    add("condout", 1, 2, lambda x: (lambda r: (r, cond(tf.reduce_sum(x) > 0., lambda: r * 2., lambda: x - 1.)))(tf.nn.relu(x)))
    add("cond2", 2, 1, lambda x, y: cond(tf.reduce_sum(x[:, 0]) > 0., lambda: tf.nn.relu(x) - y, lambda: tf.reduce_sum(y, [3], keepdims=True) + x))
    add("where", 2, 1, lambda x, y: tf.where(x > y, x, y * 2.))
    add("gather", 1, 1, lambda x: tf.gather(x, [1, 0], axis=3))
    add("tile", 1, 1, lambda x: tf.tile(x, [1, 2, 1, 1]))
    add("stack", 1, 1, lambda x: tf.stack([x[:, 0], x[:, 1]], 3))
    add("squeeze", 1, 1, lambda x: tf.squeeze(x[:, :1], [1]))
    add("transposed", 1, 1, lambda x: perm(x, [3, 2, 1, 0]))
    add("swap12", 1, 2, lambda x: (perm(x, [0, 2, 1, 3]), perm(x, [0, 3, 1, 2])))
    add("resize", 1, 1, lambda x: R.ResizeNearestNeighbor(images=x, size=tf.constant([4, 6])))
    add("cast", 1, 1, lambda x: tf.cast(x, tf.float64))
    return P


def jobs(tier):
    S = Suite(tier, quick=(9, 13, 18))
    q = tier == "quick"

    def go(fam, par, build, ins, outs, **kw):
        S.add(fam, par, build, convert={"inputs_as_nchw": [("x%s:0" % ("_%d" % i if i else "")) for i in range(len(ins)) if ins[i]],
                                        "outputs_as_nchw": [("y%s:0" % (i if i else "")) for i in range(len(outs)) if outs[i]]},
              adapt=adapt(["x%s:0" % ("_%d" % i if i else "") for i in range(len(ins)) if ins[i]], outs), **kw)
    for n, (ni, no, fn, kw) in programs().items():
        for bi, bo in itertools.product(itertools.product((1, 0), repeat=ni), itertools.product((1, 0), repeat=no)):
            for dn, d in (("st", None), ("nb", [None, 2, 3, 2]), ("ns", [None, None, None, 2]), ("na", [None] * 4)):
                def build(B, fn=fn, ni=ni, d=d):
                    xs = [B.input(F, (1, 2, 3, 2), decl="same" if d is None else d) for _ in range(ni)]
                    return fn(*xs)
                go(n, ("".join(map(str, bi)), "".join(map(str, bo)), dn), build, bi, bo)
    # the requested tensor is the operator's own result, which other operators may use as well
    def raw(B, *ts):
        for t in ts:
            B.raw_out(t)
    add = lambda a, b, name: R.AddV2(x=a, y=b, name=name)
    mul = lambda a, b, name: R.Mul(x=a, y=b, name=name)
    relu = lambda a, name: R.Relu(features=a, name=name)
    cv = lambda a, name: R.Conv2D(input=a, filter=tf.constant(W(2, 2, 2, 2)), strides=[1] * 4, padding="SAME", name=name)
    top = lambda a, name: R.TopKV2(input=a, k=tf.constant(2), name=name)[0]
    RAW = {
        "rawrelu": (1, 1, lambda B, x: raw(B, relu(x, "y"))),
        "rawadd": (2, 1, lambda B, x, z: raw(B, add(x, z, "y"))),
        "rawconv": (1, 1, lambda B, x: raw(B, cv(x, "y"))),
        "rawbias": (1, 1, lambda B, x: raw(B, R.BiasAdd(value=cv(x, "c"), bias=tf.constant([1., 2.]), name="y"))),
        "rawshared": (1, 2, lambda B, x: (lambda r: raw(B, r, add(r, x, "y1")))(relu(x, "y"))),
        "rawchain": (1, 3, lambda B, x: (lambda a: (lambda b: raw(B, a, b, mul(b, a, "y2")))(relu(a, "y1")))(add(x, x, "y"))),
        "rawid": (1, 1, lambda B, x: raw(B, tf.identity(x, name="y"))),
        "rawid2": (1, 2, lambda B, x: raw(B, tf.identity(x, name="y"), tf.identity(x, name="y1"))),
        "rawidrelu": (1, 2, lambda B, x: (lambda r: raw(B, tf.identity(r, name="y"), tf.identity(r, name="y1"), ))(relu(x, "r"))),
        "rawperm": (1, 2, lambda B, x: raw(B, R.Transpose(x=x, perm=tf.constant([0, 3, 1, 2]), name="y"), R.Transpose(x=x, perm=tf.constant([0, 2, 1, 3]), name="y1"))),
        "rawtop": (1, 2, lambda B, x: (lambda t: raw(B, t, tf.nn.relu(t, name="y1")))(top(x, "y"))),
        "rawsplit": (1, 2, lambda B, x: (lambda s: raw(B, s[0], relu(s[1], "y1")))(R.Split(axis=tf.constant(3), value=x, num_split=2, name="y"))),
        "rawconst": (1, 2, lambda B, x: raw(B, tf.constant(W(1, 2, 2, 3), name="y"), relu(x, "y1"))),
        "rawcond": (1, 1, lambda B, x: raw(B, tf.identity(cond(tf.reduce_sum(x) > 0., lambda: x * 2., lambda: x + tf.constant([1., 3.])), name="y"))),
    }
    for n, (ni, no, fn) in RAW.items():
        for bi, bo in itertools.product(itertools.product((1, 0), repeat=ni), itertools.product((1, 0), repeat=no)):
            for dn, d in (("st", None), ("na", [None] * 4)):
                go(n, ("".join(map(str, bi)), "".join(map(str, bo)), dn), lambda B, fn=fn, ni=ni, d=d: fn(B, *[B.input(F, (1, 2, 3, 2), decl="same" if d is None else d) for _ in range(ni)]), bi, bo)
    # other ranks are left alone, element types
    for sh in ((2, 3), (2, 3, 2), (2,), (), (1, 2, 2, 1, 2)):
        for bi, bo in ((1, 1), (1, 0), (0, 1)):
            go("rank", (sh, bi, bo), lambda B, sh=sh: tf.nn.relu(B.input(F, sh)) * 2., (bi,), (bo,))
            go("rankmix", (sh, bi, bo), lambda B, sh=sh: (B.input(F, (1, 2, 3, 2)) * 2., tf.nn.relu(B.input(F, sh))), (bi, bi), (bo, bo))
    for dt in (I32, I64, U8, F64, bool, np.float16, I8):
        for bi, bo in ((1, 1), (1, 0), (0, 1)):
            go("dt", (np.dtype(dt).name, bi, bo), lambda B, dt=dt: (lambda x: tf.concat([x, x[:, :, :, :1]], 3))(B.input(dt, (1, 2, 3, 2))), (bi,), (bo,))
            go("dtcast", (np.dtype(dt).name, bi, bo), lambda B, dt=dt: tf.cast(B.input(dt, (1, 2, 3, 2)), tf.float32), (bi,), (bo,))
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL + "; the source is composed with the requested layout permutations on both ends",
                    ["rank-4 inputs (1,2,3,2), up to three inputs and outputs, every subset of them requested channel-first",
                     "static, batch-unknown, batch-and-space-unknown and all-unknown declared dims", "opsets 9,13,18 (quick) or 9..18 (thorough)"],
                    ["tf2onnx.tfonnx.transpose_inputs", "tf2onnx.tfonnx.transpose_outputs", "tf2onnx.tfonnx.process_graphs", "tf2onnx.graph.Graph.insert_new_node_on_output", "tf2onnx.optimizer (mode o/g)"])
