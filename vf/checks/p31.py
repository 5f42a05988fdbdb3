"""P31 batch, layer, instance, local response and L2 normalisation, moments and cross-entropy losses."""
import itertools

import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P31"
run_job = V.run_job
R = tf.raw_ops
F16 = np.float16


def W(n, dt=F, off=0):
    return ((np.arange(n) * 5 % 7) - 2 + off).astype(dt)


def jobs(tier):
    S = Suite(tier, quick=(9, 13, 15, 18))
    q = tier == "quick"
    OP2 = (9, 15) if q else None
    # ------------------------------------------------------------ fused batch norm
    def fbn(B, sh, fmt, cm, dt=F, eps=1e-3, decl="same", which=(0,), v=3, tr=False, f=1.0, pd="same"):
        c = sh[-1] if fmt in ("NHWC", "NDHWC") else sh[1]
        p = []
        for k in range(4):
            if cm[k] == "c":
                p.append(tf.constant(W(c, F, k) if k != 3 else np.abs(W(c)) + .25, tf.float32))
            elif tr and k >= 2 and f == 1.0:
                p.append(tf.constant([], tf.float32))
            else:
                p.append(B.input(F, (c,), decl=pd, lo=0 if k == 3 else None))
        o = {1: R.FusedBatchNorm, 2: R.FusedBatchNormV2, 3: R.FusedBatchNormV3}[v]
        kw = dict(exponential_avg_factor=f) if tr else {}
        x = B.input(dt, sh, decl=decl)
        y = o(x=x, scale=p[0], offset=p[1], mean=p[2], variance=p[3], epsilon=eps, data_format=fmt, is_training=tr, **kw)
        return tuple(y[i] for i in which) if len(which) > 1 else y[which[0]]
    LAY = (((1, 2, 2, 3), "NHWC"), ((2, 3, 1, 2), "NCHW"), ((1, 2, 1, 2, 3), "NDHWC"), ((1, 3, 2, 1, 2), "NCDHW"), ((1, 3, 3, 3), "NHWC"), ((1, 3, 3, 3), "NCHW"))
    for (sh, fmt), cm in itertools.product(LAY, ("cccc", "rrrr", "ccrr", "rrcc", "rccr")):
        for decl in ("same", "dyn"):
            S.add("fbn", (sh, fmt, cm, decl), lambda B, sh=sh, fmt=fmt, cm=cm, decl=decl: fbn(B, sh, fmt, cm, decl=decl), ops=OP2)
    for sh, fmt in LAY:
        for eps in (0., 1e-5, 1e-4, 0.5):
            for v in (1, 2, 3):
                S.add("fbneps", (sh, fmt, eps, v), lambda B, sh=sh, fmt=fmt, eps=eps, v=v: fbn(B, sh, fmt, "ccrr" if eps else "rrcc", eps=eps, v=v), ops=OP2)
        for v in (2, 3):
            S.add("fbnhalf", (sh, fmt, v), lambda B, sh=sh, fmt=fmt, v=v: fbn(B, sh, fmt, "cccc", dt=F16, v=v), ops=OP2)
            S.add("fbnhalf2", (sh, fmt, v), lambda B, sh=sh, fmt=fmt, v=v: (lambda y: (y, tf.nn.relu(y)))(fbn(B, sh, fmt, "rrrr", dt=F16, v=v)), ops=OP2)
        S.add("fbnchan", (sh, fmt), lambda B, sh=sh, fmt=fmt: fbn(B, sh, fmt, "rrrr", decl=[None] * len(sh) if 1 else None), ops=OP2)
        S.add("fbnpdyn", (sh, fmt), lambda B, sh=sh, fmt=fmt: fbn(B, sh, fmt, "rrrr", pd="dyn"), ops=OP2)
        S.add("fbnpdyn2", (sh, fmt), lambda B, sh=sh, fmt=fmt: fbn(B, sh, fmt, "ccrr", pd="dyn"), ops=OP2)
        for wh in ((0, 1, 2), (1, 2), (0, 2)):
            S.add("fbnouts", (sh, fmt, wh), lambda B, sh=sh, fmt=fmt, wh=wh: fbn(B, sh, fmt, "rrrr", which=wh), ops=OP2)
        for decl in ("same", "dyn"):
            S.add("fbntrain", (sh, fmt, decl), lambda B, sh=sh, fmt=fmt, decl=decl: fbn(B, sh, fmt, "rrrr", tr=True, decl=decl), ops=OP2)
            S.add("fbntrainc", (sh, fmt, decl), lambda B, sh=sh, fmt=fmt, decl=decl: fbn(B, sh, fmt, "ccrr", tr=True, decl=decl), ops=OP2)
            S.add("fbntrainm", (sh, fmt, decl), lambda B, sh=sh, fmt=fmt, decl=decl: fbn(B, sh, fmt, "cccc", tr=True, decl=decl), ops=OP2)
        S.add("fbntrainh", (sh, fmt), lambda B, sh=sh, fmt=fmt: fbn(B, sh, fmt, "ccrr", tr=True, dt=F16), ops=OP2)
        S.add("fbntrainouts", (sh, fmt), lambda B, sh=sh, fmt=fmt: fbn(B, sh, fmt, "ccrr", tr=True, which=(0, 1, 2)), ops=OP2)
        # shared parameters, chains
        def shared(B, sh=sh, fmt=fmt):
            c = sh[-1] if fmt in ("NHWC", "NDHWC") else sh[1]
            g = tf.constant(W(c, F, 1))
            v = tf.constant(np.abs(W(c)) + 1.)
            bn = lambda x: R.FusedBatchNormV3(x=x, scale=g, offset=g, mean=g, variance=v, epsilon=1e-3, data_format=fmt, is_training=False)[0]
            return bn(tf.nn.relu(bn(B.input(F, sh)))), g * B.input(F, (c,))
        S.add("fbnshared", (sh, fmt), shared, ops=OP2)
    # convolution followed by batch norm (folded by the optimizer)
    for fmt in ("NHWC", "NCHW"):
        for bias in (None, "add", "ba"):
            for share in (0, 1):
                def cbn(B, fmt=fmt, bias=bias, share=share):
                    x = B.input(F, (1, 3, 3, 2) if fmt == "NHWC" else (1, 2, 3, 3))
                    c = R.Conv2D(input=x, filter=tf.constant(W(2 * 2 * 2 * 3).reshape(2, 2, 2, 3)), strides=[1] * 4, padding="VALID", data_format=fmt)
                    if bias == "ba":
                        c = R.BiasAdd(value=c, bias=tf.constant(W(3)), data_format=fmt)
                    elif bias:
                        c = c + tf.constant(W(3) if fmt == "NHWC" else W(3).reshape(3, 1, 1))
                    y = R.FusedBatchNormV3(x=c, scale=tf.constant(W(3, F, 1)), offset=tf.constant(W(3)), mean=tf.constant(W(3, F, 2)), variance=tf.constant([.75, 3., 8.]), epsilon=0.25, data_format=fmt, is_training=False)[0]
                    return (y, c) if share else y
                S.add("convbn", (fmt, bias, share), cbn, ops=(9, 13, 15, 18), opt="o")
    # ------------------------------------------------------------ composed normalisations
    for sh in ((2, 3), (2, 2, 3), (1, 2, 2, 3)):
        c = sh[-1]
        for cm in ("cccc", "rrrr"):
            def bnc(B, sh=sh, c=c, cm=cm, g=True, o=True):
                P = lambda k: tf.constant(W(c, F, k) if k != 3 else np.abs(W(c)) + .25, tf.float32) if cm[k] == "c" else B.input(F, (c,), lo=0 if k == 3 else None)
                return tf.nn.batch_normalization(B.input(F, sh), P(2), P(3), P(1) if o else None, P(0) if g else None, 1e-3)
            for g, o in itertools.product((True, False), repeat=2):
                S.add("bncomp", (sh, cm, g, o), lambda B, bnc=bnc, g=g, o=o: bnc(B, g=g, o=o), ops=OP2)
        for ax in ([0], [-1], list(range(len(sh))), list(range(len(sh) - 1)), [0, -1]):
            for kd in (False, True):
                for decl in ("same", "dyn"):
                    S.add("moments", (sh, ax, kd, decl), lambda B, sh=sh, ax=ax, kd=kd, decl=decl: tf.nn.moments(B.input(F, sh, decl=decl), ax, keepdims=kd), ops=OP2)
        for ax in (-1, 0, [0, 1], None):
            for eps in (1e-12, 0.25):
                S.add("l2n", (sh, ax, eps), lambda B, sh=sh, ax=ax, eps=eps: tf.nn.l2_normalize(B.input(F, sh), ax, eps), ops=OP2)
        # layer / instance / group norm written out
        for ax in ([len(sh) - 1], list(range(1, len(sh)))):
            def lnorm(B, sh=sh, ax=ax, r=1):
                x = B.input(F, sh)
                m, v = tf.nn.moments(x, ax, keepdims=True)
                y = (x - m) * tf.math.rsqrt(v + 1e-3) if r else (x - m) / tf.sqrt(v + 1e-3)
                return y * B.input(F, (sh[-1],)) + B.input(F, (sh[-1],))
            for r in (0, 1):
                S.add("lnorm", (sh, ax, r), lambda B, lnorm=lnorm, r=r: lnorm(B, r=r), ops=(9, 17) if q else None)
    for sh, r in itertools.product(((1, 1, 2, 5), (2, 1, 1, 4), (1, 2, 2, 1)), (0, 1, 2, 5)):
        for al, be, bi in ((1.0, 0.5, 1.0), (0.5, 1.0, 2.0), (0.125, 0.75, 1.0)):
            for decl in ("same", "dyn"):
                S.add("lrn", (sh, r, al, be, bi, decl), lambda B, sh=sh, r=r, al=al, be=be, bi=bi, decl=decl: R.LRN(input=B.input(F, sh, decl=decl), depth_radius=r, alpha=al, beta=be, bias=bi), ops=OP2)
        S.add("lrnh", (sh, r), lambda B, sh=sh, r=r: R.LRN(input=B.input(F16, sh), depth_radius=r, beta=1.0), ops=OP2)
        S.add("lrn2", (sh, r), lambda B, sh=sh, r=r: (lambda x: (lambda y: (R.LRN(input=tf.nn.relu(y), depth_radius=r, beta=1.0), y, x * 2.))(R.LRN(input=x, depth_radius=r, beta=1.0)))(B.input(F, sh)), ops=OP2)
    S.add("lrndef", (), lambda B: tf.nn.local_response_normalization(B.input(F, (1, 1, 1, 3))))
    # ------------------------------------------------------------ losses
    for n, k in ((2, 3), (1, 1), (3, 2), (1, 4)):
        for decl in ("same", "dyn", [None, "same"], ["same", None]):
            d = decl if isinstance(decl, str) else [x if x is None else y for x, y in zip(decl, (n, k))]
            for dt in (F, F64) if decl in ("same", "dyn") else (F,):
                nm = np.dtype(dt).name
                S.add("sce", (n, k, d, nm), lambda B, n=n, k=k, d=d, dt=dt: R.SoftmaxCrossEntropyWithLogits(features=B.input(dt, (n, k), decl=d), labels=B.input(dt, (n, k), decl=d))[0], ops=OP2)
                for lt in (I32, I64):
                    for oh in ("oh", "any"):
                        S.add("ssce", (n, k, d, nm, np.dtype(lt).name), lambda B, n=n, k=k, d=d, dt=dt, lt=lt: R.SparseSoftmaxCrossEntropyWithLogits(features=B.input(dt, (n, k), decl=d), labels=B.input(lt, (n,), lo=0, hi=k - 1, decl=d if isinstance(d, str) else d[:1]))[0], ops=OP2) if oh == "oh" else None
        S.add("sceb", (n, k), lambda B, n=n, k=k: R.SoftmaxCrossEntropyWithLogits(features=B.input(F, (n, k)), labels=B.input(F, (1, k)))[0], ops=OP2)
        S.add("sceb2", (n, k), lambda B, n=n, k=k: R.SoftmaxCrossEntropyWithLogits(features=B.input(F, (1, k)), labels=B.input(F, (n, k)))[0], ops=OP2)
        S.add("scec", (n, k), lambda B, n=n, k=k: R.SoftmaxCrossEntropyWithLogits(features=B.input(F, (n, k)), labels=tf.constant(np.eye(k, dtype=F)[np.arange(n) % k]))[0], ops=OP2)
        S.add("sceboth", (n, k), lambda B, n=n, k=k: tuple(R.SoftmaxCrossEntropyWithLogits(features=B.input(F, (n, k)), labels=B.input(F, (n, k)))), ops=OP2)
        S.add("ssceboth", (n, k), lambda B, n=n, k=k: tuple(R.SparseSoftmaxCrossEntropyWithLogits(features=B.input(F, (n, k)), labels=B.input(I32, (n,), lo=0, hi=k - 1))), ops=OP2)
        S.add("sscec", (n, k), lambda B, n=n, k=k: R.SparseSoftmaxCrossEntropyWithLogits(features=B.input(F, (n, k)), labels=tf.constant(np.arange(n) % k, tf.int32))[0], ops=OP2)
        for oh_dt in (I32, F):
            # one-hot labels made in the graph are recognised by a rewriter
            S.add("sceoh", (n, k, np.dtype(oh_dt).name), lambda B, n=n, k=k, oh_dt=oh_dt: R.SoftmaxCrossEntropyWithLogits(features=B.input(F, (n, k)), labels=tf.cast(tf.one_hot(B.input(I32, (n,), lo=-1, hi=k), k, dtype=tf.as_dtype(oh_dt)), tf.float32))[0], ops=OP2)
        # logits or labels that are not the first output of their operator
        S.add("scesplit", (n, k), lambda B, n=n, k=k: (lambda a, b: R.SoftmaxCrossEntropyWithLogits(features=a[1], labels=b[1])[0])(tf.split(B.input(F, (n, 2 * k)), 2, 1), tf.unstack(B.input(F, (2, n, k)))), ops=OP2)
        S.add("sscesplit", (n, k), lambda B, n=n, k=k: (lambda a, b: R.SparseSoftmaxCrossEntropyWithLogits(features=a[1], labels=b[1])[0])(tf.split(B.input(F, (n, 2 * k)), 2, 1), tf.unstack(B.input(I32, (2, n), lo=0, hi=k - 1))), ops=OP2)
        for ax in (-1, 0):
            S.add("tfsce", (n, k, ax), lambda B, n=n, k=k, ax=ax: tf.nn.softmax_cross_entropy_with_logits(B.input(F, (n, k)), B.input(F, (n, k)), axis=ax), ops=OP2)
        S.add("tfssce", (n, k), lambda B, n=n, k=k: tf.nn.sparse_softmax_cross_entropy_with_logits(B.input(I32, (n,), lo=0, hi=k - 1), B.input(F, (n, k))), ops=OP2)
    for sh in ((2, 2, 3), (1, 2, 2, 2)):
        for decl in ("same", "dyn"):
            S.add("tfsce3", (sh, decl), lambda B, sh=sh, decl=decl: tf.nn.softmax_cross_entropy_with_logits(B.input(F, sh, decl=decl), B.input(F, sh, decl=decl)), ops=OP2)
            S.add("tfssce3", (sh, decl), lambda B, sh=sh, decl=decl: tf.nn.sparse_softmax_cross_entropy_with_logits(B.input(I32, sh[:-1], lo=0, hi=sh[-1] - 1, decl=decl), B.input(F, sh, decl=decl)), ops=OP2)
        for ax in range(-1, len(sh)):
            S.add("softax", (sh, ax), lambda B, sh=sh, ax=ax: (tf.nn.softmax(B.input(F, sh), axis=ax), tf.nn.log_softmax(B.input(F, sh), axis=ax)), ops=OP2)
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL,
                    ["ranks 2-5, dims <= 5, every layout, constant and run-time parameters, static and unknown dims", "opsets 9..18 (quick: 9 and 15, 17)",
                     "batch norm in training mode only with an averaging factor of one (the converter documents the others as unsupported)"],
                    ["tf2onnx.onnx_opset.nn.BatchNorm", "tf2onnx.onnx_opset.math.LRN", "tf2onnx.onnx_opset.nn.SoftmaxCrossEntropyWithLogits", "tf2onnx.onnx_opset.nn.SparseSoftmaxCrossEntropyWithLogits",
                     "tf2onnx.onnx_opset.math.Softmax", "tf2onnx.rewriter.layer_normalization_rewriter", "tf2onnx.optimizer.back_to_back_optimizer"])
