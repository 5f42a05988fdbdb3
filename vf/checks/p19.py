"""P19 operator patterns the converter recognises and replaces, and their look-alikes."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf
from tensorflow.core.framework import attr_value_pb2 as AV

PROP = "P19"
run_job = V.run_job
R = tf.raw_ops
F16 = np.float16


def const(sh, dt=F, mul=1.0):
    n = int(np.prod(sh)) if len(sh) else 1
    return ((np.arange(n) % 7 - 3) * mul + (0.5 if np.dtype(dt).kind == "f" else 0)).astype(dt).reshape(sh)


def fused(kind, ins, ops, nargs, **at):
    """a node of a type only TensorFlow's own graph rewriting creates"""
    g = tf.compat.v1.get_default_graph()
    attrs = {"T": AV.AttrValue(type=1), "num_args": AV.AttrValue(i=nargs), "fused_ops": AV.AttrValue(list=AV.AttrValue.ListValue(s=[o.encode() for o in ops]))}
    for k, v in at.items():
        if isinstance(v, bool):
            attrs[k] = AV.AttrValue(b=v)
        elif isinstance(v, float):
            attrs[k] = AV.AttrValue(f=v)
        elif isinstance(v, str):
            attrs[k] = AV.AttrValue(s=v.encode())
        else:
            attrs[k] = AV.AttrValue(list=AV.AttrValue.ListValue(i=v))
    if kind == "_FusedConv2D":
        attrs["TArgs"] = AV.AttrValue(list=AV.AttrValue.ListValue(type=[1] * nargs))
    try:
        return g.create_op(kind, ins, [tf.float32], attrs=attrs).outputs[0]
    except TypeError as e:
        raise ValueError(str(e))


def jobs(tier):
    S = Suite(tier)
    q = tier == "quick"
    OP3 = (9, 11, 13, 18) if q else None
    nm = lambda t: np.dtype(t).name
    sl = lambda s, b=0, e=1, st=1, shrink=1, bm=0, em=0: R.StridedSlice(input=s, begin=tf.constant([b]), end=tf.constant([e]), strides=tf.constant([st]), shrink_axis_mask=shrink, begin_mask=bm, end_mask=em)
    # ------------------------------------------------------------ flatten
    SH = ((2, 3), (2, 1, 3), (3, 2, 2), (1, 2, 1, 2), (2,), (6, 1), (2, 2, 1, 1, 3))
    for sh in SH:
        for decl in ("same", "dyn", "rank", [None] + list(sh[1:]), list(sh[:-1]) + [None]):
            D = str(decl)
            S.add("flat", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, tf.stack([sl(tf.shape(x)), -1])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatshare", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: (lambda b: (tf.reshape(x, tf.stack([b, -1])), b, x * 2.))(sl(tf.shape(x))))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatsharep", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: (lambda p: (tf.reshape(x, p), p, tf.reshape(x + 1., p)))(tf.stack([sl(tf.shape(x)), -1])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatotherdim", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, tf.stack([sl(tf.shape(x), -1, 0, shrink=1, em=1), -1])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatdim1", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, tf.stack([sl(tf.shape(x), 1, 2), -1])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatbm", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, tf.stack([sl(tf.shape(x), 1, 1, shrink=0, bm=1)[0], -1])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatrev", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, tf.stack([-1, sl(tf.shape(x))])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatfix", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, tf.stack([sl(tf.shape(x)), int(np.prod(sh[1:]))])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatax", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, R.Pack(values=[sl(tf.shape(x)), tf.constant(-1)], axis=-1)))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flat64", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, tf.stack([sl(tf.shape(x, out_type=tf.int64)), tf.constant(-1, tf.int64)])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatc", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(x, tf.stack([sl(tf.constant(list(sh))), -1])))(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatchain", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(tf.nn.relu(x), tf.stack([sl(tf.shape(x)), -1])) * 2.)(B.input(F, sh, decl=decl)), ops=OP3)
            S.add("flatfrom", (sh, D), lambda B, sh=sh, decl=decl: (lambda x: tf.reshape(tf.transpose(x), tf.stack([sl(tf.shape(x)), -1])))(B.input(F, sh, decl="dyn" if decl == "rank" else decl)), ops=OP3)
        for dt in (I32, I64, F64, F16, bool, I8):
            S.add("flatdt", (sh, nm(dt)), lambda B, sh=sh, dt=dt: (lambda x: tf.reshape(x, tf.stack([sl(tf.shape(x)), -1])))(B.input(dt, sh, decl="dyn")), ops=OP3)
        for sh2 in ((2,), (3, 2), (1, 4), (6,), (12, 1)):
            if int(np.prod(sh)) % sh2[0] == 0:
                S.add("flatother", (sh, sh2), lambda B, sh=sh, sh2=sh2: tf.reshape(B.input(F, sh), tf.stack([sl(tf.shape(B.input(F, sh2, decl="dyn"))), -1])), ops=OP3)
                S.add("flatotherd", (sh, sh2), lambda B, sh=sh, sh2=sh2: tf.reshape(B.input(F, sh, decl="dyn"), tf.stack([sl(tf.shape(B.input(F, sh2, decl="dyn"))), -1])), ops=OP3)
                S.add("flatconst", (sh, sh2), lambda B, sh=sh, sh2=sh2: tf.reshape(B.input(F, sh), tf.stack([sl(tf.constant(list(sh2) + [1])), -1])), ops=OP3)
    S.add("flat0", (), lambda B: (lambda x: tf.reshape(x, tf.stack([sl(tf.shape(x)), 3])))(B.input(F, (0, 3), decl="dyn")), ops=OP3)
    # ------------------------------------------------------------ leaky relu
    for al in (0.1, 0.0, -0.5, 1.0, 2.0, 0.999, [0.1], [[0.1]], [[[0.3]]], [0.1, 0.2, 2.], [[0.5], [0.25]], [2.]):
        for form in range(7):
            def lr(B, al=al, form=form):
                x, a = B.input(F, (2, 3)), tf.constant(al, tf.float32)
                y = B.input(F, (2, 3)) if form == 3 else None
                return [lambda: tf.maximum(a * x, x), lambda: tf.maximum(x, x * a), lambda: tf.maximum(x * a, x), lambda: tf.maximum(a * x, y),
                        lambda: (lambda m: (tf.maximum(m, x), m))(a * x), lambda: tf.minimum(a * x, x), lambda: tf.nn.relu(tf.maximum(a * tf.nn.tanh(x), x))][form]()
            S.add("lrelu", (al, form), lr, ops=OP3)
        for decl in ("dyn", "rank"):
            S.add("lreludecl", (al, decl), lambda B, al=al, decl=decl: (lambda x: tf.maximum(tf.constant(al, tf.float32) * x, x))(B.input(F, (2, 3), decl=decl)), ops=OP3)
    for al, sh in ((0.1, ()), ([0.1], ()), ([[0.1]], ()), ([[0.1]], (3,)), ([0.1, 0.2], (1,)), ([0.1, 0.2], ()), ([0.1, 0.2], (2, 1)), (0.1, (0, 2))):
        S.add("lrelur", (al, sh), lambda B, al=al, sh=sh: (lambda x: tf.maximum(tf.constant(al, tf.float32) * x, x))(B.input(F, sh)), ops=OP3)
        S.add("lrelurd", (al, sh), lambda B, al=al, sh=sh: (lambda x: tf.maximum(tf.constant(al, tf.float32) * x, x))(B.input(F, sh, decl="dyn")), ops=OP3)
    for dt, als in ((F64, (0.1, 2.)), (F16, (0.1,)), (I32, (0, -2, 1, 3)), (I64, (0, -1))):
        for al in als:
            S.add("lreludt", (nm(dt), al), lambda B, dt=dt, al=al: (lambda x: tf.maximum(tf.constant(al, dt) * x, x))(B.input(dt, (2, 3))), ops=OP3)
    for al in (0.1, 0.0, -0.3, 1.0, 1.5):
        S.add("lrelunative", (al,), lambda B, al=al: R.LeakyRelu(features=B.input(F, (2, 3)), alpha=al), ops=OP3)
        S.add("lrelukeras", (al,), lambda B, al=al: tf.nn.leaky_relu(B.input(F, (2, 3)), alpha=al), ops=OP3)
        S.add("lreluwhere", (al,), lambda B, al=al: (lambda x: tf.where(x > 0., x, al * x))(B.input(F, (2, 3))), ops=OP3)
    # ------------------------------------------------------------ thresholded relu
    for th in (0.5, 0.0, -1.0, [0.5], [[0.25]], [[[0.5]]], [0.5, 1.0, -2.0], [[0.5], [1.]]):
        for form in range(13):
            def trl(B, th=th, form=form):
                x, t = B.input(F, (2, 3)), tf.constant(th, tf.float32)
                y = B.input(F, (2, 3)) if form in (4, 5) else None
                c = lambda b: tf.cast(b, tf.float32)
                return [lambda: c(tf.greater(x, t)) * x, lambda: x * c(tf.greater(x, t)), lambda: x * c(tf.greater(t, x)), lambda: c(tf.greater(t, x)) * x, lambda: y * c(tf.greater(x, t)),
                        lambda: x * c(tf.greater(y, t)), lambda: x * c(tf.greater_equal(x, t)), lambda: x * c(tf.less(x, t)), lambda: x * c(tf.less(t, x)),
                        lambda: (lambda m: (m * x, m))(c(tf.greater(x, t))), lambda: (lambda b: (c(b) * x, b))(tf.greater(x, t)), lambda: x * c(tf.cast(tf.greater(x, t), tf.int32)), lambda: t * c(tf.greater(x, t))][form]()
            S.add("trelu", (th, form), trl, ops=OP3)
        S.add("treludyn", (th,), lambda B, th=th: (lambda x: x * tf.cast(x > tf.constant(th, tf.float32), tf.float32))(B.input(F, (2, 3), decl="dyn")), ops=OP3)
        S.add("trelurank", (th,), lambda B, th=th: (lambda x: x * tf.cast(x > tf.constant(th, tf.float32), tf.float32))(B.input(F, (2, 3), decl="rank")), ops=OP3)
    for dt in (F64, F16, I32, I64):
        S.add("treludt", (nm(dt),), lambda B, dt=dt: (lambda x: x * tf.cast(x > tf.constant(1, dt), dt))(B.input(dt, (2, 3))), ops=OP3)
    for th, sh in ((0.5, ()), ([0.5], ()), ([[0.5]], (3,)), ([0.5, 1.], (1,)), ([0.5, 1.], ())):
        S.add("trelur", (th, sh), lambda B, th=th, sh=sh: (lambda x: x * tf.cast(x > tf.constant(th, tf.float32), tf.float32))(B.input(F, sh)), ops=OP3)
    # ------------------------------------------------------------ layer normalisation
    AX = ([2], [-1], [1], [0], [1, 2], [0, 2])
    for form in range(12):
        for ax in AX if form in (0, 6) else ([2],):
            for ax2 in ((ax, [1]) if form == 0 else (ax,)):
                for eps in ((1e-3, 0.0, 0.5) if ax == [2] and form < 3 else (1e-2,)):
                    for gsh in (((3,), (1, 1, 3), (2, 3)) if form in (0, 1, 2) and ax == [2] and eps == 1e-3 else ((3,),)):
                        def ln(B, form=form, ax=ax, ax2=ax2, eps=eps, gsh=gsh):
                            x = B.input(F, (1, 2, 3))
                            g, b = B.input(F, gsh), B.input(F, gsh)
                            m = tf.reduce_mean(x, ax, keepdims=True)
                            kd = form != 11
                            v = tf.reduce_mean(R.Square(x=x - m), ax2, keepdims=kd)
                            if form == 7:
                                v = tf.reduce_mean(R.Square(x=m - x), ax2, keepdims=True)
                            r = R.Rsqrt(x=R.Add(x=v, y=tf.constant(eps)) if form != 8 else R.AddV2(x=v, y=tf.constant(eps)))
                            d = x - m
                            if form == 3:
                                d = m - x
                            if form == 4:
                                d = x - tf.reduce_mean(x, ax, keepdims=True)
                            if form == 5:
                                d = B.input(F, (1, 2, 3)) - m
                            M, A = (lambda p, s: R.Mul(x=p, y=s)), (lambda p, s: R.Add(x=p, y=s))
                            if form in (0, 3, 5, 7, 8, 11):
                                return A(M(M(r, g), d), b)
                            if form in (1, 4):
                                return A(M(M(r, d), g), b)
                            if form == 2:
                                return A(M(M(g, d), r), b)
                            if form == 6:
                                return A(b, M(d, M(g, r)))
                            if form == 9:
                                s = M(M(r, g), d)
                                return A(s, b), s, m
                            if form == 10:
                                return R.Sub(x=M(M(r, g), d), y=b)
                        S.add("ln", (form, ax, ax2, eps, gsh), ln, ops=OP3 and (9, 13))
    for sh, ax in (((2, 3), [1]), ((1, 2, 2, 2), [3]), ((2, 2, 1), [2])):
        def ln2(B, sh=sh, ax=ax):
            x = B.input(F, sh)
            m = tf.reduce_mean(x, ax, keepdims=True)
            v = tf.reduce_mean(R.Square(x=x - m), ax, keepdims=True)
            return R.Add(x=R.Mul(x=R.Mul(x=R.Rsqrt(x=R.Add(x=v, y=tf.constant(1e-2))), y=B.input(F, sh[-1:])), y=x - m), y=B.input(F, sh[-1:]))
        S.add("lnrank", (sh, ax), ln2, ops=OP3)
    for dt in (F64,):
        def ln3(B, dt=dt):
            x = B.input(dt, (1, 2, 3))
            m = tf.reduce_mean(x, [2], keepdims=True)
            v = tf.reduce_mean(R.Square(x=x - m), [2], keepdims=True)
            return R.Add(x=R.Mul(x=R.Mul(x=R.Rsqrt(x=R.Add(x=v, y=tf.constant(1e-2, dt))), y=B.input(dt, (3,))), y=x - m), y=B.input(dt, (3,)))
        S.add("lndt", (nm(dt),), ln3, ops=OP3)

    def ln4(B, decl):
        x = B.input(F, (1, 2, 3), decl=decl)
        m = tf.reduce_mean(x, [2], keepdims=True)
        v = tf.reduce_mean(R.Square(x=x - m), [2], keepdims=True)
        return R.Add(x=R.Mul(x=R.Mul(x=R.Rsqrt(x=R.Add(x=v, y=tf.constant(1e-2))), y=tf.constant([1., 2., -.5])), y=x - m), y=tf.constant([.5, 0., -1.]))
    for decl in ("same", "dyn", "rank", [None, 2, 3], [None, None, 3]):
        S.add("lndecl", (str(decl),), lambda B, decl=decl: ln4(B, decl), ops=OP3 and (9, 13))
    # a mean without kept dimensions
    S.add("lnnokeep", (), lambda B: (lambda x: (lambda m: (lambda v: R.Add(x=R.Mul(x=R.Mul(x=R.Rsqrt(x=R.Add(x=v, y=tf.constant(1e-2))), y=B.input(F, (2,))), y=x - m), y=B.input(F, (2,))))(tf.reduce_mean(R.Square(x=x - m), [2])))(tf.reduce_mean(x, [2])))(B.input(F, (1, 2, 2))), ops=OP3)
    # ------------------------------------------------------------ transpose of run-time rank
    for sh in ((2, 3), (2, 1, 3), (1, 2, 1, 3), (3,)):
        for decl in ("dyn", "rank"):
            S.add("trdef", (sh, decl), lambda B, sh=sh, decl=decl: tf.transpose(B.input(F, sh, decl=decl)), ops=OP3)
        n = len(sh)
        for a, b, st, lim, step in ((n, 1, 0, n, 1), (n, 0, 1, n + 1, 1), (n + 1, 2, 0, n, 1), (2 * n - 2, 0, n - 1, 2 * n - 1, 1), (0, 0, 0, -n, -1), (n - 1, n - 1, 0, -n, -1)):
            S.add("trperm", (sh, a, b, st, lim, step), lambda B, sh=sh, a=a, b=b, st=st, lim=lim, step=step: (lambda x, z: tf.transpose(x, (z + a - b) - tf.range(z + st, z + lim, step)) if False else R.Transpose(
                x=x, perm=R.Sub(x=R.Sub(x=z + a, y=tf.constant(b)), y=R.Range(start=tf.constant(st), limit=z + lim, delta=tf.constant(step)))))(B.input(F, sh), B.input(I32, (), value=np.array(0, np.int32))), ops=OP3)
        S.add("trshare", (sh,), lambda B, sh=sh: (lambda x: (lambda p: (R.Transpose(x=x, perm=p), p))((tf.rank(x) - 1) - tf.range(0, tf.rank(x), 1)))(B.input(F, sh, decl="dyn")), ops=OP3)
    # ------------------------------------------------------------ convolution + bias, pad + convolution
    K = const((2, 2, 2, 3))
    for fmt in ("NHWC", "NCHW"):
        xs = (1, 3, 3, 2) if fmt == "NHWC" else (1, 2, 3, 3)
        for bfmt in (fmt,):   # TensorFlow's own remapping ignores a bias of the other layout
            for pad in ("SAME", "VALID"):
                def cb(B, fmt=fmt, bfmt=bfmt, pad=pad, xs=xs, k=0):
                    sq = bfmt != fmt
                    kk = const((2, 2, 2, 3))
                    x = B.input(F, xs if not sq else ((1, 4, 4, 2) if fmt == "NHWC" else (1, 2, 4, 4)))
                    c = R.Conv2D(input=x, filter=tf.constant(kk), strides=[1] * 4, padding="VALID" if sq else pad, data_format=fmt)
                    y = R.BiasAdd(value=c, bias=B.input(F, (3,)), data_format=bfmt)
                    return (y, c) if k == 1 else ((y, y * 2.) if k == 2 else y)
                for k in (0, 1, 2):
                    S.add("convbias", (fmt, bfmt, pad, k), lambda B, cb=cb, k=k: cb(B, k=k), ops=OP3)
        S.add("convtbias", (fmt,), lambda B, fmt=fmt: R.BiasAdd(value=R.Conv2DBackpropInput(input_sizes=tf.constant([1, 4, 4, 2] if fmt == "NHWC" else [1, 2, 4, 4]), filter=tf.constant(K),
              out_backprop=B.input(F, (1, 3, 3, 3)), strides=[1] * 4, padding="VALID", data_format=fmt), bias=B.input(F, (2,)), data_format=fmt), ops=OP3)
        S.add("convbiasrelu", (fmt,), lambda B, fmt=fmt, xs=xs: tf.nn.relu(R.BiasAdd(value=R.Conv2D(input=B.input(F, xs), filter=tf.constant(K), strides=[1] * 4, padding="SAME", data_format=fmt), bias=tf.constant([1., -2., .5]), data_format=fmt)), ops=OP3)
        S.add("convbiasdyn", (fmt,), lambda B, fmt=fmt, xs=xs: R.BiasAdd(value=R.Conv2D(input=B.input(F, xs, decl="dyn"), filter=tf.constant(K), strides=[1] * 4, padding="SAME", data_format=fmt), bias=tf.constant([1., -2., .5]), data_format=fmt), ops=OP3)
        ch = 3 if fmt == "NHWC" else 1
        sp = (1, 2) if fmt == "NHWC" else (2, 3)
        for n, pp in enumerate(([(1, 1), (1, 1)], [(1, 0), (0, 2)], [(0, 0), (2, 1)], [(0, 0), (0, 0)])):
            for form in range(9):
                def pc(B, pp=pp, fmt=fmt, form=form, xs=xs, sp=sp, ch=ch):
                    x = B.input(F, xs)
                    P = [[0, 0] for _ in range(4)]
                    P[sp[0]], P[sp[1]] = list(pp[0]), list(pp[1])
                    if form == 1:
                        P[0] = [1, 0]
                    kk = K
                    if form == 2:
                        P[ch] = [1, 0]
                        kk = const((2, 2, 3, 3))
                    if form == 3:
                        p = R.PadV2(input=x, paddings=tf.constant(P), constant_values=tf.constant(1.5))
                    elif form == 4:
                        if pp == [(1, 0), (0, 2)]:
                            raise ValueError
                        p = R.MirrorPad(input=x, paddings=tf.constant(P), mode="REFLECT")
                    elif form == 5:
                        p = R.PadV2(input=x, paddings=tf.constant(P), constant_values=tf.constant(0.))
                    elif form == 6:
                        p = R.Pad(input=x, paddings=B.input(I32, (4, 2), value=np.array(P, np.int32)))
                    else:
                        p = R.Pad(input=x, paddings=tf.constant(P))
                    c = R.Conv2D(input=p, filter=tf.constant(kk), strides=[1] * 4 if form != 7 else ([1, 2, 1, 1] if fmt == "NHWC" else [1, 1, 2, 1]), padding="VALID" if n_(form) else "SAME", data_format=fmt)
                    return (c, p) if form == 8 else c
                n_ = lambda form: form not in (0,)
                S.add("padconv", (fmt, n, form), pc, ops=OP3)
                if form == 0:
                    S.add("padconvv", (fmt, n), lambda B, pp=pp, fmt=fmt, xs=xs, sp=sp: (lambda P: R.Conv2D(input=R.Pad(input=B.input(F, xs), paddings=tf.constant(P)), filter=tf.constant(K), strides=[1] * 4, padding="VALID", data_format=fmt))(
                        [list(pp[sp.index(i)]) if i in sp else [0, 0] for i in range(4)]), ops=OP3)
                    S.add("padconvd", (fmt, n), lambda B, pp=pp, fmt=fmt, xs=xs, sp=sp: (lambda P: R.Conv2D(input=R.Pad(input=B.input(F, xs, decl="dyn"), paddings=tf.constant(P)), filter=tf.constant(K), strides=[1] * 4, padding="VALID", data_format=fmt,
                        dilations=[1, 2, 1, 1] if fmt == "NHWC" else [1, 1, 2, 1]))([list(pp[sp.index(i)]) if i in sp else [0, 0] for i in range(4)]), ops=OP3)
                    S.add("padconvx", (fmt, n), lambda B, pp=pp, fmt=fmt, xs=xs, sp=sp: (lambda P: R.Conv2D(input=R.Pad(input=B.input(F, xs), paddings=tf.constant(P)), filter=tf.constant(K), strides=[1] * 4, padding="EXPLICIT", data_format=fmt,
                        explicit_paddings=[0, 0, 1, 0, 0, 1, 0, 0] if fmt == "NHWC" else [0, 0, 0, 0, 1, 0, 0, 1]))([list(pp[sp.index(i)]) if i in sp else [0, 0] for i in range(4)]), ops=OP3)
                    S.add("padpadconv", (fmt, n), lambda B, pp=pp, fmt=fmt, xs=xs, sp=sp: (lambda P: R.Conv2D(input=R.Pad(input=R.Pad(input=B.input(F, xs), paddings=tf.constant(P)), paddings=tf.constant(P)), filter=tf.constant(K), strides=[1] * 4, padding="VALID", data_format=fmt))(
                        [list(pp[sp.index(i)]) if i in sp else [0, 0] for i in range(4)]), ops=OP3)
    # ------------------------------------------------------------ dilated convolution as space-to-batch, conv, batch-to-space
    def dil(B, sh, ks, block, pads, crops, strides=None, dilations=None, padding="VALID", keep=0, decl="same", bc=None, kind="conv"):
        x = B.input(F, sh, decl=decl)
        s = R.SpaceToBatchND(input=x, block_shape=tf.constant(block), paddings=tf.constant(pads))
        k = tf.constant(const(ks))
        nd = len(sh)
        st = strides or [1] * nd
        dl = dilations or [1] * nd
        if kind == "dw":
            c = R.DepthwiseConv2dNative(input=s, filter=k, strides=st, padding=padding, dilations=dl)
        elif nd == 5:
            c = R.Conv3D(input=s, filter=k, strides=st, padding=padding, dilations=dl)
        else:
            c = R.Conv2D(input=s, filter=k, strides=st, padding=padding, dilations=dl)
        y = R.BatchToSpaceND(input=c, block_shape=tf.constant(bc or block), crops=tf.constant(crops))
        return [y, (y, c), (y, s), (y, x), (y, y + 1.), (y, R.BatchToSpaceND(input=c, block_shape=tf.constant(bc or block), crops=tf.constant(crops)))][keep]
    Z2 = [[0, 0], [0, 0]]
    D2 = [((1, 4, 4, 2), (2, 2, 2, 1), [2, 2], Z2, Z2), ((1, 6, 6, 1), (2, 2, 1, 2), [2, 2], Z2, Z2), ((1, 5, 5, 1), (2, 2, 1, 1), [2, 2], [[1, 2], [2, 1]], [[0, 1], [0, 0]]), ((1, 5, 4, 1), (2, 2, 1, 1), [2, 2], [[0, 1], [0, 0]], [[0, 1], [0, 0]]),
          ((1, 5, 4, 1), (2, 2, 1, 1), [2, 2], [[0, 1], [0, 0]], Z2), ((1, 4, 4, 1), (2, 2, 1, 1), [2, 2], [[1, 1], [1, 1]], Z2), ((1, 4, 4, 1), (2, 2, 1, 1), [2, 2], [[1, 1], [1, 1]], [[1, 0], [0, 0]]), ((1, 4, 4, 1), (2, 2, 1, 1), [2, 2], [[2, 2], [2, 2]], [[0, 1], [0, 1]]),
          ((1, 4, 4, 1), (2, 2, 1, 1), [2, 2], [[2, 2], [2, 2]], [[0, 2], [0, 0]]), ((1, 6, 3, 1), (2, 2, 1, 1), [2, 1], Z2, Z2), ((1, 6, 6, 1), (2, 2, 1, 1), [3, 2], Z2, Z2), ((2, 4, 4, 1), (1, 2, 1, 1), [2, 2], Z2, Z2),
          ((1, 4, 4, 1), (2, 2, 1, 1), [2, 2], Z2, [[0, 1], [0, 0]]), ((1, 4, 4, 1), (2, 2, 1, 1), [1, 1], Z2, Z2)]
    for n, (sh, ks, block, pads, crops) in enumerate(D2):
        for decl in ("same", "dyn"):
            S.add("dil", (n, decl), lambda B, a=(sh, ks, block, pads, crops), decl=decl: dil(B, *a, decl=decl), ops=OP3)
        for keep in range(1, 6):
            S.add("dilkeep", (n, keep), lambda B, a=(sh, ks, block, pads, crops), keep=keep: dil(B, *a, keep=keep), ops=OP3)
        S.add("dilst", (n,), lambda B, a=(sh, ks, block, pads, crops): dil(B, *a, strides=[1, 2, 2, 1]), ops=OP3)
        S.add("dildl", (n,), lambda B, a=(sh, ks, block, pads, crops): dil(B, *a, dilations=[1, 2, 1, 1]), ops=OP3)
        S.add("dilsame", (n,), lambda B, a=(sh, ks, block, pads, crops): dil(B, *a, padding="SAME"), ops=OP3)
        S.add("dildw", (n,), lambda B, a=(sh, ks, block, pads, crops): dil(B, *a, kind="dw"), ops=OP3)
        S.add("dilbc", (n,), lambda B, a=(sh, ks, block, pads, crops): dil(B, *a, bc=[4, 1]), ops=OP3)
    S.add("dil1b", (), lambda B: dil(B, (1, 4, 2, 1), (2, 1, 1, 1), [2], [[0, 0]], [[0, 0]]), ops=OP3)
    S.add("dil1b", (1,), lambda B: dil(B, (1, 4, 3, 1), (2, 2, 1, 1), [2], [[1, 1]], [[0, 0]]), ops=OP3)
    S.add("dil3", (), lambda B: dil(B, (1, 4, 2, 2, 1), (2, 1, 1, 1, 1), [2, 1, 2], [[0, 0]] * 3, [[0, 0]] * 3), ops=OP3)
    S.add("dil3", (1,), lambda B: dil(B, (1, 4, 4, 2, 1), (2, 2, 1, 1, 1), [2, 2], [[0, 0]] * 2, [[0, 0]] * 2), ops=OP3)

    def dil1d(B, keep=0, ax=1, pads=((0, 0),), crops=((0, 0),), st=None, decl="same"):
        x = B.input(F, (1, 6, 2), decl=decl)
        s = R.SpaceToBatchND(input=x, block_shape=tf.constant([2]), paddings=tf.constant(list(map(list, pads))))
        e = R.ExpandDims(input=s, axis=tf.constant(ax))
        ks = (1, 2, 2, 1) if ax in (1, -3) else (2, 1, 2, 1)
        c = R.Conv2D(input=e, filter=tf.constant(const(ks)), strides=st or [1] * 4, padding="VALID")
        z = R.Squeeze(input=c, axis=[ax])
        y = R.BatchToSpaceND(input=z, block_shape=tf.constant([2]), crops=tf.constant(list(map(list, crops))))
        return [y, (y, z), (y, c), (y, e), (y, s)][keep]
    for keep in range(5):
        for ax in (1, -3, 2, -2):
            S.add("dil1d", (keep, ax), lambda B, keep=keep, ax=ax: dil1d(B, keep, ax), ops=OP3)
    for pads, crops in ((((1, 1),), ((0, 0),)), (((0, 2),), ((0, 1),)), (((2, 0),), ((1, 0),)), (((2, 0),), ((0, 0),)), (((1, 1),), ((0, 1),))):
        S.add("dil1dp", (pads, crops), lambda B, pads=pads, crops=crops: dil1d(B, pads=pads, crops=crops), ops=OP3)
        S.add("dil1dpd", (pads, crops), lambda B, pads=pads, crops=crops: dil1d(B, pads=pads, crops=crops, decl="dyn"), ops=OP3)
    S.add("dil1dst", (), lambda B: dil1d(B, st=[1, 1, 2, 1]), ops=OP3)
    for pad in ("SAME", "VALID", "CAUSAL"):
        for d in (1, 2, 3):
            if pad != "CAUSAL":
                S.add("tfdil1", (pad, d), lambda B, pad=pad, d=d: tf.nn.conv1d(B.input(F, (1, 6, 2)), tf.constant(const((2, 2, 1))), 1, pad, dilations=d), ops=OP3)
                S.add("tfdil1c", (pad, d), lambda B, pad=pad, d=d: tf.compat.v1.nn.convolution(B.input(F, (1, 6, 2)), tf.constant(const((2, 2, 1))), pad, dilation_rate=[d]), ops=OP3)
                S.add("tfdil2", (pad, d), lambda B, pad=pad, d=d: tf.compat.v1.nn.convolution(B.input(F, (1, 5, 5, 1)), tf.constant(const((2, 2, 1, 1))), pad, dilation_rate=[d, d]), ops=OP3)
                S.add("tfdil2d", (pad, d), lambda B, pad=pad, d=d: tf.compat.v1.nn.convolution(B.input(F, (1, 5, 5, 1), decl=[None, None, None, 1]), tf.constant(const((2, 2, 1, 1))), pad, dilation_rate=[d, d]), ops=OP3)
                S.add("tfatrous", (pad, d), lambda B, pad=pad, d=d: tf.nn.atrous_conv2d(B.input(F, (1, 5, 5, 1)), tf.constant(const((2, 2, 1, 1))), d, pad), ops=OP3)
                S.add("tfdw", (pad, d), lambda B, pad=pad, d=d: tf.compat.v1.nn.depthwise_conv2d(B.input(F, (1, 5, 5, 2)), tf.constant(const((2, 2, 2, 1))), [1] * 4, pad, rate=[d, d]), ops=OP3)
                S.add("tfdwb", (pad, d), lambda B, pad=pad, d=d: tf.nn.bias_add(tf.compat.v1.nn.depthwise_conv2d(B.input(F, (1, 5, 5, 2), decl=[None, None, None, 2]), tf.constant(const((2, 2, 2, 1))), [1] * 4, pad, rate=[d, d]), tf.constant([1., 2.])), ops=OP3)
    # run-time paddings that only round the size up to the block (what TensorFlow emits for unknown sizes) and look-alikes
    for form in range(6):
        for sh in ((1, 5, 4, 1), (1, 4, 4, 1)):
            def rp(B, form=form, sh=sh):
                x = B.input(F, sh, decl=[1, None, None, 1])
                s = tf.shape(x)[1:3]
                blk = tf.constant([2, 2])
                base = tf.constant([[0, 0], [0, 0]])
                extra = tf.math.floormod(blk - tf.math.floormod(s, blk), blk)
                if form == 1:
                    extra = extra + 0
                if form == 2:
                    extra = extra + 2
                pads = tf.stack([tf.zeros_like(extra), extra], 1)
                crops = tf.stack([tf.zeros_like(extra), extra], 1)
                if form == 3:
                    crops = tf.zeros_like(crops)
                if form == 4:
                    pads = tf.stack([extra, tf.zeros_like(extra)], 1)
                    crops = pads
                if form == 5:
                    pads = tf.stack([tf.constant([1, 1]), extra + 1], 1)
                y = R.SpaceToBatchND(input=x, block_shape=blk, paddings=pads)
                c = R.Conv2D(input=y, filter=tf.constant(const((2, 2, 1, 1))), strides=[1] * 4, padding="VALID")
                return R.BatchToSpaceND(input=c, block_shape=blk, crops=crops)
            S.add("dilrt", (form, sh), rp, ops=OP3)
    # ------------------------------------------------------------ eye
    for a, b in ((2, 3), (3, 2), (2, 2), (1, 4), (3, 1)):
        for dt in (F, I32, F64, I64, bool, F16):
            if dt is not F and (a, b) not in ((2, 3), (3, 2)):
                continue
            S.add("eye1", (a, nm(dt)), lambda B, a=a, dt=dt: tf.eye(B.input(I32, (), value=np.array(a, np.int32)), dtype=tf.as_dtype(dt)), ops=OP3)
            S.add("eye2", (a, b, nm(dt)), lambda B, a=a, b=b, dt=dt: tf.eye(B.input(I32, (), value=np.array(a, np.int32)), B.input(I32, (), value=np.array(b, np.int32)), dtype=tf.as_dtype(dt)), ops=OP3)
            S.add("eyec", (a, b, nm(dt)), lambda B, a=a, b=b, dt=dt: (tf.eye(a, b, dtype=tf.as_dtype(dt)), B.input(F, (1,))), ops=OP3)
        S.add("eye64", (a, b), lambda B, a=a, b=b: tf.eye(B.input(I64, (), value=np.array(a, np.int64)), B.input(I64, (), value=np.array(b, np.int64))), ops=OP3)
        S.add("eyeh", (a, b), lambda B, a=a, b=b: tf.eye(a, B.input(I32, (), value=np.array(b, np.int32))), ops=OP3)
        S.add("eyeb", (a, b), lambda B, a=a, b=b: tf.eye(B.input(I32, (), value=np.array(a, np.int32)), B.input(I32, (), value=np.array(b, np.int32)), batch_shape=[2]), ops=OP3)
        S.add("eyeb1", (a, b), lambda B, a=a: tf.eye(B.input(I32, (), value=np.array(a, np.int32)), batch_shape=[2, 1]), ops=OP3)
        S.add("eyebr", (a, b), lambda B, a=a, b=b: tf.eye(B.input(I32, (), value=np.array(a, np.int32)), B.input(I32, (), value=np.array(b, np.int32)), batch_shape=B.input(I32, (1,), value=np.array([2], np.int32))), ops=OP3)
        S.add("eyecb", (a, b), lambda B, a=a, b=b: (tf.eye(a, b, batch_shape=[2]), B.input(F, (1,))), ops=OP3)
        for form, src, bs, cast in () if q and (a, b) not in ((2, 3), (3, 2)) else itertools.product((0, 1, 2, 3, 5, 6, 7), ("min", "nn"), ((), (2,)), (0, 1)):
            def el(B, a=a, b=b, form=form, src=src, bs=bs, cast=cast):
                it = np.int64 if cast else np.int32
                n, m = B.input(it, (), value=np.array(a, it)), B.input(it, (), value=np.array(b, it))
                mn = R.Minimum(x=n, y=m if src == "min" else n)
                if cast:
                    mn = tf.cast(mn, tf.int32)
                n, m = tf.cast(n, tf.int32), tf.cast(m, tf.int32)
                bc = tf.constant(list(bs), tf.int32)
                ds = R.ConcatV2(values=[bc, R.Pack(values=[mn]) if form % 2 else R.ExpandDims(input=mn, axis=tf.constant(0))], axis=tf.constant(0))
                ones = R.Fill(dims=ds, value=tf.constant(2. if form == 6 else 1.))
                if src == "min":
                    zz = R.Fill(dims=R.ConcatV2(values=[bc, tf.stack([n, m])], axis=tf.constant(0)), value=tf.constant(3. if form == 7 else 0.))
                else:
                    zz = R.Fill(dims=R.ConcatV2(values=[bc, tf.stack([n, n + 1])], axis=tf.constant(0)), value=tf.constant(3. if form == 7 else 0.))
                i0, f0 = tf.constant(0), tf.constant(0.)
                if form in (0, 1):
                    return R.MatrixSetDiagV3(input=zz, diagonal=ones, k=i0)
                if form == 2:
                    return R.MatrixDiagV3(diagonal=ones, k=i0, num_rows=tf.constant(-1), num_cols=tf.constant(-1), padding_value=f0)
                if form == 5:
                    return R.MatrixDiagV3(diagonal=ones, k=i0, num_rows=mn, num_cols=mn + 2, padding_value=tf.constant(5.))
                if form == 3:
                    return R.MatrixDiag(diagonal=ones)
                return R.MatrixSetDiag(input=zz, diagonal=ones)
            S.add("eyelike", (a, b, form, src, bs, cast), el, ops=OP3)
    # ------------------------------------------------------------ dropout: inference removes it; look-alikes stay
    for rate in (0.0, 0.25, 0.5, 0.9):
        for decl in ("same", "dyn"):
            # what tf.nn.dropout emits is random in TensorFlow, too, and is kept
            S.add("drop", (rate, decl), lambda B, rate=rate, decl=decl: tf.nn.dropout(B.input(F, (2, 3), decl=decl), rate=rate) * 2., stat=True, ops=OP3)
    rnd = lambda sh=(2, 3): R.RandomUniform(shape=tf.constant(list(sh)), dtype=tf.float32)

    def dr(B, form, sc=2.0, rate=0.5, keepm=0):
        x = B.input(F, (2, 3))
        u = rnd()
        if form == 0:
            m = tf.cast(R.GreaterEqual(x=u, y=tf.constant(rate)), tf.float32)
            y = R.Mul(x=R.Mul(x=x, y=tf.constant(sc)), y=m)
        elif form == 1:
            m = tf.cast(R.GreaterEqual(x=u, y=tf.constant(rate)), tf.float32)
            y = R.Mul(x=m, y=R.Mul(x=tf.constant(sc), y=x))
        elif form == 2:
            m = R.Floor(x=R.Add(x=tf.constant(1 - rate), y=u))
            y = R.Mul(x=R.RealDiv(x=x, y=tf.constant(1 / sc)), y=m)
        elif form == 3:
            m = tf.cast(R.GreaterEqual(x=tf.constant(rate), y=u), tf.float32)
            y = R.Mul(x=R.Mul(x=x, y=tf.constant(sc)), y=m)
        return (y, m) if keepm else y
    for form in (0, 1):
        S.add("dropraw", (form,), lambda B, form=form: dr(B, form), ref=lambda B: tf.identity(B.input(F, (2, 3))), ops=OP3, xval=False)
    for form in range(4):
        for sc, rate in ((3.0, 0.5), (2.0, 0.25), (1.0, 0.5), (0.5, 0.5), (-1.0, 2.0)):
            if form != 2 and (form != 3 or sc * (1 - rate) != 1.):
                S.add("dropnot", (form, sc, rate), lambda B, form=form, sc=sc, rate=rate: dr(B, form, sc, rate), stat=True, ops=OP3)
        S.add("dropkeep", (form,), lambda B, form=form: dr(B, form, keepm=1), stat=True, ops=OP3)
    # ------------------------------------------------------------ random numbers: the samples are shared symbols
    for sh in ((2, 3), (4,), (), (1, 2, 2)):
        for lo, hi in ((0., 1.), (-1., 3.), (2., 2.5), (5., 1.)):
            one = lambda B: B.input(F, (2,))
            S.add("ru", (sh, lo, hi), lambda B, sh=sh, lo=lo, hi=hi: (tf.compat.v1.random_uniform(list(sh), lo, hi), one(B)), stat=True, ops=OP3)
            S.add("rud", (sh, lo, hi), lambda B, sh=sh, lo=lo, hi=hi: (lambda x: (tf.compat.v1.random_uniform(tf.shape(x), lo, hi), x + 1.))(B.input(F, sh, decl="dyn")), stat=True, ops=OP3)
            S.add("rur", (sh, lo, hi), lambda B, sh=sh, lo=lo, hi=hi: tf.compat.v1.random_uniform(B.input(I32, (len(sh),), value=np.array(sh, np.int32)), lo, hi), stat=True, ops=OP3) if len(sh) else None
            S.add("rn", (sh, lo, hi), lambda B, sh=sh, lo=lo, hi=hi: (tf.random.normal(list(sh), lo, hi), one(B)), stat=True, ops=OP3)
            S.add("rnd", (sh, lo, hi), lambda B, sh=sh, lo=lo, hi=hi: (lambda x: (tf.random.normal(tf.shape(x), lo, hi), x + 1.))(B.input(F, sh, decl="dyn")), stat=True, ops=OP3)
            S.add("rnx", (sh, lo, hi), lambda B, sh=sh, lo=lo, hi=hi: (lambda r: (r * hi + lo) * 2. + 1.)(R.RandomStandardNormal(shape=tf.constant(list(sh), tf.int32), dtype=tf.float32)), stat=True, ops=OP3)
            for form in range(9):
                def rf(B, sh=sh, lo=lo, hi=hi, form=form):
                    u = R.RandomUniform(shape=tf.constant(list(sh), tf.int32), dtype=tf.float32)
                    L, H = tf.constant(lo), tf.constant(hi)
                    A, M, D = (lambda p, s: R.Add(x=p, y=s)), (lambda p, s: R.Mul(x=p, y=s)), (lambda p, s: R.Sub(x=p, y=s))
                    m = M(u, D(H, L))
                    return [lambda: A(m, L), lambda: A(M(u, D(L, H)), L), lambda: A(m, H), lambda: A(M(u, H), L), lambda: (A(m, L), m), lambda: (A(m, L), u), lambda: A(M(D(H, L), u), L),
                            lambda: A(m, one(B)[0]), lambda: A(M(u, D(H, L)), tf.constant([lo, lo + 1.])) if not len(sh) or sh[-1] == 2 else A(L, m)][form]()
                if sh in ((4,), ()) or form in (7, 8):
                    S.add("ruf", (sh, lo, hi, form), rf, stat=True, ops=OP3)
                    S.add("rnf", (sh, lo, hi, form), lambda B, rf=rf: (lambda o: [setattr(R, "RandomUniform", R.RandomStandardNormal), rf(B), setattr(R, "RandomUniform", o)][1])(R.RandomUniform), stat=True, ops=OP3)
    for dt in (F64, F16):
        S.add("rudt", (nm(dt),), lambda B, dt=dt: tf.compat.v1.random_uniform([3], 1., 4., dtype=tf.as_dtype(dt)), stat=True, ops=OP3)
        S.add("rndt", (nm(dt),), lambda B, dt=dt: tf.random.normal([3], 1., 4., dtype=tf.as_dtype(dt)), stat=True, ops=OP3)
    # ------------------------------------------------------------ quantise-and-dequantise
    RNG = ((-1., 1.), (-1., 2.), (-3., 0.5), (0., 1.), (-2., 0.))
    for mn, mx in RNG:
        for sg, nar in itertools.product((True, False), repeat=2):
            for ver in (2, 3, 4):
                for nb in (8, 4, 6) if ver != 4 else (8,):
                    for rm in ("HALF_TO_EVEN", "HALF_UP") if ver == 2 and (mn, mx) == (-1., 2.) and nb == 8 else ("HALF_TO_EVEN",):
                        def qd(B, mn=mn, mx=mx, sg=sg, nar=nar, ver=ver, nb=nb, rm=rm, given=True, ax=-1):
                            x = B.input(F, (2, 2) if given else (1, 2), flo=-4. if sg else 0., fhi=4.)
                            if not given:
                                x = tf.concat([x, tf.constant([[mn, mx]])], 0)
                            k = dict(input=x, input_min=tf.constant(mn), input_max=tf.constant(mx), signed_input=sg, range_given=given, narrow_range=nar, axis=ax)
                            if ver == 2:
                                return R.QuantizeAndDequantizeV2(num_bits=nb, round_mode=rm, **k)
                            if ver == 3:
                                return R.QuantizeAndDequantizeV3(num_bits=tf.constant(nb), **k)
                            return R.QuantizeAndDequantizeV4(num_bits=nb, round_mode=rm, **k)
                        if sg or mn >= 0:
                            S.add("qdq", (mn, mx, sg, nar, ver, nb, rm), qd, mn=10, ops=OP3 and (10, 18))
                            if nb == 8 and rm == "HALF_TO_EVEN" and ver != 3 and not q:
                                S.add("qdqn", (mn, mx, sg, nar, ver), lambda B, qd=qd: qd(B, given=False), mn=10, ops=OP3 and (10, 13, 18))
    for sg, nar in itertools.product((True, False), repeat=2):
        for ax in (0, 1):
            for given in (True, False):
                if q and given is False:
                    continue

                def qa(B, sg=sg, nar=nar, ax=ax, given=given):
                    lo = np.array([-1., -2.], F) if sg else np.zeros(2, F)
                    x = B.input(F, (2, 2) if given else ((2, 1) if ax == 0 else (1, 2)), flo=-4. if sg else 0., fhi=4.)
                    if not given:
                        x = tf.concat([x, tf.constant([[-1. if sg else .25, 2.], [.5, .5]])], 1 - ax)
                    return R.QuantizeAndDequantizeV4(input=x, input_min=tf.constant(lo), input_max=tf.constant([2., 1.]), signed_input=sg, range_given=given, narrow_range=nar, axis=ax, num_bits=8)
                S.add("qdqax", (sg, nar, ax, given), qa, mn=13, ops=OP3 and (13,))
    S.add("qdqchain", (), lambda B: (lambda x: R.QuantizeAndDequantizeV2(input=tf.nn.relu(R.QuantizeAndDequantizeV2(input=x, input_min=tf.constant(-1.), input_max=tf.constant(1.), range_given=True)), input_min=tf.constant(-2.), input_max=tf.constant(1.), range_given=True))(B.input(F, (2,), flo=-4., fhi=4.)), mn=10)
    S.add("qdqshare", (), lambda B: (lambda x: (lambda y: (y, y * 2., x))(R.QuantizeAndDequantizeV2(input=x, input_min=tf.constant(-1.), input_max=tf.constant(1.), range_given=True)))(B.input(F, (2,), flo=-4., fhi=4.)), mn=10)
    # ------------------------------------------------------------ fused operators
    for act in ([], ["Relu"], ["Relu6"], ["Elu"], ["LeakyRelu"], ["Tanh"], ["Sigmoid"]):
        for ta, tb in itertools.product((False, True), repeat=2):
            S.add("fmm", (act, ta, tb), lambda B, act=act, ta=ta, tb=tb: fused("_FusedMatMul", [B.input(F, (3, 2) if ta else (2, 3)), B.input(F, (2, 3) if tb else (3, 2)), B.input(F, (2,))], ["BiasAdd"] + act, 1, transpose_a=ta, transpose_b=tb), ops=OP3)
        for fmt in ("NHWC",):
            S.add("fconv", (act, fmt), lambda B, act=act, fmt=fmt: fused("_FusedConv2D", [B.input(F, (1, 3, 3, 2)), tf.constant(K), B.input(F, (3,))], ["BiasAdd"] + act, 1, strides=[1, 1, 1, 1], padding="SAME", data_format=fmt), ops=OP3)
            S.add("fconv2", (act, fmt), lambda B, act=act, fmt=fmt: (lambda y: (y, y + 1.))(fused("_FusedConv2D", [B.input(F, (1, 3, 3, 2)), tf.constant(K), B.input(F, (3,))], ["BiasAdd"] + act, 1, strides=[1, 2, 2, 1], padding="VALID", data_format=fmt)), ops=OP3)
            if act in ([], ["Relu"]):
                S.add("fconvbn", (act, fmt), lambda B, act=act, fmt=fmt: fused("_FusedConv2D", [B.input(F, (1, 3, 3, 2)), tf.constant(K), B.input(F, (3,)), B.input(F, (3,)), B.input(F, (3,)), B.input(F, (3,), flo=0.1, fhi=4.)], ["FusedBatchNorm"] + act, 4,
                      strides=[1, 1, 1, 1], padding="SAME", data_format=fmt, epsilon=0.01), ops=OP3)
        S.add("fdw", (act,), lambda B, act=act: fused("_FusedDepthwiseConv2dNative", [B.input(F, (1, 3, 3, 2)), tf.constant(const((2, 2, 2, 1))), B.input(F, (2,))], ["BiasAdd"] + act, 1, strides=[1, 1, 1, 1], padding="SAME", data_format="NHWC"), ops=OP3)
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL,
                    ["every listed pattern and look-alike at tensors of up to 5 dims, sizes <= 6", "random operators: the samples are symbols shared by both sides (one random operator per program)",
                     "dropout: the converted model is compared with the program without dropout (inference mode)", "opsets 9,11,13,18 (quick) or 9..18 (thorough)"],
                    ["tf2onnx.rewriter.flatten/leakyrelu/thresholded_relu/layer_normalization/transpose/conv2d_with_add/conv2d_with_pad/conv_dilations/eye/dropout/random_uniform/random_normal/quantization_ops/fused_op rewriters", "tf2onnx.graph_matcher.GraphMatcher"])
