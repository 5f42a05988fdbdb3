"""P13 convolution and pooling."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P13"
run_job = V.run_job
R = tf.raw_ops


def W(*sh, dt=F):
    """a constant kernel whose entries are small and all different"""
    n = int(np.prod(sh))
    return ((np.arange(n) * 7 + 3) % (2 * n + 1) - n).reshape(sh).astype(dt) / 4


def decls(sh, nc=False):
    """static, batch unknown, batch+space unknown"""
    r = len(sh)
    sp = range(2, r) if nc else range(1, r - 1)
    yield "st", list(sh)
    yield "nb", [None] + list(sh[1:])
    yield "ns", [None if (i == 0 or i in sp) else d for i, d in enumerate(sh)]


def jobs(tier):
    S = Suite(tier, quick=(9, 11, 13, 15, 18))
    q = tier == "quick"
    OP = (9, 11, 15, 18) if q else None
    # ------------------------------------------------------------ Conv2D
    for (kh, kw), st, pad, dl in itertools.product([(1, 1), (2, 3), (3, 3), (3, 2)], [(1, 1), (2, 2), (1, 2), (2, 1), (3, 3)],
                                                   ["SAME", "VALID"], [(1, 1), (2, 2), (1, 2)]):
        if dl != (1, 1) and st != (1, 1):
            continue
        for hw in ((4, 5), (5, 4), (6, 6)):
            if hw == (6, 6) and dl == (1, 1) or pad == "VALID" and any((kk - 1) * dd >= n for kk, dd, n in zip((kh, kw), dl, hw)):
                continue
            for dn, d in decls((1,) + hw + (1,)):
                if dn == "nb" and (kh, kw) != (3, 3):
                    continue
                S.add("conv2d", ((kh, kw), st, pad, dl, hw, dn), lambda B, kh=kh, kw=kw, st=st, pad=pad, dl=dl, hw=hw, d=d:
                      tf.nn.conv2d(B.input(F, (1,) + hw + (1,), decl=d), W(kh, kw, 1, 1), strides=list(st), padding=pad, dilations=list(dl)),
                      ops=(9, 15, 18) if q else None)
    for cin, cout, kin in ((2, 3, 2), (4, 4, 2), (4, 2, 1), (3, 6, 1)):
        for dn, d in decls((2, 3, 4, cin)):
            for pad in ("SAME", "VALID"):
                S.add("conv2dch", (cin, cout, kin, pad, dn), lambda B, cin=cin, cout=cout, kin=kin, pad=pad, d=d:
                      tf.nn.conv2d(B.input(F, (2, 3, 4, cin), decl=d), W(2, 2, kin, cout), strides=1, padding=pad), ops=OP)
    for pads in ([[0, 0], [1, 2], [0, 1], [0, 0]], [[0, 0], [0, 0], [2, 0], [0, 0]], [[0, 0], [1, 1], [1, 1], [0, 0]]):
        for st in (1, 2):
            for dn, d in decls((1, 4, 3, 2)):
                S.add("conv2dexp", (pads, st, dn), lambda B, pads=pads, st=st, d=d:
                      tf.nn.conv2d(B.input(F, (1, 4, 3, 2), decl=d), W(2, 2, 2, 2), strides=st, padding=pads), ops=OP)
    for pad, st in itertools.product(("SAME", "VALID"), (1, 2, (1, 2))):
        for dn, d in decls((1, 2, 4, 3), True):
            S.add("conv2dnchw", (pad, st, dn), lambda B, pad=pad, st=st, d=d:
                  tf.nn.conv2d(B.input(F, (1, 2, 4, 3), decl=d), W(2, 3, 2, 2), strides=st, padding=pad, data_format="NCHW"), ops=OP)
    S.add("conv2dnchwexp", (), lambda B: tf.nn.conv2d(B.input(F, (1, 2, 4, 3)), W(2, 3, 2, 2), strides=1, padding=[[0, 0], [0, 0], [1, 0], [2, 1]], data_format="NCHW"))
    for pad in ("SAME", "VALID"):
        for dn, d in decls((1, 3, 3, 1)):
            S.add("conv2drk", (pad, dn), lambda B, pad=pad, d=d:
                  tf.nn.conv2d(B.input(F, (1, 3, 3, 1), decl=d), B.input(F, (2, 2, 1, 2), "w"), strides=1, padding=pad), ops=OP)
            S.add("conv2dbias", (pad, dn), lambda B, pad=pad, d=d:
                  tf.nn.relu(tf.nn.bias_add(tf.nn.conv2d(B.input(F, (1, 3, 3, 1), decl=d), W(2, 2, 1, 2), strides=2, padding=pad), [1., -2.])), ops=OP)
            S.add("conv2dbias2", (pad, dn), lambda B, pad=pad, d=d:
                  (lambda c: [tf.nn.bias_add(c, [1., -2.]), tf.nn.bias_add(c, [3., 5.])])(
                      tf.nn.conv2d(B.input(F, (1, 3, 3, 1), decl=d), W(2, 2, 1, 2), strides=2, padding=pad)), ops=OP)
            S.add("conv2d2", (pad, dn), lambda B, pad=pad, d=d:
                  tf.nn.conv2d(tf.nn.relu(tf.nn.conv2d(B.input(F, (1, 4, 4, 1), decl=[x if x in (1, None) else 4 for x in d]), W(2, 2, 1, 2), strides=1, padding=pad)),
                               W(2, 2, 2, 1), strides=2, padding=pad), ops=OP)
            S.add("conv2dw", (pad, dn), lambda B, pad=pad, d=d:
                  (lambda x, w: [tf.nn.conv2d(x, w, strides=1, padding=pad), tf.nn.conv2d(x + 1., w, strides=2, padding="SAME")])(
                      B.input(F, (1, 3, 3, 2), decl=d[:3] + [2]), tf.constant(W(2, 2, 2, 2))), ops=OP)
    # pad + conv, pad + space_to_batch forms
    for pb, pad, st in itertools.product(([[0, 0], [1, 1], [1, 1], [0, 0]], [[0, 0], [1, 0], [0, 2], [0, 0]], [[0, 0], [0, 0], [1, 1], [1, 0]],
                                          [[1, 0], [1, 1], [1, 1], [0, 0]]), ("VALID", "SAME"), (1, 2)):
        cin = 2 if pb[3] != [0, 0] else 1
        for dn, d in decls((1, 3, 4, 1)):
            for cv in (0., 2.):
                S.add("padconv", (pb, pad, st, dn, cv), lambda B, pb=pb, pad=pad, st=st, d=d, cin=cin, cv=cv:
                      tf.nn.conv2d(tf.pad(B.input(F, (1, 3, 4, 1), decl=d), pb, constant_values=cv), W(2, 2, cin, 2), strides=st, padding=pad), ops=OP)
            S.add("padconvm", (pb, pad, st, dn), lambda B, pb=pb, pad=pad, st=st, d=d, cin=cin:
                  (lambda p: [tf.nn.conv2d(p, W(2, 2, cin, 2), strides=st, padding=pad), p])(tf.pad(B.input(F, (1, 3, 4, 1), decl=d), pb)), ops=(15,))
    S.add("padconvR", (), lambda B: tf.nn.conv2d(tf.pad(B.input(F, (1, 3, 4, 1)), [[0, 0], [1, 1], [1, 1], [0, 0]], "REFLECT"), W(2, 2, 1, 2), strides=1, padding="VALID"))
    for pads, st in itertools.product(([[0, 0], [1, 0], [0, 2], [0, 0]], [[0, 0], [1, 1], [1, 1], [0, 0]]), ((1, 1), (2, 2))):
        S.add("padconvexp", (pads, st), lambda B, pads=pads, st=st: tf.nn.conv2d(
            tf.pad(B.input(F, (1, 3, 3, 1)), [[0, 0], [1, 0], [2, 1], [0, 0]]), W(2, 2, 1, 1), strides=list(st), padding=pads))
    # dilation spelled as space_to_batch / conv / batch_to_space
    for dl, pb, cr in (((2, 2), [[0, 0], [0, 0]], [[0, 0], [0, 0]]), ((2, 2), [[2, 2], [2, 2]], [[0, 0], [0, 0]]), ((2, 1), [[1, 1], [0, 0]], [[0, 0], [0, 0]]),
                       ((2, 2), [[1, 1], [1, 1]], [[0, 1], [0, 0]]), ((2, 2), [[2, 2], [2, 2]], [[1, 1], [0, 1]])):
        for dn, d in decls((1, 4, 4, 1)):
            for cp in ("VALID", "SAME"):
                S.add("s2bconv", (dl, pb, cr, dn, cp), lambda B, dl=dl, pb=pb, cr=cr, d=d, cp=cp: tf.batch_to_space(
                    tf.nn.conv2d(tf.space_to_batch(B.input(F, (1, 4, 4, 1), decl=d), list(dl), pb), W(2, 2, 1, 1), strides=1, padding=cp),
                    list(dl), cr), ops=(11, 15, 18) if q else None, mn=11)
            S.add("s2bdw", (dl, pb, cr, dn), lambda B, dl=dl, pb=pb, cr=cr, d=d: tf.batch_to_space(
                R.DepthwiseConv2dNative(input=tf.space_to_batch(B.input(F, (1, 4, 4, 2), decl=d[:3] + [2]), list(dl), pb), filter=W(2, 2, 2, 1), strides=[1] * 4, padding="VALID"),
                list(dl), cr), mn=11, ops=(11, 15, 18) if q else None)
    # ------------------------------------------------------------ 1-D and 3-D
    for k, st, pad, dl in itertools.product((1, 2, 3), (1, 2), ("SAME", "VALID"), (1, 2)):
        if st > 1 and dl > 1:
            continue
        for dn, d in decls((2, 5, 2)):
            S.add("conv1d", (k, st, pad, dl, dn), lambda B, k=k, st=st, pad=pad, dl=dl, d=d:
                  tf.nn.conv1d(B.input(F, (2, 5, 2), decl=d), W(k, 2, 2), stride=st, padding=pad, dilations=dl), ops=OP)
    for k, st, pad, dl in itertools.product(((1, 1, 1), (2, 1, 2), (2, 2, 3)), ((1, 1, 1), (2, 2, 2), (1, 2, 1)), ("SAME", "VALID"), ((1, 1, 1), (2, 2, 2))):
        if max(st) > 1 and max(dl) > 1 or max(dl) > 1 and k == (2, 2, 3):
            continue
        for dn, d in decls((1, 3, 4, 3, 1)):
            S.add("conv3d", (k, st, pad, dl, dn), lambda B, k=k, st=st, pad=pad, dl=dl, d=d:
                  tf.nn.conv3d(B.input(F, (1, 3, 4, 3, 1), decl=d), W(*(k + (1, 2))), strides=[1] + list(st) + [1], padding=pad, dilations=[1] + list(dl) + [1]),
                  ops=(9, 15, 18) if q else None)
    # ------------------------------------------------------------ transposed
    for k, st, pad, hw in itertools.product(((1, 1), (2, 2), (3, 3), (2, 3), (4, 4)), ((1, 1), (2, 2), (2, 1), (3, 3)), ("SAME", "VALID"), ((2, 3), (3, 2))):
        osh = []
        for i in range(2):
            if pad == "SAME":
                o = [hw[i] * st[i] - e for e in range(st[i])]
            else:
                o = [(hw[i] - 1) * st[i] + k[i] + e for e in range(st[i])]
            osh.append(o)
        for oh in range(len(osh[0])):
            o = (osh[0][oh], osh[1][(oh * 2) % len(osh[1])])
            if min(o) < 1:
                continue
            for dn, d in decls((1,) + hw + (2,)):
                if dn == "nb" and k != (3, 3):
                    continue
                S.add("convT", (k, st, pad, hw, o, dn), lambda B, k=k, st=st, pad=pad, hw=hw, o=o, d=d:
                      tf.nn.conv2d_transpose(B.input(F, (1,) + hw + (2,), decl=d), W(k[0], k[1], 1, 2), output_shape=[1, o[0], o[1], 1],
                                             strides=list(st), padding=pad), ops=(11, 15, 18) if q else None)
                if pad == "SAME" and k[0] > 1:
                    S.add("convTdyn", (k, st, pad, hw, o, dn), lambda B, k=k, st=st, pad=pad, hw=hw, o=o, d=d:
                          (lambda x: tf.nn.conv2d_transpose(x, W(k[0], k[1], 1, 2), output_shape=tf.stack(
                              [tf.shape(x)[0], tf.shape(x)[1] * st[0] - (hw[0] * st[0] - o[0]), tf.shape(x)[2] * st[1] - (hw[1] * st[1] - o[1]), 1]),
                              strides=list(st), padding=pad))(B.input(F, (1,) + hw + (2,), decl=d)), ops=(11, 15) if q else (11, 13, 15, 18), mn=11)
    for st in (1, 2):
        S.add("convTnchw", (st,), lambda B, st=st: tf.nn.conv2d_transpose(B.input(F, (1, 2, 2, 3)), W(3, 3, 1, 2), output_shape=[1, 1, 2 * st, 3 * st], strides=st, padding="SAME", data_format="NCHW"))
        S.add("convTexp", (st,), lambda B, st=st: R.Conv2DBackpropInput(input_sizes=[1, 2 * st, 3 * st, 1], filter=W(3, 3, 1, 2), out_backprop=B.input(F, (1, 2, 3, 2)),
                                                                        strides=[1, st, st, 1], padding="EXPLICIT", explicit_paddings=[0, 0, 1, 1 if st == 1 else 0, 1, 1 if st == 1 else 0, 0, 0]))
        S.add("convT3", (st,), lambda B, st=st: tf.nn.conv3d_transpose(B.input(F, (1, 2, 2, 2, 1)), W(2, 2, 2, 1, 1), output_shape=[1, 2 * st, 2 * st, 2 * st, 1], strides=st, padding="SAME"))
        S.add("convT3v", (st,), lambda B, st=st: tf.nn.conv3d_transpose(B.input(F, (1, 2, 2, 2, 1)), W(2, 3, 2, 1, 1), output_shape=[1, st + 2, st + 3, st + 2, 1], strides=st, padding="VALID"))
        S.add("convTdil", (st,), lambda B, st=st: tf.nn.conv2d_transpose(B.input(F, (1, 3, 3, 1)), W(2, 2, 1, 1), output_shape=[1, 3, 3, 1], strides=1, padding="SAME", dilations=st))
        S.add("convT1", (st,), lambda B, st=st: tf.nn.conv1d_transpose(B.input(F, (1, 3, 2)), W(3, 1, 2), output_shape=[1, 3 * st, 1], strides=st, padding="SAME"))
    # ------------------------------------------------------------ depthwise
    for k, st, pad, m, c in itertools.product(((1, 1), (2, 2), (3, 2)), (1, 2), ("SAME", "VALID"), (1, 2), (1, 2, 3)):
        for dn, d in decls((1, 3, 4, c)):
            S.add("dw", (k, st, pad, m, c, dn), lambda B, k=k, st=st, pad=pad, m=m, c=c, d=d:
                  tf.nn.depthwise_conv2d(B.input(F, (1, 3, 4, c), decl=d), W(k[0], k[1], c, m), strides=[1, st, st, 1], padding=pad),
                  ops=(9, 15) if q else (9, 11, 13, 15, 18))
    for dl in (1, 2):
        for pad in ("SAME", "VALID"):
            for dn, d in decls((1, 5, 4, 2)):
                S.add("dwdil", (dl, pad, dn), lambda B, dl=dl, pad=pad, d=d:
                      tf.nn.depthwise_conv2d(B.input(F, (1, 5, 4, 2), decl=d), W(2, 2, 2, 2), strides=[1] * 4, padding=pad, dilations=[dl, dl]), ops=OP)
                S.add("dwdilraw", (dl, pad, dn), lambda B, dl=dl, pad=pad, d=d:
                      R.DepthwiseConv2dNative(input=B.input(F, (1, 5, 4, 2), decl=d), filter=W(2, 2, 2, 2), strides=[1] * 4, padding=pad, dilations=[1, dl, dl, 1]), ops=OP)
    S.add("dwexp", (), lambda B: R.DepthwiseConv2dNative(input=B.input(F, (1, 4, 4, 2)), filter=W(2, 2, 2, 2), strides=[1, 2, 2, 1], padding="EXPLICIT", explicit_paddings=[0, 0, 1, 0, 0, 2, 0, 0]))
    S.add("dwnchw", (), lambda B: R.DepthwiseConv2dNative(input=B.input(F, (1, 2, 4, 4)), filter=W(2, 2, 2, 2), strides=[1, 1, 2, 2], padding="SAME", data_format="NCHW"))
    S.add("dwrk", (), lambda B: tf.nn.depthwise_conv2d(B.input(F, (1, 3, 3, 2)), B.input(F, (2, 2, 2, 2), "w"), strides=[1] * 4, padding="SAME"))
    S.add("dwpad", (), lambda B: tf.nn.depthwise_conv2d(tf.pad(B.input(F, (1, 3, 3, 2)), [[0, 0], [1, 0], [0, 1], [0, 0]]), W(2, 2, 2, 1), strides=[1] * 4, padding="VALID"))
    S.add("sep", (), lambda B: tf.nn.separable_conv2d(B.input(F, (1, 3, 3, 2)), W(2, 2, 2, 2), W(1, 1, 4, 2), strides=[1] * 4, padding="SAME"))
    # ------------------------------------------------------------ pooling
    for fn, nm in ((tf.nn.max_pool2d, "maxpool"), (tf.nn.avg_pool2d, "avgpool")):
        for k, st, pad, hw in itertools.product(((1, 1), (2, 2), (3, 3), (2, 3)), ((1, 1), (2, 2), (1, 2), (3, 3)), ("SAME", "VALID"), ((4, 5), (3, 3))):
            for dn, d in decls((1,) + hw + (2,) if hw == (3, 3) else (1,) + hw + (1,)):
                if dn == "nb" and k != (2, 2):
                    continue
                c = 2 if hw == (3, 3) else 1
                S.add(nm, (k, st, pad, hw, dn), lambda B, fn=fn, k=k, st=st, pad=pad, hw=hw, d=d, c=c:
                      fn(B.input(F, (1,) + hw + (c,), decl=d), list(k), list(st), pad), ops=(9, 11, 15) if q else None)
        for st, pad in itertools.product((1, 2), ("SAME", "VALID")):
            S.add(nm + "nchw", (st, pad), lambda B, fn=fn, st=st, pad=pad: fn(B.input(F, (1, 2, 4, 3)), 2, st, pad, data_format="NCHW"))
    for fn, nm in ((tf.nn.max_pool3d, "maxpool3d"), (tf.nn.avg_pool3d, "avgpool3d")):
        for k, st, pad in itertools.product(((1, 2, 2), (2, 2, 2), (3, 3, 3)), (1, 2), ("SAME", "VALID")):
            for dn, d in decls((1, 3, 3, 4, 1)):
                S.add(nm, (k, st, pad, dn), lambda B, fn=fn, k=k, st=st, pad=pad, d=d:
                      fn(B.input(F, (1, 3, 3, 4, 1), decl=d), list(k), st, pad), ops=(9, 11, 15) if q else None)
    for fn, nm in ((tf.nn.max_pool1d, "maxpool1d"), (tf.nn.avg_pool1d, "avgpool1d")):
        for k, st, pad in itertools.product((1, 2, 3), (1, 2), ("SAME", "VALID")):
            S.add(nm, (k, st, pad), lambda B, fn=fn, k=k, st=st, pad=pad: fn(B.input(F, (1, 5, 2)), k, st, pad), ops=OP)
    for ty, nm in (("MAX", "poolmax"), ("AVG", "poolavg")):
        for dl, pad in itertools.product((1, 2), ("SAME", "VALID")):
            for dn, d in decls((1, 4, 5, 1)):
                S.add(nm, (dl, pad, dn), lambda B, ty=ty, dl=dl, pad=pad, d=d:
                      tf.nn.pool(B.input(F, (1, 4, 5, 1), decl=d), [2, 2], ty, padding=pad, dilations=[dl, dl]), mn=11, ops=(11, 15, 18))
    for k, st, pad in itertools.product((1, 2, 3), (1, 2), ("SAME", "VALID")):
        for it in (tf.int64, tf.int32):
            for ib in (False, True):
                S.add("maxarg", (k, st, pad, it.name, ib), lambda B, k=k, st=st, pad=pad, it=it, ib=ib:
                      list(tf.nn.max_pool_with_argmax(B.input(F, (2, 3, 3, 1)), k, st, pad, output_dtype=it, include_batch_in_index=ib)), ops=OP)
                S.add("maxarg2", (k, st, pad, it.name, ib), lambda B, k=k, st=st, pad=pad, it=it, ib=ib:
                      list(tf.nn.max_pool_with_argmax(B.input(F, (1, 2, 3, 2)), k, st, pad, output_dtype=it, include_batch_in_index=ib)), ops=OP)
    for fn, nm in ((tf.nn.max_pool2d, "max"), (tf.nn.avg_pool2d, "avg")):
        for hw in ((4, 5), (5, 8), (6, 7), (8, 4)):
            for dn, d in decls((1,) + hw + (1,)):
                S.add("poolwide" + dn, (nm, hw), lambda B, fn=fn, hw=hw, d=d: fn(B.input(F, (1,) + hw + (1,), decl=d), 2, 4, "SAME"), mn=9, ops=(9, 15, 18))
    S.add("maxpoolexp", (), lambda B: tf.nn.max_pool2d(B.input(F, (1, 3, 4, 1)), 2, 1, [[0, 0], [1, 0], [0, 1], [0, 0]]))
    S.add("maxpoolexp", (2,), lambda B: tf.nn.max_pool2d(B.input(F, (1, 3, 4, 1)), 3, 2, [[0, 0], [1, 1], [2, 0], [0, 0]]))
    S.add("gpool", ("full",), lambda B: tf.nn.avg_pool2d(B.input(F, (1, 3, 3, 2)), 3, 1, "VALID"))
    S.add("gpool", ("fullmax",), lambda B: tf.nn.max_pool2d(B.input(F, (1, 3, 3, 2)), 3, 1, "VALID"))
    S.add("maxpoolv2", (), lambda B: R.MaxPoolV2(input=B.input(F, (1, 4, 4, 1)), ksize=[1, 2, 2, 1], strides=[1, 2, 2, 1], padding="SAME"))
    # bias with every layout
    for sh in ((2, 2), (2, 3, 2), (1, 2, 3, 2), (1, 2, 2, 1, 2)):
        S.add("bias", (sh,), lambda B, sh=sh: tf.nn.bias_add(B.input(F, sh), B.input(F, (2,), "b")))
        if len(sh) > 2:
            s2 = (sh[0], 2) + sh[1:-1]
            for dyn in ("same", "dyn"):
                S.add("biasnchw", (s2, dyn), lambda B, s2=s2, dyn=dyn: tf.nn.bias_add(B.input(F, s2, decl=dyn), B.input(F, (2,), "b"), data_format="NCHW"))
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, EXPL,
                    ["spatial dims 2-6, channels 1-6, kernels 1-4, strides 1-3, dilations 1-2, batch 1-2",
                     "weights: fixed distinct constants, and runtime weights for one shape per operator",
                     "declared shapes: static, unknown batch, unknown batch and space"],
                    ["onnx_opset.nn.ConvOp", "ConvTranspose", "DepthwiseConv2d", "PoolOp", "MaxPoolWithArgmaxOp", "BiasAdd",
                     "nn.conv_convert_inputs, add_padding, conv_dims_attr, conv_kernel_shape", "rewriter.conv2d_with_pad_rewriter",
                     "rewriter.conv_dilations_rewriter", "tfonnx.process_tf_graph", "optimizer.optimize_graph"])
