"""P17 shape and layout operators: every element ends up where TensorFlow puts it, for static, dynamic and run-time shapes."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P17"
run_job = V.run_job
R = tf.raw_ops
BOOL = np.bool_
F16 = np.float16


def jobs(tier):
    S = Suite(tier)
    q = tier == "quick"
    OP = (9, 11, 13, 15, 18) if q else None
    OP3 = (9, 13, 18) if q else None
    OP2 = (10, 15) if q else None
    n = lambda t: np.dtype(t).name
    D = ("same", "dyn", "rank")
    # ------------------------------------------------------------ reshape
    for sh, to in (((2, 3), (3, 2)), ((2, 3), (6,)), ((2, 3), (-1,)), ((2, 3), (1, -1, 2)), ((2, 3), (2, 3)), ((4,), (2, 2)), ((1,), ()), ((1, 1), ()), ((2, 1, 3), (2, 3)), ((0, 3), (3, 0)), ((2, 3), (-1, 3)), ((0, 3), (0, 6)), ((2, 0), (0, 5)), ((0, 2), (-1, 2))):
        for decl in D:
            for dt in (F, I32, BOOL, F64):
                if dt is not F and decl != "same":
                    continue
                S.add("reshape", (sh, to, decl, n(dt)), lambda B, sh=sh, to=to, decl=decl, dt=dt: tf.reshape(B.input(dt, sh, decl=decl), to), ops=OP3)
        S.add("reshapert", (sh, to), lambda B, sh=sh, to=to: tf.reshape(B.input(F, sh), B.input(I32, (len(to),), "s", value=np.array(to, I32))), ops=OP3)
        S.add("reshapert64", (sh, to), lambda B, sh=sh, to=to: tf.reshape(B.input(I64, sh, decl="dyn"), B.input(I64, (len(to),), "s", value=np.array(to, I64))), ops=OP2)
    S.add("reshapesh", (), lambda B: (lambda x: tf.reshape(x, [tf.shape(x)[0], -1]))(B.input(F, (2, 3, 2), decl="dyn")), ops=OP)
    S.add("reshapesh2", (), lambda B: (lambda x: tf.reshape(x, tf.stack([tf.shape(x)[1], tf.shape(x)[0]])))(B.input(F, (2, 3), decl="dyn")), ops=OP)
    S.add("reshapesh3", (), lambda B: (lambda x: tf.reshape(x, tf.concat([tf.shape(x)[:-1], [3, 2]], 0)))(B.input(F, (2, 2, 6), decl="dyn")), ops=OP)
    S.add("reshapesh4", (), lambda B: (lambda x: tf.reshape(x, [tf.reduce_prod(tf.shape(x)[:-1]), tf.shape(x)[-1]]))(B.input(F, (2, 2, 3), decl="dyn")), ops=OP)
    S.add("reshapeother", (), lambda B: tf.reshape(B.input(F, (2, 3), decl="dyn"), tf.shape(B.input(F, (3, 2), decl="dyn"))), ops=OP)
    S.add("flatten", (), lambda B: (lambda x: tf.reshape(x, [-1, int(np.prod(x.shape[1:]))]))(B.input(F, (2, 3, 2))), ops=OP)
    # ------------------------------------------------------------ squeeze / expand
    for sh, axs in (((1, 2), (None, [0], [-2])), ((2, 1), (None, [1], [-1])), ((1, 2, 1), (None, [0], [2], [0, 2], [-1], [-3, -1], [2, 0], [-1, 0])), ((1,), (None, [0])), ((2, 3), (None,)), ((1, 1, 2, 1), ([1, 3], [-1, 0], [0, 1], None))):
        for ax in axs:
            for decl in D:
                if decl != "same" and ax is None:
                    continue
                S.add("squeeze", (sh, ax, decl), lambda B, sh=sh, ax=ax, decl=decl: tf.squeeze(B.input(F, sh, decl=decl), ax), ops=OP3)
            S.add("squeezei", (sh, ax), lambda B, sh=sh, ax=ax: tf.squeeze(B.input(I32, sh), ax), ops=OP2)
    S.add("squeezepart", (), lambda B: tf.squeeze(B.input(F, (2, 1, 3), decl=[None, 1, None])), ops=OP)
    for sh in ((), (2,), (2, 3), (2, 1, 3)):
        for ax in range(-len(sh) - 1, len(sh) + 1):
            for decl in D:
                S.add("expand", (sh, ax, decl), lambda B, sh=sh, ax=ax, decl=decl: tf.expand_dims(B.input(F, sh, decl=decl), ax), ops=OP3)
        S.add("expandi", (sh,), lambda B, sh=sh: tf.expand_dims(B.input(I32, sh), -1), ops=OP2)
    S.add("expandrt", (), lambda B: tf.expand_dims(B.input(F, (2, 3)), B.input(I32, (), "a", lo=-1, hi=2)), mn=13)
    # ------------------------------------------------------------ transpose
    for r in (1, 2, 3, 4):
        sh = (2, 3, 1, 2)[:r]
        for pm in itertools.permutations(range(r)):
            if r == 4 and hash(pm) % 3 and q:
                continue
            S.add("transpose", (sh, pm), lambda B, sh=sh, pm=pm: tf.transpose(B.input(F, sh, decl="same"), pm), ops=OP2)
            S.add("transposed", (sh, pm), lambda B, sh=sh, pm=pm: tf.transpose(B.input(I32, sh, decl="dyn"), pm), ops=OP2)
        S.add("transposerev", (sh,), lambda B, sh=sh: tf.transpose(B.input(F, sh, decl="dyn")), ops=OP)
    S.add("transpose2", (), lambda B: tf.transpose(tf.transpose(B.input(F, (2, 3, 2, 1)), (0, 3, 1, 2)), (0, 2, 3, 1)), ops=OP)
    S.add("transposebool", (), lambda B: tf.transpose(B.input(BOOL, (2, 3))), ops=OP)
    S.add("matrixT", (), lambda B: tf.linalg.matrix_transpose(B.input(F, (2, 3, 2), decl="dyn")), ops=OP)
    # ------------------------------------------------------------ concat / pack / unpack
    for sh in ((2,), (2, 3), (2, 1, 3)):
        for ax in range(-len(sh), len(sh)):
            for decl in D:
                for dt in (F, I32) if decl == "same" else (F,):
                    def cc(B, sh=sh, ax=ax, decl=decl, dt=dt):
                        s2 = list(sh)
                        s2[ax] = 1
                        return tf.concat([B.input(dt, sh, decl=decl), B.input(dt, s2, decl=decl), B.input(dt, sh, decl="same")], ax)
                    S.add("concat", (sh, ax, decl, n(dt)), cc, ops=OP3)
            S.add("concat0", (sh, ax), lambda B, sh=sh, ax=ax: tf.concat([B.input(F, sh), tf.zeros([0 if i == ax % len(sh) else d for i, d in enumerate(sh)])], ax), ops=OP)
    S.add("concat1", (), lambda B: tf.concat([B.input(F, (2, 3))], 1), ops=OP)
    S.add("concatbool", (), lambda B: tf.concat([B.input(BOOL, (2,)), B.input(BOOL, (1,))], 0), ops=OP)
    S.add("concatself", (), lambda B: (lambda x: tf.concat([x, x], 0))(B.input(F, (2, 3))), ops=OP)
    S.add("concatempty", (), lambda B: tf.concat([B.input(F, (0, 3)), B.input(F, (2, 3), decl="dyn")], 0), ops=OP)
    S.add("concatemptyd", (), lambda B: tf.concat([B.input(F, (0, 3), decl="dyn"), B.input(F, (2, 3), decl="dyn")], 0), ops=OP)
    S.add("concatempty3", (), lambda B: tf.concat([tf.zeros((2, 0)), B.input(F, (2, 1)), tf.zeros((2, 0)), B.input(F, (2, 3))], 1), ops=OP)
    S.add("concatempty4", (), lambda B: tf.concat([tf.zeros((2, 0)), tf.identity(tf.zeros((2, 0))), B.input(F, (2, 0))], 1), ops=OP)
    S.add("concat3v1", (), lambda B: R.Concat(concat_dim=1, values=[B.input(F, (2, 3)), B.input(F, (2, 1))]), ops=OP)
    for sh in ((), (2,), (2, 3), (1, 2, 2)):
        for ax in range(-len(sh) - 1, len(sh) + 1):
            for decl in D:
                if decl == "rank" and ax < 0:
                    continue
                for dt in (F, I32) if decl == "same" else (F,):
                    S.add("pack", (sh, ax, decl, n(dt)), lambda B, sh=sh, ax=ax, decl=decl, dt=dt: tf.stack([B.input(dt, sh, decl=decl), B.input(dt, sh, decl=decl)], ax), ops=OP3)
        for ax in range(-len(sh), len(sh)):
            if not sh:
                continue
            for decl in ("same", [d if i == ax % len(sh) else None for i, d in enumerate(sh)]):
                S.add("unpack", (sh, ax, decl == "same"), lambda B, sh=sh, ax=ax, decl=decl: tf.unstack(B.input(F, sh, decl=decl), axis=ax), ops=OP3)
            S.add("unpack1", (sh, ax), lambda B, sh=sh, ax=ax: tf.unstack(B.input(I32, sh), axis=ax)[-1], ops=OP2)
    S.add("unpackrt", (), lambda B: tf.unstack(B.input(F, (2, 3), decl="dyn"), num=3, axis=1), ops=OP)
    S.add("pack1", (), lambda B: tf.stack([B.input(F, (2,))]), ops=OP)
    S.add("packmix", (), lambda B: tf.stack([tf.shape(B.input(F, (2, 3), decl="dyn"))[0], 4, -1]), ops=OP)
    # ------------------------------------------------------------ split
    for sh, k in (((4,), 2), ((4, 2), 2), ((2, 6), 3), ((2, 3, 4), 2)):
        for ax in range(-len(sh), len(sh)):
            if sh[ax] % k:
                continue
            for decl in D:
                S.add("split", (sh, k, ax, decl), lambda B, sh=sh, k=k, ax=ax, decl=decl: tf.split(B.input(F, sh, decl=decl), k, ax), ops=OP3)
            S.add("split1", (sh, k, ax), lambda B, sh=sh, k=k, ax=ax: tf.split(B.input(I32, sh), k, ax)[-1], ops=OP2)
    S.add("splitn1", (), lambda B: tf.split(B.input(F, (2, 3)), 1, 1), ops=OP)
    # ------------------------------------------------------------ tile / broadcast / fill
    for sh, reps in (((2,), (3,)), ((2, 3), (1, 2)), ((2, 3), (2, 1)), ((2, 3), (2, 2)), ((2, 1, 2), (1, 3, 1)), ((2, 1), (0, 1)), ((1,), (1,))):
        for it in (I32, I64):
            for decl in D:
                S.add("tile", (sh, reps, n(it), decl), lambda B, sh=sh, reps=reps, it=it, decl=decl: tf.tile(B.input(F, sh, decl=decl), np.array(reps, it)), ops=OP3)
            S.add("tilert", (sh, reps, n(it)), lambda B, sh=sh, reps=reps, it=it: tf.tile(B.input(F, sh), B.input(it, (len(sh),), "r", value=np.array(reps, it))), ops=OP3)
        S.add("tilei", (sh, reps), lambda B, sh=sh, reps=reps: tf.tile(B.input(I32, sh), reps), ops=OP2)
    S.add("tilersym", (), lambda B: tf.tile(B.input(F, (2, 1)), B.input(I32, (2,), "r", lo=1, hi=2)), ops=OP)
    for sh, to in (((3,), (2, 3)), ((1,), (3,)), ((), (2,)), ((2, 1), (2, 3)), ((1, 3), (2, 3)), ((2, 3), (2, 3)), ((3, 1), (2, 3, 2)), ((1,), ()), ((1,), (0,))):
        if not (sh == (1,) and to == ()):
            for it in (I32, I64):
                S.add("bcast", (sh, to, n(it)), lambda B, sh=sh, to=to, it=it: tf.broadcast_to(B.input(F, sh), np.array(to, it)), ops=OP3)
                S.add("bcastrt", (sh, to, n(it)), lambda B, sh=sh, to=to, it=it: tf.broadcast_to(B.input(F, sh, decl="dyn"), B.input(it, (len(to),), "s", value=np.array(to, it))), ops=OP3)
            S.add("bcasti", (sh, to), lambda B, sh=sh, to=to: tf.broadcast_to(B.input(I32, sh), to), ops=OP2)
            S.add("bcastb", (sh, to), lambda B, sh=sh, to=to: tf.broadcast_to(B.input(BOOL, sh), to), ops=OP2)
    for dt in (F, I32, I64, BOOL, F64, U8):
        v = lambda B, dt=dt: B.input(dt, ())
        S.add("fill", (n(dt),), lambda B, v=v: tf.fill([2, 3], v(B)), ops=OP)
        S.add("fillrt", (n(dt),), lambda B, v=v: tf.fill(B.input(I32, (2,), "s", value=np.array([2, 3], I32)), v(B)), ops=OP)
        S.add("fillc", (n(dt),), lambda B, dt=dt: tf.fill(B.input(I64, (2,), "s", value=np.array([2, 0 if dt is U8 else 3])), tf.constant(1, dt)), ops=OP)
        S.add("zeroslike", (n(dt),), lambda B, dt=dt: tf.zeros_like(B.input(dt, (2, 3), decl="dyn")), ops=OP)
        S.add("oneslike", (n(dt),), lambda B, dt=dt: tf.ones_like(B.input(dt, (2, 3), decl="dyn")), ops=OP)
    S.add("fills", (), lambda B: tf.fill([], B.input(F, ())), ops=OP)
    S.add("fillsym", (), lambda B: tf.fill(B.input(I32, (2,), "s", lo=0, hi=2), 5.), ops=OP)
    S.add("zerosrt", (), lambda B: tf.zeros(tf.shape(B.input(F, (2, 3), decl="dyn"))[1:]), ops=OP)
    # ------------------------------------------------------------ shape / size / rank
    for sh in ((), (2,), (2, 3), (0, 3)):
        for decl in D:
            for ot in (tf.int32, tf.int64):
                S.add("shape", (sh, decl, ot.name), lambda B, sh=sh, decl=decl, ot=ot: tf.shape(B.input(F, sh, decl=decl), ot), ops=OP3)
                S.add("size", (sh, decl, ot.name), lambda B, sh=sh, decl=decl, ot=ot: tf.size(B.input(F, sh, decl=decl), ot), ops=OP3)
    # ------------------------------------------------------------ pad
    for sh, pads in (((3,), [[1, 2]]), ((2, 3), [[0, 0], [1, 1]]), ((2, 3), [[1, 0], [0, 2]]), ((2, 3), [[0, 0], [0, 0]]), ((3, 2, 3), [[1, 1], [0, 1], [2, 0]]), ((1, 2, 2, 1), [[0, 0], [1, 1], [1, 1], [0, 0]])):
        for it in (I32, I64):
            for decl in D:
                S.add("pad", (sh, pads, n(it), decl), lambda B, sh=sh, pads=pads, it=it, decl=decl: tf.pad(B.input(F, sh, decl=decl), np.array(pads, it)), ops=OP3)
            S.add("padc", (sh, pads, n(it)), lambda B, sh=sh, pads=pads, it=it: tf.pad(B.input(F, sh), np.array(pads, it), constant_values=2.5), ops=OP3)
            S.add("padrt", (sh, pads, n(it)), lambda B, sh=sh, pads=pads, it=it: tf.pad(B.input(F, sh), B.input(it, np.shape(pads), "p", value=np.array(pads, it))), mn=11, ops=(11, 15, 18) if q else None)
        S.add("padcv", (sh, pads), lambda B, sh=sh, pads=pads: tf.pad(B.input(F, sh), pads, constant_values=B.input(F, ())), mn=11)
        S.add("padi", (sh, pads), lambda B, sh=sh, pads=pads: tf.pad(B.input(I32, sh), pads, constant_values=-1), ops=OP)
        for dt in (F16, F64, U8, I8, BOOL, I16):
            S.add("paddt", (sh, pads, n(dt)), lambda B, sh=sh, pads=pads, dt=dt: tf.pad(B.input(dt, sh), pads), ops=OP2)
            S.add("padcdt", (sh, pads, n(dt)), lambda B, sh=sh, pads=pads, dt=dt: R.PadV2(input=B.input(dt, sh), paddings=pads, constant_values=dt(1)), ops=(9, 11, 15, 18) if q else None)
        S.add("padi64", (sh, pads), lambda B, sh=sh, pads=pads: tf.pad(B.input(I64, sh), pads, constant_values=3), ops=OP2)
        for md in ("REFLECT", "SYMMETRIC"):
            lim = 1 if md == "REFLECT" else 0
            if all(max(p) <= d - lim for p, d in zip(pads, sh)):
                S.add("mpad", (md, sh, pads), lambda B, md=md, sh=sh, pads=pads: tf.pad(B.input(F, sh), pads, md), ops=OP)
                S.add("mpadd", (md, sh, pads), lambda B, md=md, sh=sh, pads=pads: tf.pad(B.input(F, sh, decl="dyn"), pads, md), ops=OP2)
                S.add("mpadi", (md, sh, pads), lambda B, md=md, sh=sh, pads=pads: tf.pad(B.input(I32, sh), pads, md), ops=OP2)
                S.add("mpadrt", (md, sh, pads), lambda B, md=md, sh=sh, pads=pads: tf.pad(B.input(F, sh), B.input(I32, np.shape(pads), "p", value=np.array(pads, I32)), md), mn=11, ops=(11, 18) if q else None)
    S.add("padsym", (), lambda B: tf.pad(B.input(F, (2, 2)), B.input(I32, (2, 2), "p", lo=0, hi=1)), mn=11, ops=(11, 18) if q else None)
    S.add("mpad22", (), lambda B: tf.pad(B.input(F, (2, 2)), [[2, 2], [1, 2]], "SYMMETRIC"), ops=OP)
    # ------------------------------------------------------------ space / depth / batch
    for fmt in ("NHWC", "NCHW"):
        for bs in (2, 3):
            for sh in ((1, bs, 2 * bs, 2), (2, bs, bs, 1)):
                s = sh if fmt == "NHWC" else (sh[0], sh[3], sh[1], sh[2])
                for decl in ("same", "dyn"):
                    S.add("s2depth", (fmt, bs, s, decl), lambda B, s=s, bs=bs, fmt=fmt, decl=decl: tf.nn.space_to_depth(B.input(F, s, decl=decl if fmt == "NHWC" else "same"), bs, fmt), ops=OP)
            for c in (1, 2):
                s = (1, 2, 1, c * bs * bs) if fmt == "NHWC" else (1, c * bs * bs, 2, 1)
                for decl in ("same", "dyn"):
                    S.add("depth2s", (fmt, bs, s, decl), lambda B, s=s, bs=bs, fmt=fmt, decl=decl: tf.nn.depth_to_space(B.input(F, s, decl=decl if fmt == "NHWC" else "same"), bs, fmt), ops=OP)
    for sh, bsz, pd in (((1, 2, 4, 1), [2, 2], [[0, 0], [0, 0]]), ((1, 2, 2, 2), [2, 2], [[0, 0], [0, 0]]), ((2, 3, 3, 1), [2, 2], [[1, 0], [0, 1]]), ((1, 4, 2, 1), [2, 1], [[0, 0], [0, 0]]), ((1, 3, 2, 1), [3, 2], [[0, 0], [1, 1]]),
                        ((1, 4, 2), [2], [[0, 0]]), ((2, 3, 2), [2], [[0, 1]]), ((1, 2, 2, 2, 1), [2, 2, 2], [[0, 0]] * 3), ((1, 3), [2], [[1, 0]]), ((1, 2, 3, 2, 1), [1, 3], [[0, 0], [0, 0]])):
        for decl in ("same", "dyn"):
            for it in (I32, I64):
                S.add("s2b", (sh, bsz, pd, decl, n(it)), lambda B, sh=sh, bsz=bsz, pd=pd, decl=decl, it=it: tf.space_to_batch(B.input(F, sh, decl=decl), np.array(bsz, it), np.array(pd, it)), ops=OP3)
        S.add("s2bi", (sh, bsz, pd), lambda B, sh=sh, bsz=bsz, pd=pd: tf.space_to_batch(B.input(I32, sh), bsz, pd), ops=OP2)
        S.add("s2brt", (sh, bsz, pd), lambda B, sh=sh, bsz=bsz, pd=pd: tf.space_to_batch(B.input(F, sh), bsz, B.input(I32, np.shape(pd), "p", value=np.array(pd, I32))), mn=11, ops=(11, 18) if q else None)
    for sh, bsz, cr in (((4, 1, 2, 1), [2, 2], [[0, 0], [0, 0]]), ((4, 2, 2, 1), [2, 2], [[0, 0], [0, 0]]), ((8, 2, 1, 1), [2, 2], [[1, 0], [0, 1]]), ((2, 2, 2, 1), [2, 1], [[1, 1], [0, 0]]), ((6, 1, 2, 1), [3, 2], [[0, 1], [1, 1]]), ((4, 2, 2), [2], [[0, 0]]), ((2, 2, 2), [2], [[1, 0]]),
                        ((8, 1, 1, 2, 1), [2, 2, 2], [[0, 0]] * 3), ((2, 3), [2], [[1, 0]]), ((4, 1, 1, 3), [2, 2], [[0, 0], [0, 0]]), ((3, 2, 1, 2, 1), [1, 3], [[0, 0], [0, 1]])):
        for decl in ("same", "dyn"):
            for it in (I32, I64):
                S.add("b2s", (sh, bsz, cr, decl, n(it)), lambda B, sh=sh, bsz=bsz, cr=cr, decl=decl, it=it: R.BatchToSpaceND(input=B.input(F, sh, decl=decl), block_shape=np.array(bsz, it), crops=np.array(cr, it)), ops=OP3)
        S.add("b2si", (sh, bsz, cr), lambda B, sh=sh, bsz=bsz, cr=cr: R.BatchToSpaceND(input=B.input(I32, sh), block_shape=bsz, crops=cr), ops=OP2)
        S.add("b2srt", (sh, bsz, cr), lambda B, sh=sh, bsz=bsz, cr=cr: R.BatchToSpaceND(input=B.input(F, sh), block_shape=bsz, crops=B.input(I32, np.shape(cr), "p", value=np.array(cr, I32))), ops=OP2)
    # ------------------------------------------------------------ roll / reverse
    for sh, shifts, axs in (((4,), 1, 0), ((4,), -1, 0), ((4,), 5, 0), ((4,), 0, 0), ((2, 3), 1, 1), ((2, 3), -2, -1), ((2, 3), [1, 1], [0, 1]), ((2, 3), [1, -1], [-1, 0]), ((2, 3), [1, 1], [1, 1]), ((3, 2, 2), [2, 1], [0, 2]), ((2, 3), [7], [1]), ((2, 3), -7, 1)):
        for it in (I32, I64):
            S.add("roll", (sh, shifts, axs, n(it)), lambda B, sh=sh, shifts=shifts, axs=axs, it=it: tf.roll(B.input(F, sh), np.array(shifts, it), np.array(axs, it)), mn=10, ops=(10, 13, 18) if q else None)
            S.add("rollrt", (sh, shifts, axs, n(it)), lambda B, sh=sh, shifts=shifts, axs=axs, it=it: tf.roll(B.input(F, sh, decl="dyn"), B.input(it, np.shape(shifts), "s", lo=-3, hi=4), np.array(axs, it)), mn=10, ops=(10, 13, 18) if q else None)
    for sh in ((3,), (2, 3), (2, 1, 3)):
        for k in range(0, len(sh) + 1):
            for axs in itertools.combinations(range(len(sh)), k):
                for sg in (0, len(sh)):
                    a = [x - sg for x in axs]
                    for decl in ("same", "dyn"):
                        S.add("reverse", (sh, a, decl), lambda B, sh=sh, a=a, decl=decl: tf.reverse(B.input(F, sh, decl=decl), a), mn=10, ops=(10, 13, 18) if q else None)
    for sh, sa, ba in (((3, 2), 0, 1), ((2, 3), 1, 0), ((2, 3, 2), 1, 0), ((2, 2, 3), 2, 0), ((3, 2, 2), 0, 2), ((2, 3, 2), 1, 2), ((2, 3, 1, 2), 1, 3)):
        for it in (I32, I64):
            S.add("revseq", (sh, sa, ba, n(it)), lambda B, sh=sh, sa=sa, ba=ba, it=it: tf.reverse_sequence(B.input(F, sh), B.input(it, (sh[ba],), "l", lo=0, hi=sh[sa]), seq_axis=sa, batch_axis=ba), mn=10, ops=(10, 13, 18) if q else None, xval=False)
        S.add("revseqc", (sh, sa, ba), lambda B, sh=sh, sa=sa, ba=ba: tf.reverse_sequence(B.input(I32, sh), [2] + [1] * (sh[ba] - 1), seq_axis=sa, batch_axis=ba), mn=10, ops=(10, 18) if q else None)
    # ------------------------------------------------------------ matrices
    for sh in ((3, 3), (2, 3), (3, 2), (2, 2, 3)):
        for lo, up in ((0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (-1, -1), (1, 1), (2, -1)):
            for dt in (F, I32) if (lo, up) == (1, 0) else (F,):
                S.add("band", (sh, lo, up, n(dt)), lambda B, sh=sh, lo=lo, up=up, dt=dt: tf.linalg.band_part(B.input(dt, sh), lo, up), ops=OP)
        S.add("bandd", (sh,), lambda B, sh=sh: tf.linalg.band_part(B.input(F, sh, decl="dyn"), -1, 0), mn=11)
        S.add("bandd2", (sh,), lambda B, sh=sh: tf.linalg.band_part(B.input(F, sh, decl="dyn"), 1, 1), mn=11)
        S.add("bandrt", (sh,), lambda B, sh=sh: tf.linalg.band_part(B.input(F, sh), B.input(I64, (), "l", lo=-1, hi=2), B.input(I64, (), "u", lo=-1, hi=2)), mn=11)
        S.add("diagpart", (sh,), lambda B, sh=sh: R.MatrixDiagPart(input=B.input(F, sh)), mn=11)
        for k in (0, 1, -1, (-1, 0), (0, 1), (-1, 1)):
            dk = (k[1] - k[0] + 1) if isinstance(k, tuple) else None
            mx = min(sh[-2] + min(k[1] if dk else k, 0), sh[-1] - max(k[0] if dk else k, 0))
            if mx <= 0:
                continue
            dsh = sh[:-2] + ((dk,) if dk else ()) + (mx,)
            for al in ("RIGHT_LEFT", "LEFT_RIGHT", "LEFT_LEFT", "RIGHT_RIGHT"):
                S.add("diagpart3", (sh, k, al), lambda B, sh=sh, k=k, al=al: tf.linalg.diag_part(B.input(F, sh), k=k, padding_value=0. if al != "LEFT_LEFT" else 7., align=al), mn=12, ops=(12, 18) if q else None)
            S.add("diagpart2", (sh, k), lambda B, sh=sh, k=k: R.MatrixDiagPartV2(input=B.input(F, sh), k=k, padding_value=np.float32(3)), mn=12, ops=(12, 18) if q else None)
            S.add("diagpartdyn", (sh, k), lambda B, sh=sh, k=k: R.MatrixDiagPartV3(input=B.input(F, sh, decl="dyn"), k=k, padding_value=np.float32(3)), mn=12, ops=(12, 18) if q else None)
            for al in ("RIGHT_LEFT", "LEFT_RIGHT", "LEFT_LEFT", "RIGHT_RIGHT"):
                if q and (not isinstance(k, tuple) or sh == (3, 2)) and al[:5] != "RIGHT":
                    continue
                S.add("setdiag", (sh, k, al), lambda B, sh=sh, k=k, al=al, dsh=dsh: R.MatrixSetDiagV3(input=B.input(F, sh), diagonal=B.input(F, dsh), k=k, align=al), ops=(12, 18) if q else (12, 13, 18))
    for dsh in ((2,), (3,), (2, 2), (1, 2, 2)):
        S.add("diag", (dsh,), lambda B, dsh=dsh: R.MatrixDiag(diagonal=B.input(F, dsh)), mn=12, ops=(12, 18) if q else None)
        S.add("diagd", (dsh,), lambda B, dsh=dsh: R.MatrixDiag(diagonal=B.input(F, dsh, decl="dyn")), mn=12, ops=(12, 18) if q else None)
        for k in (0, 1, -1, 2):
            S.add("diag3", (dsh, k), lambda B, dsh=dsh, k=k: tf.linalg.diag(B.input(F, dsh), k=k), mn=12, ops=(12, 18) if q else None)
            S.add("diag3p", (dsh, k), lambda B, dsh=dsh, k=k: tf.linalg.diag(B.input(F, dsh), k=k, padding_value=5.), mn=12, ops=(12, 18) if q else None)
        S.add("diag2", (dsh,), lambda B, dsh=dsh: R.MatrixDiagV2(diagonal=B.input(F, dsh), k=0, num_rows=-1, num_cols=-1, padding_value=np.float32(0)), mn=12, ops=(12, 18) if q else None)
        S.add("diagnum", (dsh,), lambda B, dsh=dsh: tf.linalg.diag(B.input(F, dsh), num_rows=dsh[-1], num_cols=dsh[-1] + 1), mn=12, ops=(12, 18) if q else None)
        S.add("diagnum1", (dsh,), lambda B, dsh=dsh: tf.linalg.diag(B.input(F, dsh), num_rows=dsh[-1] + 1, num_cols=dsh[-1]), mn=12, ops=(12, 18) if q else None)
    for dsh, k in (((2, 2), (0, 1)), ((2, 3), (-1, 0)), ((3, 3), (-1, 1)), ((2, 2, 2), (-1, 0))):
        for al in ("RIGHT_LEFT", "LEFT_RIGHT", "LEFT_LEFT", "RIGHT_RIGHT"):
            S.add("diagband", (dsh, k, al), lambda B, dsh=dsh, k=k, al=al: tf.linalg.diag(B.input(F, dsh), k=k, align=al), mn=12, ops=(12, 18) if q else None)
    for r, c in ((3, 2), (2, 3), (4, 2), (2, 4), (3, 3)):
        for k in ((-1, 0), (0, 1), (-1, 1), (-2, -1), (1, 2), (-2, 0), 0, 1, -1):
            k0, k1 = k if isinstance(k, tuple) else (k, k)
            mx = min(r + min(k1, 0), c - max(k0, 0))
            if mx <= 0 or -k0 >= r or k1 >= c:
                continue
            for al in ("RIGHT_LEFT", "LEFT_RIGHT", "LEFT_LEFT", "RIGHT_RIGHT"):
                if q and al in ("LEFT_RIGHT", "RIGHT_RIGHT"):
                    continue
                S.add("diagrc", (r, c, k, al), lambda B, r=r, c=c, k=k, al=al, mx=mx, k0=k0, k1=k1: tf.linalg.diag(
                    B.input(F, (k1 - k0 + 1, mx) if isinstance(k, tuple) else (mx,)), k=k, num_rows=r, num_cols=c, align=al, padding_value=2.), ops=(12, 18) if q else (12, 13, 18))
    for r, c in ((2, None), (3, 2), (2, 3)):
        S.add("eye", (r, c), lambda B, r=r, c=c: tf.eye(r, c) + B.input(F, (r, c or r)), ops=OP)
        S.add("eyei", (r, c), lambda B, r=r, c=c: tf.eye(r, c, dtype=tf.int32) * B.input(I32, (r, c or r)), ops=OP)
    S.add("eyeb", (), lambda B: tf.eye(2, batch_shape=[2]) * B.input(F, (2, 2, 2)), ops=OP)
    S.add("eyert", (), lambda B: tf.eye(B.input(I32, (), "n", lo=1, hi=3)), ops=OP)
    S.add("eyert2", (), lambda B: tf.eye(B.input(I32, (), "n", lo=1, hi=2), B.input(I32, (), "m", lo=1, hi=3)), ops=OP)
    # ------------------------------------------------------------ range / ensure shape
    for a, l, d in ((0, 3, 1), (3, 0, -1), (1, 8, 3), (0, 0, 1), (5, 1, -2)):
        for dt in (I32, I64, F):
            S.add("range", (a, l, d, n(dt)), lambda B, a=a, l=l, d=d, dt=dt: tf.range(dt(a), dt(l), dt(d)) + B.input(dt, ()), ops=OP3)
            S.add("rangert", (a, l, d, n(dt)), lambda B, a=a, l=l, d=d, dt=dt: tf.range(B.input(dt, (), "s", value=dt(a)), B.input(dt, (), "l", value=dt(l)), B.input(dt, (), "d", value=dt(d))), ops=OP3)
    S.add("rangesym", (), lambda B: tf.range(B.input(I32, (), "s", lo=-1, hi=1), B.input(I32, (), "l", lo=-1, hi=3)), ops=OP)
    S.add("rangesymd", (), lambda B: tf.range(B.input(I32, (), "s", lo=-2, hi=2), B.input(I32, (), "l", lo=-2, hi=2), -1), ops=OP)
    S.add("rangesym2", (), lambda B: tf.range(0, B.input(I64, (), "l", lo=0, hi=5), 2), ops=OP)
    S.add("ensure", (), lambda B: tf.ensure_shape(B.input(F, (2, 3), decl="dyn"), [2, None]), ops=OP)
    S.add("ensurer", (), lambda B: tf.ensure_shape(B.input(F, (2, 3), decl="rank"), [2, 3]), ops=OP)
    # ------------------------------------------------------------ combinations
    S.add("combo1", (), lambda B: (lambda x: tf.reshape(tf.transpose(tf.reshape(x, [tf.shape(x)[0], 2, 2, -1]), [0, 2, 1, 3]), [-1, 4]))(B.input(F, (2, 4), decl="dyn")), ops=OP)
    S.add("combo2", (), lambda B: (lambda x: tf.concat([x[:, :1], tf.reverse(x, [1])], 1))(B.input(F, (2, 3))), mn=10)
    S.add("combo3", (), lambda B: (lambda x: tf.tile(tf.expand_dims(x, 1), tf.stack([1, tf.shape(x)[0], 1])))(B.input(F, (2, 3), decl="dyn")), ops=OP)
    S.add("combo4", (), lambda B: (lambda x: tf.stack(tf.unstack(x, 2)[::-1]))(B.input(F, (2, 3))), ops=OP)
    S.add("shuffle", (), lambda B: (lambda x: tf.reshape(tf.transpose(tf.reshape(x, [-1, 1, 2, 2, 2]), [0, 1, 2, 4, 3]), [-1, 1, 2, 4]))(B.input(F, (1, 1, 2, 4), decl=[None, 1, 2, 4])), ops=OP)
    S.add("mha", (), lambda B: (lambda x: tf.reshape(tf.transpose(x, [0, 2, 1, 3]), [tf.shape(x)[0], tf.shape(x)[2], 4]))(B.input(F, (1, 2, 3, 2), decl="dyn")), ops=OP)
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL,
                    ["tensors up to rank 5, dims 0-6; static, dynamic and unknown ranks; every positive and negative axis of the listed shapes", "run-time shapes, repeats, pads, crops, shifts and lengths: the listed values or every value in the listed ranges",
                     "opsets 9,10,11,13,15,18 (quick) or 9..18 (thorough)"],
                    ["onnx_opset.tensor.Reshape/Squeeze/ExpandDims/Transpose/Concat*/Pack/Unpack/Split*/Tile/BroadcastTo/Shape/Size/Roll/Reverse*/BatchToSpaceND/SpaceToBatchND/MatrixDiag*/MatrixSetDiag", "onnx_opset.nn.Pad*/SpaceToDepth/DepthToSpace/MatrixBandPart",
                     "onnx_opset.generator.Fill/Range/ZerosLike/OnesLike", "tf2onnx.rewriter.*"])
