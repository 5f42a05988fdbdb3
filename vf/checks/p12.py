"""P12 slicing: Slice, StridedSlice, Split(V), Unpack, ReverseV2/ReverseSequence."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P12"
run_job = V.run_job


def ss(x, b, e, s, bm=0, em=0, el=0, na=0, sh=0):
    return tf.raw_ops.StridedSlice(input=x, begin=b, end=e, strides=s, begin_mask=bm, end_mask=em, ellipsis_mask=el,
                                   new_axis_mask=na, shrink_axis_mask=sh)


def jobs(tier):
    S = Suite(tier)
    q = tier == "quick"
    # ---- tf.slice, constant
    for sh in [(3,), (3, 4), (2, 3, 2)]:
        for dyn in ("same", "dyn"):
            for dt in (F, I32):
                cfg = []
                if len(sh) == 1:
                    cfg = [((b,), (s,)) for b in range(4) for s in range(-1, 4) if b + max(s, 0) <= 3]
                elif len(sh) == 2:
                    cfg = [((0, 1), (2, 2)), ((1, 0), (-1, 3)), ((2, 2), (1, -1)), ((0, 0), (-1, -1)), ((1, 3), (2, 1)), ((1, 1), (0, 2)),
                           ((3, 0), (-1, 1))]
                else:
                    cfg = [((0, 1, 0), (-1, 2, 1)), ((1, 0, 1), (1, 3, -1)), ((0, 2, 1), (2, 1, 1))]
                for b, s in cfg:
                    S.add("slice", (sh, dyn, np.dtype(dt).name, b, s),
                          lambda B, sh=sh, dyn=dyn, dt=dt, b=b, s=s: tf.slice(B.input(dt, sh, decl=dyn), b, s))
            for it in (I32, I64):
                # runtime begin / size: every legal value
                S.add("slice_dyn", (sh, dyn, np.dtype(it).name),
                      lambda B, sh=sh, dyn=dyn, it=it: tf.slice(B.input(F, sh, decl=dyn), B.input(it, (len(sh),), "b", lo=0, hi=3 if len(sh) < 3 else 1),
                                                                B.input(it, (len(sh),), "s", lo=-1, hi=3 if len(sh) < 3 else 1)), ops=(10, 11, 13, 15, 18) if not len(sh) == 3 else (11, 15, 18))
                S.add("slice_dynb", (sh, dyn, np.dtype(it).name),
                      lambda B, sh=sh, dyn=dyn, it=it: tf.slice(B.input(F, sh, decl=dyn), B.input(it, (len(sh),), "b", lo=0, hi=3),
                                                                [1] * len(sh)), mn=10)
                S.add("slice_dyns", (sh, dyn, np.dtype(it).name),
                      lambda B, sh=sh, dyn=dyn, it=it: tf.slice(B.input(F, sh, decl=dyn), tf.constant([0] * len(sh), it),
                                                                B.input(it, (len(sh),), "s", lo=-1, hi=3)), mn=10)
    # ---- strided slice, constant bounds, one axis: all begins/ends/strides
    n = 3
    # a negative stride from below the first element selects nothing (recorded finding)
    for dyn in ("same", "dyn"):
        S.add("ss_negoob", (dyn,), lambda B, dyn=dyn: ss(B.input(F, (3,), decl=dyn), B.input(I32, (1,), "b", lo=-5, hi=-4),
                                                         B.input(I32, (1,), "e", lo=-5, hi=-4), [-1]), mn=10)
    for b, e, s in itertools.product(range(-4, 5), range(-4, 5), (1, 2, -1, -2)):
        for bm, em in ((0, 0), (1, 0), (0, 1), (1, 1)):
            if (bm and b not in (0, -1, 2)) or (em and e not in (0, -2, 2)):
                continue
            dyn = "dyn" if (b + e + s + bm + em) % 2 else "same"
            S.add("ss1_negoob" if s < 0 and b < -n and not bm and (em or e < -n) else "ss1", (b, e, s, bm, em, dyn),
                  lambda B, b=b, e=e, s=s, bm=bm, em=em, dyn=dyn: ss(B.input(F, (n,), decl=dyn), [b], [e], [s], bm, em),
                  mn=9 if s == 1 else 10, ops=((9,) * (s == 1) + (10, 15, 18)) if q else None)
    for b in range(-3, 3):
        for dyn in ("same", "dyn"):
            S.add("ssshrink1", (b, dyn), lambda B, b=b, dyn=dyn: ss(B.input(F, (n,), decl=dyn), [b], [b + 1], [1], sh=1))
            S.add("ssshrink2", (b, dyn), lambda B, b=b, dyn=dyn: ss(B.input(F, (n, 2), decl=dyn), [b, 1], [b + 1, 2], [1, 1], sh=1))
            S.add("ssshrink3", (b, dyn), lambda B, b=b, dyn=dyn: ss(B.input(I32, (2, n), decl=dyn), [0, b], [2, b + 1], [1, 1], sh=2))
            S.add("ssshrinkA", (b, dyn), lambda B, b=b, dyn=dyn: ss(B.input(F, (n, 2, 2), decl=dyn), [b, 0, -1], [b + 1, 2, 0], [1, 1, 1], sh=5))
            # shrink ignores end and mask
            S.add("ssshrinkE", (b, dyn), lambda B, b=b, dyn=dyn: ss(B.input(F, (n, 2), decl=dyn), [b], [7], [1], sh=1))
    # ---- masks on rank 2 / 3
    pat = []
    for bm, em in itertools.product(range(4), range(4)):
        pat.append(((1, 0), (3, 1), (1, 1), bm, em))
        pat.append(((-1, 1), (0, -1), (-1, 1), bm, em))
        pat.append(((0, -2), (2, 2), (2, 1), bm, em))
    for b, e, s, bm, em in pat:
        for dyn in ("same", "dyn"):
            S.add("ss2", (b, e, s, bm, em, dyn), lambda B, b=b, e=e, s=s, bm=bm, em=em, dyn=dyn:
                  ss(B.input(F, (3, 2), decl=dyn), list(b), list(e), list(s), bm, em), mn=10 if s != (1, 1) else 9, ops=((9,) * (s == (1, 1)) + (10, 15, 18)) if q else None)
    # ellipsis / new axis / shrink combinations
    for rank in (1, 2, 3, 4):
        sh = (2, 3, 2, 2)[:rank]
        for items in itertools.product("aensr", repeat=2):
            _combo(S, sh, items)
        for items in itertools.product("aensr", repeat=3):
            _combo(S, sh, items, ops=(9, 13, 18) if q else None)
        if rank >= 3:
            for items in itertools.product("aensr", repeat=4):
                _combo(S, sh, items, ops=(15,) if q else (9, 13, 15, 18))
    # ---- runtime bounds: every value by case split
    for sh, cnt in (((3,), 1), ((3, 2), 1), ((2, 3), 2), ((2, 2, 2), 2)):
        for st in ((1,), (2,), (-1,)):
            for masks in ((0, 0), (1, 0), (0, 1), (1, 1)):
                for dyn in ("same", "dyn"):
                    for it in ((I32, I64) if (sh == (3,)) else (I32,)):
                        S.add("ss_dyn", (sh, cnt, st, masks, dyn, np.dtype(it).name),
                              lambda B, sh=sh, cnt=cnt, st=st, masks=masks, dyn=dyn, it=it:
                              ss(B.input(F, sh, decl=dyn), B.input(it, (cnt,), "b", lo=(-4 if cnt == 1 else -2) if st[0] > 0 else -min(sh[:cnt]), hi=4 if cnt == 1 else 2),
                                 B.input(it, (cnt,), "e", lo=-4 if cnt == 1 else -2, hi=4 if cnt == 1 else 2),
                                 tf.constant(list(st) * cnt, it), *masks), ops=((10, 15, 18) if cnt == 1 else (15,)) if q else (10, 11, 13, 15, 18))
        S.add("ss_dynshrink", (sh,), lambda B, sh=sh: (lambda i: ss(B.input(F, sh), tf.stack([i]), tf.stack([i + 1]), [1], sh=1))(
            B.input(I32, (), "i", lo=-sh[0], hi=sh[0] - 1)), mn=10)
        S.add("ss_dynshrink0", (sh,), lambda B, sh=sh: (lambda i: B.input(F, sh)[i])(B.input(I32, (), "i", lo=-sh[0], hi=sh[0] - 1)), mn=10)
        S.add("ss_dynend", (sh,), lambda B, sh=sh: (lambda i: B.input(F, sh)[:i])(B.input(I32, (), "i", lo=-4, hi=4)), mn=10)
        S.add("ss_dynbeg", (sh,), lambda B, sh=sh: (lambda i: B.input(F, sh)[i:])(B.input(I32, (), "i", lo=-4, hi=4)), mn=10)
    S.add("ss_shape", ("x[:shape[0]-1]",), lambda B: (lambda x: x[:tf.shape(x)[0] - 1])(B.input(F, (3, 2), decl="dyn")))
    S.add("ss_shape", ("x[...,newaxis,i]",), lambda B: (lambda x: x[..., tf.newaxis, B.input(I32, (), "i", lo=0, hi=1)])(B.input(F, (3, 2), decl="dyn")), mn=10)
    S.add("ss_dynstride", (), lambda B: ss(B.input(F, (4,)), [0], [4], B.input(I32, (1,), "s", lo=1, hi=3)), mn=10)
    S.add("ss_dynstride", ("neg",), lambda B: ss(B.input(F, (4,)), [3], [0], B.input(I32, (1,), "s", lo=-3, hi=-1)), mn=10)
    S.add("ss_dynnew", (), lambda B: ss(B.input(F, (3, 2), decl="dyn"), B.input(I32, (2,), "b", lo=0, hi=2), B.input(I32, (2,), "e", lo=1, hi=3), [1, 1], na=1), mn=10)
    S.add("ss_dynell", (), lambda B: ss(B.input(F, (3, 2, 2), decl="dyn"), B.input(I32, (2,), "b", lo=0, hi=2), B.input(I32, (2,), "e", lo=1, hi=3), [1, 1], el=1), mn=10)
    S.add("ss_dynell", ("static",), lambda B: ss(B.input(F, (3, 2, 2)), B.input(I32, (2,), "b", lo=0, hi=2), B.input(I32, (2,), "e", lo=1, hi=3), [1, 1], el=1), mn=10)
    S.add("ss_dynell", ("shrink",), lambda B: ss(B.input(F, (3, 2, 2)), B.input(I32, (2,), "b", lo=0, hi=1), B.input(I32, (2,), "e", lo=1, hi=3), [1, 1], el=1, sh=2), mn=10)
    S.add("ss_bool", (), lambda B: B.input(np.bool_, (3, 2))[::-1, :1])
    for dt in (I8, U8, F64, I64, np.float16):
        S.add("ss_dt", (np.dtype(dt).name,), lambda B, dt=dt: B.input(dt, (3, 2))[1:, ::-1])
        S.add("slice_dt", (np.dtype(dt).name,), lambda B, dt=dt: tf.slice(B.input(dt, (3, 2)), [1, 0], [2, 1]))
    # ---- split
    for sh, ax in (((4,), 0), ((4, 2), 0), ((4, 2), 1), ((2, 4), -1), ((4, 2, 2), -3), ((2, 6), 1)):
        dim = sh[ax]
        for k in range(1, dim + 1):
            if dim % k:
                continue
            for dyn in ("same", "dyn"):
                S.add("split", (sh, ax, k, dyn), lambda B, sh=sh, ax=ax, k=k, dyn=dyn: tf.split(B.input(F, sh, decl=dyn), k, ax))
    for sh, ax, sz in (((4,), 0, (1, 3)), ((4,), 0, (1, -1)), ((4,), 0, (-1, 2)), ((5, 2), 0, (2, -1, 1)), ((2, 5), 1, (1, 1, 3)),
                       ((2, 5), -1, (4, 1)), ((2, 5), -1, (-1,)), ((5,), 0, (0, 5)), ((3, 2), -2, (2, 1)), ((2, 3, 4), 1, (1, 2)),
                       ((5,), 0, (2, 0, -1)), ((5,), 0, (2, -1, 3))):
        for dyn in ("same", "dyn"):
            for it in (I32, I64):
                S.add("splitv", (sh, ax, sz, dyn, np.dtype(it).name), lambda B, sh=sh, ax=ax, sz=sz, dyn=dyn, it=it:
                      tf.raw_ops.SplitV(value=B.input(F, sh, decl=dyn), size_splits=tf.constant(sz, it), axis=ax, num_split=len(sz)))
    S.add("splitv_dyn", (), lambda B: tf.raw_ops.SplitV(value=B.input(F, (4, 2)), size_splits=B.input(I32, (2,), "s", lo=0, hi=4), axis=0, num_split=2), mn=13)
    S.add("splitv_dyn-1", (), lambda B: tf.raw_ops.SplitV(value=B.input(F, (4, 2)), size_splits=tf.stack([B.input(I32, (), "s", lo=0, hi=4), -1]), axis=0, num_split=2), mn=13)
    # ---- unpack
    for sh, ax in (((3,), 0), ((2, 3), 0), ((2, 3), 1), ((2, 3), -1), ((2, 3), -2), ((1, 3, 2), 1), ((1, 3, 2), 0), ((2, 1, 3), 1), ((2, 2, 2), -1), ((2, 3, 2), -3)):
        for dyn in ("same", "dyn"):
            S.add("unpack", (sh, ax, dyn), lambda B, sh=sh, ax=ax, dyn=dyn:
                  tf.unstack(B.input(F, sh, decl=dyn), num=sh[ax], axis=ax))
    # ---- reverse
    for sh in ((3,), (2, 3), (2, 3, 2), (1, 2, 2, 3)):
        r = len(sh)
        for k in range(0, r + 1):
            for axs in itertools.permutations(range(-r, r), k) if k < 3 else [tuple(range(k)), tuple(range(-1, -k - 1, -1))]:
                if len({a % r for a in axs}) != len(axs):
                    continue
                if q and r == 4 and k == 2 and sum(axs) % 2:
                    continue
                for dyn in (("same", "dyn") if k < 2 else ("dyn" if sum(axs) % 2 else "same",)):
                    S.add("reverse", (sh, axs, dyn), lambda B, sh=sh, axs=axs, dyn=dyn:
                          tf.reverse(B.input(F, sh, decl=dyn), np.array(axs, np.int32)), ops=(10, 13, 15, 18) if q else None)
    for dt in (I32, np.bool_, F64):
        S.add("reverse_dt", (np.dtype(dt).name,), lambda B, dt=dt: tf.reverse(B.input(dt, (3, 2)), [0]), mn=10)
    for sh, sa, ba in (((2, 3), 1, 0), ((3, 2), 0, 1), ((2, 3, 2), 1, 0), ((2, 3, 2), 2, 0), ((3, 2, 2), 0, 1), ((2, 2, 3), 2, 1), ((2, 3, 2), 0, 1), ((2, 2, 3), 1, 2)):
        for it in (I32, I64):
            for dyn in ("same", "dyn"):
                S.add("revseq", (sh, sa, ba, np.dtype(it).name, dyn), lambda B, sh=sh, sa=sa, ba=ba, it=it, dyn=dyn:
                      tf.reverse_sequence(B.input(F, sh, decl=dyn), B.input(it, (sh[ba],), "n", lo=1, hi=sh[sa]), seq_axis=sa, batch_axis=ba))
        S.add("revseq0", (sh, sa, ba), lambda B, sh=sh, sa=sa, ba=ba:
              tf.reverse_sequence(B.input(F, sh), B.input(I32, (sh[ba],), "n", lo=0, hi=sh[sa]), seq_axis=sa, batch_axis=ba), xval=False)
    S.add("revseq_i", (), lambda B: tf.reverse_sequence(B.input(I32, (2, 3)), B.input(I32, (2,), "n", lo=1, hi=3), seq_axis=1, batch_axis=0))
    return S.jobs


def _combo(S, sh, items, ops=None):
    """a: plain range, e: ellipsis, n: new axis, s: shrink, r: reversed range"""
    if items.count("e") > 1 or sum(i in "asr" for i in items) > len(sh):
        return
    b, e, s = [], [], []
    el = na = shm = bm = em = 0
    for i, it in enumerate(items):
        if it == "e":
            el |= 1 << i
            b.append(0), e.append(0), s.append(1)
        elif it == "n":
            na |= 1 << i
            b.append(0), e.append(0), s.append(1)
        elif it == "s":
            shm |= 1 << i
            b.append([1, -1, 0, -2][i]), e.append([2, 0, 1, -1][i]), s.append(1)
        elif it == "a":
            b.append(1), e.append([9, 2, 2, 2][i]), s.append(1)
            if i == 1:
                bm |= 1 << i
        else:
            b.append(-1), e.append(0), s.append(-1)
            em |= 1 << i
    mn = 10 if set(items) & set("nr") else 9
    for dyn in ("same", "dyn"):
        S.add("sscombo", ("".join(items), sh, dyn), lambda B, dyn=dyn: ss(B.input(F, sh, decl=dyn), b, e, s, bm, em, el, na, shm), mn=mn,
              ops=ops and tuple(o for o in ops if o >= mn))


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, EXPL,
                    ["dims 1-6, ranks 1-4", "begin/end in -4..4, strides +-1, +-2; runtime begin/end/size exhaustively case-split in -4..4",
                     "opsets %s" % (Q_OPS if tier == "quick" else T_OPS,)],
                    ["onnx_opset.tensor.Slice", "StridedSlice", "Split", "SplitV", "Unpack", "ReverseV2", "ReverseSequence",
                     "tfonnx.process_tf_graph", "optimizer.optimize_graph"])
