"""P16 gather, scatter, one-hot, where/unique, dynamic partition/stitch, sequence masks and index conversions."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P16"
run_job = V.run_job
R = tf.raw_ops
BOOL = np.bool_


def jobs(tier):
    S = Suite(tier)
    q = tier == "quick"
    OP = (9, 11, 13, 15, 18) if q else None
    OP3 = (9, 12, 18) if q else None
    OP12 = (12, 13, 18) if q else (12, 13, 14, 15, 16, 17, 18)
    n = lambda t: np.dtype(t).name
    # ------------------------------------------------------------ gather
    for sh, ish in (((3,), (2,)), ((3,), ()), ((3, 2), (2,)), ((3, 2), ()), ((3, 2), (2, 2)), ((2, 3, 2), (2,)), ((2, 3, 2), (1, 2)), ((2, 3, 2), ())):
        for ax in range(-len(sh), len(sh)):
            for it, dt, decl in ((I32, F, "same"), (I64, F, "dyn"), (I32, I32, "dyn"), (I64, BOOL, "same"), (I32, I64, "rank")):
                S.add("gather", (sh, ish, ax, n(it), n(dt), decl), lambda B, sh=sh, ish=ish, ax=ax, it=it, dt=dt, decl=decl:
                      tf.gather(B.input(dt, sh, decl=decl), B.input(it, ish, "i", lo=0, hi=sh[ax] - 1, decl="same" if decl == "same" else "dyn"), axis=ax), ops=OP3)
    S.add("gatherc", (), lambda B: tf.gather(B.input(F, (3, 2)), [2, 0, 2, 1]), ops=OP)
    S.add("gathercc", (), lambda B: tf.gather(tf.constant(np.float32([[1, 2], [3, 4], [5, 6]])), B.input(I32, (2,), "i", lo=0, hi=2)), ops=OP)
    S.add("gathercs", (), lambda B: tf.gather(B.input(F, (3, 2)), 1), ops=OP)
    S.add("gatheraxrt", (), lambda B: tf.gather(B.input(F, (3, 2)), B.input(I32, (2,), "i", lo=0, hi=1), axis=tf.rank(B.input(F, (1,)))), ops=OP)
    S.add("gather1", (), lambda B: R.Gather(params=B.input(F, (3, 2)), indices=B.input(I32, (2,), "i", lo=0, hi=2)), ops=OP)
    S.add("embed", (), lambda B: tf.nn.embedding_lookup(tf.constant(np.float32([[1, 2], [3, 4], [5, 6]])), B.input(I64, (2, 2), "i", lo=0, hi=2)), ops=OP)
    for sh, ish, ax, bd in (((2, 3), (2, 2), 1, 1), ((2, 3), (2,), 1, 1), ((2, 3, 2), (2, 2), 1, 1), ((2, 3, 2), (2, 2), 2, 1), ((2, 3, 2), (2,), 1, 1), ((2, 3, 2), (2, 3, 2), 2, 2),
                            ((2, 2, 3), (2, 2), 2, 2), ((2, 1, 3, 2), (2, 2), 2, 1), ((2, 1, 3, 2), (2, 1), 3, 1), ((2, 3, 2), (2, 1, 2), 2, 1), ((2, 3), (2, 2), -1, 1), ((2, 3, 2), (2, 2), -2, 1),
                            ((2, 3, 2), (2, 2), -1, 1), ((2, 3), (2, 2), 1, -1), ((2, 2, 3), (2, 2, 1), 2, -1), ((2, 3, 2), (2, 2), 1, -1), ((2, 2, 3), (2, 2), -1, -1)):
        for it, decl in ((I32, "same"), (I64, "dyn")):
            S.add("gatherbd", (sh, ish, ax, bd, n(it), decl), lambda B, sh=sh, ish=ish, ax=ax, bd=bd, it=it, decl=decl:
                  tf.gather(B.input(F, sh, decl=decl), B.input(it, ish, "i", lo=0, hi=sh[ax] - 1, decl=decl), axis=ax, batch_dims=bd), ops=OP12)
    for sh, ish in (((3,), (2, 1)), ((2, 3), (2, 2)), ((2, 3), (2, 1)), ((2, 3), (1,)), ((2, 3), (2,)), ((2, 3, 2), (2, 2)), ((2, 3, 2), (2, 1)), ((2, 3, 2), (2, 3)), ((2, 2), (2, 1, 2)), ((2, 3, 2), (1, 2, 2))):
        for it, dt, decl in ((I32, F, "same"), (I64, F, "dyn"), (I32, I32, "dyn")):
            S.add("gathernd", (sh, ish, n(it), n(dt), decl), lambda B, sh=sh, ish=ish, it=it, dt=dt, decl=decl:
                  tf.gather_nd(B.input(dt, sh, decl=decl), B.input(it, ish, "i", lo=0, hi=min(sh[:ish[-1]]) - 1, decl="same" if decl == "same" else "dyn")), ops=(9, 10, 11, 13, 18) if q else None)
    for sh, ish, bd in (((2, 3), (2, 1), 1), ((2, 3, 2), (2, 2, 1), 1), ((2, 2, 3), (2, 2, 1), 2), ((2, 3, 2), (2, 2), 1)):
        S.add("gatherndbd", (sh, ish, bd), lambda B, sh=sh, ish=ish, bd=bd: tf.gather_nd(B.input(F, sh), B.input(I64, ish, "i", lo=0, hi=1), batch_dims=bd), ops=OP12)
    # ------------------------------------------------------------ scatter
    for osh, ish, ush in (((3,), (2, 1), (2,)), ((2, 3), (2, 1), (2, 3)), ((2, 3), (2, 2), (2,)), ((3, 2), (1, 1), (1, 2)), ((2, 2, 2), (2, 2), (2, 2)), ((3,), (2, 2, 1), (2, 2)), ((4,), (3, 1), (3,))):
        hi = min(osh[:ish[-1]]) - 1
        for it, dt, decl in ((I32, F, "same"), (I64, F, "dyn"), (I32, I32, "same"), (I64, I64, "same")):
            for nm, fn in (("set", tf.tensor_scatter_nd_update), ("add", tf.tensor_scatter_nd_add), ("sub", tf.tensor_scatter_nd_sub), ("max", tf.tensor_scatter_nd_max), ("min", tf.tensor_scatter_nd_min)):
                if nm != "set" and dt is I64:
                    continue
                # a repeated index has no defined result for set
                S.add("tscat", (nm, osh, ish, n(it), n(dt), decl), lambda B, nm=nm, fn=fn, osh=osh, ish=ish, ush=ush, hi=hi, it=it, dt=dt, decl=decl:
                      fn(B.input(dt, osh, decl=decl), (B.input(it, ish, "i", lo=0, hi=hi) if nm != "set" else
                         tf.constant(np.stack(np.unravel_index(np.arange(int(np.prod(ish[:-1]))), osh[:ish[-1]]), -1).reshape(ish).astype(it))), B.input(dt, ush, decl=decl)),
                      mn=11 if nm == "set" else 16, ops=((11, 13, 18) if nm == "set" else (16, 18)) if q else None)
            S.add("scatnd", (osh, ish, n(it), n(dt), decl), lambda B, osh=osh, ish=ish, ush=ush, hi=hi, it=it, dt=dt, decl=decl:
                  tf.scatter_nd(B.input(it, ish, "i", lo=0, hi=hi), B.input(dt, ush, decl=decl), tf.constant(osh, it)), mn=16, ops=(16, 18) if q else None)
            S.add("scatndu", (osh, ish, n(it), n(dt), decl), lambda B, osh=osh, ish=ish, ush=ush, hi=hi, it=it, dt=dt, decl=decl:
                  tf.scatter_nd(tf.constant(np.stack(np.unravel_index(np.arange(int(np.prod(ish[:-1])))[::-1], osh[:ish[-1]]), -1).reshape(ish).astype(it)), B.input(dt, ush, decl=decl), tf.constant(osh, it)),
                  mn=11, ops=(11, 13, 15, 18) if q else None)
    S.add("scatndd", (), lambda B: tf.scatter_nd(tf.constant([[0], [0], [2]]), B.input(F, (3,)), tf.constant([3])), mn=11)
    S.add("scatndrt", (), lambda B: tf.scatter_nd(B.input(I32, (2, 1), "i", lo=0, hi=1), B.input(F, (2,)), B.input(I32, (1,), "s", lo=2, hi=3)), mn=16)
    S.add("s2d", (), lambda B: R.SparseToDense(sparse_indices=tf.constant([[0, 1], [1, 2]]), output_shape=tf.constant([2, 3]), sparse_values=B.input(F, (2,)), default_value=B.input(F, ())), mn=11)
    S.add("s2d0", (), lambda B: R.SparseToDense(sparse_indices=tf.constant([[0, 1], [1, 2]], tf.int64), output_shape=tf.constant([2, 3], tf.int64), sparse_values=B.input(F, (2,)), default_value=np.float32(0)), mn=11)
    S.add("s2d1", (), lambda B: R.SparseToDense(sparse_indices=tf.constant([0, 2]), output_shape=tf.constant([4]), sparse_values=B.input(I32, (2,)), default_value=np.int32(-1)), mn=11)
    # ------------------------------------------------------------ one-hot
    for ish in ((), (2,), (2, 2), (2, 1, 2)):
        for ax in range(-1, len(ish) + 1):
            for it, dt in ((I32, F), (I64, F), (U8, F), (I32, I32), (I64, I64), (I32, BOOL), (I64, F64)):
                if dt in (I32, I64, BOOL) and len(ish) != 1:
                    continue
                for depth in (3, 1):
                    if depth == 1 and dt is not F:
                        continue
                    on, off = (True, False) if dt is BOOL else (np.array(5, dt), np.array(-1, dt))
                    S.add("onehot", (ish, ax, n(it), n(dt), depth), lambda B, ish=ish, ax=ax, it=it, dt=dt, depth=depth, on=on, off=off:
                          tf.one_hot(B.input(it, ish, "i", lo=0, hi=depth - 1), depth, on, off, axis=ax), ops=OP3)
            S.add("onehotd", (ish, ax), lambda B, ish=ish, ax=ax: tf.one_hot(B.input(I32, ish, "i", lo=0, hi=2, decl="dyn"), 3, axis=ax), ops=OP)
            S.add("onehotoob", (ish, ax), lambda B, ish=ish, ax=ax: tf.one_hot(B.input(I32, ish, "i", lo=-1, hi=3), 3, axis=ax), ops=OP)
    S.add("onehotrt", (), lambda B: tf.one_hot(B.input(I32, (2,), "i", lo=0, hi=1), B.input(I32, (), "d", lo=2, hi=3)), mn=11)
    S.add("onehotvals", (), lambda B: tf.one_hot(B.input(I32, (2,), "i", lo=0, hi=1), 2, B.input(F, ()), B.input(F, ())), ops=OP)
    S.add("onehot00", (), lambda B: tf.one_hot(B.input(I64, (2,), "i", lo=0, hi=1), 2, np.int64(0), np.int64(1)), ops=OP)
    S.add("onehot10", (), lambda B: tf.one_hot(B.input(I64, (2,), "i", lo=0, hi=2), 3, np.int64(0), np.int64(0)), ops=OP)
    S.add("onehot11", (), lambda B: tf.one_hot(B.input(I64, (2,), "i", lo=0, hi=2), 3, np.int64(2), np.int64(1)), ops=OP)
    # ------------------------------------------------------------ where / boolean mask / unique
    for sh in ((3,), (2, 2), (2, 1, 2)):
        for dt in (BOOL,):
            S.add("where", (sh, n(dt)), lambda B, sh=sh, dt=dt: tf.where(B.input(dt, sh)), ops=OP)
        S.add("wherecmp", (sh,), lambda B, sh=sh: tf.where(B.input(F, sh) > 0.), ops=OP)
        S.add("wheref", (sh,), lambda B, sh=sh: R.Where(condition=B.input(F, sh)), ops=OP)
        S.add("wherei", (sh,), lambda B, sh=sh: R.Where(condition=B.input(I32, sh)), ops=OP)
        S.add("bmask", (sh,), lambda B, sh=sh: tf.boolean_mask(B.input(F, sh), B.input(BOOL, sh)), ops=OP)
    S.add("bmaskax", (), lambda B: tf.boolean_mask(B.input(F, (2, 3)), B.input(BOOL, (2,))), ops=OP)
    S.add("bmaskax1", (), lambda B: tf.boolean_mask(B.input(F, (2, 3), decl="dyn"), B.input(BOOL, (3,)), axis=1), ops=OP)
    for dt in (F, I32, I64):
        for oi in (tf.int32, tf.int64):
            S.add("uniq", (n(dt), oi.name), lambda B, dt=dt, oi=oi: list(tf.unique(B.input(dt, (3,), lo=0, hi=3, flo=0, fhi=3), oi)), mn=11)
            S.add("uniqc", (n(dt), oi.name), lambda B, dt=dt, oi=oi: list(tf.unique_with_counts(B.input(dt, (3,), lo=0, hi=3, flo=0, fhi=3), oi)), mn=11)
    S.add("uniqv", (), lambda B: tf.unique(B.input(I32, (3,), lo=0, hi=3))[0], mn=11)
    S.add("uniqi", (), lambda B: tf.unique(B.input(I32, (3,), lo=0, hi=3))[1], mn=11)
    S.add("uniqn", (), lambda B: tf.unique_with_counts(B.input(I32, (3,), lo=0, hi=3))[2], mn=11)
    # ------------------------------------------------------------ partition / stitch
    for k in (1, 2, 3):
        for psh, dsh in (((3,), (3,)), ((3,), (3, 2)), ((3,), (3, 1, 2))):
            S.add("dpart", (k, psh, dsh), lambda B, k=k, psh=psh, dsh=dsh: tf.dynamic_partition(B.input(F, dsh), B.input(I32, psh, "p", lo=0, hi=k - 1), k), ops=OP)
            S.add("dpart1", (k, psh, dsh), lambda B, k=k, psh=psh, dsh=dsh: tf.dynamic_partition(B.input(I32, dsh), B.input(I32, psh, "p", lo=0, hi=k - 1), k)[-1], ops=OP)
    for nm, fn in (("dst", tf.dynamic_stitch), ("pdst", lambda i, d: R.ParallelDynamicStitch(indices=i, data=d))):
        S.add(nm, ("11",), lambda B, fn=fn: fn([[0, 2], [1]], [B.input(F, (2,)), B.input(F, (1,))]), ops=OP)
        S.add(nm, ("22",), lambda B, fn=fn: fn([[2, 0], [1, 3]], [B.input(F, (2, 2)), B.input(F, (2, 2))]), ops=OP)
    S.add("dstdup", (), lambda B: tf.dynamic_stitch([[0, 1], [1, 2]], [B.input(F, (2,)), B.input(F, (2,))]), ops=OP)
    S.add("dstrt", (), lambda B: (lambda p: tf.dynamic_stitch([p, 1 - p], [B.input(F, (1,)), B.input(F, (1,))]))(B.input(I32, (1,), "p", lo=0, hi=1)), ops=OP)
    S.add("partstitch", (), lambda B: (lambda x, p: tf.dynamic_stitch(tf.dynamic_partition(tf.range(3), p, 2), tf.dynamic_partition(x, p, 2)))(B.input(F, (3,)), B.input(I32, (3,), "p", lo=0, hi=1)), ops=OP)
    # ------------------------------------------------------------ index helpers
    for it in (I32, I64):
        for ml in (None, 3):
            S.add("seqmask", (n(it), ml), lambda B, it=it, ml=ml: tf.sequence_mask(B.input(it, (2,), "l", lo=0, hi=3), ml), ops=OP)
        S.add("seqmaskf", (n(it),), lambda B, it=it: tf.sequence_mask(B.input(it, (2, 2), "l", lo=0, hi=2), 3, dtype=tf.float32), ops=OP)
        S.add("invperm", (n(it),), lambda B, it=it: tf.math.invert_permutation(tf.math.top_k(tf.cast(B.input(it, (3,), lo=0, hi=9), tf.float32), 3)[1]), mn=11)
        S.add("invpermc", (n(it),), lambda B, it=it: tf.gather(B.input(F, (3,)), tf.math.invert_permutation(tf.constant([2, 0, 1], it))), ops=OP)
        S.add("invperma", (n(it),), lambda B, it=it: tf.math.invert_permutation(tf.argsort(B.input(F, (3,)))) + 0, mn=11)
    for ax, d in ((-1, "ASCENDING"), (0, "ASCENDING"), (-1, "DESCENDING"), (0, "DESCENDING")):
        for dt in (F, I32):
            S.add("argsort", (ax, d, n(dt)), lambda B, ax=ax, d=d, dt=dt: tf.argsort(B.input(dt, (2, 3), lo=-50, hi=50), axis=ax, direction=d), ops=(11, 13, 18))
            S.add("sort", (ax, d, n(dt)), lambda B, ax=ax, d=d, dt=dt: tf.sort(B.input(dt, (2, 3), lo=-50, hi=50), axis=ax, direction=d), ops=(11, 13, 18))
    S.add("meshgrid", (), lambda B: tf.meshgrid(B.input(F, (2,)), B.input(F, (3,))), ops=OP)
    S.add("meshgridij", (), lambda B: tf.meshgrid(B.input(F, (2,)), B.input(F, (3,)), indexing="ij"), ops=OP)
    # gather of computed indices and chained gathers
    S.add("gargmax", (), lambda B: (lambda x: tf.gather(x, tf.argmax(x, axis=0)))(B.input(F, (3,))), ops=OP)
    S.add("ggather", (), lambda B: tf.gather(tf.gather(B.input(F, (3, 2)), B.input(I32, (2,), "i", lo=0, hi=2)), B.input(I32, (2,), "j", lo=0, hi=1), axis=1), ops=OP)
    S.add("gneg", (), lambda B: tf.gather(B.input(F, (3,)), tf.where(B.input(BOOL, (2,)), [2, 2], [0, 1])), ops=OP)
    S.add("gshape", (), lambda B: tf.gather(tf.shape(B.input(F, (2, 3), decl="dyn")), [1, 0]), ops=OP)
    S.add("take", (), lambda B: tf.experimental.numpy.take_along_axis(B.input(F, (2, 3)), B.input(I32, (2, 2), "i", lo=0, hi=2), 1), mn=12)
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL,
                    ["data up to rank 4, dims 1-4; indices of rank 0-3, every legal run-time value, repeated indices included where the source defines the result", "axes: every positive and negative one; batch dims 0-2 and negative",
                     "opsets 9,11,12,13,15,18 (quick) or 9..18 (thorough)", "gather indices are in range (TensorFlow on CPU rejects others)"],
                    ["onnx_opset.tensor.Gather*/Scatter*/OneHot/Unique*/DynamicPartition/DynamicStitch/SparseToDense", "onnx_opset.controlflow.Where", "onnx_opset.math.InvertPermutation", "tf2onnx.rewriter.*"])
