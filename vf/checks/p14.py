"""P14 reductions, arg reductions, cumulative ops, softmax, top-k, segment ops, norms."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P14"
run_job = V.run_job
R = tf.raw_ops
BOOL = np.bool_


def axes_of(r):
    yield None
    for n in range(r + 1):
        for c in itertools.combinations(range(r), n):
            yield c
    for a in range(1, r + 1):
        yield -a
    if r >= 2:
        yield (-1, 0)
        yield (1, -r)
        yield (1, 0)
    if r >= 3:
        yield (-1, -2)
        yield (2, 0)


def jobs(tier):
    S = Suite(tier)
    q = tier == "quick"
    OP = (9, 11, 13, 15, 18) if q else None
    RED = {"sum": tf.reduce_sum, "mean": tf.reduce_mean, "max": tf.reduce_max, "min": tf.reduce_min, "prod": tf.reduce_prod}
    for nm, fn in RED.items():
        for sh in ((3,), (2, 3), (2, 1, 3)) if q else ((3,), (2, 3), (2, 1, 3), (2, 2, 1, 2)):
            if nm == "prod" and len(sh) >= 3:
                sh = (2, 1, 2)
            for ax, kd, dyn in itertools.product(list(axes_of(len(sh))), (False, True), ("same", "dyn")):
                if q and dyn == "dyn" and (len(str(ax)) + kd) % 2:
                    continue
                S.add("red", (nm, sh, ax, kd, dyn), lambda B, fn=fn, sh=sh, ax=ax, kd=kd, dyn=dyn:
                      fn(B.input(F, sh, decl=dyn), axis=ax, keepdims=kd), ops=(9, 11, 13, 18) if q else None)
        for dt in (I32, I64, F64):
            for ax, kd in itertools.product((None, 0, (0, 1), -1, ()), (False, True)):
                S.add("reddt", (nm, np.dtype(dt).name, ax, kd), lambda B, fn=fn, dt=dt, ax=ax, kd=kd:
                      fn(B.input(dt, (2, 2)), axis=ax, keepdims=kd), ops=(9, 13, 18) if q else None)
        # run-time axis
        for it in (I32, I64):
            for kd in (False, True):
                S.add("redrt", (nm, it.__name__, kd), lambda B, fn=fn, it=it, kd=kd:
                      fn(B.input(F, (2, 3), decl="same"), axis=B.input(it, (1,), "a", lo=-2, hi=1), keepdims=kd), ops=OP)
                S.add("redrts", (nm, it.__name__, kd), lambda B, fn=fn, it=it, kd=kd:
                      fn(B.input(F, (2, 3), decl="dyn"), axis=B.input(it, (), "a", lo=-2, hi=1), keepdims=kd), ops=OP)
                S.add("redrtnone", (nm, it.__name__, kd), lambda B, fn=fn, it=it, kd=kd:
                      fn(B.input(F, (2, 3), decl="same"), axis=B.input(it, (0,), "a", decl=[None]), keepdims=kd), ops=(13, 15, 18) if nm == "sum" else (18,))
                S.add("redrange", (nm, it.__name__, kd), lambda B, fn=fn, it=it, kd=kd:
                      (lambda x: fn(x, axis=tf.range(tf.rank(x)), keepdims=kd))(B.input(F, (2, 3), decl="dyn")), ops=OP)
    for nm, fn in (("all", tf.reduce_all), ("any", tf.reduce_any)):
        for sh in ((3,), (2, 3), (2, 1, 2)):
            for ax, kd in itertools.product(list(axes_of(len(sh))), (False, True)):
                S.add("bred", (nm, sh, ax, kd), lambda B, fn=fn, sh=sh, ax=ax, kd=kd: fn(B.input(BOOL, sh), axis=ax, keepdims=kd),
                      ops=(9, 13, 18) if q else None)
        for kd in (False, True):
            S.add("bredrt", (nm, kd), lambda B, fn=fn, kd=kd: fn(B.input(BOOL, (2, 3)), axis=B.input(I32, (1,), "a", lo=-2, hi=1), keepdims=kd), ops=OP)
    for ax, kd in itertools.product((None, 0, 1, -1, (0, 1)), (False, True)):
        S.add("lse", (ax, kd), lambda B, ax=ax, kd=kd: tf.reduce_logsumexp(B.input(F, (2, 3), flo=-4, fhi=4), axis=ax, keepdims=kd), ops=(11, 18) if q else None)
        S.add("euc", (ax, kd), lambda B, ax=ax, kd=kd: tf.math.reduce_euclidean_norm(B.input(F, (2, 3)), axis=ax, keepdims=kd), ops=OP)
        S.add("norm1", (ax, kd), lambda B, ax=ax, kd=kd: tf.norm(B.input(F, (2, 3)), ord=1, axis=ax, keepdims=kd) if ax != (0, 1) else tf.identity(B.input(F, (2, 3))), ops=OP)
        S.add("norm2", (ax, kd), lambda B, ax=ax, kd=kd: tf.norm(B.input(F, (2, 3)), axis=ax, keepdims=kd), ops=OP)
        S.add("norminf", (ax, kd), lambda B, ax=ax, kd=kd: tf.norm(B.input(F, (2, 3)), ord=np.inf, axis=None if ax == (0, 1) else ax, keepdims=kd), ops=OP)
        S.add("var", (ax, kd), lambda B, ax=ax, kd=kd: tf.math.reduce_variance(B.input(F, (2, 2)), axis=ax, keepdims=kd), ops=(11, 18) if q else None)
        S.add("cnz", (ax, kd), lambda B, ax=ax, kd=kd: tf.math.count_nonzero(B.input(F, (2, 3)), axis=ax, keepdims=kd), ops=OP)
    # ------------------------------------------------------------ arg max / min
    for nm, fn in (("argmax", tf.argmax), ("argmin", tf.argmin)):
        for sh, ax in (((3,), 0), ((3,), -1), ((2, 3), 0), ((2, 3), 1), ((2, 3), -1), ((2, 3), -2), ((2, 2, 2), 1), ((2, 2, 2), -2)):
            for dt, od in itertools.product((F, I32, F64, I64), (tf.int32, tf.int64)):
                S.add(nm, (sh, ax, np.dtype(dt).name, od.name), lambda B, fn=fn, sh=sh, ax=ax, dt=dt, od=od:
                      fn(B.input(dt, sh, decl="dyn" if len(sh) == 3 else "same"), axis=ax, output_type=od), ops=(9, 11, 13, 18) if q else None)
        S.add(nm + "def", (), lambda B, fn=fn: fn(B.input(F, (3, 2))))
        S.add(nm + "rt", (), lambda B, fn=fn: fn(B.input(F, (3, 2)), axis=B.input(I32, (), "a", lo=-2, hi=1)))
    # ------------------------------------------------------------ cumulative
    for nm, fn in (("cumsum", tf.cumsum), ("cumprod", tf.math.cumprod)):
        for sh, ax in (((3,), 0), ((3,), -1), ((2, 3), 0), ((2, 3), 1), ((2, 3), -1), ((2, 2, 2), 1), ((2, 2, 2), -1)):
            for ex, rv, dt in itertools.product((False, True), (False, True), (F, I32, I64, F64)):
                if nm == "cumprod" and dt in (I32, I64) and (len(sh) > 1 or ax == -1):
                    continue
                S.add(nm, (sh, ax, ex, rv, np.dtype(dt).name), lambda B, fn=fn, sh=sh, ax=ax, ex=ex, rv=rv, dt=dt:
                      fn(B.input(dt, sh, decl="dyn" if len(sh) == 3 else "same"), axis=ax, exclusive=ex, reverse=rv), mn=11, ops=(11, 14, 18) if q else None)
        for ex, rv in itertools.product((False, True), (False, True)):
            S.add(nm + "rt", (ex, rv), lambda B, fn=fn, ex=ex, rv=rv: fn(B.input(F, (2, 3)), axis=B.input(I32, (), "a", lo=-2, hi=1), exclusive=ex, reverse=rv), mn=11)
    # ------------------------------------------------------------ softmax
    for nm, fn in (("softmax", tf.nn.softmax), ("logsoftmax", tf.nn.log_softmax)):
        for sh, ax in (((3,), -1), ((3,), 0), ((2, 3), -1), ((2, 3), 0), ((2, 3), 1), ((2, 2, 3), -1), ((2, 2, 3), 1), ((2, 2, 3), 0), ((2, 2, 3), -2), ((1, 2, 2, 2), -1), ((1, 2, 2, 2), 1)):
            for dyn in ("same", "dyn"):
                S.add(nm, (sh, ax, dyn), lambda B, fn=fn, sh=sh, ax=ax, dyn=dyn: fn(B.input(F, sh, decl=dyn, flo=-4, fhi=4), axis=ax), ops=OP)
    # ------------------------------------------------------------ top-k
    for sh, k in (((3,), 1), ((3,), 2), ((3,), 3), ((2, 3), 1), ((2, 3), 2), ((2, 1, 3), 2), ((4,), 2)):
        for dt, srt, dyn in itertools.product((F, I32, I64), (True, False), ("same", "dyn")):
            if dt is not F and (dyn == "dyn" or not srt) or not srt and (sh, k) not in (((3,), 2), ((2, 3), 1), ((3,), 1)):
                continue
            S.add("topk", (sh, k, np.dtype(dt).name, srt, dyn), lambda B, sh=sh, k=k, dt=dt, srt=srt, dyn=dyn:
                  list(tf.math.top_k(B.input(dt, sh, decl=dyn), k, sorted=srt)) if srt else
                  [tf.reduce_sum(tf.math.top_k(B.input(dt, sh, decl=dyn), k, sorted=srt)[0])], ops=(9, 10, 11, 13, 18) if q else None)
    S.add("topkrt", (), lambda B: list(tf.math.top_k(B.input(F, (3,)), B.input(I32, (), "k", lo=0, hi=3))), mn=10)
    S.add("topkv", (), lambda B: tf.math.top_k(B.input(F, (2, 3)), 2)[0])
    S.add("topki", (), lambda B: tf.math.top_k(B.input(F, (2, 3)), 2)[1])
    S.add("intopk", (1,), lambda B: tf.math.in_top_k(B.input(I32, (2,), "t", lo=0, hi=2), B.input(F, (2, 3)), 1))
    # ------------------------------------------------------------ segments
    SEG = {"sum": tf.math.segment_sum, "mean": tf.math.segment_mean, "max": tf.math.segment_max, "min": tf.math.segment_min, "prod": tf.math.segment_prod}
    for nm, fn in SEG.items():
        for ids in ((0, 0, 1), (0, 1, 2), (0, 0, 0), (0, 2, 2), (1, 1, 3), (0, 0, 2)):
            for sh in ((3,), (3, 2)):
                for it in (I32, I64):
                    S.add("seg", (nm, ids, sh, it.__name__), lambda B, fn=fn, ids=ids, sh=sh, it=it:
                          fn(B.input(F, sh), tf.constant(ids, it)), mn=11, ops=(11, 13, 16, 18) if q else None)
        for dt in (F, I32):
            for sh in ((3,), (3, 2)):
                if nm == "prod" and dt is I32:
                    continue
                S.add("segrt", (nm, np.dtype(dt).name, sh), lambda B, fn=fn, dt=dt, sh=sh:
                      fn(B.input(dt, sh, decl=[None] + list(sh[1:])), tf.cast(tf.cumsum(B.input(I32, (3,), "d", lo=0, hi=1)), tf.int32)), mn=11, ops=(11, 13, 16, 18) if q else None)
    US = {"sum": tf.math.unsorted_segment_sum, "max": tf.math.unsorted_segment_max, "min": tf.math.unsorted_segment_min, "prod": tf.math.unsorted_segment_prod}
    for nm, fn in US.items():
        for ids, n in (((1, 0, 1), 2), ((0, 2, 0), 4), ((-1, 0, 1), 2), ((2, 2, 2), 3), ((0, -1, -1), 1)):
            # (negative ids are dropped by TensorFlow)
            for sh in ((3,), (3, 2)):
                for dt in (F, I32):
                    if nm == "prod" and dt is I32 and len(sh) > 1:
                        continue  # 32-bit products of three unknowns: z3 does not finish
                    S.add("useg", (nm, ids, n, sh, np.dtype(dt).name), lambda B, fn=fn, ids=ids, n=n, sh=sh, dt=dt:
                          fn(B.input(dt, sh), tf.constant(ids), n), mn=11, ops=(11, 13, 16, 18) if q else None)
        for sh in ((3,), (3, 2)):
            S.add("usegrt", (nm, sh), lambda B, fn=fn, sh=sh: fn(B.input(F, sh), B.input(I32, (3,), "i", lo=-1, hi=1), 2), mn=11, ops=(11, 13, 16, 18) if q else None)
        S.add("useg2", (nm,), lambda B, fn=fn: fn(B.input(F, (2, 2)), tf.constant([[0, 1], [1, 1]]), 2), ops=(9, 13))
        S.add("usegn", (nm,), lambda B, fn=fn: fn(B.input(F, (3,)), B.input(I32, (3,), "i", lo=0, hi=1), B.input(I32, (), "n", lo=2, hi=3)), mn=11, ops=(11, 13, 18) if q else None)
    for nm, fn in (("ssum", tf.sparse.segment_sum), ("smean", tf.sparse.segment_mean), ("ssqrtn", tf.sparse.segment_sqrt_n)):
        S.add("sseg", (nm,), lambda B, fn=fn: fn(B.input(F, (4, 2)), tf.constant([1, 3, 0]), tf.constant([0, 0, 1])), ops=OP)
        S.add("sseg", (nm, "gap"), lambda B, fn=fn: fn(B.input(F, (4, 2)), tf.constant([1, 3, 0]), tf.constant([0, 2, 2])), ops=OP)
        S.add("sseg", (nm, "num"), lambda B, fn=fn: fn(B.input(F, (4, 2)), tf.constant([1, 3, 0]), tf.constant([0, 0, 2]), num_segments=4), ops=OP)
    for ln in (3, 4):
        for bo in (False, True):
            S.add("bincount", (ln, bo), lambda B, ln=ln, bo=bo: R.DenseBincount(input=B.input(I32, (3,), "i", lo=0, hi=3), size=ln, weights=tf.constant([], tf.float32), binary_output=bo), mn=11)
            S.add("bincountw", (ln, bo), lambda B, ln=ln, bo=bo: R.DenseBincount(input=B.input(I32, (3,), "i", lo=0, hi=3), size=ln, weights=B.input(F, (3,), "w"), binary_output=bo), mn=11)
        S.add("bincount1", (ln,), lambda B, ln=ln: R.Bincount(arr=B.input(I32, (3,), "i", lo=0, hi=4), size=ln, weights=tf.constant([], tf.int32)), mn=11)
        S.add("bincount1w", (ln,), lambda B, ln=ln: R.Bincount(arr=B.input(I32, (3,), "i", lo=0, hi=4), size=ln, weights=B.input(F, (3,), "w")), mn=11)
    for sh in ((3,), (2, 2), ()):
        S.add("l2loss", (sh,), lambda B, sh=sh: tf.nn.l2_loss(B.input(F, sh)), ops=OP)
    S.add("l2loss64", (), lambda B: tf.nn.l2_loss(B.input(F64, (3,))))
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, EXPL,
                    ["ranks 0-4, dims 1-4; every axis subset, negative and run-time axes", "segment ids: all sorted run-time ids of 3 elements, listed constants",
                     "top-k of up to 4 elements with ties", "opsets 9-18"],
                    ["onnx_opset.reduction.*", "onnx_opset.tensor.TopKV2, SegmentSum family", "onnx_opset.nn.Softmax, LogSoftmax, ArgMax/ArgMin, CumSum",
                     "tfonnx.process_tf_graph", "optimizer.optimize_graph"])
