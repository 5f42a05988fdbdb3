"""P15 elementwise arithmetic, comparison, logic, selection, clipping, rounding, casts, activations and their broadcasting."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, fpelem, tf_tv as V
import tensorflow as tf

PROP = "P15"
R = tf.raw_ops
BOOL = np.bool_
F16 = np.float16
U64 = np.uint64


def run_job(job):
    return fpelem.check(job) if isinstance(job, fpelem.Job) else V.run_job(job)


SHAPES = [((3,), (3,)), ((2, 3), (3,)), ((2, 1), (3,)), ((), (2,)), ((2,), ()), ((1,), (2, 2)), ((2, 1, 2), (3, 1)), ((1, 1), (2,)), ((2, 2), (1, 2, 1))]
BINS = {"add": tf.add, "sub": tf.subtract, "mul": tf.multiply, "max": tf.maximum, "min": tf.minimum, "sqd": tf.math.squared_difference,
        "less": tf.less, "le": tf.less_equal, "gt": tf.greater, "ge": tf.greater_equal, "eq": tf.equal, "ne": tf.not_equal}


def bitjobs(S, q):
    """scalar programs with machine arithmetic"""
    def add(fam, params, build, ops=None, mn=9, **kw):
        for o in ops or [o for o in ((9, 10, 11, 12, 13, 15, 18) if q else T_OPS) if o >= mn]:
            for opt in (False, True) if not q else ((o + len(params)) % 2 == 0,):
                S.jobs.append(fpelem.Job("bit_%s|op%d|%s|%s" % (fam, o, "o" if opt else "n", params), build, opset=o, opt=opt, **kw))
    ints = (I8, I16, I32, I64, U8, U16, U32)
    flts = (F, F64, F16)
    nm = lambda d: np.dtype(d).name
    for d in ints + flts + (U64,):
        for k, fn in BINS.items():
            if k == "sqd" and d not in (F, F64, I32, I64):
                continue
            if d is U64 and k in ("less", "le", "gt", "ge", "max", "min"):
                continue
            add(k, nm(d), lambda B, fn=fn, d=d: fn(B.input(d, ()), B.input(d, ())))
            if k in ("max", "min", "less", "ge", "eq", "sub"):
                for c in (0, 3) + (() if d in (U8, U16, U32, U64) else (-2,)):
                    add(k + "c", "%s,%d" % (nm(d), c), lambda B, fn=fn, d=d, c=c: fn(B.input(d, ()), np.array(c, d)), ops=(9, 11, 13, 18) if q else None)
                    add(k + "cl", "%s,%d" % (nm(d), c), lambda B, fn=fn, d=d, c=c: fn(np.array(c, d), B.input(d, ())), ops=(10, 15) if q else None)
            if k in ("eq", "ne", "sub", "max"):
                add(k + "self", nm(d), lambda B, fn=fn, d=d: (lambda x: fn(x, x))(B.input(d, ())))
    for d in ints:
        for k, fn in (("fdiv", tf.math.floordiv), ("fmod", tf.math.floormod), ("tdiv", lambda a, b: R.TruncateDiv(x=a, y=b)), ("div", lambda a, b: R.Div(x=a, y=b))):
            add(k, nm(d), lambda B, fn=fn, d=d: fn(B.input(d, ()), B.input(d, ())), ops=(9, 10, 12, 18) if q else None)
            for c in (2, 3, 1, 7, 100) + (() if d in (U8, U16, U32) else (-1, -3)):
                add(k + "c", "%s,%d" % (nm(d), c), lambda B, fn=fn, d=d, c=c: fn(B.input(d, ()), np.array(c, d)), ops=(9, 13, 18) if q else None)
        for k, fn in (("abs", tf.abs), ("neg", tf.negative), ("sign", tf.sign), ("relu", tf.nn.relu), ("square", tf.square), ("round", tf.round), ("zeros", tf.zeros_like), ("ones", tf.ones_like)):
            add(k, nm(d), lambda B, fn=fn, d=d: fn(B.input(d, ())))
        for k, fn in (("and", tf.bitwise.bitwise_and), ("or", tf.bitwise.bitwise_or), ("xor", tf.bitwise.bitwise_xor),
                      ("lsh", tf.bitwise.left_shift), ("rsh", tf.bitwise.right_shift)):
            add(k, nm(d), lambda B, fn=fn, d=d: fn(B.input(d, ()), B.input(d, ())), mn=11 if "sh" in k else 18) if d is not I64 or "sh" not in k else None
            if "sh" in k and d is not I64:
                for c in (0, 1, 7):
                    add(k + "c", "%s,%d" % (nm(d), c), lambda B, fn=fn, d=d, c=c: fn(B.input(d, ()), np.array(c, d)), mn=11)
        add("inv", nm(d), lambda B, d=d: tf.bitwise.invert(B.input(d, ())), mn=18)
        add("addn", nm(d), lambda B, d=d: tf.add_n([B.input(d, ()), B.input(d, ()), B.input(d, ())]))
    for d in flts:
        for k, fn in (("abs", tf.abs), ("neg", tf.negative), ("sign", tf.sign), ("relu", tf.nn.relu), ("relu6", tf.nn.relu6), ("square", tf.square),
                      ("floor", tf.floor), ("ceil", tf.math.ceil), ("recip", lambda x: R.Reciprocal(x=x))):
            add(k, nm(d), lambda B, fn=fn, d=d: fn(B.input(d, ())))
        for k, fn in (("round", tf.round), ("rint", tf.math.rint)):
            add(k, nm(d), lambda B, fn=fn, d=d: fn(B.input(d, ())), mn=11)
        for k, fn in (("isnan", tf.math.is_nan), ("isinf", tf.math.is_inf), ("isfin", tf.math.is_finite)):
            if d is F16 and k == "isinf":
                continue
            add(k, nm(d), lambda B, fn=fn, d=d: fn(B.input(d, ())), mn=9 if k == "isnan" else 10, nan=True)
        for k, fn in (("rdiv", tf.math.divide), ("dnn", tf.math.divide_no_nan), ("fdiv", tf.math.floordiv)):
            add(k, nm(d), lambda B, fn=fn, d=d: fn(B.input(d, ()), B.input(d, ())), nan=True)
            for c in (0, 2, -3):
                add(k + "c", "%s,%d" % (nm(d), c), lambda B, fn=fn, d=d, c=c: fn(B.input(d, ()), np.array(c, d)), nan=True, ops=(9, 13, 18) if q else None)
                add(k + "cl", "%s,%d" % (nm(d), c), lambda B, fn=fn, d=d, c=c: fn(np.array(c, d), B.input(d, ())), nan=True, ops=(11, 15) if q else None)
        for k in ("less", "le", "gt", "ge", "eq", "ne"):
            add(k + "nan", nm(d), lambda B, fn=BINS[k], d=d: fn(B.input(d, ()), B.input(d, ())), nan=True, mn=12)
            add(k + "inf", nm(d), lambda B, fn=BINS[k], d=d: fn(B.input(d, ()), np.array(np.inf, d)), nan=True, mn=12)
        add("selfne", nm(d), lambda B, d=d: (lambda x: tf.not_equal(x, x))(B.input(d, ())), nan=True)
        add("selnan", nm(d), lambda B, d=d: (lambda x: tf.where(tf.math.is_nan(x), tf.zeros_like(x), x))(B.input(d, ())), nan=True)
    for d in ints + flts + (U64, BOOL):
        add("sel", nm(d), lambda B, d=d: tf.where(B.input(BOOL, ()), B.input(d, ()), B.input(d, ())), fin=True)
        add("selv1", nm(d), lambda B, d=d: R.Select(condition=B.input(BOOL, ()), x=B.input(d, ()), y=B.input(d, ())), fin=True)
        for e in ints + flts + (U64, BOOL):
            if d in flts and e not in flts + (BOOL,) and np.dtype(e).itemsize > 4:
                continue
            add("cast", "%s,%s" % (nm(d), nm(e)), lambda B, d=d, e=e: tf.cast(B.input(d, ()), e), ops=(9, 13, 18) if q else None)
    for d in (F, F64, F16, I32, I64, U8, I8):
        for lo, hi in ((0, 6), (-1, 1), (2, 2), (-5, 0)):
            if d is U8 and lo < 0:
                continue
            add("clip", "%s,%d,%d" % (nm(d), lo, hi), lambda B, d=d, lo=lo, hi=hi: tf.clip_by_value(B.input(d, ()), np.array(lo, d), np.array(hi, d)))
            add("clipop", "%s,%d,%d" % (nm(d), lo, hi), lambda B, d=d, lo=lo, hi=hi: R.ClipByValue(t=B.input(d, ()), clip_value_min=np.array(lo, d), clip_value_max=np.array(hi, d)))
        add("cliprt", nm(d), lambda B, d=d: R.ClipByValue(t=B.input(d, ()), clip_value_min=B.input(d, ()), clip_value_max=B.input(d, ())))
    for k, fn in (("land", tf.logical_and), ("lor", tf.logical_or), ("lxor", tf.math.logical_xor), ("beq", tf.equal), ("bne", tf.not_equal)):
        add(k, "", lambda B, fn=fn: fn(B.input(BOOL, ()), B.input(BOOL, ())))
    add("lnot", "", lambda B: tf.logical_not(B.input(BOOL, ())))
    # compositions whose rewriting must keep machine semantics
    add("castcmp", "i32f", lambda B: tf.less(tf.cast(B.input(I32, ()), tf.float32), B.input(F, ())))
    add("castcast", "i64i32f", lambda B: tf.cast(tf.cast(B.input(I64, ()), tf.int32), tf.float32))
    add("castcast", "fi32f", lambda B: tf.cast(tf.cast(B.input(F, ()), tf.int32), tf.float32))
    add("castcast", "u8i8i32", lambda B: tf.cast(tf.cast(B.input(U8, ()), tf.int8), tf.int32))
    add("notless", "f", lambda B: tf.logical_not(tf.less(B.input(F, ()), B.input(F, ()))))
    add("notge", "i64", lambda B: tf.logical_not(tf.greater_equal(B.input(I64, ()), B.input(I64, ()))))
    add("addsub", "i32", lambda B: (lambda x: (x + 5) - 5)(B.input(I32, ())))
    add("minmax", "i32", lambda B: tf.minimum(tf.maximum(B.input(I32, ()), 0), 255))
    add("minmax", "f", lambda B: tf.minimum(tf.maximum(B.input(F, ()), 0.), 6.))
    add("minmax2", "f", lambda B: tf.maximum(tf.minimum(B.input(F, ()), 6.), 0.))


def jobs(tier):
    S = Suite(tier)
    q = tier == "quick"
    bitjobs(S, q)
    OP = (9, 11, 13, 15, 18) if q else None
    OP3 = (9, 12, 18) if q else None
    for nm, fn in BINS.items():
        for (sa, sb), dt in itertools.product(SHAPES, (F, I32) if q else (F, F64, I32, I64)):
            for decl in ("same", "dyn"):
                S.add("bin", (nm, sa, sb, np.dtype(dt).name, decl), lambda B, fn=fn, sa=sa, sb=sb, dt=dt, decl=decl:
                      fn(B.input(dt, sa, decl=decl), B.input(dt, sb, decl=decl)), ops=(9, 15) if q else None)
    for nm, fn in (("rdiv", tf.math.divide), ("dnn", tf.math.divide_no_nan), ("fdiv", tf.math.floordiv), ("fmod", tf.math.floormod)):
        for sa, sb in SHAPES:
            S.add("div", (nm, sa, sb), lambda B, fn=fn, sa=sa, sb=sb: fn(B.input(F, sa), B.input(F, sb)), ops=(9, 18) if q else None)
        S.add("divn", (nm,), lambda B, fn=fn: fn(B.input(F, (2, 2), decl="rank"), B.input(F, (2, 2), decl="rank")), ops=OP)
    # rank-unknown operands
    for nm in ("add", "mul", "less", "max", "eq"):
        for (sa, sb), dt in itertools.product(SHAPES[:4], (F, I64)):
            S.add("binrank", (nm, sa, sb, np.dtype(dt).name), lambda B, fn=BINS[nm], sa=sa, sb=sb, dt=dt: fn(B.input(dt, sa, decl="rank"), B.input(dt, sb, decl="dyn")), ops=(9, 15) if q else None)
    for nm, c in (("add", np.float32([1, 2])), ("mul", np.float32([[2], [0.5]])), ("sub", np.float32(3)), ("max", np.float32([0, 1])), ("rdiv", np.float32([2, 4]))):
        fn = BINS.get(nm, tf.math.divide)
        S.add("binc", (nm, c.shape), lambda B, fn=fn, c=c: fn(B.input(F, (2, 2), decl="dyn"), c), ops=OP)
        S.add("bincl", (nm, c.shape), lambda B, fn=fn, c=c: fn(c, B.input(F, (2, 2))) if fn is not tf.math.divide else fn(B.input(F, (1, 2)), c), ops=OP)
    UN = {"abs": tf.abs, "neg": tf.negative, "sign": tf.sign, "square": tf.square, "floor": tf.floor, "ceil": tf.math.ceil, "exp": tf.exp, "sqrt": tf.sqrt, "rsqrt": tf.math.rsqrt,
          "log": tf.math.log, "sin": tf.sin, "cos": tf.cos, "tan": tf.tan, "asin": tf.asin, "acos": tf.acos, "atan": tf.atan, "sinh": tf.sinh, "cosh": tf.cosh, "tanh": tf.tanh,
          "asinh": tf.asinh, "acosh": tf.acosh, "atanh": tf.atanh, "erf": tf.math.erf, "recip": tf.math.reciprocal, "sigmoid": tf.sigmoid, "softplus": tf.nn.softplus,
          "softsign": tf.nn.softsign, "relu": tf.nn.relu, "relu6": tf.nn.relu6, "elu": tf.nn.elu, "selu": tf.nn.selu, "leaky": tf.nn.leaky_relu,
          "leaky3": lambda x: tf.nn.leaky_relu(x, 0.3), "leaky0": lambda x: tf.nn.leaky_relu(x, 0.0), "leaky2": lambda x: tf.nn.leaky_relu(x, 2.0), "swish": tf.nn.swish, "gelu": tf.nn.gelu,
          "gelua": lambda x: tf.nn.gelu(x, approximate=True), "hswish": lambda x: x * tf.nn.relu6(x + 3.) / 6., "hsig": lambda x: tf.nn.relu6(x + 3.) / 6., "mish": lambda x: x * tf.tanh(tf.nn.softplus(x)),
          "logsig": tf.math.log_sigmoid, "sqrelu": lambda x: tf.square(tf.nn.relu(x)), "stop": tf.stop_gradient, "ident": tf.identity, "crelu": tf.nn.crelu, "xdivy": lambda x: x / (1. + tf.abs(x)),
          "fakeclip": lambda x: tf.clip_by_value(x, -1., 2.), "zeros": tf.zeros_like, "ones": tf.ones_like}
    for nm, fn in UN.items():
        rng = dict(flo=-4, fhi=4) if nm not in ("log", "sqrt", "rsqrt", "recip") else dict(flo=0.125, fhi=8)
        if nm in ("asin", "acos", "atanh"):
            rng = dict(flo=-0.9, fhi=0.9)
        if nm == "acosh":
            rng = dict(flo=1, fhi=8)
        if nm == "log1p":
            rng = dict(flo=-0.5, fhi=4)
        for sh, decl in (((2, 2), "same"), ((3,), "dyn"), ((), "same"), ((2, 1, 2), "rank")):
            if decl == "rank" and nm == "crelu":
                continue
            S.add("un", (nm, sh, decl), lambda B, fn=fn, sh=sh, decl=decl, rng=rng: fn(B.input(F, sh, decl=decl, **rng)), ops=((9, 13, 18) if sh == (2, 2) else (11, 15)) if q else None,
                  opt="o" if nm in ("gelu", "gelua") else None)  # grappler rounds the constants differently
        if nm not in ("hswish", "hsig", "leaky3", "xdivy", "gelu", "gelua", "fakeclip"):
            S.add("un64", (nm,), lambda B, fn=fn, rng=rng: fn(B.input(F64, (2,), **rng)), ops=(10, 15) if q else None)
    S.add("leaky", (), lambda B: R.LeakyRelu(features=B.input(F, (2, 2)), alpha=-0.5), ops=OP)
    for e in (0, 1, 2, 3, 0.5, -1, -0.5, 2.5):
        S.add("powc", (e,), lambda B, e=e: tf.pow(B.input(F, (2, 2), flo=0.25, fhi=4), e), ops=OP)
    S.add("powv", (), lambda B: tf.pow(B.input(F, (2, 2), flo=0.25, fhi=4), B.input(F, (2,), flo=-2, fhi=2)), ops=OP)
    for e in (2, 3):
        for dt in (I32, I64):
            S.add("powi", (e, np.dtype(dt).name), lambda B, e=e, dt=dt: tf.pow(B.input(dt, (2, 2), lo=-50, hi=50), np.array(e, dt)), mn=12)
    for n in (1, 2, 3, 4):
        for dt in (F, I32, F64):
            S.add("addn", (n, np.dtype(dt).name), lambda B, n=n, dt=dt: tf.add_n([B.input(dt, (2, 2)) for _ in range(n)]), ops=OP)
    S.add("addnd", (), lambda B: (lambda x, y: tf.add_n([x, y, x, x]))(B.input(F, (2, 2)), B.input(F, (2, 2))), ops=OP)
    S.add("accn", (), lambda B: tf.math.accumulate_n([B.input(F, (2,)), B.input(F, (2,)), B.input(F, (2,))]), ops=OP)
    for sc, sx, sy in (((2, 2), (2, 2), (2, 2)), ((2, 1), (2, 2), (2, 2)), ((2, 2), (), (2, 2)), ((2, 2), (2,), ()), ((), (2, 2), (2, 2)), ((1, 2), (2, 1), (2, 2)), ((2,), (3, 2), (1,)), ((2, 1, 1), (2,), (2, 1))):
        for dt in (F, I32, I64, BOOL, F64):
            S.add("selv2", (sc, sx, sy, np.dtype(dt).name), lambda B, sc=sc, sx=sx, sy=sy, dt=dt: tf.where(B.input(BOOL, sc), B.input(dt, sx), B.input(dt, sy)), ops=(9, 15) if q else None)
        S.add("selv2d", (sc, sx, sy), lambda B, sc=sc, sx=sx, sy=sy: tf.where(B.input(BOOL, sc, decl="dyn"), B.input(F, sx, decl="dyn"), B.input(F, sy, decl="dyn")), ops=(9, 13) if q else None)
    for sc, sx in (((2,), (2, 3)), ((2,), (2, 2, 2)), ((2, 3), (2, 3)), ((), (2, 3)), ((2,), (2,)), ((3,), (3, 3)), ((1,), (1, 2))):
        for dt, decl in itertools.product((F, I32, BOOL), ("same", "dyn")):
            S.add("selv1", (sc, sx, np.dtype(dt).name, decl), lambda B, sc=sc, sx=sx, dt=dt, decl=decl:
                  R.Select(condition=B.input(BOOL, sc, decl=decl), x=B.input(dt, sx, decl=decl), y=B.input(dt, sx, decl=decl)), ops=OP3)
    S.add("cmpsel", (), lambda B: (lambda x, y: tf.where(x > y, x - y, x * y))(B.input(F, (2, 2)), B.input(F, (2, 2))), ops=OP)
    S.add("cmpnot", (), lambda B: (lambda x, y: tf.logical_not(tf.logical_or(x > y, tf.equal(x, y))))(B.input(F, (2, 2)), B.input(F, (2,))), ops=OP)
    S.add("andcmp", (), lambda B: (lambda x: tf.logical_and(x > 0., x < 1.))(B.input(F, (2, 2))), ops=OP)
    S.add("lxor", (), lambda B: tf.math.logical_xor(B.input(BOOL, (2, 2)), B.input(BOOL, (2,))), ops=OP)
    S.add("sigchain", (), lambda B: (lambda x: x * tf.sigmoid(x))(B.input(F, (2, 2), flo=-4, fhi=4)), ops=OP)
    S.add("sharedneg", (), lambda B: (lambda x: [-x, -(-x), tf.abs(-x)])(B.input(F, (2, 2))), ops=OP)
    S.add("polyn", (), lambda B: (lambda x: x * x * 2. + x * 3. - 4.)(B.input(F, (2, 2))), ops=OP)
    S.add("biasadd", ("1",), lambda B: tf.nn.bias_add(B.input(F, (2, 3)), B.input(F, (3,))), ops=OP)
    S.add("biasadd", ("4",), lambda B: tf.nn.bias_add(B.input(F, (1, 2, 2, 3)), np.float32([1, 2, 3])), ops=OP)
    S.add("biasadd", ("5",), lambda B: tf.nn.bias_add(B.input(F, (1, 2, 1, 2, 3)), np.float32([1, 2, 3])), ops=OP)
    S.add("biasadd", ("nc",), lambda B: tf.nn.bias_add(B.input(F, (1, 3, 2, 2)), np.float32([1, 2, 3]), data_format="NCHW"), ops=OP)
    S.add("biasadd", ("nc3",), lambda B: tf.nn.bias_add(B.input(F, (1, 3, 2)), B.input(F, (3,)), data_format="NCW"), ops=OP)
    S.add("biasadd", ("nc5",), lambda B: tf.nn.bias_add(B.input(F, (1, 2, 2, 1, 2)), np.float32([1, 2]), data_format="NCDHW"), ops=OP)
    S.add("fill", (), lambda B: tf.fill([2, 3], 7.0) + B.input(F, (2, 3)), ops=OP)
    S.add("fillrt", (), lambda B: tf.fill(B.input(I32, (2,), "d", lo=0, hi=2), B.input(F, ())), ops=(11, 13, 18))
    S.add("fillrt64", (), lambda B: tf.fill(B.input(I64, (2,), "d", lo=0, hi=2), B.input(I32, ())), ops=(11, 13, 18))
    for dt in (I32, I64, F):
        S.add("range", (np.dtype(dt).name,), lambda B, dt=dt: tf.range(B.input(dt, (), "a", lo=-2, hi=2), B.input(dt, (), "b", lo=-2, hi=3), B.input(dt, (), "c", lo=1, hi=2))
              if dt is not F else tf.range(np.float32(0), np.float32(2.5), np.float32(0.5)) * B.input(F, (5,)), ops=OP)
        S.add("rangeneg", (np.dtype(dt).name,), lambda B, dt=dt: tf.range(B.input(dt, (), "a", lo=-1, hi=3), B.input(dt, (), "b", lo=-2, hi=2), np.array(-1, dt))
              if dt is not F else tf.range(np.float32(2), np.float32(-.5), np.float32(-1)) * B.input(F, (3,)), ops=OP)
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL + "; the 'bit_' programs are scalar and use machine arithmetic on both sides (bit vectors with wrap-around, IEEE-754 binary16/32/64 "
                    "with rounding, infinities and, where stated, NaN), so every operand value of the type is decided",
                    ["'bit_' families: every value of every operand; other families: element counts up to 8, rank up to 3, all broadcasts in SHAPES",
                     "opsets 9,11,13,15,18 (quick) or 9..18 (thorough)", "integer division: divisor not 0 and not MIN / -1; shifts below the width; casts of float to integer in range",
                     "Select operands are finite (the converter multiplies by the condition on purpose)", "comparisons with NaN at opset 12 and above"],
                    ["onnx_opset.math.*", "onnx_opset.logical.*", "onnx_opset.common.BroadcastOp", "onnx_opset.controlflow.Select/Where/Range", "onnx_opset.tensor.Cast/IsInf/IsNan", "onnx_opset.generator.Fill/ZerosLike/OnesLike",
                     "onnx_opset.nn.BiasAdd", "onnx_opset.reduction.AddN", "tf2onnx.rewriter.*", "tf2onnx.optimizer.*"])
