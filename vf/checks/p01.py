"""P01: pushing/cancelling transposes never changes what a model computes."""
import itertools

import numpy as np

from .. import onnx_tv as O
from ..onnx_tv import B, OptJob
from ..report import Report
from .. import tv

PROP = "P01"
F32 = np.float32
ONLY = ["optimize_transpose", "remove_identity"]

NHWC = [0, 2, 3, 1]     # NCHW -> NHWC
NCHW = [0, 3, 1, 2]
ND = [0, 2, 3, 4, 1]
NC = [0, 4, 1, 2, 3]
inv = lambda p: [p.index(i) for i in range(len(p))]  # noqa
SH4 = (2, 3, 1, 4)
SH4b = (1, 3, 2, 4)
SH5 = (1, 3, 2, 1, 2)
SH3 = (2, 3, 4)


def shape_for(rank, alt=0):
    return {2: (2, 3), 3: SH3, 4: SH4b if alt else SH4, 5: SH5}[rank]


def wt(shape, seed=0):
    r = np.random.default_rng(100 + seed)
    return (r.integers(-8, 9, shape) / 4.0).astype(F32)


def tshape(sh, perm):
    return [sh[p] for p in perm]


# every op template: name -> fn(b, x, sh) producing the op on x whose (concrete) shape is sh; returns (outputs, dtypes)
def simple(op, **at):
    return lambda b, x, sh: [(b.node(op, [x], **at), F32)]


def binc(op, cshape, swap=False, seed=0):
    def f(b, x, sh):
        s = cshape(sh)
        if s is None:
            return None
        c = b.const(wt(s, seed))
        return [(b.node(op, [c, x] if swap else [x, c]), F32)]
    return f


def cshapes(sh):
    r = len(sh)
    yield "scalar", lambda s: ()
    yield "one", lambda s: (1,)
    yield "last", lambda s: (s[-1],)
    yield "lastN", lambda s: (1,) * (len(s) - 1) + (s[-1],)
    yield "full", lambda s: tuple(s)
    yield "sub", lambda s: tuple(s[1:])
    yield "sub1", lambda s: (1,) + tuple(s[1:])
    yield "mid", lambda s: (s[-2], 1)
    yield "one2", lambda s: (1, 1)
    yield "allone", lambda s: (1,) * len(s)
    yield "big", lambda s: (2,) + (1,) * len(s)
    yield "first", lambda s: (s[0],) + (1,) * (len(s) - 1)


def templates(rank, opset, tier):
    """(name, fn)"""
    T = []
    for op in ["Abs", "Elu", "Exp", "LeakyRelu", "Log", "Neg", "Reciprocal", "Relu", "Selu", "Sigmoid", "Softplus",
               "Sqrt", "Tanh", "Identity", "Erf"]:
        if op == "Erf" and opset < 9:
            continue
        T.append((op, simple(op)))
    T.append(("Clip", lambda b, x, sh: [(b.clip(x, -0.5, 0.75), F32)]))
    T.append(("Cast", lambda b, x, sh: [(b.node("Cast", [x], to=O.ot(np.int32)), np.int32)]))
    sh0 = shape_for(rank)
    for op in ["Add", "Mul", "Sub", "Max", "Min"]:
        for nm, cs in cshapes(sh0):
            if op in ("Max", "Min") and opset < 8 and nm != "full":
                continue
            for swap in (False, True):
                T.append(("%s.c_%s%s" % (op, nm, "_swap" if swap else ""), binc(op, cs, swap)))
    if opset >= 8:
        T.append(("Sum.c", lambda b, x, sh: [(b.node("Sum", [x, b.const(wt(sh))]), F32)]))
        T.append(("Sum.c3", lambda b, x, sh: [(b.node("Sum", [b.const(wt((1,) + tuple(sh[1:]))), x, b.const(wt(sh, 2))]), F32)]))
        T.append(("Sum.cc", lambda b, x, sh: (lambda c: [(b.node("Sum", [x, c, c]), F32)])(b.const(wt(sh)))))
        T.append(("Sum.xx", lambda b, x, sh: [(b.node("Sum", [x, x, b.const(wt(sh))]), F32)]))
        T.append(("Sum.clast", lambda b, x, sh: [(b.node("Sum", [x, b.const(wt((sh[-1],)))]), F32)]))
    for nm, cs in cshapes(sh0):
        if nm in ("big",):
            continue
        T.append(("PRelu.c_%s" % nm, binc("PRelu", cs)))
    # shared constant: used by a second consumer as well
    for nm in ("last", "lastN"):
        cs = dict(cshapes(sh0))[nm]
        for op in ("Mul", "Add"):
            def sharedc(b, x, sh, cs=cs, op=op):
                c = b.const(wt(cs(sh)))
                y = b.node(op, [x, c])
                return [(y, F32), (b.node("Neg", [c]), F32)]
            T.append(("%s.shared_%s" % (op, nm), sharedc))
    # same input twice / two transposes
    for op in ("Add", "Mul", "Sub", "Max", "Concat", "Sum"):
        if op == "Max" and opset < 8:
            continue
        T.append(("%s.self" % op, lambda b, x, sh, op=op: [(b.node(op, [x, x], axis=(1 if op == "Concat" else None)), F32)]))
    axes_sets = [[0], [1], [rank - 1], [1, 2] if rank > 2 else [0, 1], list(range(rank)), [0, rank - 1], None]
    if opset >= 11:
        axes_sets += [[-1], [-2, -1] if rank > 2 else [-2], [-rank]]
    for op in ["ReduceMax", "ReduceMean", "ReduceMin", "ReduceProd", "ReduceSum", "ReduceSumSquare", "ReduceLogSum", "ReduceLogSumExp"]:
        for ax in axes_sets:
            for kd in (0, 1):
                if tier == "quick" and op not in ("ReduceSum", "ReduceMean", "ReduceMax") and (ax not in ([1], [1, 2], None, [-1])):
                    continue
                T.append(("%s.ax%s.k%d" % (op, ax, kd), lambda b, x, sh, op=op, ax=ax, kd=kd: [(b.reduce(op, x, ax, kd), F32)]))
        # default keepdims (attribute absent)
        T.append(("%s.defk" % op, lambda b, x, sh, op=op: [(b.reduce(op, x, [1], None), F32)]))

    def reduce_shared_axes(b, x, sh):
        if opset < 13:
            return None
        c = b.const(np.array([1, len(sh) - 1], np.int64))
        return [(b.node("ReduceSum", [x, c], keepdims=1), F32), (b.node("Cast", [c], to=1), F32)]
    T.append(("ReduceSum.shared_axes", reduce_shared_axes))
    if opset >= 13:
        T.append(("ReduceSum.noop", lambda b, x, sh: [(b.node("ReduceSum", [x], noop_with_empty_axes=1), F32)]))
        T.append(("ReduceSum.emptyax", lambda b, x, sh: [(b.node("ReduceSum", [x, b.const(np.zeros((0,), np.int64))]), F32)]))
        T.append(("ReduceSum.emptyax_noop", lambda b, x, sh: [(b.node("ReduceSum", [x, b.const(np.zeros((0,), np.int64))], noop_with_empty_axes=1), F32)]))

    def reducedyn(b, x, sh):
        if opset < 13:
            return None
        a = b.input(np.int64, (1,), "axr", lo=-1, hi=len(sh) - 1)
        return [(b.node("ReduceSum", [x, a], keepdims=1), F32)]
    T.append(("ReduceSum.dynaxes", reducedyn))
    for op in ("ArgMax", "ArgMin"):
        for ax in [0, 1, rank - 1, None] + ([-1, -2] if opset >= 11 else []):
            for kd in (0, 1, None):
                T.append(("%s.ax%s.k%s" % (op, ax, kd), lambda b, x, sh, op=op, ax=ax, kd=kd: [(b.node(op, [x], axis=ax, keepdims=kd), np.int64)]))
    for op in ("Softmax", "LogSoftmax"):
        for ax in [0, 1, 2, rank - 1, None] + ([-1, -2, -rank] if opset >= 11 else []):
            if ax is not None and ax >= rank:
                continue
            T.append(("%s.ax%s" % (op, ax), lambda b, x, sh, op=op, ax=ax: [(b.node(op, [x], axis=ax), F32)]))
    # pads
    padv = [[1] + [0] * (rank - 1) + [0] * (rank - 1) + [2], [0, 1, 2, 3, 1][:rank] + [1, 0, 1, 0, 2][:rank],
            [0] * (rank - 1) + [-1] + [0] * rank]
    for i, p in enumerate(padv):
        T.append(("Pad.%d" % i, lambda b, x, sh, p=p: [(b.pad(x, p), F32)]))
        T.append(("Pad.val%d" % i, lambda b, x, sh, p=p: [(b.pad(x, p, value=1.5), F32)]))
    T.append(("Pad.edge", lambda b, x, sh: [(b.pad(x, padv[1], mode="edge"), F32)]))

    def padshared(b, x, sh):
        if opset < 11:
            return None
        c = b.const(np.array(padv[1], np.int64))
        return [(b.node("Pad", [x, c]), F32), (b.node("Cast", [c], to=1), F32)]
    T.append(("Pad.shared", padshared))

    def paddyn(b, x, sh):
        if opset < 11:
            return None
        a = b.input(np.int64, (2 * len(sh),), "padr", value=np.array(padv[1]))
        return [(b.node("Pad", [x, a]), F32)]
    T.append(("Pad.dyn", paddyn))
    if opset >= 18:
        T.append(("Pad.axes", lambda b, x, sh: [(b.node("Pad", [x, b.const(np.array([1, 2], np.int64)), "", b.const(np.array([1], np.int64))]), F32)]))
        T.append(("Pad.axes3", lambda b, x, sh: [(b.node("Pad", [x, b.const(np.array([1] + [0] * (rank - 1) + [0] * (rank - 1) + [2])), "", b.const(np.arange(rank)[::-1].copy())]), F32)]))
        T.append(("Pad.axes2", lambda b, x, sh: [(b.node("Pad", [x, b.const(np.array([0, 1, 2, 3], np.int64)), b.const(np.float32(2)), b.const(np.array([1, -1], np.int64))]), F32)]))
    # slice
    for i, (st, en, ax, sp) in enumerate([
            ([0, 1], [1, 3], [0, 1], None), ([1], [2], [rank - 1], None), ([0] * rank, [1] * rank, None, None),
            ([0], [-1], [1], None)] + ([([-1], [-100], [1], [-1]), ([0, 0], [9, 9], [-1, 1], [2, 1]), ([0, 1], [1, 2], [-1, -2], None)] if opset >= 10 else [])):
        T.append(("Slice.%d" % i, lambda b, x, sh, st=st, en=en, ax=ax, sp=sp: [(b.slice(x, st, en, ax, sp), F32)]))

    def sliceshared(b, x, sh):
        if opset < 10:
            return None
        s, e, a = b.const(np.array([0], np.int64)), b.const(np.array([1], np.int64)), b.const(np.array([1], np.int64))
        return [(b.node("Slice", [x, s, e, a]), F32), (b.node("Cast", [a], to=1), F32)]
    T.append(("Slice.sharedaxes", sliceshared))

    def sliceone(b, x, sh):   # starts and axes are the same constant
        if opset < 10:
            return None
        a, e = b.const(np.array([1], np.int64)), b.const(np.array([2], np.int64))
        return [(b.node("Slice", [x, a, e, a]), F32)]
    T.append(("Slice.starts_is_axes", sliceone))

    def slice32(b, x, sh):
        if opset < 10:
            return None
        c = lambda v: b.const(np.array(v, np.int32))  # noqa
        return [(b.node("Slice", [x, c([0, 1]), c([2, 3]), c([2 if rank > 2 else 1, 1 if rank > 2 else 0])]), F32)]
    T.append(("Slice.i32", slice32))

    # split / concat
    for ax in [0, 1, rank - 1] + ([-1] if opset >= 11 else []):
        def splitf(b, x, sh, ax=ax):
            n = sh[ax]
            if n < 2:
                return None
            ys = b.split(x, ax, [1, n - 1])
            return [(y, F32) for y in ys]
        T.append(("Split.ax%s" % ax, splitf))

        def split1(b, x, sh, ax=ax):
            ys = b.split(x, ax, [sh[ax]])
            return [(ys, F32)]
        T.append(("Split1.ax%s" % ax, split1))
        T.append(("Concat.c.ax%s" % ax, lambda b, x, sh, ax=ax: [(b.node("Concat", [x, b.const(wt(sh))], axis=ax), F32)]))
        T.append(("Concat.cx.ax%s" % ax, lambda b, x, sh, ax=ax: [(b.node("Concat", [b.const(wt(sh)), x, x], axis=ax), F32)]))
    # squeeze / unsqueeze
    sq = [[i for i, s in enumerate(tshape(shape_for(rank), NHWC if rank == 4 else ND if rank == 5 else list(range(rank)))) if s == 1]]
    for ax in ("ones", "first", "none", "neg"):
        def sqz(b, x, sh, ax=ax):
            ones = [i for i, s in enumerate(sh) if s == 1]
            if not ones:
                return None
            a = {"ones": ones, "first": ones[:1], "none": None, "neg": [i - len(sh) for i in ones][::-1]}[ax]
            if ax == "neg" and opset < 11:
                return None
            return [(b.squeeze(x, a), F32)]
        T.append(("Squeeze.%s" % ax, sqz))

    def sqz_shared(b, x, sh):
        ones = [i for i, s in enumerate(sh) if s == 1]
        if not ones or opset < 13:
            return None
        c = b.const(np.array(ones, np.int64))
        return [(b.node("Squeeze", [x, c]), F32), (b.node("Cast", [c], to=1), F32)]
    T.append(("Squeeze.shared", sqz_shared))
    for ax in ([0], [1], [rank], [0, 2], [1, rank], [0, 1], [rank, rank + 1], [0, 1, 3], [3, 1], [2, 3]) + (([-1], [-2], [-1, 0], [-3, -1]) if opset >= 11 else ()):
        if max(ax) >= rank + len(ax):
            continue
        T.append(("Unsqueeze.%s" % ax, lambda b, x, sh, ax=ax: [(b.unsqueeze(x, ax), F32)]))
    # tile, shape
    T.append(("Tile", lambda b, x, sh: [(b.node("Tile", [x, b.const(np.array([1, 2, 1, 3, 1][:rank], np.int64))]), F32)]))

    def tileshared(b, x, sh):
        c = b.const(np.array([2, 1, 2, 1, 1][:rank], np.int64))
        return [(b.node("Tile", [x, c]), F32), (b.node("Cast", [c], to=1), F32)]
    T.append(("Tile.shared", tileshared))
    T.append(("Shape", lambda b, x, sh: [(b.node("Shape", [x]), np.int64)]))
    if opset >= 15:
        T.append(("Shape.slice", lambda b, x, sh: [(b.node("Shape", [x], start=1, end=-1), np.int64)]))
    # quantisation
    if opset >= 10:
        def ql(b, x, sh, ax=None, per=False):
            n = sh[ax] if per else 1
            s = b.const((np.arange(1, n + 1) / 4.0).astype(F32) if per else np.float32(0.25))
            zp = b.const(np.arange(n).astype(np.uint8) if per else np.uint8(3))
            return [(b.node("QuantizeLinear", [x, s, zp], axis=(ax if per == 1 else None)), np.uint8)]
        T.append(("Quantize.t", ql))

        def qdq(b, x, sh, ax=None, per=False, sgn=np.int8):
            n = sh[ax if ax is not None else 1] if per else 1
            s = b.const((np.arange(1, n + 1) / 4.0).astype(F32) if per else np.float32(0.25))
            zp = b.const(np.arange(n).astype(sgn) if per else sgn(3))
            at = {} if ax is None else {"axis": ax}
            q = b.node("QuantizeLinear", [x, s, zp], **at)
            d = b.node("DequantizeLinear", [q, s, zp], **at)
            return [(b.node("Relu", [d]), F32)]
        T.append(("QDQ.t", qdq))
        if opset >= 13:
            for ax in (0, 1, rank - 1, -1, None):
                T.append(("Quantize.pc%s" % ax, lambda b, x, sh, ax=ax: ql(b, x, sh, ax if ax is not None else 1, 1 if ax is not None else 2)))
                T.append(("QDQ.pc%s" % ax, lambda b, x, sh, ax=ax: qdq(b, x, sh, ax, True)))
    # non-listed ops must simply be left alone
    T.append(("Floor", simple("Floor")))
    T.append(("Softsign", simple("Softsign")))
    return T


def tails(rank):
    yield "inv"
    yield "neg"
    yield "inv+neg"      # two consumers
    yield "inv+out"      # op output is also a graph output


def build(opset, perm, tname, fn, tail, decl, pre, alt=0):
    rank = len(perm)
    b = B(opset)
    sh = shape_for(rank, alt)
    d = {"same": "same", "dyn0": [None] + list(sh[1:]), "dynall": [None] * rank, "unk": None}[decl]
    x = b.input(F32, sh, "x", decl=d, flo=(0.25 if tname in ("Log", "Sqrt", "Reciprocal", "ReduceLogSum") or tname.startswith("ReduceLogSum") else None))
    if pre:
        x0 = b.node("Neg", [b.node("Neg", [x])]) if pre == 1 else x
    else:
        x0 = x
    t = b.transpose(x0, perm)
    tsh = tshape(sh, perm)
    r = fn(b, t, tsh)
    if r is None:
        return None
    for i, (y, dt) in enumerate(r):
        if i > 0:
            b.out(y, dt)
            continue
        ident = lambda v: b.node("Identity", [v])  # noqa
        # rank of the op output decides which inverse permutation makes sense
        out_rank = None
        nm = tname.split(".")[0]
        if tail != "neg":
            if nm in ("Squeeze", "Unsqueeze", "Shape", "ArgMax", "ArgMin") or ".k0" in tname or ".c_big" in tname:
                if tail == "inv":
                    b.out(b.node("Cast", [y], to=O.ot(dt)) if False else b.node("Identity", [y]), dt)
                    continue
                return None
            z = b.transpose(y, inv(perm))
            if tail == "inv":
                b.out(b.node("Identity", [z]), dt) if False else b.out(z, dt)
            elif tail == "inv+neg":
                b.out(b.node("Neg", [z]) if dt != np.uint8 else b.node("Identity", [z]), dt)
                b.out(b.node("Abs", [y]) if dt != np.uint8 else b.node("Identity", [y]), dt)
            else:
                b.out(z, dt)
                b.out(y, dt)
        else:
            b.out(b.node("Abs", [y]), dt)
    return b


def two_input(opset, perm, opname, tail, form, decl="same"):
    """ops on two transposed (or half transposed) runtime inputs"""
    rank = len(perm)
    b = B(opset)
    sh = shape_for(rank)
    d = {"same": "same", "dyn": [None] * rank, "dyn0": [None] + list(sh[1:])}[decl]
    x = b.input(F32, sh, "x", decl=d)
    tsh = tshape(sh, perm)
    at = {"axis": len(sh) - 1} if opname == "Concat" else {}
    if opname == "Concat1":
        at = {"axis": 1}
        opname = "Concat"
    if opname == "Concat-1":
        at = {"axis": -1}
        opname = "Concat"
    t1 = b.transpose(x, perm)
    if form == "TT":
        y = b.input(F32, sh, "y", decl=d)
        args = [t1, b.transpose(y, perm)]
    elif form == "TX":
        y = b.input(F32, tsh, "y", decl="same" if decl == "same" else [None] * rank)
        args = [t1, y]
    elif form == "XT":
        y = b.input(F32, tsh, "y", decl="same" if decl == "same" else [None] * rank)
        args = [y, t1]
    elif form == "TV":    # lower rank runtime operand
        y = b.input(F32, tsh[-1:], "y")
        args = [t1, y]
    elif form == "TV2":
        y = b.input(F32, tsh[-2:], "y", decl=[None, tsh[-1]] if decl != "same" else "same")
        args = [t1, y]
    elif form == "TU":    # unknown rank runtime operand
        y = b.input(F32, tsh[-2:], "y", decl=None)
        args = [t1, y]
    elif form == "Tother":   # different permutation
        p2 = list(range(rank))
        p2[0], p2[1] = p2[1], p2[0]
        y = b.input(F32, [tsh[p2.index(i)] for i in range(rank)], "y")
        args = [t1, b.transpose(y, p2)]
    elif form == "TTT":
        y = b.input(F32, sh, "y", decl=d)
        w = b.input(F32, sh, "w", decl=d)
        args = [t1, b.transpose(y, perm), b.transpose(w, perm)]
    elif form == "TTsharedtrans":   # second transpose also used elsewhere
        y = b.input(F32, sh, "y", decl=d)
        t2 = b.transpose(y, perm)
        b.out(b.node("Abs", [t2]), F32)
        args = [t1, t2]
    elif form == "TXmulti":   # the op output has several consumers
        y = b.input(F32, tsh, "y")
        args = [t1, y]
    if opname == "PRelu" and len(args) > 2:
        return None
    if opname in ("Add", "Sub", "Mul", "PRelu") and len(args) > 2:
        return None
    if opname == "Concat" and form in ("TV", "TV2", "TU"):
        return None
    r = b.node(opname, args, **at)
    if tail == "inv":
        b.out(b.transpose(r, inv(perm)), F32)
    elif tail == "neg":
        b.out(b.node("Abs", [r]), F32)
    else:
        b.out(b.transpose(b.node("Tanh", [r]), inv(perm)), F32)
        b.out(b.node("Abs", [r]), F32)
    return b


def conv_block(opset, kind, addkind, tail, bias=False):
    """Conv -> Transpose(NHWC) -> Add/Mul const, the bias/scale folding paths"""
    b = B(opset)
    x = b.input(F32, (1, 2, 3, 3), "x")
    if kind == "Conv":
        w = b.const(wt((3, 2, 2, 2)))
    elif kind == "ConvG":
        w = b.const(wt((2, 1, 2, 2)))
    elif kind == "ConvDyn":
        w = b.input(F32, (3, 2, 2, 2), "w")
    else:
        w = b.const(wt((2, 3, 2, 2)))
    m = 2 if kind == "ConvG" else 3
    args = [x, w] + ([b.const(wt((m,)))] if bias else [])
    op = "ConvTranspose" if kind == "ConvTranspose" else "Conv"
    y = b.node(op, args, group=2 if kind == "ConvG" else None)
    if tail == "convtwice":
        b.out(b.node("Abs", [y]), F32)
    t = b.transpose(y, NHWC)
    o, nm = addkind.split(".")
    hw = 2 if op == "Conv" else 4
    c = {"v": wt((m,)), "v4": wt((1, 1, 1, m)), "s": np.float32(1.5), "one": wt((1,)), "hw": wt((hw, 1)), "full": wt((1, hw, hw, m)),
         "h": wt((1, hw, 1, 1)), "v5": wt((1, 1, 1, 1, m))}[nm]
    if nm == "h" and hw == m:
        return None
    cst = b.const(c)
    z = b.node(o, [t, cst])
    if tail == "sharedc":
        b.out(b.node("Neg", [cst]), F32)
    if tail == "sharedw" and kind != "ConvDyn":
        b.out(b.node("Neg", [w]), F32)
    if nm == "v5":
        b.out(z, F32) if tail == "x" else b.out(b.node("Abs", [z]), F32)
        return b
    b.out(b.transpose(b.node("Relu", [z]), NCHW), F32)
    return b


def chain(opset, perm, ops, rank, decl="same", fork=False):
    b = B(opset)
    sh = shape_for(rank)
    d = {"same": "same", "dyn0": [None] + list(sh[1:])}[decl]
    x = b.input(F32, sh, "x", decl=d)
    t = b.transpose(x, perm)
    csh = tshape(sh, perm)
    tm = dict(templates(rank, opset, "thorough"))
    y = t
    for o in ops:
        r = tm[o](b, y, csh)
        if r is None:
            return None
        y = r[0][0]
    if fork:
        b.out(b.node("Abs", [y]), F32)
        b.out(b.node("Tanh", [t]), F32)
    b.out(b.transpose(y, inv(perm)), F32)
    return b


def subgraph_prog(opset, form):
    """transposes whose result is used inside If / Loop bodies"""
    b = B(opset)
    x = b.input(F32, (1, 2, 3, 2), "x")
    c = b.input(np.bool_, (), "c")
    t = b.transpose(x, NHWC)
    th, el = B(opset, "th_"), B(opset, "el_")
    if form == "if_inv":
        o = th.transpose(t, NCHW)
        th.out(th.node("Neg", [o]))
        o = el.transpose(t, NCHW)
        el.out(el.node("Abs", [o]))
    elif form == "if_mixed":
        th.out(th.node("Neg", [t]))
        el.out(el.node("Relu", [t]))
    elif form == "if_inv_out":
        th.out(th.transpose(t, NCHW))
        el.out(el.transpose(th.node("Abs", [t]) if False else t, NCHW))
    elif form == "if_one":
        th.out(th.node("Neg", [th.transpose(t, NCHW)]))
        el.out(el.node("Abs", [x]))
    elif form == "if_inner":
        p = th.transpose(x, NHWC)
        th.out(th.transpose(th.node("Relu", [p]), NCHW))
        el.out(el.node("Abs", [x]))
    elif form == "if_ident":
        p = th.node("Identity", [t])
        th.out(th.node("Neg", [th.transpose(p, NCHW)]))
        el.out(el.node("Abs", [x]))
    y = b.node("If", [c], then_branch=th.graph("th"), else_branch=el.graph("el"))
    b.out(b.node("Abs", [y]), F32)
    if form == "if_one":
        b.out(b.node("Tanh", [b.transpose(t, NCHW)]), F32)
    return b


def jobs(tier):
    out = []
    seen = set()

    def add(key, fn, opts=ONLY):
        if key not in seen:
            seen.add(key)
            out.append(OptJob(key, fn, opts))
    opsets = [9, 12, 13, 18] if tier == "quick" else list(range(8, 19))
    perms4 = [NHWC, NCHW, [0, 2, 1, 3]] if tier == "quick" else [NHWC, NCHW, [0, 2, 1, 3], [1, 0, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]]
    perms = perms4 + [ND, NC] + [[0, 2, 1], [2, 0, 1]] + ([[1, 0], [1, 2, 0], [0, 3, 1, 4, 2]] if tier != "quick" else [])
    for opset in opsets:
        for perm in perms:
            full = perm in (NHWC,) or tier != "quick"
            for tname, fn in templates(len(perm), opset, tier):
                for tail in (("inv", "neg", "inv+neg", "inv+out") if full else ("inv",)):
                    for decl in (("same", "dyn0", "unk") if perm == NHWC else ("same",)):
                        if decl == "unk" and tier == "quick" and opset not in (13, 18):
                            continue
                        if tier == "quick" and decl != "same" and tail not in ("inv",):
                            continue
                        key = "one|op%d|%s|%s|%s|%s" % (opset, "".join(map(str, perm)), tname, tail, decl)
                        add(key, lambda opset=opset, perm=perm, tname=tname, fn=fn, tail=tail, decl=decl: build(opset, perm, tname, fn, tail, decl, 0))
        for perm in (NHWC, NCHW, ND):
            for opn in ("Add", "Mul", "Sub", "Max", "Min", "Sum", "PRelu", "Concat", "Concat1", "Concat-1"):
                if opn == "Concat-1" and opset < 11:
                    continue
                for form in ("TT", "TX", "XT", "TV", "TV2", "TU", "Tother", "TTT", "TTsharedtrans"):
                    for tail in ("inv", "neg", "both"):
                        for decl in ("same", "dyn0", "dyn"):
                            if tier == "quick" and (decl == "dyn0" or (perm != NHWC and (tail == "both" or decl != "same"))):
                                continue
                            add("two|op%d|%s|%s|%s|%s|%s" % (opset, "".join(map(str, perm)), opn, form, tail, decl),
                                lambda opset=opset, perm=perm, opn=opn, tail=tail, form=form, decl=decl: two_input(opset, perm, opn, tail, form, decl))
        for kind in ("Conv", "ConvG", "ConvDyn", "ConvTranspose"):
            for ak in ("Add.v", "Add.v4", "Add.s", "Add.one", "Add.hw", "Add.full", "Add.h", "Add.v5", "Mul.v", "Mul.v4", "Mul.s", "Mul.one", "Mul.hw", "Mul.full", "Mul.h", "Mul.v5"):
                for tail in ("x", "convtwice", "sharedc", "sharedw"):
                    for bias in (False, True):
                        if bias and tail != "x":
                            continue
                        add("conv|op%d|%s|%s|%s|b%d" % (opset, kind, ak, tail, bias),
                            lambda opset=opset, kind=kind, ak=ak, tail=tail, bias=bias: conv_block(opset, kind, ak, tail, bias))
        chains = [["Relu", "Add.c_last"], ["Pad.1", "Mul.c_scalar"], ["ReduceMean.ax[1, 2].k1", "Add.c_last"], ["Squeeze.ones"],
                  ["Softmax.axNone", "Clip"], ["Slice.0", "Tanh"], ["Add.self", "Mul.c_scalar"], ["Concat.c.ax%d" % 1, "Neg"],
                  ["Tile", "Sigmoid"], ["Sub.c_full", "Max.c_full"], ["Identity", "Identity"], ["Add.c_full", "ReduceSum.ax[1, 2].k1"]]
        for ch in chains:
            for fork in (False, True):
                for decl in ("same", "dyn0"):
                    if "Squeeze" in ch[0]:
                        continue
                    add("chain|op%d|%s|f%d|%s" % (opset, "+".join(ch), fork, decl),
                        lambda opset=opset, ch=ch, fork=fork, decl=decl: chain(opset, NHWC, ch, 4, decl, fork))
        if opset >= 11:
            for form in ("if_inv", "if_mixed", "if_inv_out", "if_one", "if_inner", "if_ident"):
                add("sub|op%d|%s" % (opset, form), lambda opset=opset, form=form: subgraph_prog(opset, form))
        # transposes back to back, useless transposes, merges
        for p1, p2 in itertools.product([NHWC, NCHW, [0, 1, 2, 3], [0, 2, 1, 3]], repeat=2):
            for tail in ("a", "b", "c"):
                def tt(opset=opset, p1=p1, p2=p2, tail=tail):
                    b = B(opset)
                    x = b.input(F32, SH4b, "x")
                    t = b.transpose(b.node("Relu", [x]), p1)
                    u = b.transpose(t, p2)
                    if tail == "a":
                        b.out(u)
                    elif tail == "b":
                        b.out(b.node("Neg", [u]))
                        b.out(b.node("Abs", [t]))
                    else:
                        b.out(b.node("Neg", [b.node("Add", [u, b.transpose(t, p2)])]))
                    return b
                add("tt|op%d|%s|%s|%s" % (opset, "".join(map(str, p1)), "".join(map(str, p2)), tail), tt)
        # single-dim transposes become reshapes
        for sh, perm, decl in [((1, 1, 2, 3), [0, 2, 3, 1], "same"), ((2, 3, 1, 1), [0, 2, 3, 1], "same"), ((2, 1, 3, 1), [0, 2, 3, 1], "same"),
                               ((2, 1, 3, 2), [0, 2, 3, 1], [None, 1, None, 2]), ((2, 1, 3, 2), [0, 2, 3, 1], [None, 1, None, None]),
                               ((2, 3, 1, 1), [0, 3, 1, 2], [None, 3, 1, 1]), ((2, 1, 2, 2), [0, 3, 1, 2], [None, 1, None, None]),
                               ((1, 2, 1, 3), [2, 1, 0, 3], [None, None, 1, 3]), ((2, 2, 1, 2), [1, 0, 2, 3], [None, None, 1, None])]:
            def one(opset=opset, sh=sh, perm=perm, decl=decl):
                b = B(opset)
                x = b.input(F32, sh, "x", decl=decl)
                b.out(b.node("Neg", [b.transpose(x, perm)]))
                b.out(b.transpose(x, perm))
                return b
            add("reshape|op%d|%s|%s|%s" % (opset, sh, perm, decl), one)
        # constant reshape folded before the pass
        for tgt in ([3, 2, 2, 2], [0, 2, 2, 2], [3, -1, 2, 2], [0, -1, 4], [24], [-1]):
            def crs(opset=opset, tgt=tgt):
                b = B(opset)
                x = b.input(F32, (2,), "x")
                r = b.reshape(b.const(wt((3, 4, 2))), tgt)
                b.out(b.node("Neg", [r]))
                b.out(b.node("Mul", [r, b.node("ReduceSum", [x, b.const(np.array([0]))] if opset >= 13 else [x], axes=None if opset >= 13 else [0], keepdims=1)]))
                return b
            add("creshape|op%d|%s" % (opset, tgt), crs)
    res = []
    for j in out:
        res.append(j)
    return res


class Skip(Exception):
    pass


def run_job(job):
    b = job.build()
    if b is None:
        o = tv.Outcome(job.key)
        o.skip = True
        return o
    j = OptJob(job.key, lambda: b, job.optimizers)
    return O.check_opt(j, xval=(int(tv.digest(job.key), 16) % 25 == 0))


FUNCS = ["tf2onnx.optimizer.transpose_optimizer.TransposeOptimizer (every handler)", "tf2onnx.graph.Graph edit API",
         "tf2onnx.graph.GraphUtil.optimize_model_proto"]


def finish(prop, rep, outs, explanation, bounds, assumptions, funcs):
    rep.functions |= set(funcs)
    rep.bounds += bounds
    rep.assumptions += assumptions
    ch = sum(1 for o in outs if getattr(o, "changed", False))
    return rep.finish(explanation, {"programs_rewritten_by_the_pass": ch})


def main(tier):
    rep = Report(PROP, tier, "translation_validation")
    js = jobs(tier)
    outs, st = tv.run_jobs(js, run_job)
    outs = [o for o in outs if not getattr(o, "skip", False)]
    rep.add(outs, st)
    return finish(PROP, rep, outs,
                  "each program (an ONNX model around a transpose) is run through the real optimizer; the model before and after "
                  "are executed symbolically and z3 decides equality of every output element for all tensor values",
                  ["ranks 2-5, dims 1-4, opsets 8-18", "runtime tensor values: all finite reals / integers in +-1000"],
                  ["float arithmetic is exact real arithmetic", "transcendental functions are uninterpreted (same function both sides)"], FUNCS)
