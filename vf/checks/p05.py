"""P05 clean-up passes: identity, merge duplicates, reshape, loop, global pooling, upsample."""
import itertools

import numpy as np
import onnx
from onnx import TensorProto as TP, helper

from .. import onnx_tv as O
from .. import tv
from ..gen import Gen
from ..onnx_tv import B, OptJob
from ..report import Report
from .p01 import finish

PROP = "P05"
F32, I64 = np.float32, np.int64
PASSES = {"id": ["remove_identity"], "dup": ["merge_duplication"], "rs": ["reshape_optimizer"], "loop": ["loop_optimizer"], "gp": ["global_pool_optimizer"], "up": ["remove_redundant_upsample"], "all": None,
          "clean": ["remove_identity", "merge_duplication", "reshape_optimizer", "loop_optimizer", "global_pool_optimizer", "remove_redundant_upsample"]}


def loopbody(b, op, shape, states, scans, pre="l_", iters=3, m=None, cond=None, init=None, scan_dt=F32):
    """states: fn(sb, [state names], iter) -> list of state outputs; scans: fn -> list of scan names"""
    sb = B(op, pre)
    it, cd = pre + "i", pre + "c"
    st = [pre + "st%d" % i for i in range(len(init or []))]
    sb.ins = [helper.make_tensor_value_info(it, TP.INT64, []), helper.make_tensor_value_info(cd, TP.BOOL, [])] + \
        [helper.make_tensor_value_info(s, TP.FLOAT, list(shape)) for s in st]
    so = states(sb, st, it)
    sc = scans(sb, st, it, so)
    sb.out(cd if cond == "direct" else sb.node("Identity", [cd]), np.bool_)
    for o in so:
        sb.out(o)
    for o in sc:
        sb.out(o, scan_dt)
    mm = m if m is not None else b.const(np.array(iters, I64))
    return b.node("Loop", [mm, ""] + (init or []), nout=len(so) + len(sc), body=sb.graph("body"))


def jobs(tier):
    q = tier == "quick"
    js = []
    ops = (9, 11, 13, 18) if q else tuple(range(9, 19))

    def add(fam, op, par, build, passes):
        for p in passes:
            js.append(OptJob("%s|op%d|%s|%s" % (fam, op, p, par), build, PASSES[p]))

    # ------------------------------------------------------------ random programs
    n = 260 if q else 2500
    for seed in range(n):
        op = ops[seed % len(ops)]
        ps = ("id", "dup", "rs", "clean", "all") if not q else (("id", "dup", "rs")[seed % 3], ("clean", "all")[seed % 2])
        add("rand", op, seed, lambda seed=seed, op=op: Gen(seed, op).build(), ps)
    for seed in range(0, 120 if q else 1200):
        op = ops[seed % len(ops)]
        add("randid", op, seed, lambda seed=seed, op=op: Gen(seed + 5000, op, size=7, ident=12, shapes=False).build(), ("id", "clean") if not q else (("id", "clean")[seed % 2],))
        add("randdup", op, seed, lambda seed=seed, op=op: Gen(seed + 9000, op, size=7, dup=9, ident=1).build(), ("dup", "clean") if not q else (("dup", "clean")[seed % 2],))
        add("randrs", op, seed, lambda seed=seed, op=op: Gen(seed + 12000, op, size=5, ctrl=False, ident=1).build(), ("rs",))
    for op in ops:
        # -------------------------------------------------------- identity
        def idm(form):
            b = B(op)
            x = b.input(F32, (2, 3), "x")
            ide = lambda v, bb=b: bb.node("Identity", [v])  # noqa
            if form == "inout":
                b.out(ide(x))
            elif form == "inout2":
                b.out(ide(ide(x)))
                b.out(ide(x))
            elif form == "initout":
                b.out(ide(b.const(np.ones((2,), F32))))
                b.out(b.node("Neg", [x]))
            elif form == "initout2":
                c = b.const(np.array([1., 2., 3.], F32))
                b.out(ide(c))
                b.out(ide(c))
                b.out(b.node("Add", [x, c]))
            elif form == "constout":
                c = b.constnode(np.array([1., 2., 3.], F32))
                b.out(ide(c))
                b.out(ide(ide(c)))
                b.out(b.node("Add", [x, c]))
            elif form == "twoouts":
                y = b.node("Neg", [x])
                b.out(ide(y))
                b.out(ide(y))
            elif form == "outtwice":
                y = b.node("Neg", [x])
                b.out(y)
                b.out(ide(y))
                b.out(ide(ide(y)))
            elif form == "split":
                s = b.split(x, 1, [1, 2])
                b.out(ide(s[1]))
                b.out(b.node("Neg", [s[1]]))
                b.out(ide(s[0]))
            elif form == "used":
                y = b.node("Neg", [x])
                z = ide(y)
                b.out(z)
                b.out(b.node("Abs", [z]))
                b.out(b.node("Exp", [y]))
            elif form == "chain":
                y = b.node("Neg", [x])
                z = ide(ide(ide(y)))
                b.out(b.node("Add", [z, y]))
                b.out(z)
            elif form == "both":
                z = ide(b.node("Neg", [x]))
                b.out(b.node("Mul", [z, z]))
            return b
        for form in ("inout", "inout2", "initout", "initout2", "constout", "twoouts", "outtwice", "split", "used", "chain", "both"):
            add("ident", op, form, lambda form=form, idm=idm: idm(form), ("id", "clean", "all"))

        def idsub(form, op=op):
            b = B(op)
            x = b.input(F32, (2,), "x")
            c = b.input(np.bool_, (), "c")
            y = b.node("Neg", [x])
            z = b.node("Identity", [y])
            t, e = B(op, "t_"), B(op, "e_")
            if form == "cap":
                t.out(t.node("Identity", [z]))
                e.out(e.node("Abs", [z]))
            elif form == "captured producer":
                t.out(t.node("Identity", [y]))
                e.out(e.node("Abs", [e.node("Identity", [y])]))
                b.out(z)
            elif form == "inner":
                t.out(t.node("Abs", [t.node("Identity", [t.node("Identity", [x])])]))
                k = e.node("Exp", [y])
                e.out(e.node("Identity", [k]))
            elif form == "const":
                k = t.const(np.array([1., 2.], F32))
                t.out(t.node("Identity", [k]))
                e.out(e.node("Identity", [x]))
            elif form == "nested":
                t2, e2 = B(op, "t2_"), B(op, "e2_")
                w = t.node("Identity", [z])
                t2.out(t2.node("Identity", [w]))
                e2.out(e2.node("Add", [e2.node("Identity", [w]), z]))
                t.out(t.node("If", [c], then_branch=t2.graph("t2"), else_branch=e2.graph("e2")))
                e.out(e.node("Sub", [z, y]))
            elif form == "shared":
                w = t.node("Abs", [z])
                t.out(t.node("Identity", [w]))
                t.out(t.node("Identity", [w]))
                e.out(e.node("Identity", [y]))
                e.out(e.node("Identity", [z]))
            o = b.node("If", [c], nout=len(t.outs), then_branch=t.graph("th"), else_branch=e.graph("el"))
            for v in ([o] if isinstance(o, str) else o):
                b.out(b.node("Identity", [v]))
            return b
        for form in ("cap", "captured producer", "inner", "const", "nested", "shared"):
            add("idsub", op, form, lambda form=form, idsub=idsub: idsub(form), ("id", "clean", "all"))

        # -------------------------------------------------------- duplicates
        def dup(form, op=op):
            b = B(op)
            x = b.input(F32, (2, 3), "x")
            if form == "attr":
                b.out(b.node("Neg", [b.transpose(x, (1, 0))]))
                b.out(b.node("Neg", [b.transpose(x, (0, 1))]))
            elif form == "leaky":
                b.out(b.node("Neg", [b.node("LeakyRelu", [x], alpha=.5)]))
                b.out(b.node("Neg", [b.node("LeakyRelu", [x], alpha=.25)]))
                b.out(b.node("Neg", [b.node("LeakyRelu", [x], alpha=.5)]))
            elif form == "default":
                b.out(b.node("Neg", [b.node("LeakyRelu", [x])]))
                b.out(b.node("Neg", [b.node("LeakyRelu", [x], alpha=.25)]))
            elif form == "order":
                y = b.input(F32, (2, 3), "y")
                b.out(b.node("Neg", [b.node("Sub", [x, y])]))
                b.out(b.node("Neg", [b.node("Sub", [y, x])]))
            elif form == "outs":
                y = b.node("Abs", [x])
                z = b.node("Abs", [x])
                b.out(y)
                b.out(z)
                b.out(b.node("Add", [y, z]))
            elif form == "outs2":
                y = b.node("Abs", [x])
                z = b.node("Abs", [x])
                w = b.node("Abs", [x])
                b.out(z)
                b.out(b.node("Sub", [y, b.node("Neg", [w])]))
            elif form == "split":
                s, t = b.split(x, 1, [1, 2]), b.split(x, 1, [2, 1])
                b.out(b.node("Neg", [s[0]]))
                b.out(b.node("Neg", [t[0]]))
                b.out(b.node("Neg", [s[1]]))
            elif form == "split2":
                s, t = b.split(x, 1, [1, 2]), b.split(x, 1, [1, 2])
                b.out(b.node("Neg", [s[0]]))
                b.out(b.node("Abs", [t[1]]))
                b.out(s[1])
            elif form == "split3":
                s, t = b.split(x, 1, [1, 2]), b.split(x, 1, [1, 2])
                b.out(s[0])
                b.out(t[1])
                b.out(b.node("Add", [t[0], s[1]]))
            elif form.startswith("rnn"):
                # optional outputs are left out by an empty name
                xx = b.unsqueeze(b.slice(x, [0], [2], [1]), [0])
                w, rr = b.const(np.array([[[1, -1], [.5, 2]]], F32)), b.const(np.array([[[1, 0], [0, 1]]], F32))
                u = {"rnn1": (["", "h1"], ["y2", "h2"]), "rnn2": (["y1", ""], ["", "h2"]), "rnn3": (["y1"], ["y2", "h2"]), "rnn4": (["", "h1"], ["y2"]), "rnn5": (["y1", "h1"], ["y2", "h2"])}[form]
                for o in u:
                    b.node("RNN", [xx, w, rr], outs=o, hidden_size=2)
                for o in u[0] + u[1]:
                    if o:
                        b.out(b.node("Neg", [o]))
            elif form.startswith("rand"):
                k = ["RandomUniform", "RandomNormal", "RandomUniformLike", "RandomNormalLike"][int(form[4])]
                mk = lambda: b.node(k, [x]) if k.endswith("Like") else b.node(k, [], shape=[2, 3])  # noqa
                u, v = mk(), mk()
                d = b.node("Sub", [u, v])
                b.out(b.node("Add", [x, b.node("Mul", [d, d])]))
                b.out(b.node("Max", [b.node("Abs", [u]), b.node("Abs", [v])]))
            return b
        for form in ("attr", "leaky", "default", "order", "outs", "outs2", "split", "split2", "split3", "rnn1", "rnn2", "rnn3", "rnn4", "rnn5"):
            add("dup", op, form, lambda form=form, dup=dup: dup(form), ("dup", "clean", "all"))
        for form in ("rand0", "rand1", "rand2", "rand3"):
            add("dup", op, form, lambda form=form, dup=dup: dup(form), ("dup", "clean", "all"))
            for j in js[-3:]:
                j.stat = True

        def dupc(form, how, op=op):
            b = B(op)
            x = b.input(F32, (2, 3), "x")
            mk = {"i": b.const, "n": b.constnode}
            pairs = {"same": (np.ones(3, F32), np.ones(3, F32)), "shape": (np.ones(3, F32), np.ones((1, 3), F32)), "val": (np.ones(3, F32), np.array([1, 1, 2], F32)),
                     "zero": (np.zeros(3, F32), -np.zeros(3, F32)), "shape2": (np.ones((2, 3), F32), np.ones((2, 3), F32)), "perm": (np.array([1, 2, 3], F32), np.array([3, 2, 1], F32)),
                     "empty": (np.zeros((0,), F32), np.zeros((0, 3), F32)), "type": (np.ones(3, F32), np.ones(3, np.float64)), "scalar": (np.array(2, F32), np.array([2], F32)),
                     "zfi": (np.zeros(3, F32), np.zeros(3, np.int32)), "zdl": (np.zeros(3, np.float64), np.zeros(3, I64)), "zub": (np.zeros(3, np.uint8), np.zeros(3, np.int8)),
                     "oub": (np.ones(3, np.int8), np.ones(3, np.uint8)), "zuf": (np.zeros(3, np.int32), np.zeros(3, np.uint32)),
                     "eil": (np.zeros(0, np.int32), np.zeros(0, I64)), "efd": (np.zeros(0, F32), np.zeros(0, np.float64))}[form]
            c1, c2 = mk[how[0]](pairs[0]), mk[how[1]](pairs[1])
            if form == "empty":
                b.out(b.node("Concat", [b.node("Reshape", [x, b.const(np.array([-1], I64))]), c1], axis=0))
                b.out(b.node("Concat", [x, c2], axis=0))
            elif form[1:] in ("fi", "dl", "ub", "uf", "il", "fd"):
                # the same bytes, other types
                for c, v in zip((c1, c2), pairs):
                    t = onnx.helper.np_dtype_to_tensor_dtype(v.dtype)
                    b.out(b.node("Concat", [b.node("Reshape", [b.node("Cast", [b.node("Abs", [x])], to=t), b.const(np.array([-1], I64))]), c], axis=0), v.dtype.type)
            elif form == "type":
                b.out(b.node("Add", [x, c1]))
                b.out(b.node("Mul", [b.node("Cast", [x], to=11), c2]), np.float64)
            else:
                b.out(b.node("Add", [x, c1]))
                b.out(b.node("Mul", [x, c2]))
                b.out(b.node("Sub", [c1, c2]))
                b.out(b.node("Shape", [c2]), I64)
            return b
        for form in ("same", "shape", "val", "zero", "shape2", "perm", "empty", "type", "scalar", "zfi", "zdl", "zub", "oub", "zuf", "eil", "efd"):
            for how in ("ii", "in", "nn"):
                add("dupc", op, form + how, lambda form=form, how=how, dupc=dupc: dupc(form, how), ("dup", "clean", "all"))

        def dupsub(form, op=op):
            b = B(op)
            x = b.input(F32, (2,), "x")
            c = b.input(np.bool_, (), "c")
            t, e = B(op, "t_"), B(op, "e_")
            y, z = b.node("Neg", [x]), b.node("Neg", [x])
            if form == "cap":
                t.out(t.node("Abs", [y]))
                e.out(e.node("Abs", [z]))
                b.out(b.node("Exp", [y]))
            elif form == "inner":
                t.out(t.node("Add", [t.node("Abs", [x]), t.node("Abs", [x])]))
                e.out(e.node("Sub", [e.node("Abs", [x]), z]))
            elif form == "outs":
                t.out(t.node("Abs", [x]))
                t.out(t.node("Abs", [x]))
                e.out(e.node("Abs", [y]))
                e.out(e.node("Exp", [z]))
            elif form == "twoifs":
                t.out(t.node("Abs", [y]))
                e.out(e.node("Exp", [z]))
                b.out(b.node("Neg", [b.node("If", [c], then_branch=t.graph("th"), else_branch=e.graph("el"))]))
                t, e = B(op, "t_"), B(op, "e_")
                t.out(t.node("Abs", [y]))
                e.out(e.node("Neg", [z]))
            elif form == "sameifs":
                t.out(t.node("Abs", [y]))
                e.out(e.node("Exp", [z]))
                b.out(b.node("Neg", [b.node("If", [c], then_branch=t.graph("th"), else_branch=e.graph("el"))]))
                t, e = B(op, "tt_"), B(op, "ee_")
                t.out(t.node("Abs", [y]))
                e.out(e.node("Exp", [z]))
            o = b.node("If", [c], nout=len(t.outs), then_branch=t.graph("th"), else_branch=e.graph("el"))
            for v in ([o] if isinstance(o, str) else o):
                b.out(b.node("Neg", [v]))
            return b
        for form in ("cap", "inner", "outs", "twoifs", "sameifs"):
            add("dupsub", op, form, lambda form=form, dupsub=dupsub: dupsub(form), ("dup", "clean", "all"))

        # -------------------------------------------------------- reshape with a computed shape
        def rs(sh, decl, prog, tail, op=op):
            b = B(op)
            x = b.input(F32, sh, "x", decl=decl)
            s = b.node("Shape", [x])
            dim = lambda i: b.slice(s, [i], [i + 1], [0])  # noqa
            parts = []
            for p in prog:
                if isinstance(p, int):
                    parts.append(b.const(np.array([p], I64)))
                elif p.startswith("d"):
                    parts.append(dim(int(p[1])))
                elif p.startswith("g"):
                    parts.append(b.unsqueeze(b.node("Gather", [s, b.const(np.array(int(p[1]), I64))], axis=0), [0]))
                elif p.startswith("m"):
                    parts.append(b.node("Mul", [dim(int(p[1])), dim(int(p[2]))]))
                elif p.startswith("x"):
                    parts.append(b.node("Mul", [dim(int(p[1])), b.const(np.array([int(p[2])], I64))]))
                elif p.startswith("v"):
                    parts.append(b.node("Div", [dim(int(p[1])), b.const(np.array([int(p[2])], I64))]))
                elif p.startswith("a"):
                    parts.append(b.node("Add", [dim(int(p[1])), b.const(np.array([int(p[2])], I64))]))
                elif p.startswith("c"):
                    parts.append(b.node("Cast", [b.node("Cast", [dim(int(p[1]))], to=6)], to=7))
                elif p.startswith("r"):
                    parts.append(b.reduce("ReduceProd", b.slice(s, [int(p[1])], [int(p[2])], [0]), [0], 1))
            y = b.node("Reshape", [x, b.node("Concat", parts, axis=0) if len(parts) > 1 else parts[0]])
            if tail == "out":
                b.out(y)
            elif tail == "both":
                b.out(y)
                b.out(b.node("Neg", [y]))
            elif tail == "two":
                b.out(b.node("Neg", [y]))
                b.out(b.node("Exp", [y]))
            else:
                b.out(b.node("Neg", [y]))
            return b
        P = [((2, 3), ("d0", "d1")), ((2, 3), ("d1", "d0")), ((2, 3), ("m01",)), ((2, 3), (1, "d0", "d1")), ((2, 3), ("d0", 1, "d1")), ((2, 3), (1, "d0", 1, "d1")), ((2, 3), ("d0", "d1", 1)), ((2, 3), (1, 1, "d0", "d1")),
             ((2, 3, 2), ("m01", "d2")), ((2, 3, 2), ("d0", "m12")), ((2, 3, 2), ("m12", "d0")), ((2, 3, 2), ("d1", "d2", "d0")), ((2, 3, 2), ("d0", "d1", -1)), ((2, 3, 2), ("d0", -1, "d1")), ((2, 3, 2), ("g0", "g2", "g1")),
             ((1, 2, 3), ("d1", "d2")), ((1, 2, 3), ("d2", "d1")), ((1, 2, 3), ("d1", "d2", "d0")), ((1, 1, 2, 3), ("d2", "d3")), ((2, 4), ("d0", "v12", 2)), ((2, 4), ("x02", "v12")), 
             ((6,), ("v02", 2)), ((6,), ("d0", 1)), ((6,), (1, "d0")), ((6,), ("d0",)), ((6,), ("v03", 3)), ((6,), (2, "v02")), ((3, 4), ("r02",)), ((2, 3, 2), ("r02", "d2")), ((2, 3, 2), ("d0", "r13")), ((2, 3, 2), (-1, "d2")),
             ((2, 3, 2), ("c0", "m12")), ((2, 2, 3), ("d2", "m01")), ((2, 2, 3), ("d2", "d1", "d0")), ((2, 1, 3), ("d0", "d2")), ((1, 3), ("d1",)), ((3, 1), ("d0",)), ((2, 3, 2, 1), ("d1", "d2", "d0")), ((1, 2, 3), ("d1", "d2", 1, 1)),
             ((1, 1, 3), ("d2",)), ((1, 1, 2, 2), ("d2", "d3", 1)), ((2, 3, 2), ("d0", 3, "d2")), ((2, 3, 2), (2, "d1", "d2")), ((2, 3, 2), ("d0", "d1", 2)), ((2, 6), ("d0", 2, 3)), ((2, 6), ("d0", 3, "v13"))]
        for sh, prog in P:
            for dn, decl in (("same", "same"), ("dyn", [None] * len(sh)), ("first", [None] + list(sh[1:])), ("last", list(sh[:-1]) + [None]), ("rank", None)):
                for tail in ("neg", "out", "two") if not q else (("neg", "out", "two")[(len(prog) + len(sh) + op) % 3],):
                    add("rs", op, "%s,%s,%s,%s" % (sh, prog, dn, tail), lambda sh=sh, prog=prog, decl=decl, tail=tail, rs=rs: rs(sh, decl, prog, tail), ("rs",) if q else ("rs", "all"))
        # a zero dimension
        for sh, prog in (((0, 3), ("d0", "d1")), ((2, 0), ("d0", "d1")), ((2, 0, 3), ("d0", "d1", "d2")), ((0, 3), ("d0", "d1", 1)), ((0,), ("d0",))):
            for dn, decl in (("dyn", [None] * len(sh)), ("first", [None] + list(sh[1:]))):
                add("rszero", op, "%s,%s,%s" % (sh, prog, dn), lambda sh=sh, prog=prog, decl=decl, rs=rs: rs(sh, decl, prog, "neg"), ("rs",))

        # the target comes from the shape of another tensor, or of a derived one
        def rs2(form, op=op):
            b = B(op)
            x = b.input(F32, (2, 3), "x", decl=[None, None])
            y = b.input(F32, (3, 2), "y", decl=[None, None])
            if form == "other":
                b.out(b.node("Neg", [b.node("Reshape", [x, b.node("Shape", [y])])]))
            elif form == "self":
                b.out(b.node("Neg", [b.node("Reshape", [x, b.node("Shape", [x])])]))
            elif form == "tr":
                b.out(b.node("Neg", [b.node("Reshape", [x, b.node("Shape", [b.transpose(x, (1, 0))])])]))
            elif form == "two":
                s = b.node("Shape", [x])
                t = b.node("Concat", [b.slice(s, [1], [2], [0]), b.slice(s, [0], [1], [0])], axis=0)
                b.out(b.node("Neg", [b.node("Reshape", [x, t])]))
                b.out(b.node("Exp", [b.node("Reshape", [y, t])]))
                b.out(t, I64)
            elif form == "mixed":
                t = b.node("Concat", [b.slice(b.node("Shape", [y]), [0], [1], [0]), b.slice(b.node("Shape", [x]), [0], [1], [0])], axis=0)
                b.out(b.node("Neg", [b.node("Reshape", [x, t])]))
            elif form == "run":
                t = b.input(I64, (2,), "t", lo=1, hi=6)
                b.out(b.node("Neg", [b.node("Reshape", [x, t])]))
            return b
        for form in ("other", "self", "tr", "two", "mixed", "run"):
            add("rs2", op, form, lambda form=form, rs2=rs2: rs2(form), ("rs", "clean"))

        # -------------------------------------------------------- loop: transposed scan outputs
        for perm in list(itertools.permutations(range(3)))[:: 1] + [(1, 0)]:
            for form in ("t", "ti", "shared", "stateout", "two", "used"):
                def lp(perm=perm, form=form, op=op):
                    b = B(op)
                    sh = (2, 1, 3)[:len(perm)] if len(perm) == 3 else (2, 3)
                    x = b.input(F32, sh, "x")
                    w = b.input(F32, sh, "w")

                    def states(sb, st, it):
                        return [sb.node("Add", [st[0], w])]

                    def scans(sb, st, it, so):
                        t = sb.transpose(sb.node("Neg", [so[0]]), perm)
                        if form == "t":
                            return [t]
                        if form == "ti":
                            return [sb.node("Identity", [t])]
                        if form == "shared":
                            i = sb.node("Identity", [t])
                            return [i, sb.node("Exp", [t])]
                        if form == "two":
                            return [t, sb.transpose(sb.node("Exp", [so[0]]), perm[::-1])]
                        if form == "used":
                            return [t, sb.node("Abs", [t])]
                        return [t, sb.node("Neg", [t])]
                    o = loopbody(b, op, sh, states, scans, init=[x], iters=2, cond="direct" if perm == (1, 0) else None)
                    for k, v in enumerate(o):
                        b.out(v if form == "stateout" and k else b.node("Abs", [v]))
                    return b
                add("loop", op, "%s,%s" % (perm, form), lp, ("loop", "all") if not q or perm in ((0, 2, 1), (2, 0, 1)) else ("clean", "loop"))
        for iters in (1, 3):
            def lp0(iters=iters, op=op):
                b = B(op)
                x = b.input(F32, (2, 3), "x")
                o = loopbody(b, op, (2, 3), lambda sb, st, it: [sb.node("Neg", [st[0]])], lambda sb, st, it, so: [sb.transpose(so[0], (1, 0)), sb.node("Identity", [sb.transpose(st[0], (1, 0))])], init=[x], iters=iters)
                for v in o:
                    b.out(v)
                b.out(b.node("Exp", [o[1]]))
                b.out(b.node("Exp", [b.node("Neg", [o[2]])]))
                return b
            add("loopn", op, iters, lp0, ("loop", "clean", "all"))

        def lpm(form, op=op):
            b = B(op)
            x = b.input(F32, (2, 3), "x")
            if form == "state":
                # a transposed loop state must stay inside
                o = loopbody(b, op, (2, 2), lambda sb, st, it: [sb.transpose(st[0], (1, 0))], lambda sb, st, it, so: [sb.node("Identity", [so[0]])], init=[b.slice(x, [0], [2], [1])], iters=3)
            elif form == "same":
                # the same tensor is scanned twice
                def sc(sb, st, it, so):
                    t = sb.transpose(st[0], (1, 0))
                    return [t, t]
                o = loopbody(b, op, (2, 3), lambda sb, st, it: [sb.node("Neg", [st[0]])], sc, init=[x], iters=2)
            elif form == "outer":
                y = b.node("Exp", [x])
                o = loopbody(b, op, (2, 3), lambda sb, st, it: [sb.node("Neg", [st[0]])], lambda sb, st, it, so: [sb.transpose(y, (1, 0))], init=[x], iters=2)
            elif form == "subuse":
                def sc(sb, st, it, so):
                    t = sb.transpose(st[0], (1, 0))
                    c = sb.node("Less", [it, sb.const(np.array(1, I64))])
                    th, el = B(op, "th_"), B(op, "el_")
                    th.out(th.node("Neg", [t]))
                    el.out(el.node("Exp", [t]))
                    return [t, sb.node("If", [c], then_branch=th.graph("th"), else_branch=el.graph("el"))]
                o = loopbody(b, op, (2, 3), lambda sb, st, it: [sb.node("Neg", [st[0]])], sc, init=[x], iters=2)
            elif form == "noperm":
                o = loopbody(b, op, (2, 3), lambda sb, st, it: [sb.node("Neg", [st[0]])], lambda sb, st, it, so: [sb.node("Transpose", [st[0]])], init=[x], iters=2)
            elif form == "int":
                def sc(sb, st, it, so):
                    return [sb.transpose(sb.node("Cast", [st[0]], to=1), (1, 0))]
                o = loopbody(b, op, (2, 3), lambda sb, st, it: [sb.node("Neg", [st[0]])], sc, init=[x], iters=2)
            elif form == "outin":
                # the graph output is the loop output itself and is used again
                o = loopbody(b, op, (2, 3), lambda sb, st, it: [sb.node("Neg", [st[0]])], lambda sb, st, it, so: [sb.transpose(sb.node("Exp", [st[0]]), (1, 0))], init=[x], iters=2)
                b.out(b.node("Abs", [o[1]]))
                b.out(o[1])
                o = o[:1]
            for v in o:
                b.out(b.node("Identity", [v]) if form != "outin" else v)
            return b
        for form in ("state", "same", "outer", "subuse", "noperm", "int", "outin"):
            add("loopm", op, form, lambda form=form, lpm=lpm: lpm(form), ("loop", "clean", "all"))

        # -------------------------------------------------------- global pooling
        for red in ("ReduceMean", "ReduceMax", "ReduceSum", "ReduceMin"):
            for sh in ((1, 2, 2, 3), (2, 1, 3), (1, 2, 2, 1, 2), (2, 3), (1, 2, 1, 1)):
                r = len(sh)
                for axes in sorted({tuple(range(2, r)), tuple(range(1, r)), tuple(range(r)), tuple(range(2, r))[::-1], tuple(i - r for i in range(2, r)), tuple(range(1, r - 1)), (r - 1,), (0, r - 1)}) + [None]:
                    for kd in (0, 1, None):
                        for tail in ("neg", "out"):
                            if axes and min(axes) < 0 and op < 11:
                                continue
                            if q and (len(axes or ()) + (kd or 0) + r + op + len(tail)) % 2:
                                continue
                            if axes == ():
                                continue

                            def gp(red=red, sh=sh, axes=axes, kd=kd, tail=tail, op=op):
                                b = B(op)
                                x = b.input(F32, sh, "x", decl="same" if op % 2 else [None] * len(sh))
                                y = b.axes_op(red, x, axes, 13 if red == "ReduceSum" else 18, keepdims=kd)
                                b.out(y if tail == "out" else b.node("Neg", [y]))
                                return b
                            add("gp", op, "%s,%s,%s,%s,%s" % (red, sh, axes, kd, tail), gp, ("gp",))
        for dt in (np.float64, np.int32, np.float16):
            def gpd(dt=dt, op=op):
                b = B(op)
                x = b.input(dt, (1, 2, 2, 2), "x")
                b.out(b.node("Neg", [b.reduce("ReduceMax", x, [2, 3], 1)]), dt)
                return b
            if dt != np.int32 or op >= 12:
                add("gpdt", op, np.dtype(dt).name, gpd, ("gp",))

        # -------------------------------------------------------- upsample
        if op <= 9:
            for sc in ((1., 1., 1., 1.), (1., 1., 2., 2.), (1., 1., 1., 2.), (2., 1., 1., 1.), (1., 1., 2., 1.)):
                for mode in ("nearest", "linear"):
                    for how in ("i", "n", "rt"):
                        def up(sc=sc, mode=mode, how=how, op=op):
                            b = B(op)
                            x = b.input(F32, (1, 2, 2, 2), "x")
                            v = np.array(sc, F32)
                            s = b.const(v) if how == "i" else b.constnode(v) if how == "n" else b.input(F32, (4,), "s", value=v)
                            b.out(b.node("Neg", [b.node("Upsample", [x, s], mode=mode)]))
                            b.out(b.node("Upsample", [b.node("Abs", [x]), s], mode=mode))
                            return b
                        add("up", op, "%s,%s,%s" % (sc, mode, how), up, ("up", "clean", "all"))
    return js


def run_job(job):
    return O.check_opt(job, xval=not getattr(job, "stat", False) and (int(tv.digest(job.key), 16) % 25 == 0))


def main(tier):
    rep = Report(PROP, tier, "translation_validation")
    outs, st = tv.run_jobs(jobs(tier), run_job)
    rep.add(outs, st)
    return finish(PROP, rep, outs,
                  "each program is run through the real clean-up pass (alone, together with the others, and in the whole pipeline); the model before and after are "
                  "executed symbolically and z3 decides equality of every output element for all tensor values; the interface must stay the same",
                  ["listed program families per pass plus pseudo-random programs of up to 9 steps with nested If/Loop bodies (their structure is enumerated by seed, their values are symbolic)",
                   "ranks 0-5, dims 0-6, opsets 9-18"],
                  ["float arithmetic is exact real arithmetic", "transcendental functions are uninterpreted (same function both sides)"],
                  ["tf2onnx.optimizer.identity_optimizer.IdentityOptimizer", "merge_duplicated_nodes_optimizer.MergeDuplicatedNodesOptimizer", "reshape_optimizer.ReshapeOptimizer",
                   "loop_optimizer.LoopOptimizer", "global_pool_optimizer.GlobalPoolOptimizer", "upsample_optimizer.UpsampleOptimizer", "symbolic_executor.SymbolicExecutor", "optimizer.optimize_graph"])
