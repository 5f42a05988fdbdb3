"""P02: merging adjacent operators (back_to_back_optimizer)."""
import itertools

import numpy as np
from onnx import TensorProto as TP, helper

from .. import env, fpcast
from .. import onnx_tv as O
from .. import tv
from ..onnx_tv import B, OptJob
from ..report import Report
from .p01 import finish, wt

PROP = "P02"
F32 = np.float32
ONLY = ["remove_back_to_back"]
NPT = {TP.FLOAT16: np.float16, TP.FLOAT: np.float32, TP.DOUBLE: np.float64, TP.INT8: np.int8, TP.INT16: np.int16, TP.INT32: np.int32,
       TP.INT64: np.int64, TP.UINT8: np.uint8, TP.UINT16: np.uint16, TP.UINT32: np.uint32, TP.UINT64: np.uint64, TP.BOOL: np.bool_}
SN = {k: np.dtype(v).name for k, v in NPT.items()}


class CJob:
    def __init__(self, key, build):
        self.key, self.build, self.cast = key, build, True


def castmodel(opset, src, edges, outs):
    """edges: list of (from index, type); node i+1 is the cast of node edges[i][0]; 0 is the input"""
    nodes, types = [], [src]
    for n, (f, t) in enumerate(edges):
        nodes.append(helper.make_node("Cast", ["v%d" % f], ["v%d" % (n + 1)], name="c%d" % (n + 1), to=t))
        types.append(t)
    g = helper.make_graph(nodes, "g", [helper.make_tensor_value_info("v0", src, [1])],
                          [helper.make_tensor_value_info("v%d" % o, types[o], [1]) for o in outs])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", opset)])
    m.ir_version = O.IR[opset]
    return m


def cast_jobs(tier):
    js = []

    def add(opset, src, edges, outs):
        key = "cast|op%d|%s|%s|out%s" % (opset, SN[src], ",".join("%d>%s" % (f, SN[t]) for f, t in edges), "".join(map(str, outs)))
        js.append(CJob(key, lambda: castmodel(opset, src, edges, outs)))
    types = [TP.FLOAT, TP.DOUBLE, TP.INT8, TP.INT16, TP.INT32, TP.INT64, TP.UINT8, TP.UINT16, TP.UINT32, TP.BOOL]
    if tier != "quick":
        types += [TP.UINT64]
    for opset in ((13,) if tier == "quick" else (9, 13, 18)):
        for s, a, b in itertools.product(types, repeat=3):
            add(opset, s, [(0, a), (1, b)], [2])
        half = [TP.FLOAT16, TP.FLOAT, TP.INT8, TP.UINT8, TP.BOOL]
        for s, a, b in itertools.product(half, repeat=3):
            if TP.FLOAT16 in (s, a, b):
                add(opset, s, [(0, a), (1, b)], [2])
        few = [TP.FLOAT, TP.DOUBLE, TP.INT32, TP.INT64, TP.BOOL, TP.UINT8]
        for s, a, b, c in itertools.product(few, repeat=4):
            if tier == "quick" and (s * 3 + a * 5 + b * 7 + c) % 3:
                continue
            add(opset, s, [(0, a), (1, b), (2, c)], [3])
        for s, a, b, c in itertools.product(few, repeat=4):
            if (s + 2 * a + 3 * b + 5 * c) % (6 if tier == "quick" else 2):
                continue
            add(opset, s, [(0, a), (1, b), (1, c)], [2, 3])       # fork
            add(opset, s, [(0, a), (1, b)], [1, 2])               # intermediate exposed
            add(opset, s, [(0, a), (1, b), (2, c), (1, c)], [3, 4])
            add(opset, s, [(0, a), (0, b), (1, c), (2, c)], [3, 4])
    return js


def jobs(tier):
    out = []
    q = tier == "quick"

    def add(key, build, optimizers=ONLY):
        out.append(OptJob(key, build, optimizers))
    ops = (9, 11, 13, 15, 18) if q else tuple(range(8, 19))
    for opset in ops:
        # -------------------------------------------------------------- transpose
        for r in (2, 3, 4):
            perms = list(itertools.permutations(range(r)))
            pairs = list(itertools.product(perms, perms))
            if q and opset not in (9, 18):
                pairs = pairs[:: 7]
            for p, s in pairs:
                if r == 4 and (hash((p, s)) % (11 if q else 3)):
                    continue
                sh = (2, 3, 4, 1)[:r]

                def tt(p=p, s=s, sh=sh, opset=opset, r=r):
                    b = B(opset)
                    x = b.input(F32, sh, "x", decl="same" if r != 3 else [None] * 3)
                    t = b.transpose(b.transpose(x, p), s)
                    b.out(b.node("Neg", [t]))
                    return b
                add("tt|op%d|%s|%s" % (opset, p, s), tt)
        P3 = list(itertools.permutations(range(3)))
        for k, (p, s, u) in enumerate(itertools.product(P3, repeat=3)):
            if k % (9 if q else 2):
                continue
            for form in ("chain", "fork", "forkout", "mid", "last", "same", "neg", "loop", "inout"):
                def tf(p=p, s=s, u=u, form=form, opset=opset):
                    b = B(opset)
                    x = b.input(F32, (2, 3, 4), "x")
                    t1 = b.transpose(x, p)
                    t2 = b.transpose(t1, s)
                    if form == "chain":
                        b.out(b.node("Neg", [b.transpose(t2, u)]))
                    elif form == "fork":
                        t3 = b.transpose(t1, u)
                        b.out(b.node("Neg", [t2]))
                        b.out(b.node("Exp", [t3]))
                    elif form == "forkout":
                        t3 = b.transpose(t1, u)
                        b.out(t2)
                        b.out(t3)
                    elif form == "mid":
                        b.out(t1)
                        b.out(b.transpose(t2, u))
                    elif form == "last":
                        b.out(t2)
                        b.out(b.transpose(t2, u))
                    elif form == "same":
                        b.out(t2)
                        b.out(b.node("Neg", [t2]))
                    elif form == "neg":
                        b.out(b.node("Neg", [t1]))
                        b.out(b.transpose(t2, u))
                    elif form == "loop":
                        t3 = b.transpose(t2, u)
                        b.out(b.node("Mul", [t3, t3]))
                        b.out(b.node("Neg", [t3]))
                    else:
                        t3 = b.transpose(t1, [list(p).index(i) for i in range(3)])
                        b.out(t3)
                        b.out(b.transpose(t3, u))
                    return b
                add("tform|op%d|%s|%s,%s,%s" % (opset, form, p, s, u), tf)

        # a transpose used inside a branch body
        def tsub(opset=opset):
            b = B(opset)
            x = b.input(F32, (2, 3), "x")
            c = b.input(np.bool_, (), "c")
            t1 = b.transpose(x, [1, 0])
            t2 = b.transpose(t1, [1, 0])
            th = O.B(opset, "th_")
            th.out(th.transpose(t1, [1, 0]))
            el = O.B(opset, "el_")
            el.out(el.node("Neg", [t2]))
            y = b.node("If", [c], then_branch=th.graph("th"), else_branch=el.graph("el"))
            b.out(b.node("Exp", [y]))
            return b
        add("tsub|op%d" % opset, tsub)

        def csub(opset=opset):
            b = B(opset)
            x = b.input(F32, (2, 3), "x")
            c = b.input(np.bool_, (), "c")
            t1 = b.node("Cast", [x], to=TP.DOUBLE)
            t2 = b.node("Cast", [t1], to=TP.FLOAT)
            th = O.B(opset, "th_")
            th.out(th.node("Cast", [t1], to=TP.FLOAT))
            el = O.B(opset, "el_")
            el.out(el.node("Neg", [t2]))
            y = b.node("If", [c], then_branch=th.graph("th"), else_branch=el.graph("el"))
            b.out(b.node("Exp", [y]))
            return b
        add("csub|op%d" % opset, csub)
        # -------------------------------------------------------------- squeeze / unsqueeze
        for sh, a1, a2 in (((1, 2, 1, 3), [0], [0]), ((1, 2, 1, 3), [0], [1]), ((1, 2, 1, 3), [0, 2], [0, 2]), ((1, 2, 1, 3), [2, 0], [0, 2]),
                           ((1, 2, 1, 3), [0, 2], [2, 0]), ((1, 2, 1, 3), [2], [-2]), ((1, 2, 1, 3), [-2], [-2]), ((1, 2, 1, 3), [-2], [2]),
                           ((1, 2, 1, 3), None, [0, 2]), ((1, 2, 1, 3), None, [0]), ((1, 2, 1, 3), None, [1]), ((1, 3), [0], [1]), ((2, 1), [1], [0]), ((2, 1), [-1], [-1]),
                           ((1, 2, 1), [-3], [-3]), ((1, 2, 1), [-1, 0], [-1, 0]), ((1, 2, 1), [-1, 0], [0, -1]), ((1, 1, 2), [0], [1]),
                           ((2, 1, 1), [-1], [-1]), ((1, 2, 3), [0], [2])):
            if opset < 11 and any(v < 0 for v in (a1 or []) + a2):
                continue
            for form in ("one", "two", "out", "mid", "fork", "share"):
                def sq(sh=sh, a1=a1, a2=a2, form=form, opset=opset):
                    b = B(opset)
                    x = b.input(F32, sh, "x")
                    if form == "share" and opset >= 13 and a1 is not None:
                        c = b.const(np.array(a1, np.int64))
                        s = b.node("Squeeze", [x, c])
                        u = b.node("Unsqueeze", [s, c if a1 == a2 else b.const(np.array(a2, np.int64))])
                    else:
                        s = b.squeeze(x, a1)
                        u = b.unsqueeze(s, a2)
                    if form == "out":
                        b.out(u)
                    elif form == "mid":
                        b.out(s)
                        b.out(b.node("Neg", [u]))
                    elif form == "fork":
                        b.out(b.node("Neg", [u]))
                        b.out(b.node("Exp", [b.unsqueeze(s, [0])]))
                    elif form == "two":
                        b.out(b.node("Mul", [u, u]))
                        b.out(b.node("Exp", [u]))
                    else:
                        b.out(b.node("Neg", [u]))
                    return b
                add("squ|op%d|%s|%s,%s,%s" % (opset, form, sh, a1, a2), sq)
        # -------------------------------------------------------------- conv + batch norm
        for grp, cin, cout, bias, eps, ap, oo in itertools.product((1, 2), (2,), (2, 4), (None, "c", "r"), (None, 0.25, 1e-3), ("n", "s"), (0, 1, 2, 3)):
            if oo and (ap == "s" or eps is None) or oo == 3 and eps != 0.25:
                continue
            if q and (grp + cout + oo + opset + len(str(eps))) % 2:
                continue

            def cb(grp=grp, cin=cin, cout=cout, bias=bias, eps=eps, ap=ap, oo=oo, opset=opset):
                b = B(opset)
                x = b.input(F32, (1, cin, 3, 2), "x")
                w = b.const(wt((cout, cin // grp, 2, 2)))
                ins = [x, w]
                if bias == "c":
                    ins.append(b.const(wt((cout,), 1)))
                elif bias == "r":
                    ins.append(b.input(F32, (cout,), "bias"))
                kw = dict(group=grp, kernel_shape=[2, 2])
                if ap == "s":
                    kw["auto_pad"] = "SAME_UPPER"
                y = b.node("Conv", ins, **kw)
                sc = b.const(np.array([1.5, -2, 0.5, 3], F32)[:cout])
                of = b.const(np.array([0.5, 1, -1, 2], F32)[:cout])
                mu = b.const(np.array([-0.5, 2, 1, 0.25], F32)[:cout])
                va = b.const(np.array([0.75, 3.75, 2, 0.5], F32)[:cout])
                n = b.node("BatchNormalization", [y, sc, of, mu, va], epsilon=eps)
                if oo == 1:
                    b.out(n)
                elif oo == 2:
                    b.out(b.node("Neg", [n]))
                    b.out(b.node("Exp", [y]))
                elif oo == 3:
                    b.out(b.node("Neg", [n]))
                    b.out(b.node("Neg", [b.node("Conv", [x, w], group=grp, kernel_shape=[2, 2])]))
                    b.out(b.node("Abs", [b.node("BatchNormalization", [n, sc, of, mu, va], epsilon=eps)]))
                else:
                    b.out(b.node("Neg", [n]))
                return b
            add("convbn|op%d|g%d,%d,%s,%s,%s,%d" % (opset, grp, cout, bias, eps, ap, oo), cb)
        for vn in ("rt_scale", "rt_w", "1d", "3d", "multi", "1x1", "constnode", "negvarscale"):
            def cb2(vn=vn, opset=opset):
                b = B(opset)
                nd = {"1d": 1, "3d": 3}.get(vn, 2)
                ks = (1,) * nd if vn == "1x1" else (2,) * nd
                x = b.input(F32, (1, 2) + (3, 2, 2)[:nd], "x")
                w = b.input(F32, (2, 2) + ks, "w") if vn == "rt_w" else (b.constnode if vn == "constnode" else b.const)(wt((2, 2) + ks))
                y = b.node("Conv", [x, w], kernel_shape=list(ks))
                sc = b.input(F32, (2,), "sc") if vn == "rt_scale" else b.const(np.array([1.5, -2], F32))
                ps = [b.const(np.array(v, F32)) for v in ([0.5, 1], [-0.5, 2], [0.75, 3.75])]
                n = b.node("BatchNormalization", [y, sc] + ps, epsilon=0.25)
                if vn == "multi":
                    m2 = b.node("BatchNormalization", [y, sc] + ps[::-1], epsilon=0.25)
                    b.out(b.node("Mul", [n, m2]))
                b.out(b.node("Neg", [n]))
                return b
            add("convbn2|op%d|%s" % (opset, vn), cb2)
        # -------------------------------------------------------------- reshape / reshape
        for sh, s1, s2 in (((2, 3, 4), [6, 4], [8, 3]), ((2, 3, 4), [6, 4], [-1]), ((2, 3, 4), [6, 4], [0, 2, 2]), ((2, 3, 4), [6, 4], [3, -1, 2]),
                           ((2, 3, 4), [4, 6], [0, -1]), ((2, 3, 4), [0, -1], [0, 3, 4]), ((2, 3, 4), [3, 2, 4], [0, 0, 4]), ((2, 3, 4), [2, 12], [0, 0]),
                           ((2, 3, 4), [2, 12], [0, 3, 4]), ((2, 3, 4), [0, 0, 2, 2], [0, 0, 0, 2]), ((2, 3, 4), [24], [0]), ((2, 3, 4), [24], [4, 6]),
                           ((2, 3, 4), [12, 2], [-1, 0]), ((2, 3, 4), [4, 3, 2], [-1, 0, 0])):
            for form in ("one", "out", "mid", "fork", "three", "shape", "sub", "dyn", "allowzero", "rtarget"):
                if form == "allowzero" and (opset < 14 or 0 in s2):
                    continue
                if form == "rtarget" and (0 not in s2 or len(s2) != 2):
                    continue

                def rr(sh=sh, s1=s1, s2=s2, form=form, opset=opset):
                    b = B(opset)
                    x = b.input(F32, sh, "x", decl=[None] * 3 if form == "dyn" else "same")
                    r1 = b.reshape(x, s1)
                    if form == "shape":
                        s = b.node("Shape", [r1])
                        r2 = b.node("Reshape", [b.reshape(r1, s2), s])
                    elif form == "rtarget":
                        # the target is a run-time tensor
                        t = b.input(np.int64, (2,), "t", lo=-1, hi=3)
                        r2 = b.node("Reshape", [r1, t])
                    elif form == "allowzero":
                        r2 = b.reshape(r1, s2, allowzero=1)
                    else:
                        r2 = b.reshape(r1, s2)
                    if form == "out":
                        b.out(r2)
                    elif form == "mid":
                        b.out(r1)
                        b.out(b.node("Neg", [r2]))
                    elif form == "fork":
                        b.out(b.node("Neg", [r1]))
                        b.out(b.node("Neg", [r2]))
                    elif form == "three":
                        b.out(b.node("Neg", [b.reshape(r2, [0, -1])]))
                    elif form == "sub":
                        c = b.input(np.bool_, (), "c")
                        th = O.B(opset, "th_")
                        th.out(th.node("Neg", [th.reshape(r1, s2)]))
                        el = O.B(opset, "el_")
                        el.out(el.node("Exp", [r2]))
                        b.out(b.node("If", [c], then_branch=th.graph("th"), else_branch=el.graph("el")))
                    else:
                        b.out(b.node("Neg", [r2]))
                    return b
                add("reshape2|op%d|%s|%s,%s" % (opset, form, s1, s2), rr)

        def rself(opset=opset):
            b = B(opset)
            x = b.input(np.int64, (2,), "x", lo=1, hi=3)
            r1 = b.reshape(x, [2, 1])
            r2 = b.reshape(r1, [-1])
            b.out(b.node("Neg", [b.node("Reshape", [b.reshape(r2, [2]), r2])]), np.int64)
            return b
        add("rself|op%d" % opset, rself)
    return cast_jobs(tier) + out


def run_job(job):
    if getattr(job, "cast", False):
        env.schedule(job.key)
        return fpcast.check(job.key, job.build(), ONLY)
    return O.check_opt(job, xval=(int(tv.digest(job.key), 16) % 25 == 0))


def main(tier):
    rep = Report(PROP, tier, "translation_validation")
    outs, st = tv.run_jobs(jobs(tier), run_job)
    rep.add(outs, st)
    return finish(PROP, rep, outs,
                  "each program is run through the real merge pass; the model before and after are executed symbolically and z3 decides equality "
                  "for all tensor values; cast chains are decided in exact IEEE-754 / bit-vector arithmetic",
                  ["cast chains of 2-3 over 12 element types, every single value", "transposes of rank 2-4, chains of 2-3", "opsets 8-18",
                   "reshape targets with 0 and -1", "conv weights up to 4x2x2x2"],
                  ["conversions of out-of-range floats to integers are undefined and outside",
                   "float arithmetic of conv/batch-norm folding is exact real arithmetic, compared within 2e-3 for inputs in +-8"],
                  ["tf2onnx.optimizer.back_to_back_optimizer.BackToBackOptimizer", "GraphUtil.optimize_model_proto", "Graph edit API"])
