"""P04 quantise/dequantise motion (q_dq_optimizer) and folding of dequantised constants (const_dequantize_optimizer)."""
import itertools
import random

import numpy as np
from onnx import TensorProto as TP, helper

from .. import onnx_tv as O
from .. import tv
from ..onnx_tv import B, OptJob, ot
from ..report import Report
from .p01 import finish

PROP = "P04"
F32, I32, I64, U8, I8, BL = np.float32, np.int32, np.int64, np.uint8, np.int8, np.bool_
PASSES = {"q": ["q_dq_optimizer"], "cd": ["const_dequantize_optimizer"], "qi": ["q_dq_optimizer", "merge_duplication", "remove_identity"], "cdi": ["const_dequantize_optimizer", "fold_constants", "remove_identity"],
          "all": None}


class P:
    """quantisation parameters: shared constants of one model"""

    def __init__(self, b, scale=.5, zp=3, dt=U8, axis="no", share=True):
        self.b, self.dt, self.axis = b, dt, axis
        self.scale, self.zp = scale, zp
        self.names = self.make(b) if share else None

    def make(self, b):
        r = [b.const(np.array(self.scale, F32))]
        if self.zp is not None:
            r.append(b.const(np.array(self.zp, self.dt)))
        return r

    def attrs(self):
        return {} if self.axis == "no" else {"axis": self.axis}

    def q(self, x, b=None, names=None):
        b = b or self.b
        return b.node("QuantizeLinear", [x] + (names or self.names or self.make(b)), **self.attrs())

    def dq(self, x, b=None, names=None):
        b = b or self.b
        return b.node("DequantizeLinear", [x] + (names or self.names or self.make(b)), **self.attrs())


def tops(op):
    """(name, input shape, fn(b, x) -> [outputs], output shapes): operators that move elements"""
    i64 = lambda b, v: b.const(np.array(v, I64))  # noqa
    L = [
        ("Identity", (2, 3), lambda b, x: [b.node("Identity", [x])]),
        ("Reshape", (2, 3), lambda b, x: [b.reshape(x, [3, 2])]),
        ("ReshapeN", (2, 3), lambda b, x: [b.reshape(x, [1, -1])]),
        ("Flatten", (1, 2, 3), lambda b, x: [b.node("Flatten", [x], axis=2)]),
        ("Expand", (1, 3), lambda b, x: [b.node("Expand", [x, i64(b, [2, 2, 3])])]),
        ("Transpose", (1, 2, 3), lambda b, x: [b.transpose(x, [2, 0, 1])]),
        ("Transpose2", (2, 3), lambda b, x: [b.transpose(x, [1, 0])]),
        ("Squeeze", (1, 3, 2), lambda b, x: [b.squeeze(x, [0])]),
        ("Unsqueeze", (2, 3), lambda b, x: [b.unsqueeze(x, [0])]),
        ("Slice", (3, 3), lambda b, x: [b.slice(x, [1], [3], [1])]),
        ("Gather", (3, 2), lambda b, x: [b.node("Gather", [x, i64(b, [[2, 0], [1, 1]])], axis=0)]),
        ("Gather1", (2, 3), lambda b, x: [b.node("Gather", [x, i64(b, 1)], axis=1)]),
        ("Split", (2, 3), lambda b, x: list(b.split(x, 1, [1, 2]))),
        ("Tile", (2, 2), lambda b, x: [b.node("Tile", [x, i64(b, [1, 2])])]),
        ("Compress", (3, 2), lambda b, x: [b.node("Compress", [x, b.const(np.array([True, False, True]))], axis=0)]),
        ("ReverseSequence", (3, 2), lambda b, x: [b.node("ReverseSequence", [x, i64(b, [2, 3])], batch_axis=1, time_axis=0)]),
        ("DepthToSpace", (1, 4, 1, 2), lambda b, x: [b.node("DepthToSpace", [x], blocksize=2)]),
    ]
    if op >= 11:
        L += [("GatherND", (2, 3), lambda b, x: [b.node("GatherND", [x, i64(b, [[1, 2], [0, 0]])])]),
              ("GatherElements", (2, 3), lambda b, x: [b.node("GatherElements", [x, i64(b, [[2, 0], [1, 1]])], axis=1)])]
    return L


def tops2(op):
    """operators of two data inputs"""
    i64 = lambda b, v: b.const(np.array(v, I64))  # noqa
    L = [("Concat", (2, 3), (1, 3), lambda b, x, y: [b.node("Concat", [x, y], axis=0)]),
         ("Concat1", (2, 2), (2, 1), lambda b, x, y: [b.node("Concat", [x, y], axis=1)]),
         ("Concat3", (2, 2), (2, 1), lambda b, x, y: [b.node("Concat", [x, y, x], axis=1)])]
    if op >= 11:
        L += [("ScatterElements", (3, 2), (1, 2), lambda b, x, y: [b.node("ScatterElements", [x, i64(b, [[2, 0]]), y], axis=0)]),
              ("ScatterND", (3, 2), (2, 2), lambda b, x, y: [b.node("ScatterND", [x, i64(b, [[2], [0]]), y])])]
    else:
        L += [("Scatter", (3, 2), (1, 2), lambda b, x, y: [b.node("Scatter", [x, i64(b, [[2, 0]]), y], axis=0)])]
    if op >= 16:
        for red in ("add", "mul"):
            L += [("ScatterElements_" + red, (3, 2), (1, 2), lambda b, x, y, red=red: [b.node("ScatterElements", [x, i64(b, [[2, 0]]), y], axis=0, reduction=red)]),
                  ("ScatterND_" + red, (3, 2), (2, 2), lambda b, x, y, red=red: [b.node("ScatterND", [x, i64(b, [[2], [0]]), y], reduction=red)])]
    if op >= 18:
        for red in ("max", "min"):
            L += [("ScatterElements_" + red, (3, 2), (1, 2), lambda b, x, y, red=red: [b.node("ScatterElements", [x, i64(b, [[2, 0]]), y], axis=0, reduction=red)])]
    return L


def rprog(op, seed):
    rnd = random.Random(seed * 131 + 5)
    b = B(op)
    dt = rnd.choice([U8, I8])
    ps = [P(b, .5, 3, dt), P(b, .25, 3, dt)]
    if op >= 13:
        ps.append(P(b, [.5, .25, 2.], [1, 2, 3], dt, axis=rnd.choice([0, 1, "no", -1])))
    w = [6, 1, 2][:len(ps)]
    x = b.input(F32, (2, 3), "x", flo=-100, fhi=100)
    k = b.input(dt, (2, 3), "k", **(dict(lo=0, hi=255) if dt == U8 else dict(lo=-128, hi=127)))
    vals = [(x, (2, 3), F32), (k, (2, 3), dt)]
    if rnd.random() < .5:
        vals.append((b.symconst(dt, (3, 2), **(dict(lo=0, hi=255) if dt == U8 else dict(lo=-128, hi=127))), (3, 2), dt))

    def ok(p, s):
        if p.axis == "no" and np.ndim(p.scale) == 0:
            return True
        a = 1 if p.axis == "no" else p.axis
        return -len(s) <= a < len(s) and s[a] == 3
    for _ in range(9):
        n, s, d = rnd.choice(vals[-4:] if rnd.random() < .7 else vals)
        c = rnd.choice(["q", "q", "t", "t", "t", "t", "cat", "un"])
        if c == "q":
            p = rnd.choices(ps, w)[0]
            if not ok(p, s):
                continue
            vals.append((p.q(n) if d == F32 else p.dq(n), s, dt if d == F32 else F32))
        elif c == "t":
            t = rnd.choice(["Transpose", "Reshape", "Squeeze", "Unsqueeze", "Slice", "Gather", "Split", "Identity", "Tile"])
            if t == "Transpose" and len(s) > 1:
                pm = rnd.sample(range(len(s)), len(s))
                vals.append((b.transpose(n, pm), tuple(s[i] for i in pm), d))
            elif t == "Reshape":
                tot = int(np.prod(s))
                r = rnd.choice({6: [(2, 3), (3, 2), (6,), (1, 3, 2)], 3: [(3,), (3, 1), (1, 3)], 12: [(3, 4), (4, 3)]}.get(tot, [(tot,)]))
                vals.append((b.reshape(n, r), r, d))
            elif t == "Squeeze" and 1 in s:
                a = s.index(1)
                vals.append((b.squeeze(n, [a]), s[:a] + s[a + 1:], d))
            elif t == "Unsqueeze" and len(s) < 4:
                a = rnd.randrange(len(s) + 1)
                vals.append((b.unsqueeze(n, [a]), s[:a] + (1,) + s[a:], d))
            elif t == "Slice" and s and s[0] > 1:
                vals.append((b.slice(n, [1], [9], [0]), (s[0] - 1,) + s[1:], d))
            elif t == "Gather" and s:
                vals.append((b.node("Gather", [n, b.const(np.array([0, s[0] - 1, 0], I64))], axis=0), (3,) + s[1:], d))
            elif t == "Split" and s and s[-1] > 1:
                o = b.split(n, len(s) - 1, [1, s[-1] - 1])
                vals += [(o[0], s[:-1] + (1,), d), (o[1], s[:-1] + (s[-1] - 1,), d)]
            elif t == "Identity":
                vals.append((b.node("Identity", [n]), s, d))
            elif t == "Tile" and int(np.prod(s)) < 7:
                vals.append((b.node("Tile", [n, b.const(np.array([1] * (len(s) - 1) + [2], I64))]), s[:-1] + (2 * s[-1],), d) if s else (n, s, d))
        elif c == "cat" and s:
            m = [v for v in vals if v[2] == d and len(v[1]) == len(s) and v[1][1:] == s[1:]]
            y = rnd.choice(m)
            if s[0] + y[1][0] < 6:
                vals.append((b.node("Concat", [n, y[0]], axis=0), (s[0] + y[1][0],) + s[1:], d))
        elif c == "un" and d == F32:
            vals.append((b.node(rnd.choice(["Neg", "Relu"]), [n]), s, d))
    made = [v for v in vals if v[0] not in [i.name for i in b.ins] and v[0] not in [i.name for i in b.inits]]
    if not made:
        made = [(b.node("Neg", [x]), (2, 3), F32)]
    seen = []
    for v in made[-2:] + rnd.sample(made, min(2, len(made))):
        if v[0] not in seen:
            seen.append(v[0])
            b.out(v[0], v[2])
    return b


def jobs(tier):
    q = tier == "quick"
    js = []
    ops = (10, 13, 18) if q else tuple(range(10, 19))

    def add(fam, op, par, build, passes):
        for p in passes:
            js.append(OptJob("%s|op%d|%s|%s" % (fam, op, p, par), build, PASSES[p]))

    qr = {U8: dict(lo=0, hi=255), I8: dict(lo=-128, hi=127)}
    for op in ops:
        n = 0
        # ------------------------------------------------ one moving operator
        for nm, sh, fn in tops(op):
            params = [(.5, 3, U8, "no"), (.25, -7, I8, "no"), (.5, None, U8, "no"), (.5, None, I8, "no")]
            if op >= 13:
                params += [(.5, 3, U8, 0), (.5, 3, U8, 1)]
                params += [(sc, zp, U8, ax) for ax in ("no", 0, 1, -1) for sc, zp in [(None, None)]]
            for sc, zp, dt, ax in params:
                if sc is None:
                    d = sh[1 if ax == "no" else ax] if len(sh) > 1 else 0
                    if d < 2 and ax != 1:
                        continue
                    sc, zp = [.5, .25, 2., 4.][:d], [1, 2, 3, 4][:d]
                    outs_ok = ["raw"]
                else:
                    outs_ok = ["raw", "q", "q2", "qdiff", "qraw", "out"]
                for form in outs_ok:
                    n += 1
                    if q and n % 2 and form in ("q2", "out") or q and op == 10 and n % 3:
                        continue

                    def dqop(sh=sh, fn=fn, sc=sc, zp=zp, dt=dt, ax=ax, form=form, op=op):
                        b = B(op)
                        p = P(b, sc, zp, dt, ax)
                        qdt = dt if zp is not None else U8
                        k = b.input(dt, sh, "k", **qr[dt])
                        o = fn(b, p.dq(k))
                        for v in o:
                            if form == "raw":
                                b.out(b.node("Neg", [v]))
                            elif form == "q":
                                b.out(b.node("Identity", [p.q(v)]), qdt)
                            elif form == "q2":
                                b.out(p.q(v), qdt)
                                b.out(p.dq(p.q(v)) if qdt == dt else b.node("Neg", [v]))
                            elif form == "qdiff":
                                b.out(P(b, 2., 1, dt).q(v), dt)
                            elif form == "qraw":
                                b.out(p.q(v), qdt)
                                b.out(b.node("Neg", [v]))
                            else:
                                b.out(v)
                        return b
                    add("dqop", op, "%s,%s,%s,%s,%s,%s" % (nm, sc, zp, np.dtype(dt).name, ax, form), dqop, ("q", "all") if form in ("raw", "q") and n % 3 == 0 else ("q",))

                    def opq(sh=sh, fn=fn, sc=sc, zp=zp, dt=dt, ax=ax, form=form, op=op):
                        b = B(op)
                        qdt = dt if zp is not None else U8
                        p = P(b, sc, zp, qdt, ax)
                        x = b.input(F32, sh, "x", flo=-100, fhi=100)
                        o = fn(b, b.node("Neg", [x]))
                        shp = None
                        for v in o:
                            if np.ndim(sc) and form == "raw":
                                # only valid where the dimension survives: quantise and let the evaluator decide
                                b.out(b.node("Cast", [p.q(v)], to=TP.INT32), I32)
                                continue
                            if form in ("raw", "q"):
                                b.out(b.node("Cast", [p.q(v)], to=TP.INT32), I32)
                            elif form == "q2":
                                b.out(b.node("Cast", [p.q(v)], to=TP.INT32), I32)
                                b.out(p.dq(p.q(v)))
                            elif form == "qdiff":
                                b.out(b.node("Cast", [p.q(v)], to=TP.INT32), I32)
                                b.out(b.node("Cast", [P(b, 2., 1, dt).q(v)], to=TP.INT32), I32)
                            elif form == "qraw":
                                b.out(b.node("Cast", [p.q(v)], to=TP.INT32), I32)
                                b.out(b.node("Neg", [v]))
                            else:
                                b.out(p.q(v), qdt)
                        return b
                    add("opq", op, "%s,%s,%s,%s,%s,%s" % (nm, sc, zp, np.dtype(dt).name, ax, form), opq, ("q", "all") if form in ("raw", "q") and n % 3 == 0 else ("q",))
        # ------------------------------------------------ two data inputs
        for (nm, s1, s2, fn), (dt, zp) in itertools.product(tops2(op), ((U8, 3), (I8, -3), (U8, None))):
            for form in ("dq", "dqdiff", "dqone", "dqq", "q", "qout", "dqconst"):
                def two(s1=s1, s2=s2, fn=fn, dt=dt, zp=zp, form=form, op=op):
                    b = B(op)
                    p = P(b, .5, zp, dt)
                    if form in ("q", "qout"):
                        x, y = b.input(F32, s1, "x", flo=-100, fhi=100), b.input(F32, s2, "y", flo=-100, fhi=100)
                        for v in fn(b, x, y):
                            b.out(p.q(v) if form == "qout" else p.dq(p.q(v)), dt if form == "qout" else F32)
                        return b
                    x = p.dq(b.input(dt, s1, "x", **qr[dt]))
                    k = b.symconst(dt, s2, **qr[dt]) if form == "dqconst" else b.input(dt, s2, "y", **qr[dt])
                    y = P(b, .25, zp, dt).dq(k) if form == "dqdiff" else p.dq(k) if form != "dqone" else b.node("Cast", [k], to=1)
                    for v in fn(b, x, y):
                        if form == "dqq":
                            b.out(b.node("Cast", [p.q(v)], to=TP.INT32), I32)
                        else:
                            b.out(b.node("Neg", [v]))
                    return b
                add("two", op, "%s,%s,%s,%s" % (nm, np.dtype(dt).name, zp, form), two, ("q", "all") if form in ("dq", "dqq", "q") else ("q",))
        # ------------------------------------------------ dequantise then quantise
        for dt, zp1, zp2, s1, s2 in [(U8, 3, 3, .5, .5), (I8, -3, -3, .5, .5), (U8, 3, 4, .5, .5), (U8, 3, 3, .5, .25), (U8, None, None, .5, .5), (I8, None, None, .5, .5), (I8, None, 0, .5, .5),
                                     (U8, None, 0, .5, .5), (U8, 0, None, .5, .5), (I8, 0, None, .5, .5)]:
            for form in ("plain", "shared", "qout", "dqout", "twice", "sub", "unshared"):
                def dqq(dt=dt, zp1=zp1, zp2=zp2, s1=s1, s2=s2, form=form, op=op):
                    b = B(op)
                    p = P(b, s1, zp1, dt)
                    same = (zp1, s1) == (zp2, s2) and form != "unshared"
                    p2 = p if same else P(b, s2, zp2, dt)
                    k = b.input(dt, (2, 3), "k", **qr[dt])
                    o = dt if zp2 is not None else U8
                    d = p.dq(k)
                    r = p2.q(d)
                    if form == "qout":
                        b.out(r, o)
                    else:
                        b.out(b.node("Cast", [r], to=TP.INT32), I32)
                    if form == "shared":
                        b.out(b.node("Neg", [d]))
                        b.out(P(b, s2, zp2, o).dq(r))
                    if form == "dqout":
                        b.out(d)
                    if form == "twice":
                        e = p2.dq(r) if o == dt or zp2 is None else p.dq(k)
                        b.out(b.node("Cast", [p2.q(b.node("Identity", [e]))], to=TP.INT32), I32)
                    if form == "sub":
                        f = b.input(BL, (), "flag")
                        tb, eb = B(op, "t_"), B(op, "e_")
                        tb.out(tb.node("Cast", [p2.q(d, tb)], to=TP.INT32), I32)
                        eb.out(eb.node("Cast", [r], to=TP.INT32), I32)
                        b.out(b.node("If", [f], then_branch=tb.graph("t"), else_branch=eb.graph("e")), I32)
                    return b
                add("dqq", op, "%s,%s,%s,%s,%s,%s" % (np.dtype(dt).name, zp1, zp2, s1, s2, form), dqq, ("q", "qi", "all"))
        if op >= 13:
            for ax, ax2 in itertools.product((0, 1, -1, "no"), repeat=2):
                def dqqa(ax=ax, ax2=ax2, op=op):
                    b = B(op)
                    p = P(b, [.5, .25, 2.], [1, 2, 3], U8, axis=ax)
                    p2 = P(b, [.5, .25, 2.], [1, 2, 3], U8, axis=ax2, share=False)
                    p2.names = p.names
                    k = b.input(U8, (3, 3), "k", lo=0, hi=255)
                    b.out(b.node("Cast", [p2.q(p.dq(k))], to=TP.INT32), I32)
                    return b
                add("dqqa", op, "%s,%s" % (ax, ax2), dqqa, ("q", "all"))
        # ------------------------------------------------ nested graphs

        def sub(form, op=op):
            b = B(op)
            p = P(b, .5, 3, U8)
            f = b.input(BL, (), "flag")
            k = b.input(U8, (2, 3), "k", lo=0, hi=255)
            x = b.input(F32, (2, 3), "x", flo=-100, fhi=100)
            tb, eb = B(op, "t_"), B(op, "e_")
            for sb in (tb, eb):
                sb.cspecs = b.cspecs
            if form == "dqouter":
                # dequantised outside, moved inside
                d = p.dq(k)
                tb.out(tb.node("Neg", [tb.transpose(d, [1, 0])]))
                eb.out(eb.transpose(d, [1, 0]))
            elif form == "dqboth":
                d = p.dq(k)
                b.out(b.node("Neg", [b.transpose(d, [1, 0])]))
                tb.out(tb.node("Neg", [tb.reshape(d, [3, 2])]))
                eb.out(eb.node("Relu", [eb.transpose(d, [1, 0])]))
            elif form == "qinner":
                # moved outside, quantised inside
                t = b.transpose(x, [1, 0])
                tb.out(tb.node("Cast", [p.q(t, tb)], to=1))
                eb.out(p.dq(p.q(t, eb), eb))
            elif form == "qinnerout":
                t = b.transpose(x, [1, 0])
                tb.out(p.q(t, tb), U8)
                eb.out(p.q(t, eb), U8)
                b.out(b.node("If", [f], then_branch=tb.graph("t"), else_branch=eb.graph("e")), U8)
                return b
            elif form == "qmixed":
                t = b.transpose(x, [1, 0])
                b.out(b.node("Cast", [p.q(t)], to=1))
                tb.out(tb.node("Cast", [p.q(t, tb)], to=1))
                eb.out(eb.node("Neg", [t]))
            elif form == "qmixed2":
                t = b.transpose(x, [1, 0])
                b.out(b.node("Cast", [p.q(t)], to=1))
                tb.out(tb.node("Cast", [p.q(t, tb)], to=1))
                eb.out(eb.node("Neg", [eb.transpose(x, [1, 0])]))
            elif form == "inside":
                d = p.dq(k)
                tb.out(tb.node("Neg", [tb.transpose(p.dq(k, tb), [1, 0])]))
                u = eb.transpose(x, [1, 0])
                eb.out(p.dq(p.q(u, eb), eb))
            elif form == "insideout":
                # the moved or dequantised value is the output of the branch
                tb.out(tb.transpose(p.dq(k, tb), [1, 0]))
                eb.out(p.dq(p.q(eb.transpose(x, [1, 0]), eb), eb))
            elif form == "insideout2":
                tb.out(p.q(tb.transpose(p.dq(k, tb), [1, 0]), tb), U8)
                eb.out(p.q(eb.transpose(x, [1, 0]), eb), U8)
                b.out(b.node("If", [f], then_branch=tb.graph("t"), else_branch=eb.graph("e")), U8)
                return b
            elif form == "remove":
                d = p.dq(k)
                tb.out(tb.node("Cast", [p.q(d, tb)], to=1))
                eb.out(eb.node("Neg", [d]))
            elif form == "removeout":
                d = p.dq(k)
                tb.out(p.q(d, tb), U8)
                eb.out(p.q(p.dq(k, eb), eb), U8)
                b.out(b.node("If", [f], then_branch=tb.graph("t"), else_branch=eb.graph("e")), U8)
                return b
            elif form in ("cd", "cdshared", "cdboth"):
                c = b.symconst(U8, (2, 3), lo=0, hi=255)
                d = p.dq(c)
                tb.out(tb.node("Neg", [tb.transpose(d, [1, 0])]))
                eb.out(eb.node("Relu", [eb.transpose(d, [1, 0])]) if form == "cdboth" else eb.node("Neg", [eb.transpose(x, [1, 0])]))
                if form == "cdshared":
                    b.out(b.node("Neg", [d]))
            elif form in ("cdcat", "cdin"):
                c = b.symconst(U8, (2, 3), lo=0, hi=255) if form == "cdcat" else None
                d = p.dq(c if c else tb.symconst(U8, (2, 3), lo=0, hi=255), tb)
                tb.out(tb.node("Neg", [tb.transpose(d, [1, 0])]))
                eb.out(eb.node("Neg", [eb.transpose(p.dq(c, eb) if c else x, [1, 0])]))
                if c:
                    b.out(b.node("Cast", [c], to=1))
            b.out(b.node("If", [f], then_branch=tb.graph("t"), else_branch=eb.graph("e")))
            return b
        for form in ("dqouter", "dqboth", "qinner", "qinnerout", "qmixed", "qmixed2", "inside", "insideout", "insideout2", "remove", "removeout", "cd", "cdshared", "cdboth", "cdcat", "cdin"):
            add("sub", op, form, lambda form=form, sub=sub: sub(form), ("q", "cd", "cdi", "qi", "all"))
        # ------------------------------------------------ constants
        for sh in ((2, 3), (3,), (2, 3, 4), (1, 3, 1, 2), (3, 1), (2, 2)):
            mv = [("T", p) for p in list(itertools.permutations(range(len(sh))))[:8]] + [("T", None)]
            tot = int(np.prod(sh))
            mv += [("R", t) for t in [(tot,), (1, tot), (tot, 1), (-1,), (-1, sh[-1]), (sh[0], -1), (0, -1), sh, sh + (1,), (1,) + sh, sh[:1] + (1,) + sh[1:], sh[::-1]] + ([(3, 2), (1, 3, 2), (3, 1, 2), (1, 2, 3)] if tot == 6 else []) +
                   ([(4, 6), (6, 4), (2, 12), (2, 3, 2, 2), (2, 4, 3), (8, 3)] if tot == 24 else []) if len([d for d in t if d == -1]) < 2]
            mv += [("U", a) for a in [(0,), (len(sh),), (1,), (0, 1), (0, len(sh) + 1), (1, 0)] + ([(-1,), (-2,), (-1, 0), (-len(sh) - 1,)] if op >= 11 else [])]
            axes = [None] + (list(range(len(sh))) + [-1] + (["no"] if len(sh) > 1 else []) if op >= 13 else [])
            for (k, par), ax in itertools.product(mv, axes):
                n += 1
                if q and len(sh) > 2 and n % 2:
                    continue
                form = ("one", "shareconst", "chain", "sharedq", "out", "dqout")[n % 6]

                def cd(sh=sh, k=k, par=par, ax=ax, form=form, op=op):
                    b = B(op)
                    dt = (U8, I8)[len(sh) % 2]
                    if ax is None:
                        p = P(b, .5, 3, dt)
                    else:
                        d = sh[1 if ax == "no" else ax]
                        p = P(b, [.5, .25, 2., 4.][:d], [1, 2, 3, 4][:d], dt, axis=ax)
                    c = b.symconst(dt, sh, **qr[dt])
                    x = b.input(F32, (), "x")
                    d = p.dq(c)

                    def mvit(v):
                        return b.node("Transpose", [v], **({} if par is None else {"perm": list(par)})) if k == "T" else b.reshape(v, par) if k == "R" else b.unsqueeze(v, list(par))
                    v = mvit(d)
                    if form == "out":
                        b.out(v)
                    if form == "chain":
                        v = b.reshape(b.unsqueeze(v, [0]), [-1])
                    b.out(b.node("Add", [v, x]))
                    if form == "shareconst":
                        b.out(b.node("Add", [P(b, .25, 1, dt).dq(c), x]))
                        b.out(b.node("Cast", [c], to=TP.INT32), I32)
                    elif form == "sharedq":
                        b.out(b.node("Sub", [x, d]))
                    elif form == "dqout":
                        b.out(d)
                    return b
                add("cd", op, "%s,%s%s,%s,%s" % (sh, k, par, ax, form), cd, ("cd", "cdi") if form in ("out", "dqout") else ("cd", "all") if n % 4 == 0 else ("cd",))
    for seed in range(400 if q else 5000):
        op = ops[seed % len(ops)]
        add("rand", op, seed, lambda seed=seed, op=op: rprog(op, seed), (("q", "qi", "all", "cdi")[seed % 4],))
    return js


def run_job(job):
    return O.check_opt(job, xval=(int(tv.digest(job.key), 16) % 25 == 0))


def main(tier):
    rep = Report(PROP, tier, "translation_validation")
    js = jobs(tier)
    outs, st = tv.run_jobs(js, run_job)
    # a per-channel quantisation whose dimension the operator removes is no valid model
    outs = [o for o in outs if o.status != "vacuous"]
    rep.add(outs, st)
    return finish(PROP, rep, outs,
                  "models with quantise/dequantise pairs around element-moving operators go through the real passes; quantised constants are arrays of solver variables; z3 decides that "
                  "the models before and after agree for every quantised and float value",
                  ["tensors up to rank 4, dims <= 4; quantised values: the full 8-bit range, floats in +-100; scales powers of two, per tensor and per channel", "opsets %s" % ("10, 13, 18" if tier == "quick" else "10-18"),
                   "random programs of 9 steps"],
                  ["float arithmetic is exact; scales are powers of two, so that dequantising is exact in float32 too"],
                  ["tf2onnx.optimizer.q_dq_optimizer.QDQOptimizer", "tf2onnx.optimizer.const_dequantize_optimizer.ConstDequantizeOptimizer", "tf2onnx.optimizer.const_fold_optimizer (through it)"])
