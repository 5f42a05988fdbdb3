"""Deterministic pseudo-random ONNX programs (bounded): the shape of the program is enumerated by seed, the values stay symbolic."""
import random

import numpy as np

from .onnx_tv import B

F32, I64 = np.float32, np.int64


class Gen:
    """values: name -> (shape, dtype); all float programs stay polynomial / piecewise linear so that equality is decidable"""

    def __init__(self, seed, opset, size=9, ctrl=True, ident=3, consts=True, dup=2, shapes=True):
        self.r = random.Random(seed * 7919 + 17)
        self.opset, self.size = opset, size
        self.ctrl, self.ident, self.consts, self.dup, self.shapes = ctrl, ident, consts, dup, shapes
        self.nsub = 0

    def pick(self, vals, cond=lambda s, d: True):
        c = [v for v in vals if cond(v[1], v[2])]
        return self.r.choice(c[-6:] if self.r.random() < .6 else c) if c else None

    def step(self, b, vals, depth):
        r = self.r
        k = r.choices(["ident", "un", "bin", "const", "transpose", "reshape", "split", "concat", "dup", "dynshape", "if", "loop", "squeeze", "cast", "reduce", "slice"],
                      [self.ident, 3, 4, 2 if self.consts else 0, 2, 2, 2, 2, self.dup, 2 if self.shapes else 0, 1.3 if self.ctrl and depth < 2 else 0,
                       .8 if self.ctrl and depth < 1 else 0, 1.5, 1.5, 1, 1])[0]
        fl = lambda s, d: d == F32  # noqa
        x = self.pick(vals, fl)
        n, s, _ = x
        if k == "ident":
            return [(b.node("Identity", [n]), s, F32)]
        if k == "un":
            op = r.choice(["Neg", "Abs", "Relu", "Neg", "Exp"])
            return [(b.node(op, [n]), s, F32)]
        if k == "bin":
            y = self.pick(vals, lambda t, d: d == F32 and self.bc(s, t) is not None)
            if y is None:
                return [(b.node("Neg", [n]), s, F32)]
            op = r.choice(["Add", "Sub", "Add", "Max", "Min"] if r.random() < .8 else ["Mul"])
            return [(b.node(op, [n, y[0]]), self.bc(s, y[1]), F32)]
        if k == "const":
            c = np.array([[1., -2., .5], [3., 0., 2.]], F32).ravel()
            sh = r.choice([(), (1,), (s[-1],) if s else ()])
            v = np.resize(c[r.randrange(3):], sh).astype(F32)
            nm = (b.constnode if r.random() < .4 else b.const)(v)
            vals.append((nm, sh, F32))
            return [(b.node(r.choice(["Add", "Mul", "Sub"]), [n, nm]), s if sh else s, F32)] if self.bc(s, sh) == s else [(nm, sh, F32)]
        if k == "transpose" and len(s) > 1:
            p = list(range(len(s)))
            r.shuffle(p)
            return [(b.transpose(n, p), tuple(s[i] for i in p), F32)]
        if k == "reshape" and s:
            t = self.factor(int(np.prod(s)))
            u = list(t)
            if u and r.random() < .5:
                u[r.randrange(len(u))] = -1
            return [(b.reshape(n, u), t, F32)]
        if k == "split" and s and max(s) > 1:
            ax = r.choice([i for i, d in enumerate(s) if d > 1])
            a = r.randrange(1, s[ax])
            o = b.split(n, ax, [a, s[ax] - a])
            return [(o[0], s[:ax] + (a,) + s[ax + 1:], F32), (o[1], s[:ax] + (s[ax] - a,) + s[ax + 1:], F32)]
        if k == "concat" and s:
            ax = r.randrange(len(s))
            y = self.pick(vals, lambda t, d: d == F32 and len(t) == len(s) and all(i == ax or a == c for i, (a, c) in enumerate(zip(s, t))))
            if s[ax] + y[1][ax] <= 5:
                return [(b.node("Concat", [n, y[0]], axis=ax), s[:ax] + (s[ax] + y[1][ax],) + s[ax + 1:], F32)]
        if k == "dup":
            # the same computation twice
            op = r.choice(["Neg", "Relu", "Abs"])
            return [(b.node(op, [n]), s, F32), (b.node(op, [n]), s, F32)]
        if k == "dynshape" and s:
            return [self.dynreshape(b, n, s)]
        if k == "squeeze" and s:
            if 1 in s and r.random() < .5:
                ax = s.index(1)
                return [(b.squeeze(n, [ax]), s[:ax] + s[ax + 1:], F32)]
            ax = r.randrange(len(s) + 1)
            if len(s) < 4:
                return [(b.unsqueeze(n, [ax]), s[:ax] + (1,) + s[ax:], F32)]
        if k == "cast":
            return [(b.node("Cast", [b.node("Cast", [n], to=11)], to=1), s, F32)]
        if k == "reduce" and s:
            ax = r.randrange(len(s))
            kd = r.randrange(2)
            return [(b.reduce(r.choice(["ReduceSum", "ReduceMax"]), n, [ax], kd), s[:ax] + ((1,) if kd else ()) + s[ax + 1:], F32)]
        if k == "slice" and s and max(s) > 1:
            ax = r.choice([i for i, d in enumerate(s) if d > 1])
            return [(b.slice(n, [1], [9], [ax]), s[:ax] + (s[ax] - 1,) + s[ax + 1:], F32)]
        if k == "if":
            c = self.cond(b, vals)
            tb, ts = self.sub(b, vals, depth + 1)
            eb, es = self.sub(b, vals, depth + 1, want=ts)
            o = b.node("If", [c], nout=len(ts), then_branch=tb.graph("then"), else_branch=eb.graph("else"))
            o = [o] if isinstance(o, str) else o
            return [(a, t, F32) for a, t in zip(o, ts)]
        if k == "loop" and s:
            return self.loop(b, vals, n, s, depth)
        return [(b.node("Neg", [n]), s, F32)]

    def bc(self, s, t):
        try:
            v = np.broadcast_shapes(s, t)
            return v if int(np.prod(v)) <= 12 else None
        except ValueError:
            return None

    def factor(self, n):
        c = {1: [(1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1)], 4: [(2, 2), (4,), (1, 4)], 6: [(2, 3), (3, 2), (6,), (1, 2, 3), (3, 1, 2)], 12: [(2, 6), (3, 4), (2, 2, 3), (12,)],
             8: [(2, 4), (2, 2, 2)], 9: [(3, 3)], 10: [(5, 2)]}
        return self.r.choice(c.get(n, [(n,)]))

    def dynreshape(self, b, n, s):
        r = self.r
        sh = b.node("Shape", [n])
        parts = []
        tot = int(np.prod(s))
        f = r.randrange(4)
        if f == 0 and len(s) > 1:      # merge the first two
            g0 = b.node("Gather", [sh, b.const(np.array([0], I64))], axis=0)
            g1 = b.node("Gather", [sh, b.const(np.array([1], I64))], axis=0)
            parts = [b.node("Mul", [g0, g1])] + [b.node("Gather", [sh, b.const(np.array([i], I64))], axis=0) for i in range(2, len(s))]
            t = (s[0] * s[1],) + s[2:]
        elif f == 1:
            parts = [b.const(np.array([1], I64)), sh]
            t = (1,) + s
        elif f == 2:
            parts = [b.slice(sh, [0], [1], [0]), b.const(np.array([-1], I64))]
            t = (s[0], tot // s[0]) if s[0] else s
        else:
            idx = b.const(np.array([len(s) - 1], I64))
            parts = [b.const(np.array([-1], I64)), b.node("Gather", [sh, idx], axis=0)]
            t = (tot // s[-1], s[-1])
        tgt = b.node("Concat", parts, axis=0) if len(parts) > 1 else parts[0]
        return (b.node("Reshape", [n, tgt]), tuple(t), F32)

    def cond(self, b, vals):
        c = [v for v in vals if v[2] == np.bool_]
        return self.r.choice(c)[0]

    def sub(self, b, vals, depth, want=None, ins=()):
        self.nsub += 1
        sb = B(self.opset, "s%d_" % self.nsub)
        loc = list(vals) + list(ins)
        new = list(ins)
        for _ in range(self.r.randrange(1, 4)):
            o = self.step(sb, loc, depth)
            loc += o
            new += o
        outs = []
        if want is None:
            want = [self.r.choice([v for v in (new if new else loc) if v[2] == F32])[1]]
            if self.r.random() < .4:
                want.append(self.r.choice([v for v in loc if v[2] == F32])[1])
        for w in want:
            c = [v for v in loc if v[2] == F32 and v[1] == w]
            v = self.r.choice(c) if c else None
            if v is None:
                nm = sb.const(np.zeros(w, F32))
                outs.append(sb.node("Identity", [nm]))
            elif v not in new or v in ins or self.r.random() < .3 or v[0] in [o[0] for o in sb.outs] or v[0] in outs:
                outs.append(sb.node("Identity", [v[0]]))
            elif any(v[0] == i.name for i in sb.inits):
                outs.append(sb.node("Identity", [v[0]]))
            else:
                outs.append(v[0])
        for o in outs:
            sb.out(o)
        return sb, want

    def loop(self, b, vals, n, s, depth):
        self.nsub += 1
        p = "l%d_" % self.nsub
        sb = B(self.opset, p)
        it, cd, st = p + "iter", p + "cond", p + "state"
        from onnx import helper, TensorProto as TP
        sb.ins = [helper.make_tensor_value_info(it, TP.INT64, []), helper.make_tensor_value_info(cd, TP.BOOL, []), helper.make_tensor_value_info(st, TP.FLOAT, list(s))]
        loc = list(vals) + [(st, s, F32)]
        new = []
        for _ in range(self.r.randrange(1, 4)):
            o = self.step(sb, loc, depth + 1)
            loc += o
            new += o
        c = [v for v in loc if v[1] == s and v[2] == F32]
        ns = sb.node("Add", [self.r.choice(c)[0], st])
        sc = self.r.choice([v for v in new if v[2] == F32] or [(st, s, F32)])
        scn = sc[0]
        if len(sc[1]) > 1 and self.r.random() < .5:
            pm = list(range(len(sc[1])))
            self.r.shuffle(pm)
            scn = sb.transpose(scn, pm)
            sc = (scn, tuple(sc[1][i] for i in pm), F32)
            if self.r.random() < .5:
                scn = sb.node("Identity", [scn])
        else:
            scn = sb.node("Identity", [scn])
        sb.out(sb.node("Identity", [cd]), np.bool_)
        sb.out(ns)
        sb.out(scn)
        trip = self.r.randrange(0, 3)
        m = b.const(np.array(trip, I64))
        o = b.node("Loop", [m, "", n], nout=2, body=sb.graph("body"))
        r = [(o[0], s, F32)]
        if trip * int(np.prod(sc[1])) <= 12 and trip:
            r.append((o[1], (trip,) + sc[1], F32))
        return r

    def build(self):
        b = B(self.opset)
        r = self.r
        vals = []
        shs = [(2, 3), (2, 3), (3,), (1, 2, 3), (2, 1), (), (2, 2)]
        for i in range(r.randrange(1, 4)):
            s = r.choice(shs)
            decl = r.choice(["same", "same", [None] * len(s), [None] + list(s[1:]) if s else "same"])
            vals.append((b.input(F32, s, "in%d" % i, decl=decl), s, F32))
        if self.ctrl:
            vals.append((b.input(np.bool_, (), "flag"), (), np.bool_))
        base = len(vals)
        for _ in range(self.size):
            vals += self.step(b, vals, 0)
        cand = [v for v in vals[base:] if v[2] == F32 and not any(v[0] == i.name for i in b.inits)]
        prod = {o for nd in b.nodes if nd.op_type != "Constant" for o in nd.output}
        cand = [v for v in cand if v[0] in prod]
        used = {i for nd in b.nodes for i in nd.input}
        outs = [v for v in cand if v[0] not in used][-4:]
        outs += [v for v in r.sample(cand, min(2, len(cand))) if v not in outs]
        r.shuffle(outs)
        for v in outs[:4]:
            b.out(v[0], F32)
        return b
