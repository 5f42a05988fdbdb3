"""P03 constant folding: the real folding functions run on constants whose elements are solver variables."""
import itertools
import random

import numpy as np
from onnx import TensorProto as TP, helper

from .. import onnx_tv as O
from .. import tv
from ..gen import Gen
from ..onnx_tv import B, OptJob, ot
from ..report import Report
from .p01 import finish

PROP = "P03"
F32, F64, F16, I32, I64, U8, BL = np.float32, np.float64, np.float16, np.int32, np.int64, np.uint8, np.bool_
ONLY = ["fold_constants"]


def use(b, v, dt, shape, opset, form):
    """consume a folded value next to a run-time input"""
    dt = np.dtype(dt)
    if form == "out":
        b.out(v, dt)
        return
    if form == "ident":
        b.out(b.node("Identity", [v]), dt)
        return
    f = v if dt == F32 else b.node("Cast", [v], to=TP.FLOAT)
    x = b.input(F32, shape, b.nm("x"), decl="same")
    b.out(b.node("Add", [x, f]))
    if form == "both":
        b.out(b.node("Neg", [f]))
        b.out(v, dt)


def prog(b, rnd, steps):
    """random program over symbolic constants and run-time inputs; a list of (name, shape, dtype)"""
    opset = b.opset
    x = b.input(F32, (2, 3), "x")
    vals = [(x, (2, 3), F32)]
    for sh in [(2, 3), (3, 2), (3,), (1, 2), (), (2, 1, 3)][:3 + rnd.randrange(4)]:
        dt = rnd.choice([F32, F32, F32, I64])
        vals.append((b.symconst(dt, sh, lo=-50, hi=50), sh, dt))

    def step(b, vals, depth):
        k = rnd.choice(["Cast", "Transpose", "Transpose", "Reshape", "Reshape", "Concat", "Concat", "Unsqueeze", "Mul", "Add", "Sub", "Split", "Split", "Neg", "If"])
        n, s, dt = rnd.choice(vals[-6:] if rnd.random() < .6 else vals)
        if k == "Cast":
            to = rnd.choice([F32, I64, I32])
            if np.dtype(dt).kind == "f" and np.dtype(to).kind != "f":
                return []
            return [(b.node("Cast", [n], to=ot(to)), s, to)]
        if k == "Transpose" and len(s) > 1:
            if rnd.random() < .2:
                return [(b.node("Transpose", [n]), s[::-1], dt)]
            p = rnd.sample(range(len(s)), len(s))
            return [(b.transpose(n, p), tuple(s[i] for i in p), dt)]
        if k == "Reshape" and s:
            tot = int(np.prod(s))
            t = rnd.choice({6: [(2, 3), (3, 2), (6,), (1, 6), (1, 2, 3), (6, 1)], 3: [(3,), (1, 3), (3, 1)], 2: [(2,), (1, 2), (2, 1)], 4: [(2, 2), (4,)], 12: [(3, 4), (2, 6), (2, 3, 2)],
                            1: [(1,), (1, 1), ()]}.get(tot, [(tot,)]))
            u = list(t)
            if u and rnd.random() < .4:
                u[rnd.randrange(len(u))] = -1
            for i in range(min(len(u), len(s))):
                if u[i] == s[i] and rnd.random() < .3:
                    u[i] = 0
            return [(b.reshape(n, u), t, dt)]
        if k == "Concat" and s:
            ax = rnd.randrange(len(s))
            c = [v for v in vals if v[2] == dt and len(v[1]) == len(s) and all(i == ax or p == q for i, (p, q) in enumerate(zip(s, v[1])))]
            y = rnd.choice(c)
            if s[ax] + y[1][ax] <= 6:
                a2 = ax - len(s) if opset >= 11 and rnd.random() < .3 else ax
                return [(b.node("Concat", [n, y[0]], axis=a2), s[:ax] + (s[ax] + y[1][ax],) + s[ax + 1:], dt)]
            return []
        if k == "Unsqueeze" and len(s) < 4:
            ax = rnd.randrange(len(s) + 1)
            a2 = ax - len(s) - 1 if opset >= 11 and rnd.random() < .3 else ax
            return [(b.unsqueeze(n, [a2]), s[:ax] + (1,) + s[ax:], dt)]
        if k in ("Mul", "Add", "Sub"):
            def bc(t):
                try:
                    r = np.broadcast_shapes(s, t)
                    return r if int(np.prod(r)) <= 12 else None
                except ValueError:
                    return None
            c = [v for v in vals if v[2] == dt and bc(v[1]) is not None]
            if not c:
                return []
            y = rnd.choice(c)
            return [(b.node(k, [n, y[0]]), bc(y[1]), dt)]
        if k == "Split" and s and max(s) > 1:
            ax = rnd.choice([i for i, d in enumerate(s) if d > 1])
            a = rnd.randrange(1, s[ax])
            o = b.split(n, ax, [a, s[ax] - a])
            return [(o[0], s[:ax] + (a,) + s[ax + 1:], dt), (o[1], s[:ax] + (s[ax] - a,) + s[ax + 1:], dt)]
        if k == "Neg":
            return [(b.node("Neg", [n]), s, dt)]
        if k == "If" and depth < 2:
            cnd = b.nm("cond")
            if depth == 0:
                if not any(i.name == "flag" for i in b.ins):
                    b.input(BL, (), "flag")
                cnd = "flag"
            else:
                cnd = "flag"
            subs = []
            for br in ("t", "e"):
                sb = B(opset, b.nm("s") + br + "_")
                sb.cspecs = b.cspecs
                if rnd.random() < .5:
                    sc = sb.symconst(dt, s, lo=-50, hi=50)
                    sv = vals + [(sc, s, dt)]
                else:
                    sv = list(vals)
                for _ in range(3):
                    sv += step(sb, sv, depth + 1)
                own = [v for v in sv if v[1] == s and v[2] == dt]
                o = sb.node("Identity", [own[-1][0]]) if rnd.random() < .5 or own[-1][0] in [v[0] for v in vals] + [t.name for t in sb.inits] else own[-1][0]
                sb.out(o, dt)
                subs.append(sb)
            o = b.node("If", [cnd], then_branch=subs[0].graph("then"), else_branch=subs[1].graph("else"))
            return [(o, s, dt)]
        return []
    for _ in range(steps):
        vals += step(b, vals, 0)
    names = [v for v in vals if v[0] not in [i.name for i in b.inits] and v[0] not in [i.name for i in b.ins]]
    outs = names[-3:] + rnd.sample(names, min(2, len(names))) + ([rnd.choice(vals)] if rnd.random() < .2 else [])
    seen = set()
    for v in outs:
        if v[0] in seen or v[0] in [i.name for i in b.ins] or v[0] in [i.name for i in b.inits]:
            continue
        seen.add(v[0])
        b.out(v[0], v[2])
    return b


def jobs(tier):
    q = tier == "quick"
    js = []
    ops = (9, 11, 13, 18) if q else tuple(range(8, 19))
    forms = ("add", "both", "out", "ident")

    def add(fam, op, par, build, passes=ONLY):
        js.append(OptJob("%s|op%d|%s" % (fam, op, par), build, passes))

    for op in ops:
        n = 0
        # ---------------------------------------------------------------- cast
        types = [F32, F64, F16, I32, I64, U8, np.int8, BL, np.uint16, np.uint32]
        for s, t in itertools.product(types, repeat=2):
            def cs(s=s, t=t, op=op, form="both"):
                b = B(op)
                lo, hi = (0, 100) if (np.dtype(t).kind == "u" or np.dtype(t) == np.int8) else (None, None)
                rng = dict(lo=lo, hi=hi) if np.dtype(s).kind in "iu" else dict(flo=lo if lo is not None else -1000, fhi=hi or 1000)
                c = b.symconst(s, (2, 3), **rng)
                use(b, b.node("Cast", [c], to=ot(t)), t, (2, 3), op, "both")
                return b
            add("cast", op, "%s,%s" % (np.dtype(s).name, np.dtype(t).name), cs)
        # ----------------------------------------------------------- transpose
        for sh in ((2, 3), (2, 3, 4), (1, 2, 3, 2), (3,), (2, 1, 2, 1, 3)):
            perms = [None] + (list(itertools.permutations(range(len(sh)))) if len(sh) < 4 else
                              [(0, 2, 3, 1), (0, 3, 1, 2), (3, 2, 1, 0), (1, 0, 3, 2), (2, 0, 3, 1)] if len(sh) == 4 else [(0, 2, 3, 4, 1), (4, 0, 1, 2, 3), (1, 4, 0, 3, 2)])
            for p in perms:
                form = forms[n % 4]
                n += 1

                def tr(sh=sh, p=p, form=form, op=op):
                    b = B(op)
                    v = b.node("Transpose", [b.symconst(F32, sh)], **({} if p is None else {"perm": list(p)}))
                    use(b, v, F32, sh[::-1] if p is None else tuple(sh[i] for i in p), op, form)
                    return b
                add("tr", op, "%s,%s,%s" % (sh, p, form), tr)
        # ------------------------------------------------------------- reshape
        for sh, tgt, az in [((2, 3), (3, 2), 0), ((2, 3), (-1,), 0), ((2, 3, 4), (0, -1), 0), ((2, 3, 4), (4, 0, 2), 0), ((2, 3, 4), (0, 0, -1, 1), 0), ((2, 3), (1, 0, 2), -1),
                            ((1, 3), (3, 1), 0), ((3, 3), (-1, 0), 0), ((2, 3), (0, 0), 0), ((6,), (2, 3), 0), ((1,), (), 0), ((), (1, 1), 0), ((2, 0, 3), (0, 0, 3), 0), ((2, 0), (0, 0), 0),
                            ((2, 0), (0, 5), 1), ((0, 3), (3, 0), 1), ((0, 3), (2, 0, 1), 1), ((2, 3), (3, 2), 1), ((0, 2), (0, 7), 1), ((2, 2), (-1, 4), 1), ((0, 3), (0, 0), 1), ((2, 0), (3, 0), 1), ((2, 0), (0, 0), 1), ((3, 0), (0, 0), 1)]:
            for dt in (F32, I64):
                if az < 0 or (az and op < 14):
                    continue
                form = forms[n % 4]
                n += 1

                def rs(sh=sh, tgt=tgt, az=az, dt=dt, form=form, op=op):
                    b = B(op)
                    v = b.reshape(b.symconst(dt, sh), tgt, **({"allowzero": 1} if az else {}))
                    out = list(tgt)
                    if not az:
                        out = [sh[i] if d == 0 else d for i, d in enumerate(out)]
                    if -1 in out:
                        out[out.index(-1)] = int(np.prod(sh)) // int(np.prod([d for d in out if d != -1]))
                    use(b, v, dt, tuple(out), op, form)
                    return b
                add("rs", op, "%s,%s,%d,%s,%s" % (sh, tgt, az, np.dtype(dt).name, form), rs)
        # -------------------------------------------------------------- concat
        for shs, ax in [(((2, 3), (2, 3)), 0), (((2, 3), (2, 1)), 1), (((2, 3), (2, 1), (2, 2)), 1), (((2,), (3,)), 0), (((2, 3),), 0), (((1, 2, 3), (1, 2, 1)), 2), (((2, 3), (1, 3)), -2),
                        (((1, 2, 3), (1, 1, 3)), -2), (((0, 3), (2, 3)), 0), (((2, 2), (2, 3)), -1)]:
            for dt in (F32, I64, I32, BL):
                if ax < 0 and op < 11:
                    continue
                form = forms[n % 4]
                n += 1

                def cc(shs=shs, ax=ax, dt=dt, form=form, op=op):
                    b = B(op)
                    v = b.node("Concat", [b.symconst(dt, s) for s in shs], axis=ax)
                    o = list(shs[0])
                    o[ax] = sum(s[ax] for s in shs)
                    use(b, v, dt, tuple(o), op, form)
                    return b
                add("cc", op, "%s,%d,%s,%s" % (shs, ax, np.dtype(dt).name, form), cc)

        def mixed(op=op, which=0):
            # one operand is a run-time input: nothing to fold
            b = B(op)
            x = b.input(F32, (2, 3), "x")
            c = b.symconst(F32, (2, 3))
            d = b.symconst(F32, (2, 3))
            y = b.node("Concat", [x, c] if which & 1 else [c, x], axis=0)
            z = b.node("Concat", [c, d, c], axis=0)
            b.out(b.node("Add", [b.node("Concat", [y, c], axis=0), z]))
            b.out(b.node("Mul", [c, x] if which & 2 else [x, c]))
            b.out(b.node("Sub", [c, b.node("Sub", [c, x])]))
            return b
        for w in range(4):
            add("mixed", op, w, lambda w=w, mixed=mixed: mixed(which=w))
        # ----------------------------------------------------------- unsqueeze
        for sh, axes in [((2, 3), (0,)), ((2, 3), (2,)), ((2, 3), (0, 3)), ((2, 3), (3, 0)), ((2, 3), (1, 2)), ((2, 3), (2, 1)), ((3,), (0, 1, 3)), ((), (0,)), ((), (0, 1)), ((2, 3), (-1,)),
                         ((2, 3), (-3,)), ((2, 3), (-1, 0)), ((2, 3), (-1, -3)), ((2, 3, 2), (-2, 1)), ((3,), (-2, -1))]:
            if min(axes) < 0 and op < 11:
                continue
            form = forms[n % 4]
            n += 1

            def us(sh=sh, axes=axes, form=form, op=op):
                b = B(op)
                v = b.unsqueeze(b.symconst(F32, sh), list(axes))
                r = len(sh) + len(axes)
                o = [None] * r
                for a in axes:
                    o[a] = 1
                it = iter(sh)
                o = tuple(next(it) if d is None else d for d in o)
                use(b, v, F32, o, op, form)
                return b
            add("us", op, "%s,%s,%s" % (sh, axes, form), us)
        # ---------------------------------------------------------- arithmetic
        for o2, dt, (s1, s2) in itertools.product(("Mul", "Add", "Sub"), (F32, F64, F16, I32, I64, np.uint32, np.int8, U8),
                                                  (((2, 3), (2, 3)), ((2, 3), (3,)), ((2, 1), (1, 3)), ((), (2,)), ((2, 3), ()), ((3,), (2, 1, 1)), ((1,), (0, 3)))):
            if np.dtype(dt).itemsize == 1 and op < 14:
                continue
            form = forms[n % 4]
            n += 1

            def ar(o2=o2, dt=dt, s1=s1, s2=s2, form=form, op=op):
                b = B(op)
                k = np.dtype(dt)
                if k.kind == "f":
                    rng = dict(flo=-100, fhi=100)
                elif k.itemsize == 8:
                    rng = dict(lo=-1000, hi=1000)
                else:
                    rng = dict(lo=int(np.iinfo(k).min), hi=int(np.iinfo(k).max))
                v = b.node(o2, [b.symconst(dt, s1, **rng), b.symconst(dt, s2, **rng)])
                use(b, v, dt, np.broadcast_shapes(s1, s2), op, "out" if form in ("add", "both") and k.kind != "f" else form)
                return b
            add("ar", op, "%s,%s,%s,%s,%s" % (o2, np.dtype(dt).name, s1, s2, form), ar)
        for o2 in ("Mul", "Add", "Sub"):
            def same(o2=o2, op=op):
                b = B(op)
                c, d = b.symconst(F32, (2, 3)), b.symconst(F32, (3,))
                x = b.input(F32, (2, 3), "x")
                v, w = b.node(o2, [c, c]), b.node(o2, [d, c])
                b.out(b.node("Add", [b.node(o2, [v, w]), x]))
                b.out(b.node("Add", [c, x]))
                b.out(b.node("Add", [b.node(o2, [c, d]), x]))
                return b
            add("same", op, o2, same)
        # --------------------------------------------------------------- split
        for sh, ax, parts in [((4, 3), 0, (2, 2)), ((4, 3), 0, (1, 3)), ((2, 3), 1, (1, 1, 1)), ((2, 3), 1, (2, 1)), ((2, 5), 1, (2, 2, 1)), ((3, 2), None, (1, 2)), ((3, 2), None, (1, 1, 1)),
                              ((2, 3), -1, (1, 2)), ((2, 3, 2), -2, (2, 1)), ((3,), 0, (0, 3)), ((3,), 0, (3,)), ((5,), 0, (2, 2, 1)), ((7, 1), 0, (3, 3, 1)), ((4,), 0, (2, 2)), ((6, 2), -2, (4, 2)),
                              ((10,), 0, (3, 3, 3, 1))]:
            even = len(set(parts[:-1])) <= 1 and parts[-1] <= parts[0] and parts[0] == -(-sh[ax or 0] // len(parts))
            for how in ("parts", "even"):
                if (ax or 0) < 0 and op < 11:
                    continue
                if how == "even" and (not even or (len(set(parts)) > 1 and op < 18)):
                    continue
                form = forms[n % 4]
                n += 1

                def spl(sh=sh, ax=ax, parts=parts, how=how, form=form, op=op):
                    b = B(op)
                    c = b.symconst(F32, sh)
                    at = {} if ax is None else {"axis": ax}
                    ins = [c]
                    if how == "parts":
                        if op < 13:
                            at["split"] = list(parts)
                        else:
                            ins.append(b.const(np.array(parts, I64)))
                    elif op >= 18:
                        at["num_outputs"] = len(parts)
                    o = b.node("Split", ins, nout=len(parts), **at)
                    o = [o] if isinstance(o, str) else o
                    for k, (v, p) in enumerate(zip(o, parts)):
                        s = list(sh)
                        s[ax or 0] = p
                        use(b, v, F32, tuple(s), op, form if k != 1 or form == "out" else "add")
                    b.out(b.node("Neg", [c]))
                    return b
                add("split", op, "%s,%s,%s,%s,%s" % (sh, ax, parts, how, form), spl)
        # -------------------------------------- shared between nodes and graphs

        def sub(form, op=op):
            b = B(op)
            x = b.input(F32, (2, 3), "x")
            f = b.input(BL, (), "flag")
            c = b.symconst(F32, (3, 2))
            t = b.transpose(c, [1, 0])
            subs = []
            for br in "te":
                sb = B(op, br + "_")
                sb.cspecs = b.cspecs
                if form == "outer":
                    v = sb.transpose(c, [1, 0])
                elif form == "outerfold":
                    v = sb.node("Mul", [t, t])
                elif form == "own":
                    v = sb.node("Add", [sb.symconst(F32, (2, 3)), sb.symconst(F32, (3,))])
                elif form == "out":
                    sb.out(sb.node("Add", [t, sb.symconst(F32, (3,))]))
                    subs.append(sb)
                    continue
                elif form == "ident":
                    sb.out(sb.node("Identity", [t]))
                    subs.append(sb)
                    continue
                sb.out(sb.node("Add", [v, x]))
                subs.append(sb)
            o = b.node("If", [f], then_branch=subs[0].graph("then"), else_branch=subs[1].graph("else"))
            b.out(o)
            b.out(b.node("Add", [t, x]))
            return b
        for form in ("outer", "outerfold", "own", "out", "ident"):
            add("sub", op, form, lambda form=form, sub=sub: sub(form))

        def opt(op=op):
            # Unsqueeze of a constant whose axes are computed, Reshape to a computed target: both foldable after other folds
            b = B(op)
            x = b.input(F32, (6,), "x")
            c = b.symconst(F32, (2, 3))
            tgt = b.node("Concat", [b.const(np.array([3], I64)), b.const(np.array([-1], I64))], axis=0)
            r = b.node("Reshape", [c, tgt])
            b.out(b.node("Add", [b.reshape(r, [-1]), x]))
            b.out(b.node("Add", [b.node("Reshape", [x, tgt]), r]))
            t2 = b.node("Mul", [b.const(np.array([1, 2], I64)), b.const(np.array(3, I64))])
            b.out(b.node("Add", [b.node("Reshape", [x, b.node("Sub", [t2, b.const(np.array([0, 4], I64))])]), b.node("Transpose", [c])]))
            return b
        add("chain", op, "", opt)
    # ------------------------------------------------------------ random programs
    for seed in range(300 if q else 4000):
        op = ops[seed % len(ops)]
        add("rand", op, seed, lambda seed=seed, op=op: prog(B(op), random.Random(seed * 31 + 7), 10))
    for seed in range(100 if q else 1500):
        op = max(9, ops[seed % len(ops)])
        add("gen", op, seed, lambda seed=seed, op=op: Gen(seed + 40000, op, size=8).build())
    return js


def run_job(job):
    o = O.check_opt(job, xval=(int(tv.digest(job.key), 16) % 25 == 0))
    return o


def main(tier):
    rep = Report(PROP, tier, "translation_validation")
    js = jobs(tier)
    outs, st = tv.run_jobs(js, run_job)
    rep.add(outs, st)
    esc = {}
    for o in outs:
        if getattr(o, "escaped", None):
            esc[o.escaped] = esc.get(o.escaped, 0) + 1
    if esc:
        rep.assumptions.append("programs run with concrete constants because the folding code inspects values: %s" % esc)
    return finish(PROP, rep, outs,
                  "the real constant folding pass is executed on models whose constants are arrays of solver variables; z3 decides that the model before and after "
                  "computes the same outputs for every constant and every input",
                  ["constants up to rank 5, dims 0-10, elements symbolic (integers: full range up to 32 bits; floats: |v| <= 1000)", "opsets %s" % ("9, 11, 13, 18" if tier == "quick" else "8-18"),
                   "random programs of 8-10 steps with nested If/Loop bodies"],
                  ["float arithmetic of Mul/Add/Sub is exact", "Cast of symbolic floats to narrower floats keeps the value (numpy and the runtime both round to nearest)",
                   "casts of values outside the target range are undefined in ONNX and excluded"],
                  ["tf2onnx.optimizer.const_fold_optimizer.ConstFoldOptimizer (every folding function)", "tf2onnx.graph.Node.get_tensor_value / Graph.make_const", "tf2onnx.optimizer.optimize_graph"])
