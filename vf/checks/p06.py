"""P06: decomposing einsum into elementary operators (einsum_optimizer)."""
import itertools

import numpy as np

from .. import onnx_tv as O
from .. import tv
from ..onnx_tv import B, OptJob
from ..report import Report
from .p01 import finish
from .p18 import const, equations

PROP = "P06"
F32 = np.float32
ONLY = ["einsum_optimizer"]
SIZES = ((2, 3, 1, 2, 3, 2), (1, 2, 3, 2, 1, 2), (3, 1, 2, 1, 2, 2))


def dims(t, sz):
    return [sz["abcdefghijklmnopqrstuvwxyz".index(c.lower()) % len(sz)] if c.isalpha() else 0 for c in t]


def labels_sizes(terms, sz):
    ls = sorted(set("".join(terms)))
    return {c: sz[i % len(sz)] for i, c in enumerate(ls)}


def three():
    """three-operand equations over at most 4 labels, terms of rank 1-2, output of rank <= 3"""
    out = []
    for n2, n3 in itertools.product((1, 2), (1, 2)):
        for t1 in ("a", "ab"):
            for t2 in itertools.permutations("abc", n2):
                for t3 in itertools.permutations("abcd", n3):
                    ls = sorted(set(t1 + "".join(t2) + "".join(t3)))
                    if ls != list("abcd"[:len(ls)]):
                        continue
                    for no in range(1, 4):
                        for o in itertools.permutations(ls, no):
                            out.append("%s,%s,%s->%s" % (t1, "".join(t2), "".join(t3), "".join(o)))
    return out


def one():
    out = []
    for r in range(1, 5):
        t = "abcd"[:r]
        for no in range(1, r + 1):
            for o in itertools.permutations(t, no):
                for p in itertools.permutations(t):
                    if r < 4 or p == tuple(t):
                        out.append("%s->%s" % ("".join(p), "".join(o)))
    return sorted(set(out))


def jobs(tier):
    q = tier == "quick"
    js = []

    def add(key, build, optimizers=ONLY):
        js.append(OptJob(key, build, optimizers))

    def pick(e, k):
        return not q or int(tv.digest(e), 16) % k == 0
    OPS = (12, 13, 15, 18) if q else (12, 13, 14, 15, 16, 17, 18)

    def ein(opset, eq, sz, dt=F32, mode="in", decl="same"):
        def f():
            b = B(opset)
            terms = eq.split("->")[0].replace(" ", "").split(",")
            m = labels_sizes([t for t in terms], sz)
            xs = []
            for i, t in enumerate(terms):
                sh = [m[c] for c in t]
                if mode == "c%d" % i:
                    xs.append(b.const(const(sh, dt)))
                elif mode == "same" and i and t == terms[0]:
                    xs.append(xs[0])
                elif decl == "dyn":
                    xs.append(b.input(dt, sh, decl=[None] * len(sh)))
                else:
                    xs.append(b.input(dt, sh))
            y = b.node("Einsum", xs, equation=eq)
            if mode == "mid":
                b.out(b.node("Neg", [y]), dt)
                b.out(b.node("Abs", [y]), dt)
            elif mode == "both":
                b.out(y, dt)
                b.out(b.node("Neg", [y]), dt)
            elif mode == "two":
                b.out(y, dt)
                b.out(b.node("Einsum", xs, equation=eq), dt)
            else:
                b.out(y, dt)
            return b
        return f
    n = 0
    for e in one():
        if not pick(e, 4):
            continue
        for sz in SIZES[:1 if q else 3]:
            for op in OPS:
                n += 1
                add("one|op%d|%s,%s" % (op, e, sz), ein(op, e, sz))
    for e in equations() + [e for e in ("abcd,bcde->ae", "abcd,cdbe->aeb", "abc,bcd->abcd", "abcd,abcd->abcd", "abcd,dcba->abcd", "abcd,abed->abec", "abcd,dbe->ace", "bhqd,bhkd->bhqk", "bhqk,bhkd->bhqd", "bqhd,bkhd->bhqk", "bhqk,bkhd->bqhd", "abcde,ef->abcdf", "abcde,ecf->abdf")]:
        if not pick(e, 4):
            continue
        for si, sz in enumerate(SIZES):
            if q and si != n % 3:
                continue
            for oi, op in enumerate(OPS):
                if q and oi != n % 4:
                    continue
                add("two|op%d|%s,%s" % (op, e, sz), ein(op, e, sz))
            if q and n % 4 == 0 or not q and si == 0:
                add("twodyn|op15|%s,%s" % (e, sz), ein(15, e, sz, decl="dyn"))
            if q and n % 5 == 0 or not q and si == 1:
                add("twoc|op13|%s,%s" % (e, sz), ein(13, e, sz, mode="c1"))
                add("twoc|op18|%s,%s" % (e, sz), ein(18, e, sz, mode="c0"))
        n += 1
    for e in three():
        if not pick(e, 60) or not q and int(tv.digest(e), 16) % 3:
            continue
        for sz in (SIZES[n % 3],) if q else SIZES[:2]:
            op = OPS[n % len(OPS)]
            add("three|op%d|%s,%s" % (op, e, sz), ein(op, e, sz))
            n += 1
    for e in ("a,bc,bd,c->ad", "ab,bc,cd,de->ae", "ab,ac,ad,ae->abcde", "a,a,a,a->a", "ab,cb,cd,da->ac", "abc,cd,def->abef"):
        for op in OPS:
            add("four|op%d|%s" % (op, e), ein(op, e, SIZES[0]))
    forms = ("ab,bc->ac", "ab,ab->ab", "a,b->ab", "abc,cd->abd", "abc,bcd->abd", "abc,abd->acd", "ab,bc->ca", "ab->ba", "ab->b", "abc,acd->abd", "ab,b->a", "ab,cd->acbd", "abcd,ed->abce", "ab,bc,cd->ad")
    for e in forms:
        for op in OPS:
            for mode in ("mid", "both", "two", "same"):
                add("%s|op%d|%s" % (mode, op, e), ein(op, e, SIZES[0] if mode != "same" else (2, 2, 2, 2), mode=mode))
            for dt in (np.float64, np.int32, np.int64) if e.count(",") < 2 else (np.float64,):
                add("dt|op%d|%s,%s" % (op, e, np.dtype(dt).name), ein(op, e, SIZES[0], dt=dt))
            add("sp|op%d|%s" % (op, e), ein(op, e.replace(",", " , ").replace("->", " -> "), SIZES[0]))
            add("up|op%d|%s" % (op, e), ein(op, e.replace("b", "B"), SIZES[0]))
            add("dyn|op%d|%s" % (op, e), ein(op, e, SIZES[0], decl="dyn"))
    for e in ("aa->a", "aab,bc->ac", "ab,bb->ab", "aba->ab", ",ab->ab", "ab,->ab", ",->", "ab->", "a,a->", "ab,ab->", "ab,bc", "...ab,bc->...ac", "a...,ab->b...", "abb,bc->c"):
        if "..." in e:
            continue
        if "->" not in e:
            continue
        for op in OPS:
            add("spec|op%d|%s" % (op, e), ein(op, e, SIZES[0]))
    for op in OPS:
        def dots(op=op):
            b = B(op)
            b.out(b.node("Einsum", [b.input(F32, (2, 2, 3), "x"), b.input(F32, (3, 2), "w")], equation="...ab,bc->...ac"))
            return b
        add("dots|op%d" % op, dots)

        def implicit(op=op):
            b = B(op)
            b.out(b.node("Einsum", [b.input(F32, (2, 3), "x"), b.input(F32, (3, 2), "w")], equation="bc,ca"))
            return b
        add("implicit|op%d" % op, implicit)
        for e in ("ab,bc->ac", "abc,acd->abd", "ab,bc->ca"):
            def inif(op=op, e=e):
                b = B(op)
                m = labels_sizes(e.split("->")[0].split(","), SIZES[0])
                x, w = [b.input(F32, [m[c] for c in t]) for t in e.split("->")[0].split(",")]
                c = b.input(np.bool_, (), "c")
                th, el = B(op, "t_"), B(op, "e_")
                th.out(th.node("Einsum", [x, w], equation=e))
                el.out(el.node("Neg", [el.node("Einsum", [x, w], equation=e)]))
                b.out(b.node("If", [c], then_branch=th.graph("th"), else_branch=el.graph("el")))
                return b
            add("inif|op%d|%s" % (op, e), inif)

            def chain(op=op, e=e):
                b = B(op)
                x = b.input(F32, (2, 2, 2) if e.count("b") < 0 else [2] * len(e.split(",")[0]), "x")
                w = b.input(F32, [2] * len(e.split(",")[1].split("->")[0]), "w")
                y = b.node("Einsum", [x, w], equation=e)
                b.out(b.node("Einsum", [y, w], equation=e))
                return b
            add("chain|op%d|%s" % (op, e), chain, ONLY if op < 15 else None)
    return js


def run_job(job):
    return O.check_opt(job, xval=(int(tv.digest(job.key), 16) % 25 == 0))


def main(tier):
    rep = Report(PROP, tier, "translation_validation")
    outs, st = tv.run_jobs(jobs(tier), run_job)
    rep.add(outs, st)
    return finish(PROP, rep, outs,
                  "each einsum program is run through the real decomposition pass; the model before and after are executed symbolically and "
                  "z3 decides equality of every output element for all operand values",
                  ["all one- and two-operand equations over at most 4 labels (quick: a quarter), a third of the three-operand ones over terms of rank 1-2 "
                   "(quick: a sixtieth), listed four-operand and rank-5 ones", "dims 1-3 (plus listed zero-sized ones)", "opsets 12-18"],
                  ["float arithmetic is exact real arithmetic"],
                  ["tf2onnx.optimizer.einsum_optimizer.EinsumOptimizer", "optimize_einsum", "decompose_einsum_equation", "GraphEinsumSubOp.to_tf2onnx"])
