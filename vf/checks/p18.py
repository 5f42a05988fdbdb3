"""P18 matrix products: transpose / adjoint flags, batch broadcasting, bias additions, einsum, determinants and the Gemm fusion."""
import itertools
import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P18"
run_job = V.run_job
R = tf.raw_ops
F16 = np.float16
DIM = {"a": 2, "b": 3, "c": 2, "d": 1, "i": 2, "j": 3, "k": 2, "l": 1, "h": 2}


def const(sh, dt=F, mul=1.0):
    n = int(np.prod(sh)) if len(sh) else 1
    return ((np.arange(n) % 7 - 3) * mul + (0.5 if np.dtype(dt).kind == "f" else 0)).astype(dt).reshape(sh)


def tr(sh, t):
    sh = list(sh)
    if t:
        sh[-1], sh[-2] = sh[-2], sh[-1]
    return tuple(sh)


def equations():
    """every two-operand equation over at most 4 labels without repeats inside a term, up to renaming, output of rank <= 3"""
    out = []
    seen = set()
    for n1 in range(0, 4):
        for n2 in range(1, 4):
            t1 = "abc"[:n1]
            for t2 in itertools.permutations("abcd", n2):
                t2 = "".join(t2)
                labels = sorted(set(t1 + t2))
                if labels != list("abcd"[:len(labels)]):
                    continue
                for n3 in range(0, 4):
                    for t3 in itertools.permutations(labels, n3):
                        e = "%s,%s->%s" % (t1, t2, "".join(t3))
                        if e not in seen:
                            seen.add(e)
                            out.append(e)
    return out


def jobs(tier):
    S = Suite(tier)
    q = tier == "quick"
    OP3 = (9, 13, 18) if q else None
    OPE = (12, 15, 18) if q else (12, 13, 14, 15, 16, 17, 18)
    nm = lambda t: np.dtype(t).name
    FL = list(itertools.product((False, True), repeat=2))
    # ------------------------------------------------------------ MatMul
    for m, k, n in ((2, 3, 2), (1, 2, 3), (2, 1, 1), (3, 2, 1), (2, 2, 2)):
        for ta, tb in FL:
            for decl in ("same", "dyn"):
                S.add("mm", (m, k, n, ta, tb, decl), lambda B, m=m, k=k, n=n, ta=ta, tb=tb, decl=decl: R.MatMul(
                    a=B.input(F, tr((m, k), ta), decl=decl), b=B.input(F, tr((k, n), tb), decl=decl), transpose_a=ta, transpose_b=tb), ops=OP3)
            S.add("mmc", (m, k, n, ta, tb), lambda B, m=m, k=k, n=n, ta=ta, tb=tb: R.MatMul(
                a=B.input(F, tr((m, k), ta)), b=tf.constant(const(tr((k, n), tb))), transpose_a=ta, transpose_b=tb), ops=OP3)
            S.add("mmcl", (m, k, n, ta, tb), lambda B, m=m, k=k, n=n, ta=ta, tb=tb: R.MatMul(
                a=tf.constant(const(tr((m, k), ta))), b=B.input(F, tr((k, n), tb)), transpose_a=ta, transpose_b=tb), ops=OP3)
    for ta, tb in FL:
        for dt in (F64, F16, I32, I64):
            S.add("mmdt", (nm(dt), ta, tb), lambda B, dt=dt, ta=ta, tb=tb: R.MatMul(a=B.input(dt, tr((2, 2), ta)), b=B.input(dt, tr((2, 3), tb)), transpose_a=ta, transpose_b=tb), ops=OP3)
        S.add("mmrank", (ta, tb), lambda B, ta=ta, tb=tb: R.MatMul(a=B.input(F, tr((2, 3), ta), decl="rank"), b=B.input(F, tr((3, 2), tb), decl="rank"), transpose_a=ta, transpose_b=tb), ops=OP3)
        S.add("mmrank1", (ta, tb), lambda B, ta=ta, tb=tb: R.MatMul(a=B.input(F, tr((2, 3), ta), decl="rank"), b=B.input(F, tr((3, 2), tb)), transpose_a=ta, transpose_b=tb), ops=OP3)
        for aa, ab in FL:
            if (aa and ta) or (ab and tb) or not (aa or ab):
                continue
            S.add("mmadj", (ta, tb, aa, ab), lambda B, ta=ta, tb=tb, aa=aa, ab=ab: tf.linalg.matmul(
                B.input(F, tr((2, 3), ta or aa)), B.input(F, tr((3, 2), tb or ab)), transpose_a=ta, transpose_b=tb, adjoint_a=aa, adjoint_b=ab), ops=OP3)
        S.add("mmself", (ta, tb), lambda B, ta=ta, tb=tb: (lambda x: R.MatMul(a=x, b=x, transpose_a=ta, transpose_b=tb))(B.input(F, (2, 2))), ops=OP3)
        S.add("mmshare", (ta, tb), lambda B, ta=ta, tb=tb: (lambda x: (R.MatMul(a=x, b=x, transpose_a=ta, transpose_b=tb), x + 1.))(B.input(F, (2, 2))), ops=OP3)
        S.add("mmsharec", (ta, tb), lambda B, ta=ta, tb=tb: (lambda x, w: (R.MatMul(a=x, b=w, transpose_a=ta, transpose_b=tb), R.MatMul(a=w, b=x), x * w))(B.input(F, (2, 2)), tf.constant(const((2, 2)))), ops=OP3)
        S.add("mmempty", (ta, tb), lambda B, ta=ta, tb=tb: R.MatMul(a=B.input(F, tr((2, 0), ta)), b=B.input(F, tr((0, 3), tb)), transpose_a=ta, transpose_b=tb), ops=OP3)
        # chains and transposes around the product
        S.add("mmchain", (ta, tb), lambda B, ta=ta, tb=tb: R.MatMul(a=R.MatMul(a=B.input(F, tr((2, 3), ta)), b=tf.constant(const((3, 2))), transpose_a=ta), b=B.input(F, tr((2, 2), tb)), transpose_b=tb), ops=OP3)
        S.add("mmtr", (ta, tb), lambda B, ta=ta, tb=tb: tf.transpose(R.MatMul(a=tf.transpose(B.input(F, tr((2, 3), not ta))), b=tf.transpose(B.input(F, tr((3, 2), not tb))), transpose_a=ta, transpose_b=tb)), ops=OP3)
    # ------------------------------------------------------------ batched
    for s1, s2 in (((2, 2, 3), (2, 3, 2)), ((2, 2, 3), (1, 3, 2)), ((1, 2, 3), (2, 3, 1)), ((2, 1, 2, 2), (3, 2, 1)), ((2, 3), (2, 3, 2)), ((2, 2, 3), (3, 2)), ((2, 1, 1, 2), (1, 2, 2, 1))):
        for ta, tb in FL:
            for decl in ("same", "dyn"):
                S.add("bmm", (s1, s2, ta, tb, decl), lambda B, s1=s1, s2=s2, ta=ta, tb=tb, decl=decl: R.BatchMatMulV2(
                    x=B.input(F, tr(s1, ta), decl=decl), y=B.input(F, tr(s2, tb), decl=decl), adj_x=ta, adj_y=tb), ops=OP3)
            S.add("bmmc", (s1, s2, ta, tb), lambda B, s1=s1, s2=s2, ta=ta, tb=tb: R.BatchMatMulV2(
                x=B.input(F, tr(s1, ta)), y=tf.constant(const(tr(s2, tb))), adj_x=ta, adj_y=tb), ops=OP3)
            S.add("bmm3", (s1, s2, ta, tb), lambda B, s1=s1, s2=s2, ta=ta, tb=tb: R.BatchMatMulV3(
                x=B.input(F, tr(s1, ta)), y=B.input(F, tr(s2, tb)), Tout=tf.float32, adj_x=ta, adj_y=tb), ops=OP3)
            if s1[:-2] == s2[:-2]:
                S.add("bmm1", (s1, s2, ta, tb), lambda B, s1=s1, s2=s2, ta=ta, tb=tb: R.BatchMatMul(x=B.input(F, tr(s1, ta)), y=B.input(F, tr(s2, tb)), adj_x=ta, adj_y=tb), ops=OP3)
            S.add("bmmrank", (s1, s2, ta, tb), lambda B, s1=s1, s2=s2, ta=ta, tb=tb: R.BatchMatMulV2(
                x=B.input(F, tr(s1, ta), decl="rank"), y=B.input(F, tr(s2, tb), decl="rank"), adj_x=ta, adj_y=tb), ops=OP3)
            for dt in (F64, F16, I32, I64):
                if s1 == (2, 2, 3):
                    S.add("bmmdt", (s1, s2, ta, tb, nm(dt)), lambda B, s1=s1, s2=s2, ta=ta, tb=tb, dt=dt: R.BatchMatMulV2(x=B.input(dt, tr(s1, ta)), y=B.input(dt, tr(s2, tb)), adj_x=ta, adj_y=tb), ops=OP3)
    for dt in (I8, U8):
        S.add("mmi8", (nm(dt),), lambda B, dt=dt: R.BatchMatMulV3(x=B.input(dt, (2, 3)), y=B.input(I8, (3, 2)), Tout=tf.int32), mn=10)
        for ta, tb in FL:
            S.add("bmmi8", (nm(dt), ta, tb), lambda B, dt=dt, ta=ta, tb=tb: R.BatchMatMulV3(x=B.input(dt, tr((2, 2, 3), ta)), y=B.input(dt, tr((2, 3, 2), tb)), Tout=tf.int32, adj_x=ta, adj_y=tb), mn=10)
    S.add("matvec", (), lambda B: tf.linalg.matvec(B.input(F, (2, 3)), B.input(F, (3,))), ops=OP3)
    S.add("matvecb", (), lambda B: tf.linalg.matvec(B.input(F, (2, 2, 3)), B.input(F, (2, 3)), ), ops=OP3)
    S.add("matvect", (), lambda B: tf.linalg.matvec(B.input(F, (2, 3)), B.input(F, (2,)), transpose_a=True), ops=OP3)
    for a in (0, 1, 2, ([1], [0]), ([0, 1], [1, 0]), ([0], [1])):
        s = {0: ((2,), (3,)), 1: ((2, 3), (3, 2)), 2: ((2, 3, 2), (3, 2, 1))}.get(a if isinstance(a, int) else None) or (((2, 3, 2), (2, 3)) if len(a[0]) == 1 and a[0] == [0] and 0 else ((2, 3), (3, 2)))
        for decl in ("same", "dyn"):
            S.add("tensordot", (a, decl), lambda B, a=a, s=s, decl=decl: tf.tensordot(B.input(F, s[0], decl=decl), B.input(F, s[1], decl=decl), a), ops=OP3)
    S.add("tensordot3", (), lambda B: tf.tensordot(B.input(F, (2, 2, 3), decl=[None, None, 3]), tf.constant(const((3, 2))), [[2], [0]]), ops=OP3)
    S.add("cross", (), lambda B: tf.linalg.cross(B.input(F, (2, 3)), B.input(F, (2, 3))), ops=OP3)
    # ------------------------------------------------------------ Gemm fusion: alpha*A*B + beta*C
    for ta, tb in FL:
        for csh in ((2, 3), (3,), (1, 3), (2, 1), (1, 1), (1,), (), (1, 2, 3), (2, 2, 3), (1, 1, 1, 3)):
            for form in range(9):
                if form and (ta, tb) != (False, False) and form not in (1, 4):
                    continue
                for cc in (False, True):
                    if cc and form not in (0, 1, 4):
                        continue

                    def g(B, ta=ta, tb=tb, csh=csh, form=form, cc=cc):
                        mm = R.MatMul(a=B.input(F, tr((2, 2), ta)), b=B.input(F, tr((2, 3), tb)), transpose_a=ta, transpose_b=tb)
                        c = tf.constant(const(csh)) if cc else B.input(F, csh)
                        al, be = tf.constant(2.5), tf.constant(-0.5)
                        return [lambda: mm + c, lambda: al * mm + be * c, lambda: mm * al + c, lambda: mm + be * c, lambda: c + mm, lambda: c * be + mm * al,
                                lambda: (mm + c, mm * 2.), lambda: (al * mm + be * c, be * c), lambda: mm + c * tf.constant([0.5])][form]()
                    S.add("gemm", (ta, tb, csh, form, cc), g, ops=OP3, opt=None if form else None)
    for al in ([2.], [[2.]], [[2., 3., 4.]], [2., 3., 4.], 0., 1., -1., [[2.], [3.]]):
        for be in (1.5, [1.5], [1., 2., 3.], [[1.5]], [[1.], [2.]], 0.):
            S.add("gemmab", (al, be), lambda B, al=al, be=be: tf.constant(al, tf.float32) * R.MatMul(a=B.input(F, (2, 2)), b=B.input(F, (2, 3))) + tf.constant(be, tf.float32) * B.input(F, (2, 3)), ops=OP3)
            S.add("gemmab1", (al, be), lambda B, al=al, be=be: R.MatMul(a=B.input(F, (2, 2)), b=B.input(F, (2, 3))) * tf.constant(al, tf.float32) + B.input(F, (1,)) * tf.constant(be, tf.float32), ops=OP3)
    for dt in (F64, F16, I32):
        S.add("gemmdt", (nm(dt),), lambda B, dt=dt: tf.matmul(B.input(dt, (2, 2)), B.input(dt, (2, 3))) + B.input(dt, (3,)), ops=OP3)
        S.add("gemmdtab", (nm(dt),), lambda B, dt=dt: tf.constant(2, dt) * tf.matmul(B.input(dt, (2, 2)), B.input(dt, (2, 3))) + tf.constant(3, dt) * B.input(dt, (3,)), ops=OP3)
    S.add("gemmdyn", (), lambda B: tf.matmul(B.input(F, (2, 2), decl="dyn"), B.input(F, (2, 3), decl="dyn")) + B.input(F, (3,)), ops=OP3)
    S.add("gemmdyn2", (), lambda B: tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 3))) + B.input(F, (1, 3), decl="dyn"), ops=OP3)
    S.add("gemmdyn3", (), lambda B: tf.matmul(B.input(F, (2, 2), decl=[None, 2]), tf.constant(const((2, 3)))) + tf.constant(const((3,))), ops=OP3)
    S.add("gemmbig", (), lambda B: tf.matmul(B.input(F, (1, 2)), B.input(F, (2, 3))) + B.input(F, (2, 3)), ops=OP3)
    S.add("gemmbig1", (), lambda B: tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 1))) + B.input(F, (2, 3)), ops=OP3)
    S.add("gemm3d", (), lambda B: tf.matmul(B.input(F, (2, 2, 2)), B.input(F, (2, 2, 3))) + B.input(F, (3,)), ops=OP3)
    S.add("gemmbb", (), lambda B: tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 2))) + tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 2))), ops=OP3)
    S.add("gemmbb2", (), lambda B: (lambda m: m + m)(tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 2)))), ops=OP3)
    S.add("gemmbb3", (), lambda B: (lambda m: 2. * m + 3. * m)(tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 2)))), ops=OP3)
    S.add("gemmchain", (), lambda B: tf.nn.relu(tf.matmul(tf.nn.relu(tf.matmul(B.input(F, (2, 2)), tf.constant(const((2, 2)))) + tf.constant([1., -2.])), tf.constant(const((2, 3))))) + tf.constant([1., 2., 3.]), ops=OP3)
    S.add("gemmkeep", (), lambda B: (lambda m, c: (m + c, m, c))(tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 2))), B.input(F, (2,))), ops=OP3)
    # ------------------------------------------------------------ bias
    for sh, fmt in (((2, 3), "NHWC"), ((2, 3), "NCHW"), ((2, 2, 3), "NHWC"), ((2, 3, 2), "NCHW"), ((1, 2, 1, 3), "NHWC"), ((1, 3, 2, 1), "NCHW"), ((1, 3, 1, 2, 1), "NCHW"), ((1, 2, 1, 2, 3), "NHWC"), ((2, 3, 3), "NCHW"), ((1, 3, 3, 3), "NCHW")):
        for decl in ("same", "dyn", "rank"):
            for dt in (F, I32) if decl == "same" else (F,):
                S.add("bias", (sh, fmt, decl, nm(dt)), lambda B, sh=sh, fmt=fmt, decl=decl, dt=dt: R.BiasAdd(value=B.input(dt, sh, decl=decl), bias=B.input(dt, (3,)), data_format=fmt), ops=OP3)
        S.add("biasc", (sh, fmt), lambda B, sh=sh, fmt=fmt: (lambda b: (R.BiasAdd(value=B.input(F, sh), bias=b, data_format=fmt), b * B.input(F, (3,))))(tf.constant([1., -2., 3.])), ops=OP3)
        S.add("biasdyn", (sh, fmt), lambda B, sh=sh, fmt=fmt: R.BiasAdd(value=B.input(F, sh), bias=B.input(F, (3,), decl="dyn"), data_format=fmt), ops=OP3)
        if fmt == "NHWC":
            S.add("bias1", (sh,), lambda B, sh=sh: R.BiasAddV1(value=B.input(F, sh), bias=B.input(F, (3,))), ops=OP3)
    S.add("mmbias", (), lambda B: R.BiasAdd(value=tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 3))), bias=B.input(F, (3,))), ops=OP3)
    S.add("mmbiasc", (), lambda B: R.BiasAdd(value=tf.matmul(B.input(F, (2, 2)), B.input(F, (2, 3))), bias=B.input(F, (3,)), data_format="NCHW"), ops=OP3)
    S.add("mmbiassq", (), lambda B: R.BiasAdd(value=tf.matmul(B.input(F, (3, 2)), B.input(F, (2, 3))), bias=B.input(F, (3,)), data_format="NCHW"), ops=OP3)
    # ------------------------------------------------------------ einsum
    eqs = equations()
    for n, e in enumerate(eqs):
        if q and int(__import__("vf.tv", fromlist=["x"]).digest(e), 16) % 6:
            continue
        t1, t2 = e.split("->")[0].split(",")
        for c2 in (False, True):
            def es(B, e=e, t1=t1, t2=t2, c2=c2):
                s2 = [DIM[x] for x in t2]
                return R.Einsum(inputs=[B.input(F, [DIM[x] for x in t1]), tf.constant(const(s2)) if c2 else B.input(F, s2)], equation=e)
            S.add("ein", (e, c2), es, ops=OPE if not q else (OPE[n % 3],))
    for e in ("abc,cd->abd", "abc,dc->abd", "ab,cb->ac", "ab,bc->ac", "ab,bc->ca", "abc,cd->adb", "abc,bd->abd", "abc,bd->acd", "ab,ab->ab", "ab,ba->ab", "abcd,ed->abce", "abcd,de->abce", "abcd,de->abec",
              "ab,bc->bc", "abc,bc->abc", "abc,ca->abc", "ab,bb->ab", "abb,bc->abc", "aab,bc->aac", "aa->a", "aa->", "ab->ba", "ab->", "ab->b", "abc->cab", "aba->ab", "abb->a", "a,b->ab", "a,a->", ",ab->ab", "ab,c->abc", "ab,bc,cd->ad",
              "abhd,achd->ahbc", "ahbc,achd->abhd", "abc,abd->acd", "abc,bcd->ad", "abc,cbd->ad", "abc,bcd->abd", "ij,jk->ik", "ij,kj->ik", "ki,kj->ij", "iBD,Bj->iDj", "Ab,bC->AC", "Ab,bC->CA", "aA,Ab->ab", "aA,bA->ab", "AbB,Ba->Aba",
              "aA->Aa", "aA,aB->AB", "AA->A", "bij,bjk->bik", "bij,bkj->bik", "bhij,bhjk->bhik", "ab,cd->acbd"):
        ts = e.split("->")[0].split(",")
        sizes = {c: n for c, n in zip(sorted(set("".join(ts))), (2, 3, 2, 1, 2, 3))}
        for dt in (F,) if len(ts) != 2 or len(e) > 9 else (F, I32, F64):
            for decl in ("same", "dyn"):
                if decl == "dyn" and dt is not F:
                    continue
                S.add("einl", (e, nm(dt), decl), lambda B, ts=ts, e=e, dt=dt, decl=decl, sizes=sizes: R.Einsum(inputs=[B.input(dt, [sizes[x] for x in t], decl=decl) for t in ts], equation=e), ops=OPE)
            if len(ts) == 2:
                S.add("einlc", (e, nm(dt)), lambda B, ts=ts, e=e, dt=dt, sizes=sizes: R.Einsum(inputs=[B.input(dt, [sizes[x] for x in ts[0]]), tf.constant(const([sizes[x] for x in ts[1]], dt))], equation=e), ops=OPE)
    for e, shs in (("...ab,bc->...ac", ((2, 2, 3), (3, 2))), ("...ab,bc->...ac", ((2, 3), (3, 2))), ("...ab,...bc->...ac", ((2, 1, 3), (2, 3, 2))), ("...ab,...bc->...ac", ((2, 1, 3), (1, 3, 2))), ("ab...,b->a...", ((2, 3, 2), (3,))),
                   ("a...->...a", ((2, 3, 2),)), ("...aa->...a", ((2, 3, 3),)), ("...->...", ((2, 3),)), ("...a,...a->...", ((2, 3), (2, 3))), ("...a,ab->...b", ((3,), (3, 2))), ("...a,ab->b...", ((2, 3), (3, 2))), ("...A,Ab->...b", ((2, 3), (3, 2))),
                   ("...ab,cb->...ac", ((2, 2, 3), (2, 3))), ("...,ab->...ab", ((2,), (3, 2)))):
        S.add("eindot", (e, shs), lambda B, e=e, shs=shs: R.Einsum(inputs=[B.input(F, s) for s in shs], equation=e), ops=OPE)
        S.add("eindotc", (e, shs), lambda B, e=e, shs=shs: R.Einsum(inputs=[B.input(F, shs[0])] + [tf.constant(const(s)) for s in shs[1:]], equation=e), ops=OPE) if len(shs) > 1 else None
    for e, shs in (("ij,jk", ((2, 3), (3, 2))), ("ab,bc->ac", ((2, 3), (3, 2))), ("ba,bc", ((2, 3), (2, 2))), ("b,a", ((2,), (3,))), ("abc,cb", ((2, 3, 2), (2, 3))), ("ba", ((2, 3),)), ("ij,jk,kl->il", ((2, 3), (3, 2), (2, 2)))):
        S.add("tfein", (e, shs), lambda B, e=e, shs=shs: tf.einsum(e, *[B.input(F, s) for s in shs]), ops=OPE)
        S.add("tfeinc", (e, shs), lambda B, e=e, shs=shs: tf.einsum(e, B.input(F, shs[0]), *[tf.constant(const(s)) for s in shs[1:]]), ops=OPE)
    # ------------------------------------------------------------ determinant
    for sh in ((1, 1), (2, 2), (3, 3), (2, 2, 2)):
        S.add("det", (sh,), lambda B, sh=sh: tf.linalg.det(B.input(F, sh)), mn=11)
        S.add("detdyn", (sh,), lambda B, sh=sh: tf.linalg.det(B.input(F, sh, decl="dyn")), mn=11)
    # ------------------------------------------------------------ small programs
    def attention(B, scale=True, mask=False):
        qk = tf.matmul(B.input(F, (1, 2, 2, 2), "q"), B.input(F, (1, 2, 2, 2), "k"), transpose_b=True)
        if scale:
            qk = qk * 0.5
        if mask:
            qk = qk + (1.0 - B.input(F, (1, 1, 1, 2), "m")) * -8.0
        return tf.matmul(tf.nn.softmax(qk), B.input(F, (1, 2, 2, 2), "v"))
    S.add("attention", (0,), lambda B: attention(B, False), ops=OP3)
    S.add("attention", (1,), lambda B: attention(B, True, True), ops=OP3)
    S.add("quad", (), lambda B: (lambda x: tf.reduce_sum(x * tf.matmul(x, B.input(F, (2, 2)))))(B.input(F, (1, 2))), ops=OP3)
    S.add("gram", (), lambda B: (lambda x: tf.matmul(x, x, transpose_b=True))(B.input(F, (2, 3), decl="dyn")), ops=OP3)
    S.add("dense3d", (), lambda B: R.BiasAdd(value=tf.reshape(tf.matmul(tf.reshape(B.input(F, (2, 2, 3), decl=[None, 2, 3]), [-1, 3]), tf.constant(const((3, 2)))), [-1, 2, 2]), bias=tf.constant([1., 2.])), ops=OP3)
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL,
                    ["matrices up to 3x3, batch ranks 0-2, dims 0-3, every transpose/adjoint flag, static/dynamic/unknown-rank shapes",
                     "einsum: all two-operand equations over at most 4 labels with terms of rank <= 3 (quick: a sixth of them) plus listed ones with ellipsis, repeated and upper-case labels",
                     "Gemm fusion: every listed form, scale shape and addend shape", "opsets 9,13,18 (quick) or 9..18 (thorough); einsum from 12"],
                    ["onnx_opset.math.MatMul/Einsum/Det", "onnx_opset.nn.BiasAdd", "tf2onnx.rewriter.gemm_rewriter.rewrite_gemm", "tf2onnx.rewriter.* (other rewriters run on every program)"])
