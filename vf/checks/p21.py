"""P21 conditionals, while loops, tensor lists: functional (v2) control flow, and v1 control flow compared with its v2 counterpart."""
import itertools

import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P21"
run_job = V.run_job
R = tf.raw_ops
BOOL = np.bool_
CC = tf.compat.v1.while_loop


class flow1:
    """v1 control flow (Switch, Merge, Enter, ...) while a program is built"""

    def __enter__(self):
        tf.compat.v1.disable_control_flow_v2()

    def __exit__(self, *a):
        tf.compat.v1.enable_control_flow_v2()


def as_v1(build):
    def f(B):
        with flow1():
            return build(B)
    return f


def loop(c, b, v, **kw):
    return tf.while_loop(c, b, v, **kw)


def jobs(tier):
    S = Suite(tier, quick=(11, 13, 15, 18))
    q = tier == "quick"

    def add(fam, params, build, v1=True, ops=None, mn=9, **kw):
        S.add(fam, params, build, ops=ops, mn=mn, **kw)
        if v1:
            S.add("v1" + fam, params, as_v1(build), ops=ops or ((11, 15) if q else None), mn=mn, ref=build, **kw)
    # ------------------------------------------------------------ conditionals
    ARM = {
        "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "const": lambda x, y: tf.constant([2., 1., 3.]), "x": lambda x, y: tf.identity(x),
        "y": lambda x, y: y * 1.0, "sq": lambda x, y: tf.square(x) - x, "rev": lambda x, y: tf.reverse(y, [0]), "max": lambda x, y: tf.maximum(x, y)}
    PRED = {
        "lt": lambda x, y: x[0] < y[0], "any": lambda x, y: tf.reduce_any(x > y), "sum": lambda x, y: tf.reduce_sum(x) >= 1.0,
        "not": lambda x, y: tf.logical_not(x[1] < y[2]), "and": lambda x, y: tf.logical_and(x[0] < y[0], y[1] < x[2])}
    for a, b in itertools.permutations(ARM, 2):
        for p in PRED:
            if len(a + b + p) % (5 if q else 2):
                continue
            for pre in (0, 1):
                def f(B, a=a, b=b, p=p, pre=pre):
                    x, y = B.input(F, (3,)), B.input(F, (3,), "z")
                    if pre:
                        x, y = x + 1., y * 2.
                    return tf.cond(PRED[p](x, y), lambda: ARM[a](x, y), lambda: ARM[b](x, y))
                add("cond", (a, b, p, pre), f)

    def cond_of(fam, fn, v1=True, **kw):
        def f(B):
            x, y = B.input(F, (3,)), B.input(F, (3,), "z")
            p = B.input(BOOL, (), "p")
            return fn(x, y, p, B)
        add(fam, "", f, v1=v1, **kw)
    cond_of("condmulti", lambda x, y, p, B: tf.cond(p, lambda: [x, x + y], lambda: [y, x - y]))
    cond_of("condswap", lambda x, y, p, B: tf.cond(p, lambda: [tf.identity(x), tf.identity(y)], lambda: [tf.identity(y), tf.identity(x)]))
    cond_of("condsame", lambda x, y, p, B: tf.cond(p, lambda: [x * y, x * y], lambda: [x + 1., y + 1.]))
    cond_of("conddup", lambda x, y, p, B: (lambda t: tf.cond(p, lambda: [t, t], lambda: [t, x]))(x * y))
    cond_of("conddupin", lambda x, y, p, B: (lambda r: [r[0] + r[1], r[1]])(tf.cond(p, lambda: (lambda t: [t, t])(x * y), lambda: [x - y, x])))
    cond_of("condunused", lambda x, y, p, B: tf.cond(p, lambda: [x * 2., y], lambda: [y, x * 3.])[1])
    cond_of("condafter", lambda x, y, p, B: tf.cond(p, lambda: x * 2., lambda: y) + x)
    cond_of("condtypes", lambda x, y, p, B: tf.cond(p, lambda: [tf.cast(x, tf.int32), x > y, x], lambda: [tf.constant([1, 2, 3]), y > x, y]))
    cond_of("condconsts", lambda x, y, p, B: tf.cond(p, lambda: [tf.constant(1.5), tf.constant([1, 2])], lambda: [tf.constant(2.5), tf.constant([3, 2])]))
    cond_of("condpredout", lambda x, y, p, B: [tf.cond(p, lambda: x, lambda: y), tf.logical_not(p)])
    cond_of("condtwo", lambda x, y, p, B: tf.cond(p, lambda: x + 1., lambda: y) - tf.cond(tf.logical_not(p), lambda: x + 1., lambda: y * 2.))
    cond_of("condchain", lambda x, y, p, B: tf.cond(tf.reduce_sum(tf.cond(p, lambda: x, lambda: y)) > 1., lambda: x * y, lambda: y - x))
    cond_of("condnest", lambda x, y, p, B: tf.cond(p, lambda: tf.cond(x[0] > 0., lambda: x * 2., lambda: y * 3.), lambda: x - y))
    cond_of("condnest2", lambda x, y, p, B: tf.cond(p, lambda: x - y, lambda: tf.cond(y[1] > 0., lambda: x * 2., lambda: tf.cond(x[2] < y[2], lambda: x, lambda: y + 1.)) + y))
    cond_of("condnestmulti", lambda x, y, p, B: (lambda t: tf.cond(p, lambda: tf.cond(x[0] > 0., lambda: [t, x], lambda: [y, t]), lambda: [x - y, t + 1.]))(x * y))
    cond_of("condnestpred", lambda x, y, p, B: tf.cond(p, lambda: tf.cond(tf.logical_not(p), lambda: x, lambda: y + 5.), lambda: tf.cond(p, lambda: x, lambda: x * y)))
    cond_of("condshape", lambda x, y, p, B: tf.cond(p, lambda: tf.concat([x, y], 0), lambda: x))
    cond_of("condshape2", lambda x, y, p, B: tf.reduce_sum(tf.cond(p, lambda: tf.concat([x, y], 0), lambda: x[1:])))
    cond_of("condrt", lambda x, y, p, B: tf.cond(p, lambda: tf.shape(x[1:]), lambda: tf.shape(y)))
    cond_of("condcase", lambda x, y, p, B: tf.case([(x[0] < 0., lambda: x), (y[0] < 0., lambda: y * 2.)], default=lambda: x + y))
    cond_of("condcase3", lambda x, y, p, B: tf.case([(x[0] < y[0], lambda: x), (x[1] < y[1], lambda: y * 2.), (p, lambda: x * y)], default=lambda: x + y))
    cond_of("condconv", lambda x, y, p, B: tf.cond(p, lambda: tf.nn.relu(tf.matmul(x[None], tf.constant([[1.], [2.], [3.]]))), lambda: tf.reduce_max(y, keepdims=True)[None]))
    cond_of("condstrided", lambda x, y, p, B: tf.cond(p, lambda: x[::-1][:2], lambda: y[1:]))
    cond_of("condselect", lambda x, y, p, B: tf.cond(p, lambda: tf.where(x > y, x, y), lambda: tf.where(x < 0., y, x)))
    cond_of("condsplit", lambda x, y, p, B: tf.cond(p, lambda: tf.split(tf.concat([x, y], 0), 2), lambda: tf.unstack(tf.stack([y, x]))))

    def condin(B, dt, lo, hi):
        x = B.input(F, (2,))
        n = B.input(dt, (), "n", lo=lo, hi=hi)
        return tf.cond(n > 1, lambda: x + tf.cast(n, tf.float32), lambda: x * tf.cast(n - 1, tf.float32))
    for dt in (I32, I64):
        add("condint", np.dtype(dt).name, lambda B, dt=dt: condin(B, dt, -3, 3))
    for decl in ("dyn", "rank"):
        def f(B, decl=decl):
            x, y = B.input(F, (2, 2), decl=decl), B.input(F, (2, 2), "z", decl=decl)
            return tf.cond(x[0, 0] < y[0, 0] if decl == "dyn" else tf.reduce_sum(x) < 1., lambda: [x + y, tf.shape(x)], lambda: [tf.matmul(x, y), tf.shape(y)])
        add("conddecl", decl, f)

    # ------------------------------------------------------------ while loops
    def wl(fam, fn, v1=True, params="", hi=3, nd=I32, **kw):
        def f(B):
            x = B.input(F, (2,))
            n = B.input(nd, (), "n", lo=0, hi=hi)
            return fn(x, n, B)
        add(fam, params, f, v1=v1, **kw)
    i0 = lambda: tf.constant(0)
    wl("while", lambda x, n, B: loop(lambda i: i < n, lambda i: [i + 1], [i0()])[0:1])
    wl("whilesum", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, a * 2. + x], [i0(), x]))
    wl("whilefib", lambda x, n, B: loop(lambda i, a, b: i < n, lambda i, a, b: [i + 1, b, a + b], [i0(), x, x * 3.]))
    wl("whileswap", lambda x, n, B: loop(lambda i, a, b: i < n, lambda i, a, b: [i + 1, b, a], [i0(), x, x * 3.]))
    wl("whilerot", lambda x, n, B: loop(lambda i, a, b, c: i < n, lambda i, a, b, c: [i + 1, b, c, a], [i0(), x, x * 3., x + 1.]))
    wl("whilecopy", lambda x, n, B: loop(lambda i, a, b: i < n, lambda i, a, b: [i + 1, b, b], [i0(), x, x * 3.]))
    wl("whileinv", lambda x, n, B: loop(lambda i, a, b: i < n, lambda i, a, b: [i + 1, a * b, b], [i0(), x, x * 3.]))
    wl("whileinvin", lambda x, n, B: loop(lambda i, a, b: i < n, lambda i, a, b: [i + 1, a * b, b], [i0(), x, x]))
    wl("whileunused", lambda x, n, B: loop(lambda i, a, b: i < n, lambda i, a, b: [i + 1, a + b, b * 2.], [i0(), x, x])[1])
    wl("whilecap", lambda x, n, B: (lambda t: loop(lambda i, a: i < n, lambda i, a: [i + 1, a * t + x], [i0(), x]))(x * 2.))
    wl("whilecapc", lambda x, n, B: loop(lambda i, a: tf.logical_and(i < n, tf.reduce_sum(a) < x[0] + 5.), lambda i, a: [i + 1, a + 1.], [i0(), x]))
    wl("whilevar", lambda x, n, B: loop(lambda i, m: i < m, lambda i, m: [i + 1, m], [i0(), n]))
    wl("whiledown", lambda x, n, B: loop(lambda i, a: i > 0, lambda i, a: [i - 1, a + tf.cast(i, tf.float32)], [n, x]))
    wl("whilestep", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 2, a + tf.cast(i, tf.float32)], [tf.constant(-1), x]))
    wl("whileif", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, tf.cond(a[0] > a[1], lambda: a[::-1] + x, lambda: a * 2.)], [i0(), x]))
    wl("whileifc", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, tf.cond(tf.equal(i, 1), lambda: a * x, lambda: a + 1.)], [i0(), x]))
    wl("ifwhile", lambda x, n, B: tf.cond(x[0] > x[1], lambda: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + x], [i0(), x])[1], lambda: x))
    wl("ifwhile2", lambda x, n, B: tf.cond(x[0] > x[1], lambda: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + x], [i0(), x])[1],
                                           lambda: loop(lambda i, a: i < n + 1, lambda i, a: [i + 1, a * 2.], [i0(), x])[1]))
    wl("nest", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, loop(lambda j, b: j < i, lambda j, b: [j + 1, b + x], [i0(), a])[1] * 2.], [i0(), x]))
    wl("nestcap", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, loop(lambda j, b: j < n - i, lambda j, b: [j + 1, b + a * x], [i0(), a])[1]], [i0(), x]), hi=2)
    wl("seq", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + 1.], [i0(), loop(lambda i, a: i < n, lambda i, a: [i + 1, a * 2.], [i0(), x])[1]]))
    wl("seqi", lambda x, n, B: (lambda r: loop(lambda i, a: i < 5, lambda i, a: [i + 1, a + 1.], [r[0], r[1]]))(loop(lambda i, a: i < n, lambda i, a: [i + 1, a * 2.], [i0(), x])))
    wl("whilebool", lambda x, n, B: loop(lambda i, f, a: tf.logical_and(f, i < n), lambda i, f, a: [i + 1, a[0] < 4., a + 1.], [i0(), tf.constant(True), x]))
    wl("whileflag", lambda x, n, B: loop(lambda f, i, a: f, lambda f, i, a: [i + 1 < n, i + 1, a + 1.], [n > 0, i0(), x]))
    wl("whilei64", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + tf.cast(i, tf.float32)], [tf.constant(0, tf.int64), x]), nd=I64)
    wl("whileflt", lambda x, n, B: loop(lambda i, a: i < tf.cast(n, tf.float32), lambda i, a: [i + 1., a * i], [tf.constant(0.), x]))
    wl("whileuses", lambda x, n, B: (lambda r: [r[1] + tf.cast(r[0], tf.float32), r[0] + n])(loop(lambda i, a: i < n, lambda i, a: [i + 1, a + x], [i0(), x])))
    wl("whilenever", lambda x, n, B: loop(lambda i, a: i < n - 9, lambda i, a: [i + 1, a + x], [i0(), x]))
    wl("whilegrow", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, tf.concat([a, x], 0)], [i0(), x], shape_invariants=[tf.TensorShape([]), tf.TensorShape([None])]), v1=False)
    wl("whilegrow2", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, tf.concat([a, x[None]], 0)], [i0(), x[None]], shape_invariants=[tf.TensorShape([]), tf.TensorShape([None, 2])]), v1=False)
    wl("whileshape", lambda x, n, B: loop(lambda i, a: tf.shape(a)[0] < n, lambda i, a: [i + 1, tf.concat([a, x[:1]], 0)], [i0(), x], shape_invariants=[tf.TensorShape([]), tf.TensorShape([None])]), hi=5)
    wl("whileconst", lambda x, n, B: loop(lambda i, a, c: i < n, lambda i, a, c: [i + 1, a * c, tf.constant([5., 7.])], [i0(), x, tf.constant([2., 3.])]))
    wl("whilecall", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, tf.nn.relu(tf.matmul(a[None], tf.constant([[1., 2.], [0., -1.]]))[0])], [i0(), x]))
    wl("whilegather", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + tf.gather(tf.constant([1., 5., 3., 2.]), i)], [i0(), x]))
    wl("whileslice", lambda x, n, B: loop(lambda i, a: i < n, lambda i, a: [i + 1, a * tf.constant([[1., 5.], [3., 2.], [4., 4.]])[i]], [i0(), x]))
    for m in (0, 1, 2, 5):
        wl("maxit", lambda x, n, B, m=m: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + x], [i0(), x], maximum_iterations=m), v1=m != 0, params=str(m))
        wl("maxittrue", lambda x, n, B, m=m: loop(lambda i, a: tf.constant(True), lambda i, a: [i + 1, a + x], [i0(), x], maximum_iterations=m), params=str(m))
        wl("maxitnest", lambda x, n, B, m=m: loop(lambda i, a: i < n, lambda i, a: [i + 1, loop(lambda j, b: j < 3, lambda j, b: [j + 1, b + x], [i0(), a], maximum_iterations=m)[1]], [i0(), x]), params=str(m), hi=2)
    wl("maxitrt", lambda x, n, B: loop(lambda i, a: i < 2, lambda i, a: [i + 1, a + x], [i0(), x], maximum_iterations=n))
    wl("maxitrt2", lambda x, n, B: (lambda r: [r[1], r[0] + n])(loop(lambda i, a: a[0] < 9., lambda i, a: [i + 1, a + 2.], [i0(), x], maximum_iterations=n)))
    wl("maxitshared", lambda x, n, B: (lambda m: (lambda r: [r[1], r[0] + m])(loop(lambda i, a: i < n, lambda i, a: [i + 1, a + x], [i0(), x], maximum_iterations=m)))(tf.constant(2)))
    wl("maxitcap", lambda x, n, B: (lambda m: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + tf.cast(m, tf.float32)], [i0(), x], maximum_iterations=m))(tf.constant(2)))
    wl("maxitvar", lambda x, n, B: (lambda m: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + m], [i0(), m], maximum_iterations=m))(tf.constant(2)))
    wl("maxittwo", lambda x, n, B: (lambda m: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + 1.], [i0(), loop(lambda i, a: i < n, lambda i, a: [i + 1, a * 2.], [i0(), x], maximum_iterations=m)[1]],
                                                   maximum_iterations=m))(tf.constant(2)))
    wl("capsame", lambda x, n, B: (lambda t: loop(lambda i, a, b: i < n, lambda i, a, b: [i + 1, a + t, b * t], [i0(), t, t]))(x * 2.))
    wl("capinit", lambda x, n, B: (lambda c: loop(lambda i, a: i < n, lambda i, a: [i + 1, a * c], [i0(), c]))(tf.constant([2., 3.])))
    wl("capchg", lambda x, n, B: (lambda c: loop(lambda i, j: i < n, lambda i, j: [i + 1, j + c], [c, c]))(tf.constant(1)))
    wl("condcaps", lambda x, n, B: (lambda t: loop(lambda i, a: tf.reduce_sum(t) + tf.cast(i, tf.float32) < 3., lambda i, a: [i + 1, a * 2.], [i0(), x], maximum_iterations=3))(x * 2.))
    wl("condheavy", lambda x, n, B: loop(lambda i, a: tf.logical_and(tf.less(i, n), tf.logical_or(a[0] < 3., a[1] > 2.)), lambda i, a: [i + 1, a[::-1]], [i0(), x]))
    wl("condif", lambda x, n, B: loop(lambda i, a: tf.cond(a[0] > 0., lambda: i < n, lambda: i < 1), lambda i, a: [i + 1, a - 1.], [i0(), x]), v1=False)

    # ------------------------------------------------------------ tensor lists
    def ta(fam, fn, v1=True, params="", k=3, sh=(2,), nlo=0, dt=F, rt=False, **kw):
        def f(B):
            x = B.input(dt, (k,) + sh, decl="dyn" if rt else "same")
            n = B.input(I32, (), "n", lo=nlo, hi=k)
            return fn(x, n, B)
        add(fam, params, f, v1=v1, **kw)
    TA = tf.TensorArray
    SH = ((), (2,), (2, 1))

    def ta_out(x, n, size, dyn=False, w=lambda i, x: x[i] * 2., es=None, stop=None, at=lambda i: i, start=0, after=lambda t: t.stack(), **kw):
        t = TA(x.dtype, size=size, dynamic_size=dyn, element_shape=es, **kw)
        return after(loop(lambda i, t: i < (n if stop is None else stop), lambda i, t: [i + 1, t.write(at(i), w(i, x))], [tf.constant(start), t])[1])
    for sh in SH:
        ta("taw", lambda x, n, B: ta_out(x, n, n), sh=sh, params=str(sh), nlo=1)
        # no iteration at all: what a scan output without declared dimensions looks like then is up to the runtime, so v2 only
        ta("tawes", lambda x, n, B, sh=sh: ta_out(x, n, n, es=sh), sh=sh, params=str(sh), v1=False)
        ta("tawdyn", lambda x, n, B: ta_out(x, n, 0, True), sh=sh, params=str(sh), nlo=1)
        ta("tawfull", lambda x, n, B, sh=sh: ta_out(x, n, 3, stop=3), sh=sh, params=str(sh))
        ta("tawrt", lambda x, n, B, sh=sh: ta_out(x, n, tf.shape(x)[0], stop=tf.shape(x)[0]), sh=sh, params=str(sh), rt=True)
        ta("tareads", lambda x, n, B: (lambda t: loop(lambda i, a: i < n, lambda i, a: [i + 1, a + t.read(i)], [i0(), x[0]])[1])(TA(tf.float32, size=3).unstack(x)), sh=sh, params=str(sh))
        ta("tareadv", lambda x, n, B: loop(lambda i, a, t: i < n, lambda i, a, t: [i + 1, a + t.read(i), t], [i0(), x[0], TA(tf.float32, size=3).unstack(x)])[1], sh=sh, params=str(sh))
        ta("tareadrev", lambda x, n, B: (lambda t: loop(lambda i, a: i < n, lambda i, a: [i + 1, a * 2. + t.read(n - 1 - i)], [i0(), x[0]])[1])(TA(tf.float32, size=3).unstack(x)), sh=sh, params=str(sh))
        ta("tarw", lambda x, n, B: (lambda t: loop(lambda i, o: i < n, lambda i, o: [i + 1, o.write(i, t.read(i) * 3.)], [i0(), TA(tf.float32, size=n)])[1].stack())(TA(tf.float32, size=3).unstack(x)), sh=sh, params=str(sh), nlo=1)
        ta("tarwrev", lambda x, n, B: (lambda t: loop(lambda i, o: i < n, lambda i, o: [i + 1, o.write(i, t.read(n - i - 1) * 3.)], [i0(), TA(tf.float32, size=n)])[1].stack())(TA(tf.float32, size=3).unstack(x)), sh=sh, params=str(sh), nlo=1)
        ta("tascan", lambda x, n, B: tf.scan(lambda a, e: a * 2. + e, x), sh=sh, params=str(sh))
        ta("tascani", lambda x, n, B: tf.scan(lambda a, e: a * 2. + e, x, initializer=x[1]), sh=sh, params=str(sh))
        ta("tascanr", lambda x, n, B: tf.scan(lambda a, e: a * 2. + e, x, reverse=True, initializer=x[1]), sh=sh, params=str(sh))
        ta("tamap", lambda x, n, B: tf.map_fn(lambda e: e * e + 1., x), sh=sh, params=str(sh))
        ta("tamap2", lambda x, n, B: tf.map_fn(lambda e: (e[0] + e[1], e[0] > e[1]), (x, x * 2. + 1.), dtype=(tf.float32, tf.bool)), sh=sh, params=str(sh))
        ta("tamapcap", lambda x, n, B: tf.map_fn(lambda e: e * x[0] + tf.cast(n, tf.float32), x), sh=sh, params=str(sh))
        ta("tafold", lambda x, n, B: tf.foldl(lambda a, e: a * 2. + e, x), sh=sh, params=str(sh))
        ta("tafoldr", lambda x, n, B: tf.foldr(lambda a, e: a * 2. + e, x), sh=sh, params=str(sh))
    ta("taw2", lambda x, n, B: (lambda r: [r[1].stack(), r[2].stack()])(loop(lambda i, t, u: i < n, lambda i, t, u: [i + 1, t.write(i, x[i]), u.write(i, x[i, ::-1] * 2.)],
                                                                         [i0(), TA(tf.float32, size=n), TA(tf.float32, size=n)])), nlo=1)
    ta("taw2x", lambda x, n, B: (lambda r: [r[2].stack(), r[1].stack(), r[3]])(loop(lambda i, t, u, a: i < n, lambda i, t, u, a: [i + 1, t.write(i, a), u.write(i, i * 2), a + x[i]],
                                                                                [i0(), TA(tf.float32, size=n), TA(tf.int32, size=n), x[0]])), nlo=1)
    ta("tawmid", lambda x, n, B: (lambda r: [r[1], r[2].stack(), r[3]])(loop(lambda i, a, t, b: i < n, lambda i, a, t, b: [i + 1, a + b, t.write(i, a - b), b * 2.],
                                                                     [i0(), x[0], TA(tf.float32, size=n), x[1]])), nlo=1)
    ta("tawsame", lambda x, n, B: (lambda r: [r[1].stack(), r[2].stack()])(loop(lambda i, t, u: i < n, lambda i, t, u: (lambda e: [i + 1, t.write(i, e), u.write(i, e)])(x[i] * 2.),
                                                                            [i0(), TA(tf.float32, size=n), TA(tf.float32, size=n)])), nlo=1)
    ta("tawstate", lambda x, n, B: (lambda r: [r[1], r[2].stack()])(loop(lambda i, a, t: i < n, lambda i, a, t: (lambda s: [i + 1, s, t.write(i, s)])(a * 2. + x[i]),
                                                                     [i0(), x[0], TA(tf.float32, size=n)])), nlo=1)
    ta("tawold", lambda x, n, B: (lambda r: [r[1], r[2].stack()])(loop(lambda i, a, t: i < n, lambda i, a, t: [i + 1, a * 2. + x[i], t.write(i, a)],
                                                                   [i0(), x[0], TA(tf.float32, size=n)])), nlo=1)
    ta("tawi", lambda x, n, B: ta_out(x, n, n, w=lambda i, x: tf.cast(i, tf.float32)), nlo=1)
    ta("tawconst", lambda x, n, B: ta_out(x, n, n, w=lambda i, x: tf.constant([4., 2.])), nlo=1)
    ta("tawcap", lambda x, n, B: ta_out(x, n, n, w=lambda i, x: x[0]), nlo=1)
    ta("tawcond", lambda x, n, B: ta_out(x, n, n, w=lambda i, x: tf.cond(x[i, 0] > 0., lambda: x[i], lambda: -x[i])), nlo=1)
    ta("tawrowif", lambda x, n, B: ta_out(x, n, n, w=lambda i, x: tf.where(x[i] > 0., x[i], x[0])), nlo=1)
    ta("tawstop", lambda x, n, B: (lambda r: [r[1].stack()])(loop(lambda i, t: tf.logical_and(i < n, x[i % 3, 0] < 5.), lambda i, t: [i + 1, t.write(i, x[i])],
                                                              [i0(), TA(tf.float32, size=0, dynamic_size=True, element_shape=[2])])), v1=False)
    ta("tasize", lambda x, n, B: (lambda t: t.size())(TA(tf.float32, size=3).unstack(x)))
    ta("tagather", lambda x, n, B: ta_out(x, n, 3, stop=3, after=lambda t: t.gather([2, 0])))
    ta("taread", lambda x, n, B: ta_out(x, n, 3, stop=3, after=lambda t: t.read(1)))
    ta("taconcat", lambda x, n, B: ta_out(x, n, 3, stop=3, after=lambda t: t.concat()))
    ta("tastacksum", lambda x, n, B: ta_out(x, n, n, after=lambda t: tf.reduce_sum(t.stack(), 0)), nlo=1)
    ta("tastacktwice", lambda x, n, B: ta_out(x, n, n, after=lambda t: [t.stack(), t.stack() * 2.]), nlo=1)
    # writes that are not at the iteration number, arrays larger than the number of iterations
    ta("tawback", lambda x, n, B: ta_out(x, n, n, at=lambda i: n - 1 - i), nlo=1)
    ta("tawbackc", lambda x, n, B: ta_out(x, n, 3, stop=3, at=lambda i: 2 - i), nlo=1)
    ta("tawbig", lambda x, n, B: ta_out(x, n, 3, es=(2,)))
    ta("tawstart", lambda x, n, B: ta_out(x, n, n, start=1, es=(2,)), nlo=1)
    ta("tawoff", lambda x, n, B: ta_out(x, n, n, start=1, at=lambda i: i - 1, stop=n, es=(2,)), nlo=2)
    ta("tawdouble", lambda x, n, B: ta_out(x, n, n * 2, at=lambda i: i * 2, es=(2,)), nlo=1)
    ta("tawdownto", lambda x, n, B: (lambda r: r[1].stack())(loop(lambda i, t: i >= 0, lambda i, t: [i - 1, t.write(i, x[i])], [n - 1, TA(tf.float32, size=n)])), nlo=1)
    ta("tawtwice", lambda x, n, B: (lambda r: r[1].stack())(loop(lambda i, t: i < n, lambda i, t: [i + 1, t.write(i, x[i]).write(i, x[0])], [i0(), TA(tf.float32, size=n, clear_after_read=False)])), nlo=1, v1=False)
    ta("tanone", lambda x, n, B: (lambda r: r[1].stack())(loop(lambda i, t: i < n, lambda i, t: [i + 1, t], [i0(), TA(tf.float32, size=3).unstack(x)])))
    ta("tareadback", lambda x, n, B: (lambda r: r[1].stack())(loop(lambda i, t: i < 2, lambda i, t: [i + 1, t.write(i + 1, t.read(i) * 2.)],
                                                               [i0(), TA(tf.float32, size=3, clear_after_read=False).write(0, x[0])])), v1=False)
    ta("tanest", lambda x, n, B: loop(lambda i, t: i < n, lambda i, t: [i + 1, t.write(i, loop(lambda j, a: j < i, lambda j, a: [j + 1, a + x[j]], [i0(), x[0]])[1])],
                                      [i0(), TA(tf.float32, size=n)])[1].stack(), nlo=1)
    ta("tanestta", lambda x, n, B: loop(lambda i, t: i < n, lambda i, t: [i + 1, t.write(i, tf.reduce_sum(tf.map_fn(lambda e: e * x[i], x), 0))],
                                        [i0(), TA(tf.float32, size=n)])[1].stack(), nlo=1)
    ta("taif", lambda x, n, B: tf.cond(x[0, 0] > 0., lambda: tf.map_fn(lambda e: e * 2., x), lambda: x))
    # ------------------------------------------------------------ Range before it is an operator
    for o in (9, 10, 11):
        for dt in (I32, I64, F):
            for mode in ("limit", "all", "startc", "neg"):
                def f(B, dt=dt, mode=mode):
                    if dt is F:
                        c = lambda v, nm: B.input(F, (), nm, value=F(v))
                        return tf.range(c(0.5, "s"), c(3.25, "l"), c(0.5, "d")) if mode != "neg" else tf.range(c(3.5, "s"), c(-0.75, "l"), c(-1.25, "d"))
                    n = B.input(dt, (), "n", lo=-4, hi=4)
                    if mode == "limit":
                        return tf.range(n)
                    if mode == "neg":
                        return tf.range(tf.constant(2, dt), n, tf.constant(-1, dt))
                    if mode == "startc":
                        return tf.range(tf.constant(-1, dt), n, tf.constant(2, dt))
                    return tf.range(B.input(dt, (), "s", lo=-2, hi=2), n, B.input(dt, (), "d", lo=1, hi=3))
                S.add("range", (np.dtype(dt).name, mode), f, ops=(o,))
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL,
                    ["conditionals with every pair of 8 branch bodies and 5 predicates, nesting up to 3; while loops of 0-5 iterations whose trip count "
                     "and condition depend on run-time values, nesting up to 2; tensor lists of up to 3 elements of rank 0-2; Range before opset 11",
                     "v1 control flow (Switch/Merge/Enter/Exit) is compared with the functional form of the same program"],
                    ["tf2onnx.onnx_opset.controlflow", "tf2onnx.rewriter.cond_rewriter", "tf2onnx.rewriter.loop_rewriter",
                     "tf2onnx.rewriter.loop_rewriter_base", "tf2onnx.rewriter.custom_rnn_rewriter"])
