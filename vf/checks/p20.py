"""P20 recurrent cells: v1 loops, functional loops and layer-level steps, with look-alikes of every recognised cell."""
import itertools

import numpy as np
from ..conv import *  # noqa
from .. import conv, terms as T, tf_tv as V
from .p21 import flow1
import tensorflow as tf

PROP = "P20"


def run_job(job):
    T.OPAQUE_SIGMOID[0] = True
    return V.run_job(job)

RC = tf.compat.v1.nn.rnn_cell
BOOL = np.bool_


def W(*s, seed=0, dt=np.float32):
    """constant weights, all different in every gate"""
    n = int(np.prod(s))
    return tf.constant((((np.arange(n) * 5 + seed * 3) % 11 - 4).reshape(s) / 4.).astype(dt))


def _getter(getter=None, name=None, shape=None, dtype=None, **k):
    n = int(np.prod(shape))
    s = sum(map(ord, name)) % 5
    k["initializer"] = tf.constant_initializer(((np.arange(n) * 5 + s) % 11 - 4).reshape(shape) / 4.)
    return getter(name=name, shape=shape, dtype=dtype, **k)


def scope(name="r"):
    return tf.compat.v1.variable_scope(name, custom_getter=_getter)


def flat(s):
    return list(tf.nest.flatten(s))


def jobs(tier):
    S = Suite(tier, quick=(11, 15, 18), thorough=(10, 13, 15, 18))
    q = tier == "quick"
    from tf_keras.src import backend as KB

    def v1(fam, params, build, forms=("v1", "v2"), **kw):
        """a program of the v1 cell API, with v1 loops (compared with its functional form) and with functional loops"""
        def f(B):
            with scope():
                tf.compat.v1.get_variable_scope().set_use_resource(False)
                return build(B)

        def f2(B):
            # as a saved function: weights are read inside the body
            with scope():
                tf.compat.v1.get_variable_scope().set_use_resource(True)
                return build(B)

        def f1(B):
            with flow1():
                return f(B)
        if "v1" in forms:
            S.add("v1" + fam, params, f1, ref=f, **kw)
        if "v2" in forms:
            S.add("v2" + fam, params, f2, ops=(15,) if q else (11, 15), **kw)

    def h(*p):
        return sum(map(ord, ",".join(map(str, p))))
    # ------------------------------------------------------------ cells of the v1 API
    CELLS = {
        "lstm": lambda u: RC.LSTMCell(u), "lstmf0": lambda u: RC.LSTMCell(u, forget_bias=0.), "lstmf2": lambda u: RC.LSTMCell(u, forget_bias=2.5),
        "lstmrelu": lambda u: RC.LSTMCell(u, activation=tf.nn.relu), "lstmsig": lambda u: RC.LSTMCell(u, activation=tf.sigmoid),
        "lstmid": lambda u: RC.LSTMCell(u, activation=tf.identity),
        "lstmnt": lambda u: RC.LSTMCell(u, state_is_tuple=False), "lstmpeep": lambda u: RC.LSTMCell(u, use_peepholes=True),
        "lstmclip": lambda u: RC.LSTMCell(u, cell_clip=0.5), "lstmproj": lambda u: RC.LSTMCell(u, num_proj=1), "lstmprojc": lambda u: RC.LSTMCell(u, num_proj=2, proj_clip=0.5),
        "basic": lambda u: RC.BasicLSTMCell(u), "basicf": lambda u: RC.BasicLSTMCell(u, forget_bias=0.25), "basicrelu": lambda u: RC.BasicLSTMCell(u, activation=tf.nn.relu),
        "basicnt": lambda u: RC.BasicLSTMCell(u, state_is_tuple=False),
        "gru": lambda u: RC.GRUCell(u), "grurelu": lambda u: RC.GRUCell(u, activation=tf.nn.relu), "grusig": lambda u: RC.GRUCell(u, activation=tf.sigmoid),
        "gruelu": lambda u: RC.GRUCell(u, activation=tf.nn.elu), "gruid": lambda u: RC.GRUCell(u, activation=tf.identity),
        "rnn": lambda u: RC.BasicRNNCell(u), "rnnrelu": lambda u: RC.BasicRNNCell(u, activation=tf.nn.relu), "rnnsig": lambda u: RC.BasicRNNCell(u, activation=tf.sigmoid)}
    for c, (u, i), (b, t) in itertools.product(CELLS, ((2, 1), (1, 3), (2, 2)), ((1, 2), (2, 1), (2, 2), (1, 3))):
        if h(c, u, i, b, t) % (7 if q else 3):
            continue
        for seq, init, tm in itertools.product(("none", "const", "rt"), ("zero", "rt", "const"), (False, True)):
            if h(c, u, i, b, t, seq, init, tm) % (7 if q else 3):
                continue

            def f(B, c=c, u=u, i=i, b=b, t=t, seq=seq, init=init, tm=tm):
                x = B.input(F, (t, b, i) if tm else (b, t, i))
                cell = CELLS[c](u)
                kw = {}
                if seq == "const":
                    kw["sequence_length"] = tf.constant([t, max(t - 1, 1)][:b] if b > 1 else [t - 1 or t], tf.int32)
                elif seq == "rt":
                    kw["sequence_length"] = B.input(I32, (b,), "n", lo=1, hi=t, split=True)
                if init == "rt":
                    kw["initial_state"] = tf.nest.map_structure(lambda s: B.input(F, (b, s), "h"), cell.state_size)
                elif init == "const":
                    kw["initial_state"] = tf.nest.map_structure(lambda s: W(b, s, seed=2), cell.state_size)
                y, s = tf.compat.v1.nn.dynamic_rnn(cell, x, dtype=tf.float32, time_major=tm, **kw)
                return [y] + flat(s)
            v1(c, (u, i, b, t, seq, init, tm), f)

    def dyn(fam, fn, shape=(1, 2, 2), params="", decl="same", **kw):
        def f(B):
            x = B.input(F, shape, decl=decl)
            return fn(B, x)
        v1(fam, params, f, **kw)
    DR = tf.compat.v1.nn.dynamic_rnn
    for c in ("lstm", "basic", "gru", "rnn", "lstmnt"):
        dyn(c + "outonly", lambda B, x, c=c: DR(CELLS[c](2), x, dtype=tf.float32)[0])
        dyn(c + "stateonly", lambda B, x, c=c: flat(DR(CELLS[c](2), x, dtype=tf.float32)[1]))
        dyn(c + "last", lambda B, x, c=c: DR(CELLS[c](2), x, dtype=tf.float32)[0][:, -1])
        if c != "lstmnt":
            dyn(c + "statex", lambda B, x, c=c: (lambda y, s: [y * 2. + flat(s)[-1][:, None], flat(s)[0] - 1.])(*DR(CELLS[c](2), tf.nn.relu(x), dtype=tf.float32)))
        dyn(c + "dyn", lambda B, x, c=c: (lambda y, s: [y] + flat(s))(*DR(CELLS[c](2), tf.ensure_shape(x, [None, None, 2]), dtype=tf.float32)), decl="dyn")
        dyn(c + "dynt", lambda B, x, c=c: (lambda y, s: [y] + flat(s))(*DR(CELLS[c](2), x, dtype=tf.float32)), decl=[1, None, 2])
        dyn(c + "dynb", lambda B, x, c=c: (lambda y, s: [y] + flat(s))(*DR(CELLS[c](2), x, dtype=tf.float32)), decl=[None, 2, 2], shape=(2, 2, 2))
        dyn(c + "tr", lambda B, x, c=c: (lambda y, s: [tf.transpose(y, [1, 0, 2])] + flat(s))(*DR(CELLS[c](2), tf.transpose(x, [1, 0, 2]), dtype=tf.float32, time_major=True)))
        # two in a row, the same cell twice, state fed from the first into the second

        def two(B, x, c=c):
            y, s = DR(CELLS[c](2), x, dtype=tf.float32)
            with tf.compat.v1.variable_scope("second"):
                z, s2 = DR(CELLS[c](2), y, dtype=tf.float32)
            return [z] + flat(s2)
        dyn(c + "two", two)

        def chain(B, x, c=c):
            y, s = DR(CELLS[c](2), x, dtype=tf.float32)
            with tf.compat.v1.variable_scope("second"):
                z, s2 = DR(CELLS[c](2), x[:, ::-1], initial_state=s, dtype=tf.float32)
            return [z, y] + flat(s2)
        dyn(c + "chain", chain)

        def shared(B, x, c=c):
            cell = CELLS[c](2)
            y, s = DR(cell, x, dtype=tf.float32)
            z, s2 = DR(cell, y, dtype=tf.float32)
            return [z, y] + flat(s2)
        dyn(c + "shared", shared)

        def multi(B, x, c=c):
            y, s = DR(RC.MultiRNNCell([CELLS[c](2), CELLS[c](1)], **({"state_is_tuple": False} if c == "lstmnt" else {})), x, dtype=tf.float32)
            return [y] + flat(s)
        dyn(c + "multi", multi)
        class Scale(RC.RNNCell):
            """changes what goes into the cell or comes out of it"""

            def __init__(self, cell, kind):
                super().__init__()
                self.cell, self.kind = cell, kind
            state_size = property(lambda s: s.cell.state_size)
            output_size = property(lambda s: s.cell.output_size)

            def __call__(self, x, state, scope=None):
                if self.kind == "x":
                    x = x * 2.
                if self.kind == "s":
                    state = tf.nest.map_structure(lambda t: t * 0.5, state)
                y, s = self.cell(x, state)
                if self.kind == "y":
                    y = y * 2.
                if self.kind == "n":
                    s = tf.nest.map_structure(lambda t: t * 0.5, s)
                if self.kind == "h":
                    s = tf.nest.map_structure(lambda t: t * 1.0, s)
                if self.kind == "yx":
                    y = tf.nn.relu(y)
                return y, s
        for w in ("x", "s", "y", "n", "yx"):
            def scaled(B, x, c=c, w=w, Scale=Scale):
                y, s = DR(Scale(CELLS[c](2), w), x, dtype=tf.float32)
                return [y] + flat(s)
            dyn(c + "scale" + w, scaled)
        for w in ("res", "drop", "devnull"):
            def wrapped(B, x, c=c, w=w):
                cell = CELLS[c](2)
                cell = RC.ResidualWrapper(cell) if w == "res" else RC.DropoutWrapper(cell) if w == "drop" else RC.DeviceWrapper(cell, "/cpu:0")
                y, s = DR(cell, x, dtype=tf.float32)
                return [y] + flat(s)
            dyn(c + "wrap" + w, wrapped)
    # ------------------------------------------------------------ two directions
    BI = tf.compat.v1.nn.bidirectional_dynamic_rnn
    for c1, c2 in (("lstm", "lstm"), ("basic", "basic"), ("gru", "gru"), ("lstmnt", "lstmnt"), ("lstmf2", "lstmf0"), ("lstm", "gru"), ("rnn", "rnn"),
                   ("grurelu", "gru"), ("lstmrelu", "lstm")):
        for (b, t), seq, init, tm, use in itertools.product(((1, 2), (2, 2), (1, 3)), ("none", "rt"), ("zero", "rt"), (False, True),
                                                            ("all", "cat", "fw", "bw", "states", "swap", "sum")):
            if h(c1, c2, b, t, seq, init, tm, use) % (31 if q else 9):
                continue

            def f(B, c1=c1, c2=c2, b=b, t=t, seq=seq, init=init, tm=tm, use=use):
                x = B.input(F, (t, b, 2) if tm else (b, t, 2))
                fw, bw = CELLS[c1](2), CELLS[c2](2)
                kw = {}
                if seq == "rt":
                    kw["sequence_length"] = B.input(I32, (b,), "n", lo=1, hi=t, split=True)
                if init == "rt":
                    kw["initial_state_fw"] = tf.nest.map_structure(lambda s: B.input(F, (b, s), "h"), fw.state_size)
                    kw["initial_state_bw"] = tf.nest.map_structure(lambda s: B.input(F, (b, s), "g"), bw.state_size)
                y, s = BI(fw, bw, x, dtype=tf.float32, time_major=tm, **kw)
                a, z = flat(s[0]), flat(s[1])
                return {"all": list(y) + a + z, "cat": [tf.concat(y, 2)] + a, "fw": [y[0]] + z, "bw": [y[1]] + a, "states": a + z,
                        "swap": [tf.concat([y[1], y[0]], 2)] + z, "sum": [y[0] + y[1], a[0] - z[-1]]}[use]
            v1("bi" + c1 + "_" + c2, (b, t, seq, init, tm, use), f)
    for c in ("lstm", "gru", "basic"):
        # both directions with their own inputs or lengths: no single bidirectional node
        for kind in ("otherx", "otherlen", "onlyrev", "revtwice", "nounrev", "fwfw", "samecell", "twopairs"):
            def f(B, c=c, kind=kind):
                x, z = B.input(F, (1, 2, 2)), B.input(F, (1, 2, 2), "z")
                if kind == "twopairs":
                    o = []
                    for k, e in enumerate((x, z)):
                        with tf.compat.v1.variable_scope("p%d" % k):
                            y, s = BI(CELLS[c](2), CELLS[c](2), e, dtype=tf.float32)
                            o += [tf.concat(y, 2)] + flat(s)[:1]
                    return o
                r = tf.reverse(z if kind == "otherx" else x, [1])
                if kind in ("revtwice", "fwfw"):
                    r = tf.reverse(r, [1]) if kind == "revtwice" else x
                cell = CELLS[c](2)
                with tf.compat.v1.variable_scope("fw"):
                    y, s = DR(cell, x, dtype=tf.float32, sequence_length=[1] if kind == "otherlen" else None)
                with tf.compat.v1.variable_scope("bw"):
                    w, s2 = DR(cell if kind == "samecell" else CELLS[c](2), r, dtype=tf.float32)
                if kind not in ("nounrev",):
                    w = tf.reverse(w, [1])
                if kind == "onlyrev":
                    return [w] + flat(s2)
                return [tf.concat([y, w], 2)] + flat(s) + flat(s2)
            v1("bx" + c, kind, f)
        for axis in (0, 2):
            def f(B, c=c, axis=axis):
                x = B.input(F, (2, 2, 2))
                with tf.compat.v1.variable_scope("fw"):
                    y, s = DR(CELLS[c](2), x, dtype=tf.float32)
                with tf.compat.v1.variable_scope("bw"):
                    w, s2 = DR(CELLS[c](2), tf.reverse(x, [axis]), dtype=tf.float32)
                return [y, tf.reverse(w, [axis])] + flat(s) + flat(s2)
            v1("bxaxis" + c, (axis,), f)
    # ------------------------------------------------------------ steps of layer-level cells (functional loops)
    SIG, TANH, RELU = tf.sigmoid, tf.tanh, tf.nn.relu

    def hs(x):
        return tf.clip_by_value(0.2 * x + 0.5, 0., 1.)
    HS = {"std": hs, "slope": lambda x: tf.clip_by_value(0.25 * x + 0.5, 0., 1.), "shift": lambda x: tf.clip_by_value(0.2 * x + 0.25, 0., 1.),
          "min": lambda x: tf.clip_by_value(0.2 * x + 0.5, 0.25, 1.), "max": lambda x: tf.clip_by_value(0.2 * x + 0.5, 0., 2.),
          "kb": KB.hard_sigmoid}

    def lstm(fam, params="", order="ifco", fi=SIG, ff=SIG, fo=SIG, fg=TANH, fh=TANH, bias=True, new=None, out=None, kern="const", b=1, t=2, i=2, u=2, init="rt",
             ret="all", fb=None, seq=None, tr=lambda x: x, **rkw):
        def f(B):
            x = tr(B.input(F, (t, b, i) if rkw.get("time_major") else (b, t, i)))
            if init == "rt":
                h0, c0 = B.input(F, (b, u), "h"), B.input(F, (b, u), "c")
            else:
                h0, c0 = tf.zeros([b, u]), tf.zeros([b, u])
            k, rk, bb = W(i, 4 * u, seed=1), W(u, 4 * u, seed=2), W(4 * u, seed=3)
            if kern == "rt":
                k = B.input(F, (i, 4 * u), "k")
            if kern == "rtr":
                rk = B.input(F, (u, 4 * u), "k")
            if kern == "rtb":
                bb = B.input(F, (4 * u,), "k")

            def step(x, s):
                hm, cm = s
                if fb is None:
                    z = KB.dot(x, k) + KB.dot(hm, rk)
                    if bias:
                        z = KB.bias_add(z, bb)
                else:
                    z = tf.nn.bias_add(tf.matmul(tf.concat([x, hm], 1), tf.identity(W(i + u, 4 * u, seed=1))), tf.identity(bb))
                p = dict(zip(order, tf.split(z, 4, axis=1)))
                c = ff(p["f"] if fb is None else p["f"] + fb) * cm + fi(p["i"]) * fg(p["c"])
                hh = fo(p["o"]) * fh(c)
                st = [hh, c] if new is None else new(hh, c, hm, cm, x)
                return (hh if out is None else out(hh, c, hm, cm, x)), st
            kw = dict(rkw)
            if seq == "rt":
                kw["input_length"] = B.input(I32, (b,), "n", lo=1, hi=t, split=True)
            if seq == "mask":
                kw["mask"] = B.input(BOOL, (b, t), "m", split=True)
            last, ys, st = KB.rnn(step, x, [h0, c0], **kw)
            return {"all": [last, ys] + list(st), "ys": [ys], "last": [last], "st": list(st), "h": [st[0]], "c": [st[1]]}[ret]
        S.add(fam, params, f, ops=(15,) if q else (10, 15, 18))
    for bias, ret, init, tm in itertools.product((True, False), ("all", "ys", "last", "st", "h", "c"), ("rt", "zero"), (False, True)):
        if h(bias, ret, init, tm) % (3 if q else 1) == 0:
            lstm("klstm", (bias, ret, init, tm), bias=bias, ret=ret, init=init, time_major=tm)
    for b, t, i, u in itertools.product((1, 2), (1, 2, 3), (1, 2), (1, 2)):
        if (b, t, i, u) != (1, 2, 2, 2) and h(b, t, i, u) % (3 if q else 1) == 0:
            lstm("klstmsize", (b, t, i, u), b=b, t=t, i=i, u=u)
    A = {"sig": SIG, "tanh": TANH, "relu": RELU}
    for a1, a2, a3, a4, a5 in itertools.product(A, repeat=5):
        if h(a1, a2, a3, a4, a5) % (17 if q else 3) == 0 or (a1 == a2 == a3):
            lstm("klstmact", (a1, a2, a3, a4, a5), fi=A[a1], ff=A[a2], fo=A[a3], fg=A[a4], fh=A[a5])
    for v, f in HS.items():
        if v != "kb":
            lstm("klstmhs", (v, 1), fi=f, ff=f, fo=f)
            lstm("klstmhs", (v, 0), fi=f, ff=f, fo=f, bias=False)
        for k in ("fi", "ff", "fo"):
            lstm("klstmhsone", (v, k), **{**dict(fi=hs, ff=hs, fo=hs), k: f if v != "std" else SIG})
    for o in itertools.permutations("ifco"):
        lstm("klstmorder", ("".join(o),), order=o)
        if h(*o) % 3 == 0:
            lstm("klstmordernb", ("".join(o),), order=o, bias=False)
            lstm("tlstmorder", ("".join(o),), order=o, fb=1.5)
    lstm("tlstm", fb=1.5, order="icfo")
    lstm("tlstmone", fb=1., order="icfo", ret="st")
    NEW = {
        "swap": lambda hh, c, hm, cm, x: [c, hh], "hold": lambda hh, c, hm, cm, x: [hh, cm], "holdh": lambda hh, c, hm, cm, x: [hm, c],
        "zone": lambda hh, c, hm, cm, x: [0.5 * hh + 0.5 * hm, c], "zonec": lambda hh, c, hm, cm, x: [hh, 0.25 * c + 0.75 * cm], "resc": lambda hh, c, hm, cm, x: [hh, c + cm],
        "resh": lambda hh, c, hm, cm, x: [hh + hm, c], "clip": lambda hh, c, hm, cm, x: [hh, tf.clip_by_value(c, -0.5, 0.5)], "double": lambda hh, c, hm, cm, x: [hh, hh],
        "hx": lambda hh, c, hm, cm, x: [hh + x, c], "neg": lambda hh, c, hm, cm, x: [-hh, c],
        "same": lambda hh, c, hm, cm, x: [tf.identity(hh), tf.identity(c)]}
    OUT = {
        "c": lambda hh, c, hm, cm, x: c, "hm": lambda hh, c, hm, cm, x: hm, "cm": lambda hh, c, hm, cm, x: cm, "res": lambda hh, c, hm, cm, x: hh + x,
        "cat": lambda hh, c, hm, cm, x: tf.concat([hh, c], 1), "relu": lambda hh, c, hm, cm, x: tf.nn.relu(hh), "id": lambda hh, c, hm, cm, x: tf.identity(hh)}
    for order in ("ifco", "icfo"):
        kw = dict(order=order, fb=1.5) if order == "icfo" else {}
        for k, v in NEW.items():
            lstm(("t" if kw else "k") + "lstmnew", (k,), new=v, **kw)
        for k, v in OUT.items():
            lstm(("t" if kw else "k") + "lstmout", (k,), out=v, **kw)
    for gb, seq, unr, zo in itertools.product((False, True), (None, "rt", "mask"), (False, True), (False, True)):
        if seq != "mask" and zo:
            continue
        if unr and seq == "rt":
            continue
        for b, t in ((1, 2), (2, 2), (2, 1)):
            lstm("klstmmode", (gb, seq, unr, zo, b, t), go_backwards=gb, seq=seq, unroll=unr, zero_output_for_mask=zo, b=b, t=t)
    lstm("klstmlast", return_all_outputs=False)
    for k in ("rt", "rtr", "rtb"):
        lstm("klstmkern", (k,), kern=k)
    lstm("klstmsub", tr=lambda x: x[:, ::-1] * 2., t=3)
    lstm("klstmconst", init="zero", tr=lambda x: tf.nn.relu(x), ret="ys")

    def gru(fam, params="", order="zrh", fz=SIG, fr=SIG, fh=TANH, one=1., mix=None, new=None, out=None, cand=None, kern="const", b=1, t=2, i=2, u=2, init="rt", ret="all",
            seq=None, form="k", **rkw):
        def f(B):
            x = B.input(F, (t, b, i) if rkw.get("time_major") else (b, t, i))
            h0 = B.input(F, (b, u), "h") if init == "rt" else tf.zeros([b, u])
            k, rk, ib, rb = W(i, 3 * u, seed=1), W(u, 3 * u, seed=2), W(3 * u, seed=3), W(3 * u, seed=4)
            if kern == "rt":
                k = B.input(F, (i, 3 * u), "k")
            if kern == "rtr":
                rk = B.input(F, (u, 3 * u), "k")
            if kern == "rtb":
                rb = B.input(F, (3 * u,), "k")
            gk, gb, hk, hb = W(i + u, 2 * u, seed=5), W(2 * u, seed=6), W(i + u, u, seed=7), W(u, seed=8)

            def step(x, s):
                hm = s[0]
                if form == "k":
                    px = dict(zip(order, tf.split(KB.bias_add(KB.dot(x, k), ib), 3, axis=1)))
                    pr = dict(zip(order, tf.split(KB.bias_add(KB.dot(hm, rk), rb), 3, axis=1)))
                    z, r = fz(px["z"] + pr["z"]), fr(px["r"] + pr["r"])
                    hh = fh(px["h"] + r * pr["h"] if cand is None else cand(px, pr, r, z))
                else:
                    v = SIG(tf.nn.bias_add(tf.matmul(tf.concat([x, hm], 1), tf.identity(gk)), tf.identity(gb)))
                    p = dict(zip(order, tf.split(v, 2, axis=1)))
                    z, r = p["z"], p["r"]
                    hh = fh(tf.nn.bias_add(tf.matmul(tf.concat([x, r * hm], 1), tf.identity(hk)), tf.identity(hb)))
                n = z * hm + (one - z) * hh if mix is None else mix(z, hm, hh, r)
                return (n if out is None else out(n, hm, x)), [n if new is None else new(n, hm, x)]
            kw = dict(rkw)
            if seq == "rt":
                kw["input_length"] = B.input(I32, (b,), "n", lo=1, hi=t, split=True)
            if seq == "mask":
                kw["mask"] = B.input(BOOL, (b, t), "m", split=True)
            last, ys, st = KB.rnn(step, x, [h0], **kw)
            return {"all": [last, ys] + list(st), "ys": [ys], "last": [last], "st": list(st)}[ret]
        S.add(fam, params, f, ops=(15,) if q else (10, 15, 18))
    for form, od in (("k", "zrh"), ("t", "rz")):
        p = dict(form=form, order=od)
        n = form + "gru"
        for ret, init, tm in itertools.product(("all", "ys", "last", "st"), ("rt", "zero"), (False, True)):
            if h(ret, init, tm, form) % (3 if q else 1) == 0:
                gru(n, (ret, init, tm), ret=ret, init=init, time_major=tm, **p)
        for b, t, i, u in itertools.product((1, 2), (1, 2, 3), (1, 2), (1, 2)):
            if (b, t, i, u) != (1, 2, 2, 2) and h(b, t, i, u) % (3 if q else 1) == 0:
                gru(n + "size", (b, t, i, u), b=b, t=t, i=i, u=u, **p)
        for a in list(A) + ["soft", "elu"]:
            gru(n + "act", (a,), fh={**A, "soft": tf.nn.softsign, "elu": tf.nn.elu}[a], **p)
        for o in itertools.permutations(od):
            gru(n + "order", ("".join(o),), **{**p, "order": o})
        for v in (0., 2., -1., 0.5):
            gru(n + "one", (v,), one=v, **p)
        MIX = {"swap": lambda z, hm, hh, r: z * hh + (1. - z) * hm, "r": lambda z, hm, hh, r: z * hm + (1. - r) * hh, "rr": lambda z, hm, hh, r: r * hm + (1. - z) * hh,
               "commute": lambda z, hm, hh, r: (1. - z) * hh + z * hm, "commute2": lambda z, hm, hh, r: hh * (1. - z) + hm * z, "sub": lambda z, hm, hh, r: z * hm + (z - 1.) * hh,
               "noone": lambda z, hm, hh, r: z * hm + z * hh}
        for k, v in MIX.items():
            gru(n + "mix", (k,), mix=v, **p)
        for k, v in {"zone": lambda n, hm, x: 0.5 * n + 0.5 * hm, "res": lambda n, hm, x: n + hm, "hold": lambda n, hm, x: hm, "neg": lambda n, hm, x: -n, "x": lambda n, hm, x: n + x,
                     "id": lambda n, hm, x: tf.identity(n)}.items():
            gru(n + "new", (k,), new=v, **p)
            gru(n + "out", (k,), out=v, **p)
        for gb, seq, zo in itertools.product((False, True), (None, "rt", "mask"), (False, True)):
            if seq != "mask" and zo:
                continue
            for b, t in ((1, 2), (2, 2)):
                gru(n + "mode", (gb, seq, zo, b, t), go_backwards=gb, seq=seq, zero_output_for_mask=zo, b=b, t=t, **p)
        gru(n + "lastonly", return_all_outputs=False, **p)
    for k in ("rt", "rtr", "rtb"):
        gru("kgrukern", (k,), kern=k)
    for a, b in itertools.product(A, A):
        gru("kgrurec", (a, b), fz=A[a], fr=A[b])
    for k, v in {"nor": lambda px, pr, r, z: px["h"] + pr["h"], "z": lambda px, pr, r, z: px["h"] + z * pr["h"], "rx": lambda px, pr, r, z: r * px["h"] + pr["h"],
                 "commute": lambda px, pr, r, z: pr["h"] * r + px["h"], "cross": lambda px, pr, r, z: px["r"] + r * pr["h"], "cross2": lambda px, pr, r, z: px["h"] + r * pr["z"]}.items():
        gru("kgrucand", (k,), cand=v)

    # ------------------------------------------------------------ loops that only look like the whole sequence
    def wloop(fam, params, idx, stop, start, at=None, t=3, kind="lstm"):
        def f(B):
            u = 2
            x = B.input(F, (t, 1, 2))
            h0, c0 = B.input(F, (1, u), "h"), B.input(F, (1, u), "c")
            k, rk, bb = W(2, 4 * u, seed=1), W(u, 4 * u, seed=2), W(4 * u, seed=3)
            xs = tf.TensorArray(tf.float32, t, clear_after_read=False).unstack(x)
            ys = tf.TensorArray(tf.float32, t if at else stop - start, element_shape=[1, u])

            def body(i, ys, hm, cm):
                z = KB.bias_add(KB.dot(xs.read(idx(i)), k) + KB.dot(hm, rk), bb)
                z0, z1, z2, z3 = tf.split(z, 4, axis=1)
                c = SIG(z1) * cm + SIG(z0) * TANH(z2)
                hh = SIG(z3) * TANH(c)
                return i + 1, ys.write(at(i) if at else i - start, hh), hh, c
            r = tf.while_loop(lambda i, *a: i < stop, body, [tf.constant(start), ys, h0, c0])
            return [r[1].stack(), r[2], r[3]]
        S.add(fam, params, f, ops=(15,) if q else (10, 15, 18))
    wloop("wlstm", "plain", lambda i: i, 3, 0)
    wloop("wlstm", "short", lambda i: i, 2, 0)
    wloop("wlstm", "late", lambda i: i, 3, 1)
    wloop("wlstm", "back", lambda i: 2 - i, 3, 0)
    wloop("wlstm", "first", lambda i: tf.constant(0), 3, 0)
    wloop("wlstm", "mod", lambda i: (i + 1) % 3, 3, 0)
    wloop("wlstm", "none", lambda i: i, 0, 0)
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL,
                    ["cells: LSTM, GRU and plain RNN of 1-2 units, 1-3 inputs, 1-3 steps, batches of 1-2; constant weights different in every gate; "
                     "inputs, initial states, sequence lengths and masks are symbolic",
                     "sigmoid, tanh and the other activations are uninterpreted functions shared by both sides",
                     "v1 loops are compared with the functional form of the same program"],
                    ["tf2onnx.rewriter.lstm_rewriter", "tf2onnx.rewriter.gru_rewriter", "tf2onnx.rewriter.lstm_tf2_rewriter", "tf2onnx.rewriter.gru_tf2_rewriter",
                     "tf2onnx.rewriter.bilstm_rewriter", "tf2onnx.rewriter.bigru_rewriter", "tf2onnx.rewriter.unit_rnn_rewriter_base", "tf2onnx.rewriter.loop_rewriter_base",
                     "tf2onnx.rewriter.rnn_utils", "tf2onnx.rewriter.custom_rnn_rewriter", "tf2onnx.onnx_opset.rnn"])
