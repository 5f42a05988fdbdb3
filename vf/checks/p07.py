"""P07 the requested interface: which tensors are inputs and outputs, in which order, under which names, of which types and shapes."""
import itertools

import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P07"
run_job = V.run_job
R = tf.raw_ops


def W(*sh):
    n = int(np.prod(sh))
    return ((np.arange(n) * 7 + 3) % (2 * n + 1) - n).reshape(sh).astype(F) / 4


def rename(ren):
    """the same program under other names"""
    def nf(feeds):
        return {ren.get(k, k): v for k, v in feeds.items()}
    return nf, (lambda w: w), nf, (lambda w: w)


# outputs of (x, z) by name; each is a tensor the model can be asked for
OUTS = {
    "id": lambda x, z, n: tf.identity(x, name=n), "ididx": lambda x, z, n: tf.identity(tf.identity(tf.identity(x), name=n + "in"), name=n),
    "neg": lambda x, z, n: tf.negative(x, name=n), "add": lambda x, z, n: tf.add(x, z, name=n), "const": lambda x, z, n: tf.constant(W(2, 3), name=n),
    "tr": lambda x, z, n: tf.transpose(x, [1, 0], name=n), "trtr": lambda x, z, n: tf.transpose(tf.transpose(x, [1, 0]), [1, 0], name=n),
    "rs": lambda x, z, n: tf.reshape(x, [3, 2], name=n), "rsid": lambda x, z, n: tf.reshape(x, [2, 3], name=n), "shape": lambda x, z, n: tf.shape(x, name=n),
    "cast": lambda x, z, n: tf.cast(x, tf.int32, name=n), "castid": lambda x, z, n: R.Cast(x=x, DstT=tf.float32, name=n), "max": lambda x, z, n: tf.reduce_max(x, name=n),
    "fold": lambda x, z, n: tf.add(tf.constant(W(2, 3)), 1., name=n), "stop": lambda x, z, n: tf.stop_gradient(x, name=n), "top": lambda x, z, n: tf.nn.top_k(x, 2, name=n)[1],
    "split": lambda x, z, n: tf.split(x, 3, axis=1, name=n)[2], "mm": lambda x, z, n: tf.matmul(x, z, transpose_b=True, name=n), "gt": lambda x, z, n: tf.greater(x, z, name=n),
    "sq": lambda x, z, n: tf.squeeze(tf.expand_dims(x, 0), [0], name=n), "cond": lambda x, z, n: tf.identity(tf.cond(tf.reduce_max(x) > 0., lambda: x + z, lambda: x), name=n),
    "pad0": lambda x, z, n: tf.pad(x, [[0, 0], [0, 0]], name=n), "tile1": lambda x, z, n: tf.tile(x, [1, 1], name=n), "slice0": lambda x, z, n: tf.slice(x, [0, 0], [-1, -1], name=n),
    "cat1": lambda x, z, n: R.ConcatV2(values=[x, x], axis=0, name=n), "addn1": lambda x, z, n: tf.add_n([x, z], name=n), "mul1": lambda x, z, n: tf.multiply(x, 1., name=n)}


def jobs(tier):
    S = Suite(tier, quick=(9, 15, 18), thorough=(9, 11, 13, 16, 18))
    q = tier == "quick"

    def h(*p):
        return sum(map(ord, ",".join(map(str, p))))

    def add(fam, params, build, **kw):
        S.add(fam, params, build, **kw)
    DECL = {"st": "same", "dyn": "dyn", "b": [None, 3], "l": [2, None]}
    # one, two and three outputs from the list, in any order, with and without an operator between
    for a in OUTS:
        for dn, d in DECL.items():
            add("one", (a, dn), lambda B, a=a, d=d: B.raw_out(OUTS[a](B.input(F, (2, 3), decl=d), B.input(F, (2, 3), "z", decl=d), "y")))
        add("oneid", (a,), lambda B, a=a: B.raw_out(tf.identity(OUTS[a](B.input(F, (2, 3)), B.input(F, (2, 3), "z"), "t"), name="y")))
        # the output feeds other operators and another output
        add("used", (a,), lambda B, a=a: (lambda t: [B.raw_out(t), B.raw_out(tf.cast(t, tf.float32, name="c")), B.raw_out(tf.reduce_max(tf.cast(t, tf.float32), name="m"))])(
            OUTS[a](B.input(F, (2, 3)), B.input(F, (2, 3), "z"), "y")))
        # the same computation twice under two names
        add("twice", (a,), lambda B, a=a: (lambda x, z: [B.raw_out(OUTS[a](x, z, "y")), B.raw_out(OUTS[a](x, z, "yy"))])(B.input(F, (2, 3)), B.input(F, (2, 3), "z")))
    for n, (a, b) in enumerate(itertools.product(OUTS, repeat=2)):
        if a == b or (q and n % 4):
            continue
        for dn in ("st", "dyn") if not q else (("st", "dyn")[h(a, b) % 2],):
            add("two", (a, b, dn), lambda B, a=a, b=b, dn=dn: (lambda x, z: [B.raw_out(OUTS[k](x, z, nm)) for k, nm in ((a, "y"), (b, "w"))])(
                B.input(F, (2, 3), decl=DECL[dn]), B.input(F, (2, 3), "z", decl=DECL[dn])))
    # chains: the output of one is the input of the next, all of them requested in another order
    SAME = [a for a in OUTS if a in ("id", "ididx", "neg", "add", "trtr", "rsid", "stop", "sq", "cond", "pad0", "tile1", "slice0", "mul1", "addn1", "castid")]
    for n, c in enumerate(itertools.permutations(SAME, 3)):
        if n % (97 if q else 29):
            continue
        for o in ((0, 1, 2), (2, 0, 1), (1, 2), (2,), (1,)):
            def f(B, c=c, o=o):
                x, z = B.input(F, (2, 3)), B.input(F, (2, 3), "z")
                ts = []
                t = x
                for i, k in enumerate(c):
                    t = OUTS[k](t, z, "t%d" % i)
                    ts.append(t)
                for i in o:
                    B.raw_out(ts[i])
            add("chain", (c, o), f)
    # inputs that are outputs, inputs nobody uses, the same input in several outputs, order of the inputs
    def io(B, order, unused, direct, dt):
        ins = [B.input(dt, (2, 3), nm) for nm in ("b", "a", "c")]
        y = tf.add(ins[0], ins[1 if unused else 2], name="y")
        w = tf.subtract(ins[1], ins[0], name="w")
        if direct:
            B.raw_out(ins[0])
        B.raw_out(y)
        if not unused:
            B.raw_out(w)
        if direct:
            B.raw_out(ins[1])
        B.ins = [B.ins[i] for i in order]
        B.specs = [B.specs[i] for i in order]
    for order in itertools.permutations(range(3)):
        for unused, direct, dt in itertools.product((0, 1), (0, 1), (F, I32, I64, F64)):
            if q and h(order, unused, direct, dt) % 3:
                continue
            add("inputs", ("".join(map(str, order)), unused, direct, np.dtype(dt).name), lambda B, p=(order, unused, direct, dt): io(B, *p))
    for dt in (F, I32, I64, U8, I8, F64, np.float16, np.bool_, np.uint16, np.int16, np.uint32, np.uint64):
        add("dtype", (np.dtype(dt).name,), lambda B, dt=dt: B.raw_out(tf.reshape(tf.concat([B.input(dt, (2, 2)), B.input(dt, (1, 2), "z")], 0), [-1], name="y")))
        add("dtypeio", (np.dtype(dt).name,), lambda B, dt=dt: B.raw_out(tf.identity(B.input(dt, (2, 2)), name="y")))
    # tensors inside the graph requested as inputs: what feeds them is not needed
    def inner(B, kind, keep, both, tail):
        x = tf.compat.v1.placeholder(tf.float32, [2, 3], name="x")
        if keep:
            B.specs.append(conv.V.Spec("x:0", F, (2, 3)))
            B.ins.append(x)
        t = {"relu": lambda: tf.nn.relu(x, name="t"), "id": lambda: tf.identity(x, name="t"),
             "split": lambda: tf.split(tf.concat([x, x], 1), 2, axis=1, name="t")[1], "topk": lambda: tf.nn.top_k(x, 3, name="t")[0],
             "bad": lambda: tf.cast(R.StringToNumber(string_tensor=R.AsString(input=x)), tf.float32, name="t"),
             "tr": lambda: tf.transpose(tf.zeros([3, 2]) + x[0, 0], name="t"), "add": lambda: tf.add(x, 1., name="t")}[kind]()
        B.feed(t)
        u = tf.multiply(t, 2., name="u")
        if both:
            B.feed(u)
        y = tf.add(u, t if not keep else x, name="y") if tail else tf.exp(u, name="y")
        B.raw_out(y)
    for kind, keep, both, tail in itertools.product(("relu", "id", "split", "topk", "bad", "tr", "add"), (0, 1), (0, 1), (0, 1)):
        if keep and not tail:
            continue
        add("inner", (kind, keep, both, tail), lambda B, p=(kind, keep, both, tail): inner(B, *p))
    # names: numbered ports, scopes, names that look like the ones the converter makes
    NAMES = ["y", "Identity", "y_raw_output_", "a/b/y", "a.b", "x_1", "const_fold_opt__1", "Transpose__1", "Add__10", "y__3"]
    for n, m in itertools.product(NAMES, ("y", "a/y", "Cast__4", "Reshape__3")):
        if n == m or (q and h(n, m) % 2):
            continue

        def f(B, n=n, m=m):
            x = B.input(F, (2, 3), "in/x")
            t = tf.transpose(tf.reshape(x, [3, 2]), [1, 0], name=n)
            B.raw_out(t)
            B.raw_out(tf.cast(tf.reshape(t, [-1]) > 0., tf.float32, name=m))
            B.raw_out(tf.argmax(t, 1, output_type=tf.int32, name=m + "_arg"))
        add("names", (n, m), f)
    # several outputs of one operator, in any order and number
    for sel in itertools.chain(itertools.permutations(range(3), 1), itertools.permutations(range(3), 2), itertools.permutations(range(3), 3)):
        for kind in ("split", "unstack", "splitv", "unique", "topk", "moments"):
            def f(B, sel=sel, kind=kind):
                x = B.input(F, (3, 3))
                o = {"split": lambda: tf.split(x, 3, 0, name="o"), "unstack": lambda: tf.unstack(x, 3, 1, name="o"), "splitv": lambda: tf.split(x, [1, 0, 2], 1, name="o"),
                     "unique": lambda: list(R.Unique(x=tf.constant([1, 2, 1, 3]), name="o")) + [tf.negative(x, name="n")], "topk": lambda: list(tf.nn.top_k(x, 2, name="o")) + [x],
                     "moments": lambda: [x, tf.reduce_mean(x, 0, name="o"), tf.reduce_sum(x, name="p")]}[kind]()
                for i in sel:
                    B.raw_out(o[i])
            add("multi", (kind, "".join(map(str, sel))), f, mn=11 if kind == "unique" else 9)
    # names given by the caller
    for a in OUTS:
        for ren in ({"x:0": "input", "z:0": "other", "y:0": "output"}, {"x:0": "y:0", "y:0": "x:0"}, {"y:0": "result/out:7"}, {"z:0": "x", "x:0": "z"}):
            if q and h(a, ren) % 3:
                continue

            def f(B, a=a):
                B.raw_out(OUTS[a](B.input(F, (2, 3)), B.input(F, (2, 3), "z"), "y"))
            add("rename", (a, "+".join(ren.values())), f, convert={"tensors_to_rename": ren}, adapt=rename(ren))
    # declared shapes overridden by the caller
    for a in OUTS:
        for sh in ([2, 3], [None, 3], [2, None], [None, None]):
            for d in ("dyn", "st") if sh != [2, 3] else ("dyn",):
                if d == "st" or (q and h(a, sh) % 2):
                    continue
                add("override", (a, sh, d), lambda B, a=a, d=d: B.raw_out(OUTS[a](B.input(F, (2, 3), decl=DECL[d]), B.input(F, (2, 3), "z", decl=DECL[d]), "y")),
                    convert={"shape_override": {"x:0": sh, "z:0": [2, 3]}})
    # inputs with a default
    for use, a in itertools.product((0, 1), ("id", "neg", "add", "tr", "mm")):
        def f(B, use=use, a=a):
            z = B.input(F, (2, 3), "z")
            x = tf.compat.v1.placeholder_with_default(W(2, 3), [2, 3], name="x")
            if not use:
                B.feed(x)
            B.raw_out(OUTS[a](x, z, "y"))
        add("default", (use, a), f, opt=None, convert={"use_default" if use else "ignore_default": ["x"]})
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL + "; names, order, element types and declared dimensions of the converted model are compared with "
                    "the request, declared dimensions with the shapes of every symbolic run",
                    ["(2,3) and (3,3) inputs, static, partly and fully unknown dims", "one to three outputs of 27 kinds, chains of three, inner tensors as inputs, "
                     "renamed tensors, overridden shapes, inputs with defaults", "opsets 9,15,18 (quick) or 9,11,13,16,18 (thorough)"],
                    ["tf2onnx.tfonnx.process_tf_graph", "tf2onnx.tfonnx.process_graphs", "tf2onnx.tfonnx.process_parsed_graph", "tf2onnx.tfonnx.rename_tensors_in_dict",
                     "tf2onnx.graph.Graph.__init__", "tf2onnx.graph.Graph.make_graph", "tf2onnx.optimizer (mode o/g)"])
