"""developer tool: mkseed.mk(id, property, [(file, old, new)...], needs, breaks, demo_python) writes seeded/<id>"""
import json, os, subprocess, shutil, tempfile

V = "/verif/seeded/"
HEAD = '''import os, sys
os.environ.setdefault("TF_USE_LEGACY_KERAS", "1"); os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
sys.path.insert(0, os.getcwd())
import numpy as np, onnx, onnxruntime as ort
from onnx import helper, TensorProto, numpy_helper
ort.set_default_logger_severity(4)


def run(model, feeds):
    s = ort.SessionOptions(); s.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    return ort.InferenceSession(model.SerializeToString(), s, providers=["CPUExecutionProvider"]).run(None, feeds)


def same(a, b):
    return len(a) == len(b) and all(np.asarray(x).shape == np.asarray(y).shape and np.asarray(x).dtype == np.asarray(y).dtype
                                    and np.allclose(np.asarray(x, np.float64), np.asarray(y, np.float64), rtol=1e-4, atol=1e-4, equal_nan=True) for x, y in zip(a, b))


def opt_same(model, feeds):
    """optimising must not change the results"""
    from tf2onnx.graph import GraphUtil
    want = run(model, feeds)
    got = run(GraphUtil.optimize_model_proto(model), feeds)
    print(want, got)
    return same(want, got)


def conv_same(fn, specs, feeds, opset=18, **kw):
    """converting a TF function must not change the results"""
    import tensorflow as tf, tf2onnx
    f = tf.function(fn, input_signature=specs)
    want = f(*feeds)
    want = [np.asarray(w) for w in (want if isinstance(want, (list, tuple)) else [want])]
    m, _ = tf2onnx.convert.from_function(f, specs, opset=opset, **kw)
    got = run(m, {i.name: np.asarray(v) for i, v in zip(m.graph.input, feeds)})
    print(want, got)
    return same(want, got)


def model(nodes, ins, outs, inits=(), opset=18):
    g = helper.make_graph(nodes, "g", [helper.make_tensor_value_info(n, t, s) for n, t, s in ins],
                          [helper.make_tensor_value_info(n, t, s) for n, t, s in outs],
                          [numpy_helper.from_array(np.asarray(v), n) for n, v in inits])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", opset)], producer_name="demo")
    m.ir_version = 8
    return m


F = TensorProto.FLOAT
R = lambda *s: np.random.RandomState(0).randn(*s).astype(np.float32)


'''


def mk(sid, prop, edits, needs, breaks, demo):
    d = V + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A -f . && git -c user.name=a -c user.email=a@b commit -qm x" % (t, t), shell=True)
    for f, a, b in edits:
        p = t + "/tf2onnx/" + f
        s = open(p).read()
        assert s.count(a) == 1, (sid, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", t, "diff"], text=True))
    shutil.rmtree(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(HEAD + demo.strip("\n") + "\n\nprint('ok' if OK else 'WRONG')\nsys.exit(0 if OK else 1)\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
