"""Process set-up shared by every check: environment, quiet logging, z3 import from the tools venv."""
import os
import sys

os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")
os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1"))

if REPO not in sys.path:
    sys.path.insert(0, REPO)


def _import_z3():
    try:
        import z3  # noqa
        return
    except ImportError:
        pass
    import glob
    cand = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages"))
    if not cand:
        raise RuntimeError("z3 python bindings not found")
    sys.path.append(cand[-1])
    try:
        import z3  # noqa
    finally:
        sys.path.remove(cand[-1])


_import_z3()


def quiet():
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    for n in ("tf2onnx", "tensorflow", "absl"):
        lg = logging.getLogger(n)
        lg.setLevel(logging.CRITICAL + 1)
    logging.getLogger().setLevel(logging.CRITICAL)


def load_tf():
    """Import tensorflow and tf2onnx (from REPO) with the noise on fd 2 suppressed."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    save = os.dup(2)
    os.dup2(devnull, 2)
    try:
        import tensorflow as tf  # noqa
        import tf2onnx  # noqa
        import tf2onnx.tfonnx, tf2onnx.optimizer, tf2onnx.graph  # noqa
    finally:
        os.dup2(save, 2)
        os.close(save)
        os.close(devnull)
    quiet()
    import tf2onnx
    assert os.path.realpath(tf2onnx.__file__).startswith(os.path.realpath(REPO) + "/"), tf2onnx.__file__
    # the iteration order of sets of nodes is an unspecified schedule of the converter: make it a function of the program's key,
    # so that every run sees the same order for the same program and different programs see different orders
    tf2onnx.graph.Node.__hash__ = lambda self: hash((SCHED[0], self._op.name))


SCHED = [0]


def schedule(key):
    import hashlib
    import tf2onnx.utils
    h = int(hashlib.sha1(key.encode()).hexdigest()[:8], 16)
    SCHED[0] = h
    tf2onnx.utils.INTERNAL_NAME = 1 + h % 89
