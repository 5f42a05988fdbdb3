"""Shared scaffolding of the conversion checks: program registration, runs, evidence text."""
from . import tf_tv as V
from . import tv
from .report import Report
import numpy as np

F = np.float32
F64 = np.float64
I32 = np.int32
I64 = np.int64
I8, U8, I16, U16, U32 = np.int8, np.uint8, np.int16, np.uint16, np.uint32
Q_OPS = (9, 11, 13, 15, 18)
T_OPS = tuple(range(9, 19))


class Suite:
    """programs of one property; key = family|opset|mode|parameters"""

    def __init__(self, tier, quick=Q_OPS, thorough=T_OPS):
        self.tier, self.jobs, self.quick, self.thorough = tier, [], quick, thorough
        self.keys = set()

    def add(self, fam, params, build, ops=None, mn=9, opt=None, deep=False, **kw):
        """ops: explicit opsets, else the tier's list from mn on; opt None: unoptimised plus a rotating optimised sample"""
        if deep and self.tier == "quick":
            return
        lst = ops or [o for o in (self.quick if self.tier == "quick" else self.thorough) if o >= mn]
        if not isinstance(params, str):
            params = ",".join(str(p) for p in params)
        h = int(tv.digest(fam + params), 16)
        for n, o in enumerate(lst):
            if opt is None:
                if self.tier == "quick":
                    modes = ["o"] if (h + n) % 3 == 0 else ["n"]
                    if (h // 7 + n) % 11 == 0:
                        modes = ["g"]
                else:
                    modes = ["n", "o"] + (["g"] if (h + n) % 4 == 0 else [])
            else:
                modes = [opt]
            for md in modes:
                key = "%s|op%d|%s|%s" % (fam, o, md, params)
                while key in self.keys:
                    key += "'"
                self.keys.add(key)
                self.jobs.append(V.Job(key, build, opset=o, opt=md in "og", grappler=md == "g", **kw))


ASSUME = ["float arithmetic is exact real arithmetic (rounding, overflow and NaN propagation from runtime values are outside)",
          "transcendental functions are uninterpreted, shared by both sides, with sign/range/monotonicity axioms",
          "the TensorFlow and ONNX operator semantics are the evaluators in vf/tfsym.py and vf/onnxsym.py, cross-validated "
          "against TensorFlow and onnxruntime on a sample of the programs in every run; violations are replayed on both"]


def run(prop, tier, js, run_job, explanation, bounds, funcs, extra_ok=None):
    rep = Report(prop, tier, "translation_validation")
    outs, st = tv.run_jobs(js, run_job)
    n0 = len(outs)
    outs = [o for o in outs if not getattr(o, "skip", False)]
    rep.add(outs, st)
    rep.functions |= set(funcs)
    rep.bounds += bounds
    rep.assumptions += ASSUME
    return rep.finish(explanation, {"programs_tensorflow_rejects": n0 - len(outs)})


EXPL = ("each program (a TensorFlow graph) is converted by the real converter from /repo; the TensorFlow graph and the produced "
        "ONNX model are executed symbolically and z3 decides equality of every output element for all runtime values, on every "
        "path of data-dependent shapes and branches; counterexamples are replayed on TensorFlow and onnxruntime")
