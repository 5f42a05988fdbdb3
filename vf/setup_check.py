"""setup: nothing is built ahead of time (every check re-imports /repo's current source); only check the tools are there"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env  # noqa
import z3
import onnx
import onnxruntime
print("z3", z3.get_version_string(), "onnx", onnx.__version__, "onnxruntime", onnxruntime.__version__, "ok")
