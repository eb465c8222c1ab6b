"""Runs an ONNX graph through acetone (generated C and Python reference) in a scratch directory."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import traceback

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
import onnx
from onnx import TensorProto, helper
from onnx.reference import ReferenceEvaluator


def init(name, arr, ints=False):
    arr = np.asarray(arr)
    t = TensorProto.INT64 if ints else TensorProto.FLOAT
    return helper.make_tensor(name, t, arr.shape, arr.flatten().tolist())


def model(nodes, inits, ishape, oshape, opset=18):
    g = helper.make_graph(nodes, "g", [helper.make_tensor_value_info("x", TensorProto.FLOAT, ishape)],
                          [helper.make_tensor_value_info("y", TensorProto.FLOAT, oshape)], inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", opset)])
    m.ir_version = 8
    onnx.checker.check_model(m)
    return m


def run(m, x, conv="std_gemm_nn", optimization=False, keep=None, **kw):
    """(C output, python output)"""
    from acetone_nnet.cli.generate import cli_acetone
    d = tempfile.mkdtemp(prefix="demo")
    try:
        onnx.save(m, d + "/model.onnx")
        with open(d + "/data.txt", "w") as f:
            json.dump([float(v).hex() for v in np.float32(x).flatten()], f)
            f.write("\n")
        cli_acetone(model_file=d + "/model.onnx", function_name="inference", nb_tests=1, conv_algorithm=conv, output_dir=d + "/out",
                    test_dataset_file=d + "/data.txt", optimization=optimization, **kw)
        py = floats(d + "/out/output_python.txt")
        if keep:
            keep(d + "/out")
        r = subprocess.run(["make", "-C", d + "/out", "all"], capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[-1500:])
            return None, py
        r = subprocess.run([d + "/out/inference", d + "/out/c.txt"], capture_output=True, text=True, timeout=60)
        if r.returncode:
            print("inference exit", r.returncode)
            return None, py
        return floats(d + "/out/c.txt"), py
    finally:
        shutil.rmtree(d, ignore_errors=True)


def floats(p):
    with open(p) as f:
        return np.array([float.fromhex(w) for w in f.readline().split()])


def ref(m, x):
    return ReferenceEvaluator(m).run(None, {"x": np.float32(x)})[0].flatten()


def same(a, b, what):
    if a is None or len(a) != len(b) or not np.allclose(a, b, rtol=1e-4, atol=1e-5):
        print("MISMATCH", what, None if a is None else a[:12], b[:12])
        sys.exit(1)
    print("ok", what)
