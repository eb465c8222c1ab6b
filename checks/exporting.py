"""C17: the ONNX model that is exported for a network says what the network computes."""
from __future__ import annotations

import math
import os

from sa import emit as E
from sa import graphs as GR
from sa import onnxmodel as OM
from sa import onnxsem as OS
from sa import terms as T
from sa.interp import HObj, Raised
from sa.kerasmodel import Val
from sa.ndarr import Imprecise
from sa.nodes import NONE, N, const, mk, show

from . import emission as EM
from . import endtoend as EE
from . import formats as F

MODULE = "acetone_nnet.exporters.ONNX_exporter.exporter_onnx"
TYPES = {"float32": 1, "float64": 11, "int32": 6, "int64": 7}
ELEMENTS = {"float": 1, "double": 11, "int32": 6, "int64": 7, "bool": 9, "uint8": 2, "int8": 3, "int16": 5}
STANDARD_OPSET = 21


class Exporter(F.Loader):
    """the helper functions of the onnx package that make a model"""
    exporting = False

    def external(self, name, args, kwargs, st, node, star, starstar):
        if self.exporting and (name.startswith("onnx.") or name.startswith("onnxruntime_extensions.")):
            f = name.rsplit(".", 1)[1]
            kw = dict(kwargs)

            def par(*names):
                v = list(args) + [None] * (len(names) - len(args))
                return {k: a if a is not None else kw.pop(k, None) for k, a in zip(names, v)}
            if star or starstar:
                for s in starstar:
                    h = self.h(st, s)
                    if h is None or h.k != "dict" or self.dict_items(h) is None:
                        raise Imprecise("arguments of " + f)
                    kw.update(h.d)
                if star:
                    raise Imprecise("arguments of " + f)
            if f == "make_node":
                p = par("op_type", "inputs", "outputs", "name", "doc_string", "domain", "overload")
                for a in kw.values():
                    if self.seq(a, st) == [] or self.seq(a, st) == ():
                        raise Raised("ValueError", st)  # an attribute without a type
                return self.proto(st, kind=const("node"), rest=self.new_dict(st, kw), **{k: v or NONE for k, v in p.items()})
            if f == "make_tensor":
                p = par("name", "data_type", "dims", "vals", "raw")
                return self.proto(st, kind=const("tensor"), **{k: v or NONE for k, v in p.items()})
            if f == "make_tensor_value_info":
                p = par("name", "elem_type", "shape")
                return self.proto(st, kind=const("value"), **{k: v or NONE for k, v in p.items()})
            if f == "make_graph":
                p = par("nodes", "name", "inputs", "outputs", "initializer")
                return self.proto(st, kind=const("graph"), **{k: v or NONE for k, v in p.items()})
            if f == "make_model":
                p = par("graph")
                return self.proto(st, kind=const("model"), rest=self.new_dict(st, kw), **p)
            if f in ("make_opsetid", "make_operatorsetid"):
                p = par("domain", "version")
                return self.proto(st, kind=const("opset"), **p)
            if f == "np_dtype_to_tensor_dtype" and len(args) == 1:
                t = show(args[0])
                for k in ("float32", "float64", "int32", "int64"):
                    if k in t:
                        return const(TYPES[k])
            if f == "onnx_op":
                return mk("ext", "builtins.decorator")
            raise Imprecise("call of " + name)
        if name == "builtins.decorator" and len(args) == 1:
            return args[0]
        return super().external(name, args, kwargs, st, node, star, starstar)

    def glob(self, r, st):
        v = super().glob(r, st)
        return v


def loader(repo):
    I0, st = E.fresh(repo)
    I = E.LAST = Exporter(repo)
    I.ids, I.gcache, I.closures = I0.ids, dict(I0.gcache), dict(I0.closures)
    I.word, I.enter = 4, True
    return I, st


class Odd(Exception):
    """(construct, what): the exported model is not a model"""


def data(I, st, v):
    """a value of the heap as Python data; numbers are terms"""
    if v is None or v is NONE:
        return None
    if v.op == "const":
        return v.a[0]
    if v.op in ("ext", "attr"):
        k = show(v).strip("<>'\"").rsplit(".", 1)[-1].strip("'>").lower()
        if "TensorProto" in show(v) and k in ELEMENTS:
            return ELEMENTS[k]
    if v.op in ("tuple", "list"):
        return [data(I, st, x) for x in v.a]
    h = I.h(st, v)
    if h is not None and h.k == "list":
        return [data(I, st, x) for x in h.items]
    if h is not None and h.k == "nd":
        return [data(I, st, x) for x in h.data]
    if h is not None and h.k == "dict":
        return {k: data(I, st, x) for k, x in h.d.items()}
    if h is not None and h.k == "obj" and h.cls is None and "kind" in h.f:
        return {k: data(I, st, x) for k, x in h.f.items()}
    e = T.number(v)
    c = e.const()
    return c if c is not None else e


def listed(I, st, v):
    h = I.h(st, v)
    if h is not None and h.k == "nd":
        return list(h.shape)
    return None


INTEGERS = {"Gather": {1}, "GatherElements": {1}, "Tile": {1}, "Pad": {1, 3}, "Reshape": {1}, "Squeeze": {1}, "Unsqueeze": {1}, "ReduceMax": {1}, "ReduceMin": {1}, "ReduceMean": {1}, "ReduceSum": {1}, "ReduceProd": {1}}
SINGLE = {"Resize": {2}}
OPS = {"Add", "Sub", "Mul", "Div", "Max", "Min", "Mean", "Sum", "Conv", "MaxPool", "AveragePool", "GlobalAveragePool", "Relu", "Tanh", "Sigmoid", "Exp", "Log", "LeakyRelu", "Clip", "Softmax", "Concat", "Gather", "GatherElements",
       "Gemm", "MatMul", "BatchNormalization", "Transpose", "Tile", "Pad", "Resize", "Flatten", "Reshape", "Identity", "Squeeze", "Unsqueeze", "Constant", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceSum", "ReduceProd", "Dropout",
       "HardSigmoid", "HardSwish"}


FLOATS = {"Gemm": ("alpha", "beta"), "BatchNormalization": ("epsilon", "momentum"), "LeakyRelu": ("alpha",), "Resize": ("cubic_coeff_a", "extrapolation_value")}


def needs(op, rs, A):
    """what is wrong with the numbers of dimensions of the operands"""
    if op == "Gemm" and rs[0] != 2:
        return f"reads a tensor of {rs[0]} dimensions instead of 2"
    if op in ("Softmax", "Concat", "Gather", "GatherElements") and not -rs[0] <= A.get("axis", -1) < rs[0]:
        return f"has axis {A['axis']} for operands of {rs[0]} dimensions"
    if op in ("Concat", "GatherElements") and len(set(rs)) != 1:
        return f"has operands of {' and '.join(map(str, rs))} dimensions"
    if op == "Transpose" and len(A.get("perm", range(rs[0]))) != rs[0]:
        return f"permutes {len(A['perm'])} dimensions of {rs[0]}"
    if op in ("Conv", "MaxPool", "AveragePool") and rs[0] != 4:
        return f"reads a tensor of {rs[0]} dimensions instead of 4"
    return None


def reshaped(op, vs, A):
    s = list(vs[0].shape)
    if op == "Flatten":
        a = A.get("axis", 1)
        a = a + len(s) if a < 0 else a
        return Val(None, (math.prod(s[:a]), math.prod(s[a:])), vs[0].vals)
    k = [e.const() for e in vs[1].vals] if len(vs) > 1 else None
    if k is None and op != "Squeeze" or k is not None and any(i is None for i in k):
        raise OS.NoMeaning(op)
    k = None if k is None else [int(i) for i in k]
    if op == "Unsqueeze":
        r = len(s) + len(k)
        for i in sorted(i % r for i in k):
            s.insert(i, 1)
    elif op == "Squeeze":
        s = [d for i, d in enumerate(s) if not (d == 1 if k is None else i in [a % len(s) for a in k])]
    else:
        s = [s[i] if d == 0 else d for i, d in enumerate(k)]
        if -1 in s:
            s[s.index(-1)] = len(vs[0].vals) // max(1, -math.prod(s))
    if math.prod(s) != len(vs[0].vals):
        raise ValueError
    return Val(None, s, vs[0].vals)


def evaluate(model, n_in):
    """what the exported model computes"""
    g = model["graph"]
    env, types = {}, {}
    for v in g["inputs"] or []:
        if math.prod(v["shape"]) != n_in:
            raise Odd("input", f"the input has {math.prod(v['shape'])} values instead of {n_in}")
        env[v["name"]] = Val(None, v["shape"], [T.leaf(f"x[{i}]") for i in range(n_in)])
        types[v["name"]] = v["elem_type"]
    if len(g["inputs"] or []) != 1:
        raise Odd("input", f"the model has {len(g['inputs'] or [])} inputs")
    elem = g["inputs"][0]["elem_type"]
    inits = {}
    for t in g["initializer"] or []:
        dims = t["dims"]
        vals = t["vals"]
        vals = vals if isinstance(vals, list) else [vals]
        if math.prod(dims) != len(vals):
            raise Odd("initializer", f"the initializer {t['name']} has {len(vals)} values for extents {dims}")
        if t["data_type"] not in (1, 11) and any(not isinstance(v, int) and not (isinstance(v, float) and v == int(v)) for v in vals):
            raise Odd("initializer", f"the initializer {t['name']} of integers holds {vals[:4]}")
        inits[t["name"]] = Val(None, dims, [T.lift(v) if isinstance(v, (int, float)) else v for v in vals])
        types[t["name"]] = t["data_type"]
    names = set()
    for n in g["nodes"] or []:
        op, A = n["op_type"], {k: v for k, v in (n["rest"] or {}).items() if v is not None}
        ins = n["inputs"] or []
        while ins and ins[-1] == "":
            ins = ins[:-1]
        key = (n.get("outputs") or ["?"])[0]
        key = key.rsplit("_pre_activation", 1)[0].rsplit("_", 1)[0]
        if n.get("domain"):
            raise GR.Unknown("operator of another domain")
        if op not in OPS:
            raise Odd(f"{key}/operator", f"the layer {key} becomes a node {op}, which ONNX does not have")
        for k, i in enumerate(ins):
            if i == "":
                continue
            if i not in env and i not in inits:
                raise Odd(f"{key}/operand", f"the node {op} of {key} reads {i}, which nothing makes")
            want = {6, 7} if k in INTEGERS.get(op, ()) else {1} if k in SINGLE.get(op, ()) else {elem}
            if types[i] not in want:
                raise Odd(f"{key}/type", f"operand {k} of the node {op} of {key} has element type {types[i]} instead of {sorted(want)}")
        vs = [None if i == "" else env[i] if i in env else inits[i] for i in ins]
        for k in FLOATS.get(op, ()):
            if k in A and not isinstance(A[k], float) and not hasattr(A[k], "const"):
                raise Odd(f"{key}/attribute", f"the attribute {k} of the node {op} of {key} is {A[k]!r} instead of a floating-point number")
        try:
            r = needs(op, [len(v.shape) for v in vs if v], A)
        except (IndexError, TypeError):
            r = "has too few operands"
        if r:
            raise Odd(f"{key}/dimensions", f"the node {op} of {key} {r}")
        m = OM.Model("", {}, [], opset=STANDARD_OPSET)
        if op == "Clip" and ("min" in A or "max" in A):
            raise Odd(f"{key}/attribute", f"the node Clip of {key} has attributes for its bounds")
        try:
            y = reshaped(op, vs, A) if op in ("Flatten", "Unsqueeze", "Squeeze", "Reshape") else OS.node(m, OM.Nd(op, ins, n["outputs"], **A), vs, env)
        except OS.NoMeaning as e:
            if str(e) in ("extents", "shapes do not broadcast", "window outside the input", "padding larger than the extent"):
                raise Odd(f"{key}/extents", f"the node {op} of {key} has no value for its operands of extents {[v.shape for v in vs if v]} ({e})")
            raise
        except (IndexError, ValueError, ZeroDivisionError, KeyError, AttributeError, TypeError) as e:
            raise Odd(f"{key}/arguments", f"the node {op} of {key} with attributes {A} has no value for its operands of extents {[v.shape for v in vs if v]} ({type(e).__name__})")
        for o in n["outputs"]:
            if o in env or o in inits:
                raise Odd(f"{key}/output", f"two nodes make {o}")
        env[n["outputs"][0]] = y
        types[n["outputs"][0]] = elem
    outs = g["outputs"] or []
    if len(outs) != 1:
        raise Odd("output", f"the model has {len(outs)} outputs")
    o = outs[0]["name"]
    if o not in env:
        raise Odd("output", f"nothing makes the output {o}")
    return env[o]


def trimmed(s):
    """extents without those of one in front"""
    s = list(s)
    while s and s[0] == 1:
        s.pop(0)
    return s


def judged(case):
    return EM.guarded(_judged, case)


def _judged(case):
    m = OS.numbered(case.model())
    ins = [k for k in m.inputs if k not in m.inits]
    if len(m.outputs) != 1 or len(ins) != 1 or m.inputs[ins[0]][0] != 1 and len(m.inputs[ins[0]]) == 4:
        return "skip", "inputs and outputs"
    try:
        want = OS.evaluate(m, "x")[m.outputs[0]]
    except OS.NoMeaning as e:
        return "skip", "no definition: " + str(e)
    try:
        I, st, o = E.load_onnx(EM.REPO, m, make=loader, **dict(dict(nb_tests=1), **case.gen))
    except Raised as e:
        return ("skip", e.name) if e.name.startswith(("imprecise", "endless")) else ("refused", e.name)
    fi = EM.REPO.func(MODULE, "onnx_exporter")
    layers = GR.items(I, st, I.attr(o, "layers", st))
    kinds = "+".join(sorted({I.h(st, l).cls.name for l in layers if I.h(st, l).cls.name != "InputLayerDefault"}))
    at = f"{fi.loc} {fi.qual}"
    I.exporting = True
    try:
        v = I.call_fi(fi, [I.attr(o, "layers", st), I.attr(o, "data_type_py", st)], {}, st)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        return "bad", [(f"{kinds}/raised", f"the export of the network raises {e.name}", at)]
    if v.op != "ref":
        return "skip", "no model"
    model = data(I, st, v)
    try:
        got = evaluate(model, math.prod(m.inputs[ins[0]]))
    except OS.NoMeaning as e:
        return "skip", "no definition: " + str(e)
    except Odd as e:
        return "bad", [(e.args[0], e.args[1], at)]
    r = EE.compare("the output of the exported model", got.vals, want.vals, at)
    if r[0] != "bad" and not any(n.op in ("Flatten", "Reshape", "Squeeze", "Unsqueeze") for n in m.nodes) and trimmed(got.shape) != trimmed(want.shape):
        return "bad", [(f"{kinds}/extents", f"the output of the exported model has extents {list(got.shape)} instead of {list(want.shape)}", at)]
    if r[0] == "bad":
        return "bad", [(f"{kinds}/{k}", w, a) for k, w, a in r[1]]
    return r


def cases(tier):
    q = tier != "thorough"
    out = [EM.Case("single", i) for i in range(0, len(EM.single()), 2 if q else 1)]
    for s in range(60 if q else 500):
        out.append(EM.Case("random", 9000 + s, **({"optimization": True} if s % 2 else {})))
        out.append(EM.Case("rich", 9000 + s, **({"optimization": True} if s % 2 else {})))
    for s in range(6 if q else 30):
        out.append(EM.Case("double", 9100 + s))
    for i in range(0, len(EM.zoo.pairs()), 4 if q else 1):
        out.append(EM.Case("pair", i, optimization=True))
    return out


def c17(chk):
    chk.rule = ("importer and exporter interpreted on enumerated networks; the exported model, node after node, has the meaning of the network: operators that ONNX has, operands that something makes, of the required element types, attributes and "
                "initializers that give the values of the imported model on every input (value numbers)")
    chk.assumptions += ["models with one input and one output"]
    tier = EM.start(chk)
    cs = cases(tier)
    groups = {}
    for c, (k, v) in zip(cs, EM.run_jobs(judged, cs)):
        chk.count("models")
        if k == "ok":
            chk.ok(str(c))
            chk.count("values compared", v)
        elif k == "refused":
            chk.ok(str(c) + ": refused")
            chk.count("models refused")
        elif k == "skip":
            chk.skip(str(c), v)
        else:
            for key, w, wh in v:
                groups.setdefault(key, []).append((str(c), w, wh))
    EM.report(chk, groups)


CHECKS = {"C17": c17}
