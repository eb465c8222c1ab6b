"""Model files as abstract protobuf objects, and what the ONNX operator set says their nodes mean.

A model is a schema: the shape of every tensor, the attributes of every node, the values of integer parameters (axes, indices, pads...)
are concrete; weights are generic symbols.  `Onnx.load` interprets the importer's own source on the schema and `meaning` states, from the
operator specification, what each node computes in ACETONE's 4-D view (leading dimensions of size 1 added).
"""
from __future__ import annotations

import itertools
import math

from . import graphs as GR
from .interp import HList, HObj, Raised, State
from .ndarr import HNd, Imprecise, NdInterp, at, indices
from .nodes import BOT, NONE, TRUE, N, const, mk, show, sym

ELEM = {1: "float32", 11: "float64", 6: "int32", 7: "int64"}


class Nd:
    def __init__(self, op, ins, outs, name=None, **attrs):
        self.op, self.ins, self.outs, self.attrs = op, [ins] if isinstance(ins, str) else list(ins), [outs] if isinstance(outs, str) else list(outs), attrs
        self.name = name or f"{op.lower()}_{self.outs[0]}"


class T:
    """tensor value: concrete flat values, or generic symbols"""

    def __init__(self, shape, vals=None, elem=1):
        self.shape, self.vals, self.elem = tuple(shape), vals, elem

    def data(self, name):
        if self.vals is None:
            return [sym(f"k:{name}[{i}]") for i in range(math.prod(self.shape))]
        return [const(v) for v in self.vals]


def I64(*vals, shape=None):
    return T(shape if shape is not None else (len(vals),), list(vals), 7)


class Model:
    def __init__(self, title, inputs, nodes, inits=None, shapes=None, opset=17, outputs=None, elem=1, expect="layers", only=None):
        self.title, self.inputs, self.nodes, self.inits, self.opset, self.elem, self.expect = title, inputs, nodes, inits or {}, opset, elem, expect
        self.shapes = dict(inputs)
        self.shapes.update(shapes or {})
        used = {i for n in nodes for i in n.ins}
        self.outputs = outputs or [o for n in nodes for o in n.outs if o not in used]
        self.only = only


class Onnx(NdInterp):
    """interpreter with the model of the onnx package"""

    def __init__(self, repo):
        super().__init__(repo)
        self.typed = self.strict_names = True
        self.budget = 3000000

    # ---------------------------------------------- building
    def proto(self, st, **f):
        return self.new(st, HObj(None, f, None))

    def ints_list(self, st, xs):
        return self.new_list(st, [const(x) for x in xs])

    def tensor(self, st, name, t):
        flat = self.nd(st, (math.prod(t.shape),), t.data(name), "i" if t.elem in (6, 7) else "f")
        return self.proto(st, name=const(name), dims=self.ints_list(st, t.shape), data_type=const(t.elem), raw_data=mk("rawbytes", flat))

    def value_info(self, st, name, shape, elem):
        dims = self.new_list(st, [self.proto(st, dim_value=const(d), dim_param=const("")) for d in shape])
        tt = self.proto(st, shape=self.proto(st, dim=dims), elem_type=const(elem))
        return self.proto(st, name=const(name), type=self.proto(st, tensor_type=tt))

    def attribute(self, st, name, v):
        f = {"name": const(name), "i": const(0), "f": const(0.0), "s": const(b""), "t": self.proto(st, data_type=const(0), dims=self.new_list(st), raw_data=const(b""), name=const(""))}
        f["ints"] = f["floats"] = self.new_list(st)
        if isinstance(v, T):
            f["t"] = val = self.tensor(st, "", T(v.shape, v.vals, v.elem)) if v.vals is not None else self.tensor(st, name, v)
        elif isinstance(v, (list, tuple)):
            val = self.ints_list(st, v)
            f["floats" if any(isinstance(x, float) for x in v) else "ints"] = self.ints_list(st, v)
        else:
            v = v.encode() if isinstance(v, str) else v
            val = const(v)
            f["s" if isinstance(v, bytes) else "f" if isinstance(v, float) else "i"] = val
        f["__value"] = val
        return self.proto(st, **f)

    def model(self, st, m):
        nodes = [self.proto(st, op_type=const(n.op), name=const(n.name), domain=const(""),
                            input=self.new_list(st, [const(x) for x in n.ins]), output=self.new_list(st, [const(x) for x in n.outs]),
                            attribute=self.new_list(st, [self.attribute(st, k, v) for k, v in n.attrs.items()])) for n in m.nodes]
        inner = [o for n in m.nodes for o in n.outs if o not in m.outputs and o in m.shapes]
        g = self.proto(st, node=self.new_list(st, nodes), name=const("g"),
                       input=self.new_list(st, [self.value_info(st, n, s, m.elem) for n, s in m.inputs.items()]),
                       output=self.new_list(st, [self.value_info(st, n, m.shapes.get(n, ()), m.elem) for n in m.outputs]),
                       value_info=self.new_list(st, [self.value_info(st, n, m.shapes[n], m.elem) for n in inner]),
                       initializer=self.new_list(st, [self.tensor(st, n, t) for n, t in m.inits.items()]))
        return self.proto(st, graph=g, opset_import=self.new_list(st, [self.proto(st, version=const(m.opset), domain=const(""))]), ir_version=const(8))

    # ---------------------------------------------- onnx package
    def external(self, name, args, kwargs, st, node, star, starstar):
        if name.startswith("onnx."):
            r = self.onnx_call(name[5:], args, st)
            if r is None:
                raise Imprecise("call of " + name)
            return r
        return super().external(name, args, kwargs, st, node, star, starstar)

    def onnx_call(self, f, args, st):
        if f == "helper.get_attribute_value":
            v = self.h(st, args[0]).f["__value"]
            h = self.h(st, v)
            return self.new_list(st, h.items) if h is not None and h.k == "list" else v
        if f == "numpy_helper.to_array":
            h = self.h(st, args[0])
            if h is None or h.k != "obj":
                raise Raised("AttributeError", st)
            raw = h.f["raw_data"]
            dims = self.ints([h.f["dims"]], st)
            flat = self.h(st, raw.a[0]) if raw.op == "rawbytes" else HNd((0,), ())
            if math.prod(dims) != len(flat.data):
                raise Raised("ValueError", st)
            r = self.nd(st, dims, flat.data, flat.dt)
            if raw.op == "rawbytes":
                self.readonly = self.readonly | {r.a[0]}  # a view of the bytes of the model
            return r
        if f in ("helper.tensor_dtype_to_np_dtype",):
            return const(ELEM[args[0].a[0]])
        if f == "shape_inference.infer_shapes":
            return args[0]
        if f == "load":
            return self.the_model
        return None

    def method(self, b, name, args, kwargs, st, node):
        h = self.h(st, b)
        if h is not None and h.k == "list" and name == "add" and not args:
            o = self.proto(st, name=const(""), dims=self.new_list(st), data_type=const(0), raw_data=const(b""))
            st.heap[b.a[0]] = HList(h.items + (o,))
            return o
        if h is not None and h.k == "obj" and h.cls is None:
            if name in ("CopyFrom", "MergeFrom"):
                src = self.h(st, args[0])
                f = dict(src.f)
                for k, v in f.items():
                    hv = self.h(st, v)
                    if hv is not None and hv.k == "list":
                        f[k] = self.new_list(st, hv.items)
                st.heap[b.a[0]] = HObj(None, f, None)
                return NONE
            if name == "HasField":
                v = h.f.get(args[0].a[0])
                return const(v is not None)
        return super().method(b, name, args, kwargs, st, node)

    def attr(self, v, name, st, node=None):
        h = self.h(st, v)
        if h is not None and h.k == "obj" and h.cls is None and name not in h.f and name in ("CopyFrom", "MergeFrom", "HasField"):
            return mk("meth", v, name)
        return super().attr(v, name, st, node)

    def isinst(self, v, c, st):
        h = self.h(st, v)
        if h is not None and h.k == "obj" and h.cls is None:
            return const("ModelProto" in show(c) and "graph" in h.f)
        return super().isinst(v, c, st)

    def load(self, fi, m):
        """-> (state, result) ; Raised when the importer refuses the model"""
        st = State()
        self.the_model = self.model(st, m)
        v = self.call_fi(fi, [self.the_model], {}, st)
        if v is BOT:
            raise Raised("Exception", st)
        return st, v


# -------------------------------------------------- what the nodes mean
ACT = {"Relu": "ReLu", "Tanh": "TanH", "Sigmoid": "Sigmoid", "Exp": "Exponential", "Log": "Logarithm", "LeakyRelu": "LeakyReLu", "Clip": "Clip"}
ELT = {"Add": "Add", "Sub": "Subtract", "Mul": "Multiply", "Div": "Divide", "Max": "Maximum", "Min": "Minimum", "Mean": "Average"}
BYPASS = ("Dropout", "Flatten", "Reshape", "Unsqueeze")


def shape4(s):
    return [1] * (4 - len(s)) + list(s)


def axis4(a, r):
    return a % r + 4 - r


class Unsupported(Exception):
    """ACETONE has no layer for this; the importer must refuse it"""


def same_pads(auto, hw, k, s, d):
    out = []
    for n, kk, ss, dd in zip(hw, k, s, d):
        eff = (kk - 1) * dd + 1
        tot = max((math.ceil(n / ss) - 1) * ss + eff - n, 0)
        small = tot // 2
        out.append((small, tot - small) if auto == "SAME_UPPER" else (tot - small, small))
    return out


def window(m, n, A, shape):
    """strides, dilations, ((top, bottom), (left, right)) of a convolution or pooling node"""
    k = A["kernel_shape"]
    if len(shape) != 4:
        raise Unsupported("not 2-D")
    s, d = A.get("strides", [1, 1]), A.get("dilations", [1, 1])
    auto = A.get("auto_pad", "NOTSET")
    if auto == "NOTSET":
        p = A.get("pads", [0, 0, 0, 0])
        pads = [(p[0], p[2]), (p[1], p[3])]
    elif auto == "VALID":
        pads = [(0, 0), (0, 0)]
    else:
        pads = same_pads(auto, shape[2:], k, s, d)
    if s[0] != s[1] or d[0] != d[1]:
        raise Unsupported("strides or dilations differ between the two axes")
    return k, s[0], d[0], pads


def meaning(m, n):
    """(layer classes, tensor operands, {constructor argument: value}, {field: value}) of a node; Unsupported when ACETONE has no such layer"""
    A = n.attrs
    x = n.ins[0]
    sx = m.shapes.get(x)
    r = len(sx) if sx is not None else None
    init = lambda i: (n.ins[i], m.inits[n.ins[i]]) if len(n.ins) > i and n.ins[i] else None
    if n.op in ACT:
        if n.op == "LeakyRelu":
            return "ActivationLayer", [x], {}, {"act": ("LeakyReLu", {"alpha": A.get("alpha", 0.01)})}
        if n.op == "Clip":
            lo, hi = init(1), init(2)
            return "ActivationLayer", [x], {}, {"act": ("Clip", {"min_value": lo[1].vals[0] if lo else -math.inf, "max_value": hi[1].vals[0] if hi else math.inf})}
        return "ActivationLayer", [x], {}, {"act": (ACT[n.op], {})}
    if n.op in ELT:
        shp = [list(m.shapes[i]) if i in m.shapes else list(m.inits[i].shape) for i in n.ins]
        return ELT[n.op], list(n.ins), {"input_shapes": [shape4(s) for s in shp]}, {}
    if n.op == "Conv":
        w = m.inits[n.ins[1]]
        A = dict(A)
        A.setdefault("kernel_shape", list(w.shape[2:]))
        k, s, d, ((t, b), (l, rr)) = window(m, n, A, sx)
        if A.get("group", 1) != 1:
            raise Unsupported("grouped convolution")
        f = {"strides": s, "kernel_h": k[0], "kernel_w": k[1], "dilation_rate": d, "nb_filters": w.shape[0],
             "pad_top": t, "pad_bottom": b, "pad_left": l, "pad_right": rr, "weights": init(1),
             "biases": ("flat", init(2)) if init(2) else ("zeros", w.shape[0]),
             "input_height": sx[2], "input_width": sx[3], "input_channels": sx[1], "output_height": m.shapes[n.outs[0]][2], "output_width": m.shapes[n.outs[0]][3]}
        return "Conv2D", [x], {}, f
    if n.op in ("MaxPool", "AveragePool"):
        k, s, d, ((t, b), (l, rr)) = window(m, n, A, sx)
        if k[0] != k[1] or d != 1:
            raise Unsupported("rectangular or dilated window")
        if n.op == "AveragePool" and A.get("count_include_pad", 0) and (t or b or l or rr):
            raise Unsupported("padding counted in the mean")
        if A.get("ceil_mode", 0):
            raise Unsupported("ceil_mode")
        f = {"strides": s, "pool_size": k[0], "pad_top": t, "pad_bottom": b, "pad_left": l, "pad_right": rr,
             "input_height": sx[2], "input_width": sx[3], "output_height": m.shapes[n.outs[0]][2], "output_width": m.shapes[n.outs[0]][3]}
        return ("MaxPooling2D" if n.op == "MaxPool" else "AveragePooling2D"), [x], {}, f
    if n.op == "GlobalAveragePool":
        if sx[2] != sx[3]:
            raise Unsupported("window is not square")
        return "AveragePooling2D", [x], {}, {"strides": 1, "pool_size": sx[2], "pad_top": 0, "pad_bottom": 0, "pad_left": 0, "pad_right": 0,
                                             "input_height": sx[2], "input_width": sx[3], "output_height": 1, "output_width": 1}
    if n.op == "Softmax":
        one = math.prod(sx) in sx                 # a single vector: normalised as a whole whatever the axis is called
        if m.opset < 13:
            wide = [i for i in range(A.get("axis", 1) % r, r) if sx[i] != 1]
            if len(wide) > 1:
                raise Unsupported("normalisation over several axes")
            ax = wide[0] if wide else A.get("axis", 1)
        else:
            ax = A.get("axis", -1)
        if axis4(ax, r) == 0 and not one:
            raise Unsupported("the batch axis")
        return "Softmax", [x], {} if one else {"axis": axis4(ax, r)}, {}
    if n.op == "Concat":
        shp = [list(m.shapes[i]) if i in m.shapes else list(m.inits[i].shape) for i in n.ins]
        return "Concatenate", list(n.ins), {"axis": axis4(A["axis"], r), "input_shapes": [shape4(s) for s in shp]}, {}
    if n.op in ("Gather", "GatherElements"):
        a = A.get("axis", 0) % r
        nm, t = init(1)
        idx = [v % sx[a] for v in t.vals]
        if n.op == "Gather" and r - 1 + len(t.shape) > 4:
            raise Unsupported("more than four dimensions")
        return n.op, [x], {"axis": a + 4 - r, "indices": ("intdata", idx, None if n.op == "Gather" else shape4(t.shape))}, {}
    if n.op == "Gemm":
        b = init(2)
        if b and math.prod(b[1].shape) not in (1, m.shapes[n.outs[0]][-1]):
            raise Unsupported("one bias for each element")
        nn = m.shapes[n.outs[0]][-1]
        return "Gemm", [x], {"alpha": A.get("alpha", 1.0), "beta": A.get("beta", 1.0), "transA": A.get("transA", 0), "transB": A.get("transB", 0), "weights": init(1),
                             "bias": ("columns", b, nn) if b else ("zeros", nn)}, {}
    if n.op == "MatMul":
        shp = [list(m.shapes[i]) if i in m.shapes else list(m.inits[i].shape) for i in n.ins]
        if len(shp[1]) == 1:
            shp[1] = shp[1] + [1]
        return "MatMul", list(n.ins), {"input_shapes": [shape4(s) for s in shp]}, {}
    if n.op == "BatchNormalization":
        return "BatchNormalization", [x], {"epsilon": A.get("epsilon", 1e-5), "scale": ("flat", init(1)), "biases": ("flat", init(2)), "mean": ("flat", init(3)), "var": ("flat", init(4))}, {}
    if n.op == "Transpose":
        p = A.get("perm", list(range(r))[::-1])
        return "Transpose", [x], {"perm": list(range(4 - r)) + [q + 4 - r for q in p]}, {}
    if n.op == "Tile":
        return "Tile", [x], {"repeats": shape4(init(1)[1].vals)}, {}
    if n.op.startswith("Reduce"):
        attr_axes = m.opset < (13 if n.op == "ReduceSum" else 18)
        ax = A.get("axes") if attr_axes else (init(1)[1].vals if init(1) else None)
        noop = 0 if attr_axes else A.get("noop_with_empty_axes", 0)
        return n.op, [x], {"axis": ("set", sorted(axis4(a, r) for a in ax or [])), "keepdims": A.get("keepdims", 1), "noop_with_empty_axes": noop}, {}
    if n.op == "Pad":
        mode = A.get("mode", "constant")
        p = init(1)[1].vals
        ax = init(3)[1].vals if init(3) else list(range(r))
        full = [0] * 8
        for j, a in enumerate(ax):
            full[axis4(a, r)], full[axis4(a, r) + 4] = p[j], p[j + len(ax)]
        cv = init(2)
        return {"constant": "ConstantPad", "edge": "EdgePad", "wrap": "WrapPad", "reflect": "ReflectPad"}[mode], [x], {"pads": full, "constant_value": cv[1].vals[0] if cv else 0.0}, {}
    if n.op == "Resize":
        mode = A.get("mode", "nearest")
        kw = {k: A.get(k, d) for k, d in (("exclude_outside", 0), ("cubic_coeff_a", -0.75), ("extrapolation_value", 0.0))}
        f = {k: A.get(k, d) for k, d in (("coordinate_transformation_mode", "half_pixel"), ("nearest_mode", "round_prefer_floor"))}
        sizes = init(3)
        kw["target_size"] = ("flat", sizes or init(2))
        kw["boolean_resize"] = 0 if sizes else 1
        so = m.shapes[n.outs[0]]
        f.update({"output_height": so[2], "output_width": so[3], "input_height": sx[2], "input_width": sx[3], "input_channels": sx[1]})
        return {"nearest": "ResizeNearest", "linear": "ResizeLinear", "cubic": "ResizeCubic"}[mode], [x], kw, f
    raise Unsupported(n.op)


# -------------------------------------------------- comparison
class Differs(Exception):
    pass


def py(I, st, v):
    """python value of a known value: number, string, list, ("nd", shape, data nodes)"""
    h = I.h(st, v)
    if h is not None and h.k == "nd":
        return ("nd", h.shape, h.data)
    if v.op == "const":
        return v.a[0]
    s = I.seq(v, st)
    if s is not None:
        return [py(I, st, x) for x in s]
    raise GR.Unknown(show(v)[:80])


def num(x):
    if isinstance(x, N):
        if x.op == "const":
            return x.a[0]
        return x
    return x


def flatten(x):
    if isinstance(x, tuple) and x and x[0] == "nd":
        return [num(e) for e in x[2]]
    if isinstance(x, list):
        return [e for y in x for e in flatten(y)]
    return [num(x)]


def eq(a, b):
    if isinstance(a, N) or isinstance(b, N):
        if isinstance(a, N) and isinstance(b, N):
            if a is b:
                return True
            if all(v.op == "sym" for v in (a, b)):
                return False
        raise GR.Unknown("value of a weight")
    return a == b


def agree(I, st, got, want):
    """does an abstract value equal the expected one"""
    g = py(I, st, got)
    if isinstance(want, tuple) and want and isinstance(want[0], str) and want[0] in ("flat", "zeros", "set", "intdata", "columns"):
        k = want[0]
        if k == "flat":
            nm, t = want[1]
            w = [num(e) for e in t.data(nm)]
        elif k == "columns":
            nm, t = want[1]
            w = [num(e) for e in t.data(nm)]
            w = w * want[2] if len(w) == 1 else w
        elif k == "zeros":
            w = [0] * want[1]
        elif k == "set":
            return sorted(set(flatten(g))) == want[1]
        else:
            w = want[1]
            if want[2] is not None and isinstance(g, tuple) and list(g[1]) != want[2]:
                return False
        f = flatten(g)
        return len(f) == len(w) and all(eq(x, y) for x, y in zip(f, w))
    if isinstance(want, tuple) and len(want) == 2 and isinstance(want[1], T):
        nm, t = want
        if not (isinstance(g, tuple) and g and g[0] == "nd"):
            return False
        return g[1] == t.shape and all(eq(num(x), num(y)) for x, y in zip(g[2], t.data(nm)))
    if isinstance(want, (list, tuple)):
        if isinstance(g, list) and g and isinstance(g[0], tuple) or isinstance(want[0] if want else 0, list):
            gg = [flatten(x) for x in g] if isinstance(g, list) else [[num(e) for e in g[2][i * g[1][1]:(i + 1) * g[1][1]]] for i in range(g[1][0])]
            return gg == [list(x) for x in want]
        return flatten(g) == list(want)
    if isinstance(want, str) and isinstance(g, bytes):
        g = g.decode()
    f = flatten(g)
    return len(f) == 1 and eq(f[0], want)


def show_want(w):
    if isinstance(w, tuple) and w and w[0] in ("flat", "zeros", "set", "intdata", "columns"):
        return show_want(w[1])
    if isinstance(w, tuple) and len(w) == 2 and isinstance(w[1], T):
        return f"tensor {w[0]} {list(w[1].shape)}"
    return str(w)


def compare(I, m, st, v):
    """[(node, what)] definite disagreements between the imported layers and the model"""
    if v.op != "tuple" or len(v.a) < 4:
        raise GR.Unknown("result of the importer")
    layers = GR.items(I, st, v.a[0])
    by = {}
    for o in layers:
        nm = GR.field(I, st, o, "original_name")
        if nm.op != "const":
            raise GR.Unknown("original name of a layer")
        by.setdefault(nm.a[0], []).append(o)
    out = []
    source = {}                       # tensor -> name of the layer holding it
    for i in m.inputs:
        source[i] = i
    for i in m.inits:
        source.setdefault(i, i)
    for n in m.nodes:
        if n.op == "Constant":
            source[n.outs[0]] = n.outs[0]
        elif n.op in BYPASS:
            source[n.outs[0]] = source[n.ins[0]]
        else:
            source[n.outs[0]] = n.name
    extra = set(by) - set(m.inputs) - {n.name for n in m.nodes} - set(m.inits) - {n.outs[0] for n in m.nodes if n.op == "Constant"}
    if extra:
        out.append(("model", f"layers that stand for nothing in the model: {sorted(extra)}"))
    out.extend(("model", w) for r, w in GR.well_formed(I, st, layers))
    n_checked = 0
    for n in m.nodes:
        if n.op in BYPASS or n.op == "Constant":
            continue
        cls, ops, kw, fields = meaning(m, n)
        os_ = by.get(n.name, [])
        if len(os_) != 1:
            out.append((n.op, f"{len(os_)} layers are made for the node"))
            continue
        o = os_[0]
        h = I.h(st, o)
        if not any(c.name == cls for c in h.cls.mro()):
            out.append((n.op, f"becomes a {h.cls.name} layer instead of {cls}"))
            continue
        got = []
        for p in GR.links(I, st, o, "previous_layer"):
            pn = GR.field(I, st, p, "original_name").a[0]
            got.append(pn)
            hp = I.h(st, p)
            if pn in m.inits and "ConstantLayer" in [c.name for c in hp.cls.mro()]:
                if not agree(I, st, hp.f["__kw_constant"], ("flat", (pn, m.inits[pn]))):
                    out.append((n.op, f"the constant {pn} does not hold the values of the model"))
        want = [source[x] for x in ops]
        if cls in ELT.values() and "constant" not in kw:
            c = h.f.get("__kw_constant", NONE)
            if c is not NONE:
                raise GR.Unknown("constant operand folded into the layer")
        if got != want and not (cls in ("Add", "Multiply", "Maximum", "Minimum", "Average") and sorted(got) == sorted(want)):
            out.append((n.op, f"takes its operands from {got} instead of {want}"))
            continue
        if got != want and "input_shapes" in kw:
            kw = dict(kw)
            pool = list(zip(want, kw["input_shapes"]))
            sh = []
            for g in got:
                j = next(j for j, (w, _) in enumerate(pool) if w == g)
                sh.append(pool.pop(j)[1])
            kw["input_shapes"] = sh
        if "act" in fields:
            a = GR.field(I, st, o, "activation_function")
            ha = I.h(st, a)
            an, ak = fields["act"]
            if ha is None or ha.cls is None:
                raise GR.Unknown("activation")
            if ha.cls.name != an:
                out.append((n.op, f"becomes the activation {ha.cls.name} instead of {an}"))
            else:
                for k, w in ak.items():
                    g = ha.f.get("__kw_" + k)
                    if g is None:
                        raise GR.Unknown(f"argument {k} of {an}")
                    n_checked += 1
                    if not agree(I, st, g, w):
                        out.append((n.op, f"{k} is {show(I.freeze(st, g))[:60]} instead of {w}"))
            continue
        else:
            a = GR.field(I, st, o, "activation_function") if cls not in () else None
            ha = I.h(st, a)
            if ha is not None and ha.cls is not None and ha.cls.name != "Linear":
                out.append((n.op, f"the layer applies {ha.cls.name}, which the node does not"))
        for k, w in kw.items():
            g = h.f.get("__kw_" + k)
            if g is None:
                raise GR.Unknown(f"constructor argument {k} of {cls}")
            n_checked += 1
            if k == "transA" or k == "transB":
                g, w = const(bool(g.a[0])) if g.op == "const" else g, bool(w)
            if not agree(I, st, g, w):
                out.append((n.op, f"{k} is {show(I.freeze(st, g))[:80]} instead of {show_want(w)[:80]}"))
        for k, w in fields.items():
            g = GR.field(I, st, o, k)
            n_checked += 1
            if not agree(I, st, g, w):
                out.append((n.op, f"{k} is {show(I.freeze(st, g))[:80]} instead of {show_want(w)[:80]}"))
        sz = math.prod(m.shapes[n.outs[0]])
        g = GR.field(I, st, o, "size")
        n_checked += 1
        if not agree(I, st, g, sz):
            out.append((n.op, f"size is {show(g)[:60]} instead of {sz}"))
    if v.a[3].op == "const" and v.a[3].a[0] != "channels_first":
        out.append(("model", f"the layout is announced as {v.a[3].a[0]}"))
    if v.a[1].op == "const" and m.elem in (1, 11) and v.a[1].a[0] != {1: "float", 11: "double"}[m.elem]:
        out.append(("model", f"elements of type {ELEM[m.elem]} are announced as {v.a[1].a[0]}"))
    return out, n_checked
