"""What an ONNX graph computes: value numbers of the elements of every tensor, from the operator specification.

Shapes are those of the tensors; numbers of initializers are exact, elements of the input are leaves."""
from __future__ import annotations

import itertools
import math
import random

from spec import concrete as SP

from . import terms as T
from .kerasmodel import ACTS, Val, at, cells, flatpos, total
from .onnxmodel import Model, same_pads
from .onnxmodel import T as Tensor


class NoMeaning(Exception):
    """not covered here"""


def plain(n):
    """a number that is exact in every type, small enough for products to stay so"""
    r = random.Random(n)
    return r.choice([-1, 1]) * r.randint(1, 31) / 8


def numbered(m, seed=0):
    """the model with numbers for its parameters; variances are positive"""
    var = {n.ins[4] for n in m.nodes if n.op == "BatchNormalization"}
    inits = {}
    for k, (name, t) in enumerate(m.inits.items()):
        if t.vals is None:
            v = [plain(seed * 100003 + k * 1009 + i) for i in range(math.prod(t.shape))]
            t = Tensor(t.shape, [abs(x) for x in v] if name in var else v, t.elem)
        inits[name] = t
    nodes = []
    for k, n in enumerate(m.nodes):
        if n.op == "Constant" and isinstance(n.attrs.get("value"), Tensor) and n.attrs["value"].vals is None:
            t = n.attrs["value"]
            n = type(n)(n.op, n.ins, n.outs, n.name, value=Tensor(t.shape, [plain(seed + 7919 * k + i) for i in range(math.prod(t.shape))], t.elem))
        nodes.append(n)
    return Model(m.title, m.inputs, nodes, inits, m.shapes, m.opset, m.outputs, m.elem, m.expect, m.only)


def broadcast(xs):
    r = max(len(x.shape) for x in xs)
    shp = [[1] * (r - len(x.shape)) + list(x.shape) for x in xs]
    out = []
    for d in zip(*shp):
        n = max(d)
        if any(e not in (1, n) for e in d):
            raise NoMeaning("shapes do not broadcast")
        out.append(n)
    return [Val(None, out, [x.vals[flatpos([c if n > 1 else 0 for c, n in zip(idx, s)], s)] for idx in cells(out)]) for x, s in zip(xs, shp)]


def elementwise(f, xs):
    ys = broadcast(xs)
    return Val(None, ys[0].shape, [f(list(v)) for v in zip(*[y.vals for y in ys])])


def fold(op):
    def f(vs):
        r = vs[0]
        for v in vs[1:]:
            r = op(r, v)
        return r
    return f


ELEMENT = {
    "Add": fold(T.add), "Sub": fold(lambda a, b: T.add(a, b, -1.0)), "Mul": fold(T.mul), "Div": fold(T.div), "Sum": fold(T.add),
    "Max": lambda v: T.extremum("max", v), "Min": lambda v: T.extremum("min", v), "Mean": lambda v: T.mul(T.lift(1.0 / len(v)), total(v)),
}


def leaky(a):
    return lambda v: T.ite(T.cmp(">", v, T.lift(0.0)), v, T.mul(T.lift(a), v))


def clip(lo, hi):
    def f(v):
        if lo is not None:
            v = T.extremum("max", [v, T.lift(lo)])
        if hi is not None:
            v = T.extremum("min", [v, T.lift(hi)])
        return v
    return f


def windows(hw, k, s, d, A):
    """[(extent of the output, first padding)] for the two axes"""
    auto = A.get("auto_pad", "NOTSET")
    if auto == "NOTSET":
        p = A.get("pads", [0] * 4)
        p = [(p[0], p[2]), (p[1], p[3])]
    elif auto == "VALID":
        p = [(0, 0)] * 2
    else:
        p = same_pads(auto, hw, k, s, d)
    out = []
    for n, kk, ss, dd, (a, b) in zip(hw, k, s, d, p):
        m = n + a + b - (kk - 1) * dd - 1
        out.append(((-(-m // ss) if A.get("ceil_mode", 0) else m // ss) + 1, a))
    return out


def conv(x, w, b, A):
    if len(x.shape) != 4:
        raise NoMeaning("rank")
    _, C, H, W = x.shape
    F, cg, kh, kw = w.shape
    g, s, d = A.get("group", 1), A.get("strides", [1, 1]), A.get("dilations", [1, 1])
    (OH, pt), (OW, pl) = windows((H, W), (kh, kw), s, d, A)
    out = []
    for f, i, j in cells((F, OH, OW)):
        v = [T.mul(x.vals[((f // (F // g) * cg + c) * H + y) * W + z], at(w, f, c, p, q)) for c, p, q in cells((cg, kh, kw))
             for y, z in [(i * s[0] + p * d[0] - pt, j * s[1] + q * d[1] - pl)] if 0 <= y < H and 0 <= z < W]
        out.append(SP.total(v + ([b.vals[f]] if b else [])))
    return Val(None, (1, F, OH, OW), out)


def pool(kind, x, A):
    if len(x.shape) != 4:
        raise NoMeaning("rank")
    _, C, H, W = x.shape
    k, s, d = A["kernel_shape"], A.get("strides", [1, 1]), A.get("dilations", [1, 1])
    (OH, pt), (OW, pl) = windows((H, W), k, s, d, A)
    out = []
    for c, i, j in cells((C, OH, OW)):
        v = [x.vals[(c * H + y) * W + z] for p, q in cells(k) for y, z in [(i * s[0] + p * d[0] - pt, j * s[1] + q * d[1] - pl)] if 0 <= y < H and 0 <= z < W]
        if not v:
            raise NoMeaning("window outside the input")
        n = k[0] * k[1] if A.get("count_include_pad", 0) else len(v)
        out.append(T.extremum("max", v) if kind == "max" else T.mul(T.lift(1.0 / n), SP.total(v)))
    return Val(None, (1, C, OH, OW), out)


def softmax(x, axes):
    sums = {}
    e = [T.fn("exp", v) for v in x.vals]
    key = [tuple(0 if i in axes else k for i, k in enumerate(c)) for c in cells(x.shape)]
    for k, v in zip(key, e):
        sums.setdefault(k, []).append(v)
    inv = {k: T.inv(SP.total(v)) for k, v in sums.items()}
    return Val(None, x.shape, [T.mul(v, inv[k]) for k, v in zip(key, e)])


def reduce(op, x, axes, keep):
    groups = {}
    for c, v in zip(cells(x.shape), x.vals):
        groups.setdefault(tuple(0 if i in axes else k for i, k in enumerate(c)), []).append(v)
    f = {"ReduceSum": SP.total, "ReduceMean": lambda v: T.mul(T.lift(1.0 / len(v)), SP.total(v)), "ReduceMax": lambda v: T.extremum("max", v), "ReduceMin": lambda v: T.extremum("min", v), "ReduceProd": SP.product}[op]
    sh = [1 if i in axes else n for i, n in enumerate(x.shape)]
    return Val(None, sh if keep else [n for i, n in enumerate(x.shape) if i not in axes], [f(groups[c]) for c in cells(sh)])


def concat(xs, a):
    sh = list(xs[0].shape)
    a %= len(sh)
    sh[a] = sum(x.shape[a] for x in xs)
    out = []
    for c in cells(sh):
        k, c = c[a], list(c)
        for x in xs:
            if k < x.shape[a]:
                c[a] = k
                out.append(at(x, *c))
                break
            k -= x.shape[a]
    return Val(None, sh, out)


def pad(x, p, mode, value):
    r = len(x.shape)
    sh = [n + p[i] + p[i + r] for i, n in enumerate(x.shape)]
    out = []
    for c in cells(sh):
        src = []
        for i, (k, n) in enumerate(zip(c, x.shape)):
            k -= p[i]
            if not 0 <= k < n:
                if mode == "constant":
                    src = None
                    break
                k = min(max(k, 0), n - 1) if mode == "edge" else k % n if mode == "wrap" else abs(k) if k < 0 else 2 * (n - 1) - k
                if not 0 <= k < n:
                    raise NoMeaning("padding larger than the extent")
            src.append(k)
        out.append(T.lift(value) if src is None else at(x, *src))
    return Val(None, sh, out)


class _L:
    """parameters of a resizing, as spec/concrete.py asks for them"""

    def __init__(self, cls, **f):
        self.cls, self.f = cls, f

    def n(self, k, d=None):
        return self.f.get(k, d)

    s = floats = n


def resize(x, y, A, scales, sizes, roi, opset):
    if len(x.shape) != 4 or scales is None and sizes is None or A.get("antialias", 0) or A.get("keep_aspect_ratio_policy", "stretch") != "stretch" or "axes" in A:
        raise NoMeaning("resizing")
    sh = list(sizes) if sizes else [math.floor(n * s) for n, s in zip(x.shape, scales)]
    sc = list(scales) if scales else [m / n for m, n in zip(sh, x.shape)]
    L = _L({"nearest": "ResizeNearest", "linear": "ResizeLinear", "cubic": "ResizeCubic"}[A.get("mode", "nearest")], scale=sc, roi=roi or [0.0] * 4 + [1.0] * 4,
           input_channels=x.shape[1], input_height=x.shape[2], input_width=x.shape[3], output_channels=sh[1], output_height=sh[2], output_width=sh[3],
           coordinate_transformation_mode=A.get("coordinate_transformation_mode", "half_pixel"), nearest_mode=A.get("nearest_mode", "round_prefer_floor"), cubic_coeff_a=A.get("cubic_coeff_a", -.75),
           exclude_outside=A.get("exclude_outside", 0), extrapolation_value=A.get("extrapolation_value", 0.0))
    try:
        return Val(None, sh, SP.resize(L, [x.vals], lambda v: v))
    except SP.NoSpec as e:
        raise NoMeaning(str(e))


def gemm(x, w, b, A):
    tA, tB = A.get("transA", 0), A.get("transB", 0)
    if len(x.shape) != 2:
        raise NoMeaning("rank")
    M, Kd = x.shape[::-1] if tA else x.shape
    N = w.shape[0] if tB else w.shape[1]
    out = []
    for i, j in cells((M, N)):
        v = SP.total([T.mul(at(x, *((k, i) if tA else (i, k))), at(w, *((j, k) if tB else (k, j)))) for k in range(Kd)])
        out.append(T.mul(T.lift(A.get("alpha", 1.0)), v))
    y = Val(None, (M, N), out)
    if b is None:
        return y
    return elementwise(fold(lambda p, q: T.add(p, T.mul(T.lift(A.get("beta", 1.0)), q))), [y, b])


def matmul(x, y):
    v1 = len(y.shape) == 1
    if v1:
        y = Val(None, y.shape + (1,), y.vals)
    if len(x.shape) < 2:
        raise NoMeaning("rank")
    lead = broadcast([Val(None, x.shape[:-2] or (1,), range(math.prod(x.shape[:-2]))), Val(None, y.shape[:-2] or (1,), range(math.prod(y.shape[:-2])))])
    M, K, N = x.shape[-2], x.shape[-1], y.shape[-1]
    if y.shape[-2] != K:
        raise NoMeaning("extents")
    out = []
    for a, b in zip(lead[0].vals, lead[1].vals):
        out += [SP.total([T.mul(x.vals[(a * M + i) * K + k], y.vals[(b * K + k) * N + j]) for k in range(K)]) for i, j in cells((M, N))]
    sh = (list(lead[0].shape) if max(len(x.shape), len(y.shape)) > 2 else []) + [M] + ([] if v1 else [N])
    return Val(None, sh, out)


def transpose(x, p):
    sh = [x.shape[i] for i in p]
    back = [p.index(i) for i in range(len(p))]
    return Val(None, sh, [at(x, *[c[k] for k in back]) for c in cells(sh)])


def evaluate(m, entry=None):
    """{tensor: its values}"""
    env = {}
    for name, s in m.inputs.items():
        if name not in m.inits:
            env[name] = Val(None, s, [T.leaf(f"{entry or name}[{i}]") for i in range(math.prod(s))])
    for name, t in m.inits.items():
        env[name] = stored(t)
    for n in m.nodes:
        y = node(m, n, [env[i] if i else None for i in n.ins], env)
        if n.outs[0] in m.shapes and tuple(m.shapes[n.outs[0]]) != tuple(y.shape):
            if math.prod(m.shapes[n.outs[0]]) != len(y.vals):
                raise NoMeaning(f"{n.op} of extents {y.shape} instead of {m.shapes[n.outs[0]]}")
            y = Val(None, m.shapes[n.outs[0]], y.vals)
        env[n.outs[0]] = y
    return env


def stored(t):
    return Val(None, t.shape, [T.lift(v) if isinstance(v, (int, float)) else v for v in t.vals])


def numbers(v):
    return None if v is None else [e.const() for e in v.vals]


def integers(v):
    return None if v is None else [int(e.const()) for e in v.vals]


def node(m, n, ins, env):
    A, op, x = n.attrs, n.op, ins[0] if ins else None
    arg = lambda i: ins[i] if len(ins) > i else None
    r = len(x.shape) if x is not None else 0
    if op == "Constant":
        return stored(A["value"])
    if op in ELEMENT:
        return elementwise(ELEMENT[op], ins)
    if op == "Conv":
        return conv(x, ins[1], arg(2), A)
    if op in ("MaxPool", "AveragePool"):
        return pool("max" if op == "MaxPool" else "mean", x, A)
    if op == "GlobalAveragePool":
        return reduce("ReduceMean", x, tuple(range(2, r)), 1)
    if op in ("Relu", "Tanh", "Sigmoid", "Exp", "Log", "LeakyRelu", "Clip"):
        lo, hi = (numbers(arg(k)) for k in (1, 2)) if op == "Clip" else (None, None)
        if op == "Clip" and m.opset < 11:
            lo, hi = [A.get("min")], [A.get("max")]
        f = {"Relu": ACTS["relu"], "Tanh": ACTS["tanh"], "Sigmoid": ACTS["sigmoid"], "Exp": lambda v: T.fn("exp", v), "Log": lambda v: T.fn("log", v), "LeakyRelu": leaky(A.get("alpha", .01)),
             "Clip": clip(lo and lo[0], hi and hi[0])}[op]
        return Val(None, x.shape, [f(v) for v in x.vals])
    if op == "Softmax":
        a = A.get("axis", 1 if m.opset < 13 else -1) % r
        return softmax(x, set(range(a, r)) if m.opset < 13 else {a})
    if op == "Concat":
        return concat(ins, A["axis"])
    if op == "Gather":
        a, idx = A.get("axis", 0) % r, ins[1]
        sh = list(x.shape[:a]) + list(idx.shape) + list(x.shape[a + 1:])
        at_ = integers(idx)
        q = len(idx.shape)
        return Val(None, sh, [at(x, *c[:a], at_[flatpos(c[a:a + q], idx.shape)] % x.shape[a], *c[a + q:]) for c in cells(sh)])
    if op == "GatherElements":
        a, idx = A.get("axis", 0) % r, ins[1]
        at_ = integers(idx)
        return Val(None, idx.shape, [at(x, *c[:a], at_[k] % x.shape[a], *c[a + 1:]) for k, c in enumerate(cells(idx.shape))])
    if op == "Gemm":
        return gemm(x, ins[1], arg(2), A)
    if op == "MatMul":
        return matmul(x, ins[1])
    if op == "BatchNormalization":
        s, b, mu, v = (i.vals for i in ins[1:5])
        e = A.get("epsilon", 1e-5)
        k = [T.div(p, T.fn("sqrt", T.add(q, T.lift(e)))) for p, q in zip(s, v)]
        return Val(None, x.shape, [T.add(T.mul(k[c[1]], T.add(p, mu[c[1]], -1.0)), b[c[1]]) for c, p in zip(cells(x.shape), x.vals)])
    if op == "Transpose":
        return transpose(x, A.get("perm", list(range(r))[::-1]))
    if op == "Tile":
        rep = integers(ins[1])
        sh = [a * b for a, b in zip(x.shape, rep)]
        return Val(None, sh, [at(x, *[k % n for k, n in zip(c, x.shape)]) for c in cells(sh)])
    if op.startswith("Reduce"):
        old = m.opset < (13 if op == "ReduceSum" else 18)
        ax = A.get("axes") if old else integers(arg(1))
        if not ax and A.get("noop_with_empty_axes", 0):
            return x
        return reduce(op, x, {a % r for a in ax} if ax else set(range(r)), A.get("keepdims", 1))
    if op == "Pad":
        p = integers(ins[1]) if m.opset >= 11 else A["pads"]
        ax = [a % r for a in integers(arg(3))] if arg(3) else list(range(r))
        full = [0] * (2 * r)
        for j, a in enumerate(ax):
            full[a], full[a + r] = p[j], p[j + len(ax)]
        return pad(x, full, A.get("mode", "constant"), numbers(arg(2))[0] if arg(2) else 0.0)
    if op == "Resize":
        return resize(x, None, A, numbers(arg(2)) or None, integers(arg(3)) or None, numbers(arg(1)), m.opset)
    if op in ("Dropout", "Flatten", "Reshape", "Unsqueeze", "Squeeze", "Identity"):
        sh = m.shapes.get(n.outs[0])
        return Val(None, sh if sh is not None and math.prod(sh) == len(x.vals) else x.shape, x.vals)
    raise NoMeaning(op)
