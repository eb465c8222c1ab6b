"""PyTorch programs as torch.export gives them, their meaning, and the interpreter of an importer of such programs.

A program is built by calling operators on values; every call makes a node of the FX graph and notes what the operator
computes (over value numbers), from the definition of the ATen operators."""
from __future__ import annotations

import itertools
import math

from . import terms as T
from .interp import HObj, Raised
from .nodes import FALSE, NONE, TRUE, const, mk, show, sym
from .ndarr import Imprecise
from .emit import Emitter


class Ten:
    """a tensor of the program: a node of the graph, its shape, its value numbers"""

    def __init__(self, node, shape, vals):
        self.node, self.shape, self.vals = node, tuple(shape), list(vals)


class Node:
    def __init__(self, op, name, target, args=(), kwargs=None, val=None):
        self.op, self.name, self.target, self.args, self.kwargs, self.val = op, name, target, tuple(args), kwargs or {}, val
        self.users = []


class Undefined(Exception):
    """the operator has no meaning here"""


# -------------------------------------------------- operators

def strides(shape):
    out, n = [], 1
    for s in reversed(shape):
        out.append(n)
        n *= s
    return out[::-1]


def at(x, idx):
    return x.vals[sum(i * s for i, s in zip(idx, strides(x.shape)))]


def cells(shape):
    return itertools.product(*[range(n) for n in shape])


def total(ps):
    r = T.lift(0.0)
    for p in ps:
        r = T.add(r, p)
    return r


def pair(v):
    v = v if isinstance(v, (list, tuple)) else [v]
    return list(v) * 2 if len(v) == 1 else list(v)


def relu(x):
    return T.DOM.call("fmax", [x, T.lift(0.0)])


def clamp(x, lo, hi):
    if lo is not None:
        x = T.DOM.call("fmax", [x, T.lift(float(lo))])
    return T.DOM.call("fmin", [x, T.lift(float(hi))]) if hi is not None else x


def pointwise(f):
    def g(x, *a, **k):
        return x.shape, [f(v, *a, **k) for v in x.vals]
    return g


def bshape(a, b):
    r = max(len(a), len(b))
    a, b = (1,) * (r - len(a)) + tuple(a), (1,) * (r - len(b)) + tuple(b)
    return tuple(max(x, y) for x, y in zip(a, b))


def spread(x, shape):
    sh = (1,) * (len(shape) - len(x.shape)) + x.shape
    y = Ten(None, sh, x.vals)
    return [at(y, [0 if n == 1 else i for i, n in zip(c, sh)]) for c in cells(shape)]


def binary(f):
    def g(a, b, **k):
        a, b = (x if isinstance(x, Ten) else Ten(None, (), [T.lift(float(x))]) for x in (a, b))
        sh = bshape(a.shape, b.shape)
        return sh, [f(x, y, **k) for x, y in zip(spread(a, sh), spread(b, sh))]
    return g


def linear(x, w, b=None):
    m, n = w.shape
    out = []
    for c in cells(x.shape[:-1]):
        for j in range(m):
            v = total(T.mul(at(w, (j, i)), at(x, c + (i,))) for i in range(n))
            out.append(v if b is None else T.add(v, b.vals[j]))
    return x.shape[:-1] + (m,), out


def windows(x, kernel, stride, pads, dilation, ceil=False):
    """output height and width, and cell -> input position or None"""
    H, W = x.shape[-2:]
    o = []
    for n, k, s, (p, q), d in zip((H, W), kernel, stride, pads, dilation):
        r = (n + p + q - d * (k - 1) - 1) / s
        m = (math.ceil(r) if ceil else math.floor(r)) + 1
        if ceil and (m - 1) * s >= n + p:
            m -= 1
        o.append(m)
    return o


def conv2d(x, w, b=None, stride=1, padding=0, dilation=1, groups=1):
    stride, dilation = pair(stride), pair(dilation)
    F, CG, KH, KW = w.shape
    if isinstance(padding, str):
        t = [d * (k - 1) for d, k in zip(dilation, (KH, KW))] if padding == "same" else [0, 0]
        pads = [(v // 2, v - v // 2) for v in t]
    else:
        pads = [(p, p) for p in pair(padding)]
    lead = x.shape[:-3]
    H, W = x.shape[-2:]
    OH, OW = windows(x, (KH, KW), stride, pads, dilation)
    out = []
    for c in cells(lead):
        for f, i, j in cells((F, OH, OW)):
            g = f * groups // F
            ps = []
            for k, a, e in cells((CG, KH, KW)):
                h, v = i * stride[0] - pads[0][0] + a * dilation[0], j * stride[1] - pads[1][0] + e * dilation[1]
                if 0 <= h < H and 0 <= v < W:
                    ps.append(T.mul(at(w, (f, k, a, e)), at(x, c + (g * CG + k, h, v))))
            v = total(ps)
            out.append(v if b is None else T.add(v, b.vals[f]))
    return lead + (F, OH, OW), out


def batch_norm(x, w, b, rm, rv, training=False, momentum=.1, eps=1e-5, cudnn=True):
    if training:
        raise Undefined("batch_norm in training mode")
    out = []
    for c in cells(x.shape):
        k = c[1]
        v = T.mul(T.add(at(x, c), rm.vals[k], -1.0), T.div(T.lift(1.0), T.fn("sqrt", T.add(rv.vals[k], T.lift(float(eps))))))
        if w is not None:
            v = T.mul(v, w.vals[k])
        out.append(v if b is None else T.add(v, b.vals[k]))
    return x.shape, out


def max_pool2d(x, kernel, stride=(), padding=0, dilation=1, ceil_mode=False):
    kernel, padding, dilation = pair(kernel), pair(padding), pair(dilation)
    stride = pair(stride) if stride not in ((), [], None) else kernel
    OH, OW = windows(x, kernel, stride, [(p, p) for p in padding], dilation, ceil_mode)
    H, W = x.shape[-2:]
    out = []
    for c in cells(x.shape[:-2]):
        for i, j in cells((OH, OW)):
            vs = []
            for a, e in cells(kernel):
                h, v = i * stride[0] - padding[0] + a * dilation[0], j * stride[1] - padding[1] + e * dilation[1]
                if 0 <= h < H and 0 <= v < W:
                    vs.append(at(x, c + (h, v)))
            out.append(T.DOM.call("fmax", vs) if len(vs) > 1 else vs[0])
    return x.shape[:-2] + (OH, OW), out


def avg_pool2d(x, kernel, stride=(), padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    kernel, padding = pair(kernel), pair(padding)
    stride = pair(stride) if stride not in ((), [], None) else kernel
    if ceil_mode or divisor_override:
        raise Undefined("average pooling")
    OH, OW = windows(x, kernel, stride, [(p, p) for p in padding], (1, 1))
    H, W = x.shape[-2:]
    out = []
    for c in cells(x.shape[:-2]):
        for i, j in cells((OH, OW)):
            vs = [at(x, c + (i * stride[0] - padding[0] + a, j * stride[1] - padding[1] + e)) for a, e in cells(kernel)
                  if 0 <= i * stride[0] - padding[0] + a < H and 0 <= j * stride[1] - padding[1] + e < W]
            out.append(T.mul(total(vs), T.lift(1.0 / (kernel[0] * kernel[1] if count_include_pad else len(vs)))))
    return x.shape[:-2] + (OH, OW), out


def adaptive_avg_pool2d(x, size):
    H, W = x.shape[-2:]
    OH, OW = pair(size)
    out = []
    for c in cells(x.shape[:-2]):
        for i, j in cells((OH, OW)):
            hs = range(i * H // OH, -(-(i + 1) * H // OH))
            ws = range(j * W // OW, -(-(j + 1) * W // OW))
            out.append(T.mul(total(at(x, c + (h, w)) for h in hs for w in ws), T.lift(1.0 / (len(hs) * len(ws)))))
    return x.shape[:-2] + (OH, OW), out


def cat(xs, dim=0):
    r = len(xs[0].shape)
    d = dim % r
    sh = list(xs[0].shape)
    sh[d] = sum(x.shape[d] for x in xs)
    out = []
    for c in cells(sh):
        k = c[d]
        for x in xs:
            if k < x.shape[d]:
                out.append(at(x, c[:d] + (k,) + c[d + 1:]))
                break
            k -= x.shape[d]
    return sh, out


def flatten(x, start=0, end=-1):
    r = len(x.shape)
    s, e = start % r, end % r
    return x.shape[:s] + (math.prod(x.shape[s:e + 1]),) + x.shape[e + 1:], x.vals


def view(x, shape):
    shape = list(shape)
    if -1 in shape:
        shape[shape.index(-1)] = len(x.vals) // math.prod(s for s in shape if s != -1)
    return shape, x.vals


def softmax(x, dim, *a):
    d = dim % len(x.shape)
    e = {c: T.fn("exp", at(x, c)) for c in cells(x.shape)}
    return x.shape, [T.div(e[c], total(e[c[:d] + (k,) + c[d + 1:]] for k in range(x.shape[d]))) for c in cells(x.shape)]


def transpose(x, a, b):
    p = list(range(len(x.shape)))
    p[a], p[b] = p[b], p[a]
    sh = [x.shape[i] for i in p]
    return sh, [at(x, [c[p.index(i)] for i in range(len(p))]) for c in cells(sh)]


def permute(x, p):
    sh = [x.shape[i] for i in p]
    return sh, [at(x, [c[list(p).index(i)] for i in range(len(p))]) for c in cells(sh)]


def dropout(x, p=.5, train=False):
    if train:
        raise Undefined("dropout in training mode")
    return x.shape, x.vals


def addmm(b, x, w):
    s, v = linear(x, Ten(None, w.shape[::-1], [at(w, (i, j)) for j in range(w.shape[1]) for i in range(w.shape[0])]))
    return s, [T.add(y, z) for y, z in zip(v, spread(b, s))]


SIG = lambda v: T.div(T.lift(1.0), T.add(T.lift(1.0), T.fn("exp", T.mul(T.lift(-1.0), v))))
SEM = {
    "linear.default": linear, "conv2d.default": conv2d, "conv2d.padding": conv2d, "batch_norm.default": batch_norm, "max_pool2d.default": max_pool2d, "avg_pool2d.default": avg_pool2d,
    "adaptive_avg_pool2d.default": adaptive_avg_pool2d, "cat.default": cat, "flatten.using_ints": flatten, "view.default": view, "reshape.default": view, "dropout.default": dropout, "feature_dropout.default": dropout,
    "relu.default": pointwise(relu), "relu_.default": pointwise(relu), "relu6.default": pointwise(lambda v: clamp(v, 0, 6)), "hardtanh.default": pointwise(lambda v, lo=-1., hi=1.: clamp(v, lo, hi)),
    "clamp.default": pointwise(lambda v, lo=None, hi=None: clamp(v, lo, hi)), "clamp_.default": pointwise(lambda v, lo=None, hi=None: clamp(v, lo, hi)),
    "clamp_min.default": pointwise(lambda v, lo: clamp(v, lo, None)), "clamp_max.default": pointwise(lambda v, hi: clamp(v, None, hi)),
    "leaky_relu.default": pointwise(lambda v, a=.01: T.ite(T.cmp(">", v, T.lift(0.0)), v, T.mul(T.lift(float(a)), v))), "tanh.default": pointwise(lambda v: T.fn("tanh", v)),
    "prelu.default": lambda x, w: (x.shape, [T.ite(T.cmp(">", v, T.lift(0.0)), v, T.mul(w.vals[0], v)) for v in x.vals]),
    "exp.default": pointwise(lambda v: T.fn("exp", v)), "neg.default": pointwise(lambda v: T.mul(T.lift(-1.0), v)), "abs.default": pointwise(lambda v: T.fn("fabs", v)), "sqrt.default": pointwise(lambda v: T.fn("sqrt", v)),
    "sigmoid.default": pointwise(SIG), "silu.default": pointwise(lambda v: T.mul(v, SIG(v))), "softmax.int": softmax,
    "add.Tensor": binary(lambda a, b, alpha=1: T.add(a, T.mul(b, T.lift(float(alpha))))), "add_.Tensor": binary(lambda a, b, alpha=1: T.add(a, T.mul(b, T.lift(float(alpha))))),
    "sub.Tensor": binary(lambda a, b: T.add(a, b, -1.0)), "mul.Tensor": binary(T.mul), "div.Tensor": binary(T.div), "maximum.default": binary(lambda a, b: T.DOM.call("fmax", [a, b])),
    "addmm.default": addmm, "transpose.int": transpose, "permute.default": permute, "squeeze.dim": lambda x, d: (x.shape[:d % len(x.shape)] + x.shape[d % len(x.shape) + 1:], x.vals), "unsqueeze.default": lambda x, d: (x.shape[:d] + (1,) + x.shape[d:], x.vals),
    "clone.default": pointwise(lambda v: v), "contiguous.default": pointwise(lambda v: v), "mean.dim": lambda x, dims, keep=False: mean(x, dims, keep), "sum.dim_IntList": lambda x, dims, keep=False: mean(x, dims, keep, 0),
    "bilinear.default": lambda a, b, w, z=None: ((w.shape[0],), [T.add(total(T.mul(T.mul(at(w, (o, i, j)), a.vals[i]), b.vals[j]) for i in range(w.shape[1]) for j in range(w.shape[2])), z.vals[o]) for o in range(w.shape[0])]),
    "addcmul.default": lambda a, b, c: (a.shape, [T.add(x, T.mul(y, z)) for x, y, z in zip(a.vals, b.vals, c.vals)]),
}


def mean(x, dims, keep=False, n=None):
    dims = [d % len(x.shape) for d in dims]
    sh = [s for i, s in enumerate(x.shape) if i not in dims]
    k = math.prod(x.shape[d] for d in dims) if n is None else 1
    out = []
    for c in cells(sh):
        vs = []
        for e in cells([x.shape[d] for d in dims]):
            it, jt = iter(c), dict(zip(dims, e))
            vs.append(at(x, [jt[i] if i in jt else next(it) for i in range(len(x.shape))]))
        out.append(T.mul(total(vs), T.lift(1.0 / k)))
    return ([1 if i in dims else s for i, s in enumerate(x.shape)] if keep else sh), out


class Program:
    """must: the importer has to import it; otherwise it may refuse it, but not make something else of it"""

    def __init__(self, title, must=True, dtype="float32", last=False, versions=None):
        self.title, self.must, self.dtype, self.last = title, must, dtype, last
        self.versions = versions or {}          # implementations selected for the layers
        self.nodes, self.params, self.inputs, self.outs, self.k = [], {}, [], [], {}

    def fresh(self, base):
        k = self.k[base] = self.k.get(base, -1) + 1
        return base if not k else f"{base}_{k}"

    def node(self, *a, **k):
        n = Node(*a, **k)
        self.nodes.append(n)
        return n

    def input(self, *shape):
        name = self.fresh("x")
        n = self.node("placeholder", name, name, val=shape)
        t = Ten(n, shape, [T.leaf(f"{name}[{i}]") for i in range(math.prod(shape))])
        self.inputs.append(t)
        return t

    def param(self, name, *shape):
        self.params[name] = shape
        n = Node("get_attr", self.fresh(name.replace(".", "_")), name, val=shape)
        self.nodes.insert(sum(x.op == "get_attr" for x in self.nodes), n)
        return Ten(n, shape, [T.leaf(f"k:{name}[{i}]") for i in range(math.prod(shape))])

    def __call__(self, target, *args, **kwargs):
        try:
            shape, vals = SEM[target](*args, **kwargs)
        except Undefined:
            shape, vals = args[0].shape, [None] * len(args[0].vals)
            self.undefined = True
        except AttributeError:
            shape, vals = next(a for a in args if isinstance(a, Ten)).shape, []
            self.undefined = True
        n = self.node("call_function", self.fresh(target.split(".")[0]), target, args, kwargs, val=shape)
        for a in flat(args):
            a.node.users.append(n)
        return Ten(n, shape, vals)

    undefined = False

    def out(self, *ts):
        self.outs = ts
        n = self.node("output", "output", "output", (tuple(ts),))
        for t in ts:
            t.node.users.append(n)
        return self


def flat(v):
    if isinstance(v, Ten):
        return [v]
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in flat(x)]
    return []


# -------------------------------------------------- the torch package

class Torch(Emitter):
    def program(self, st, p):
        objs = {}

        def arg(v):
            if isinstance(v, Ten):
                return objs[v.node]
            if isinstance(v, list):
                return self.new_list(st, [arg(x) for x in v])
            if isinstance(v, tuple):
                return mk("tuple", *[arg(x) for x in v])
            return NONE if v is None else const(v)
        for n in p.nodes:
            val = self.proto(st, __kind=const("fake"), shape=mk("tuple", *[const(s) for s in n.val]) if n.val is not None else NONE, dtype=mk("ext", "torch." + p.dtype), layout=const("channels_last" if p.last else "plain"))
            target = const(n.target) if n.op != "call_function" else self.proto(st, __kind=const("op"), __name__=const(n.target))
            objs[n] = self.proto(st, __kind=const("fxnode"), op=const(n.op), name=const(n.name), target=target, args=mk("tuple", *[arg(a) for a in n.args]),
                                 kwargs=self.new_dict(st, {k: arg(v) for k, v in n.kwargs.items()}), meta=self.new_dict(st, {"val": val} if n.val is not None else {}))
        for n in p.nodes:
            o = st.heap[objs[n].a[0]]
            st.heap[objs[n].a[0]] = HObj(None, dict(o.f, users=self.new_dict(st, {objs[u]: NONE for u in n.users})), None)
        state = {}
        for name, shape in p.params.items():
            state[name] = self.nd(st, shape, [sym(f"k:{name}[{i}]") for i in range(math.prod(shape))])
        g = self.proto(st, __kind=const("graph"), nodes=self.new_list(st, [objs[n] for n in p.nodes]))
        self.params = self.new_dict(st, state)
        self.module = self.proto(st, __kind=const("module"), graph=g)
        return self.proto(st, __kind=const("program"), graph_module=self.module, graph=g)

    def kind(self, v, st):
        h = self.h(st, v)
        if h is not None and h.k == "obj" and h.cls is None and "__kind" in h.f:
            return h.f["__kind"].a[0]
        return None

    def attr(self, v, name, st, node=None):
        k = self.kind(v, st)
        if k is not None:
            f = self.h(st, v).f
            if name in f:
                return f[name]
            if (k, name) in (("program", "module"), ("module", "state_dict"), ("fake", "numel"), ("fake", "is_contiguous"), ("fake", "dim"), ("fake", "size"), ("program", "state_dict"), ("module", "parameters")):
                return mk("meth", v, name)
            if (k, name) == ("fake", "ndim"):
                return const(len(f["shape"].a))
            if (k, name) == ("program", "state_dict"):
                return self.params
            if name == "all_input_nodes" and k == "fxnode":
                raise Imprecise("all_input_nodes")
            raise Raised("AttributeError", st)
        h = self.h(st, v)
        if h is not None and h.k == "nd" and name in ("numel", "numpy", "detach", "cpu", "is_contiguous", "contiguous", "clone", "double", "float", "dim", "clamp", "clip", "view", "t", "mul", "add", "sub", "div", "rsqrt", "sqrt"):
            return mk("meth", v, name)
        return super().attr(v, name, st, node)

    def method(self, b, name, args, kwargs, st, node):
        k = self.kind(b, st)
        if k is not None:
            f = self.h(st, b).f
            if name == "module":
                return self.module
            if name == "state_dict":
                return self.params
            if k == "fake":
                sh = [x.a[0] for x in f["shape"].a]
                if name == "numel":
                    return const(math.prod(sh))
                if name == "dim":
                    return const(len(sh))
                if name == "size":
                    return f["shape"] if not args else f["shape"].a[args[0].a[0]]
                if name == "is_contiguous":
                    m = kwargs.get("memory_format", args[0] if args else None)
                    # the strides of the layout; axes of a single element do not count
                    perm = [0, 2, 3, 1] if f["layout"].a[0] == "channels_last" and len(sh) == 4 else list(range(len(sh)))
                    st_ = dict(zip(perm, strides([sh[i] for i in perm])))
                    want = list(range(len(sh)))
                    if m is not None and "channels_last" in show(m):
                        if len(sh) != 4:
                            return FALSE
                        want = [0, 2, 3, 1]
                    ws = dict(zip(want, strides([sh[i] for i in want])))
                    return const(all(sh[i] == 1 or st_[i] == ws[i] for i in range(len(sh))))
            raise Imprecise("method " + name)
        h = self.h(st, b)
        if h is not None and h.k == "nd":
            if name in ("numpy", "detach", "cpu", "contiguous"):
                return b
            if name == "clone":
                return self.nd(st, h.shape, h.data, h.dt, h.exact)
            if name == "numel":
                return const(len(h.data))
            if name == "dim":
                return const(len(h.shape))
            if name in ("clamp", "clip") and not set(kwargs) - {"min", "max"}:
                lo, hi = (args + [NONE, NONE])[:2]
                lo, hi = kwargs.get("min", lo), kwargs.get("max", hi)
                d = h.data
                if lo is not NONE:
                    d = [mk("call", "builtins.max", (x, lo), ()) for x in d]
                if hi is not NONE:
                    d = [mk("call", "builtins.min", (x, hi), ()) for x in d]
                return self.nd(st, h.shape, d)
            if name in ("view", "t", "mul", "add", "sub", "div", "rsqrt", "sqrt"):
                if name == "view":
                    return super().method(b, "reshape", args, kwargs, st, node)
                if name == "t":
                    return self.numpy("transpose", [b], {}, st)
                if name in ("sqrt", "rsqrt"):
                    return self.torch_call(name, [b], {}, st)
                return self.binop({"mul": "*", "add": "+", "sub": "-", "div": "/"}[name], b, args[0], st)
            if name == "is_contiguous":
                return TRUE if not args and not kwargs else const(len(h.shape) == 4 and (h.shape[1] == 1 or h.shape[2] * h.shape[3] == 1))
        return super().method(b, name, args, kwargs, st, node)

    def compare0(self, op, l, r, st):
        one = lambda x: x.op == "ext" and x.a[0].startswith(("torch.", "numpy.", "builtins."))
        if op in ("==", "!=", "is", "is not") and one(l) and (one(r) or r.op == "const"):
            return const((l is r) == (op in ("==", "is")))
        if op in ("in", "not in") and one(l):
            s = self.seq(r, st)
            if s is not None and all(one(x) or x.op == "const" for x in s):
                return const(any(x is l for x in s) == (op == "in"))
        return super().compare0(op, l, r, st)

    def isinst(self, v, c, st):
        k = self.kind(v, st)
        if k is not None:
            names = {"fake": ("Tensor", "FakeTensor"), "fxnode": ("Node",), "program": ("ExportedProgram",), "module": ("GraphModule", "Module")}.get(k, ())
            cs = list(c.a) if c.op in ("tuple", "list") else [c]
            if any(x.op != "ext" for x in cs if x.op != "cls"):
                raise Imprecise("isinstance of a torch object")
            return const(any(x.op == "ext" and x.a[0].split(".")[-1] in names for x in cs))
        return super().isinst(v, c, st)

    def external(self, name, args, kwargs, st, node, star, starstar):
        if name == "builtins.hasattr" and len(args) == 2 and args[1].op == "const":
            k = self.kind(args[0], st)
            if k is not None:
                return const(args[1].a[0] in self.h(st, args[0]).f)
            if args[0].op == "const":
                return const(hasattr(args[0].a[0], args[1].a[0]))
        if name.startswith("logging."):
            return NONE
        if name.startswith("torch."):
            r = self.torch_call(name[6:], args, kwargs, st)
            if r is None:
                raise Imprecise("call of " + name)
            return r
        return super().external(name, args, kwargs, st, node, star, starstar)

    def torch_call(self, f, args, kw, st):
        if f in ("from_numpy", "as_tensor", "tensor") and args:
            return args[0] if f != "tensor" else self.numpy("array", args, {}, st)
        if f in ("rsqrt", "sqrt") and len(args) == 1:
            h = self.arr(args[0], st)
            if h is None:
                raise Imprecise("torch." + f)
            one = lambda x: mk("call", "numpy.sqrt", (x,), ())
            return self.nd(st, h.shape, [mk("bin", "/", const(1.0), one(x)) if f == "rsqrt" else one(x) for x in h.data])
        if f in ("zeros_like", "ones_like", "zeros", "ones", "full", "reshape", "flatten"):
            return self.numpy(f, args, kw, st)
        return None
