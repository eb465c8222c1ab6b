"""C15: programs of torch.export are imported as networks that compute what they compute."""
from __future__ import annotations

import os
import random

from sa import emit as E
from sa import graphs as GR
from sa import terms as T
from sa import torchmodel as TM
from sa.interp import Raised
from sa.nodes import const, show
from sa.torchmodel import Program

from . import emission as EM


def interpreter(repo):
    I0, st = E.fresh(repo)
    I = E.LAST = TM.Torch(repo)
    I.ids, I.gcache, I.closures = I0.ids, dict(I0.gcache), dict(I0.closures)
    I.word = 4
    return I, st


# -------------------------------------------------- programs

OUT = []


def case(must=True, **kw):
    def deco(f):
        OUT.append((f, must, kw))
        return f
    return deco


class B:
    """builder: layers with their own parameters"""

    def __init__(self, p):
        self.p, self.k = p, 0

    def x(self, *shape):
        return self.p.input(*shape)

    def n(self):
        self.k += 1
        return f"m.{self.k - 1}"

    def lin(self, x, m, bias=True):
        k = self.n()
        a = [self.p.param(k + ".weight", m, x.shape[-1])] + ([self.p.param(k + ".bias", m)] if bias else [])
        return self.p("linear.default", x, *a)

    def conv(self, x, f, k=(2, 2), *args, bias=True, groups=1, same=None):
        n = self.n()
        w = self.p.param(n + ".weight", f, x.shape[-3] // groups, *k)
        b = self.p.param(n + ".bias", f) if bias else None
        a = list(args)
        if groups != 1:
            a = (a + [[1, 1], [0, 0], [1, 1]][len(a):]) + [groups]
        if b is None and not a:
            return self.p("conv2d.default", x, w)
        return self.p("conv2d.padding" if same else "conv2d.default", x, w, b, *a)

    def bn(self, x, affine=True, training=False, eps=.25):
        k, c = self.n(), x.shape[1]
        w = [self.p.param(f"{k}.{s}", c) for s in ("weight", "bias")] if affine else [None, None]
        r = [self.p.param(f"{k}.{s}", c) for s in ("running_mean", "running_var")]
        return self.p("batch_norm.default", x, *w, *r, training, .1, eps, True)

    def relu(self, x):
        return self.p("relu.default", x)

    def pool(self, x, *a):
        return self.p("max_pool2d.default", x, *a)

    def flat(self, x):
        return self.p("flatten.using_ints", x, 1)

    def add(self, a, b, **k):
        return self.p("add.Tensor", a, b, **k)

    def cat(self, l, *d):
        return self.p("cat.default", list(l), *d)

    def clamp(self, x, *a):
        return self.p("clamp.default", x, *a)


BLOCKS = {"Conv2D": "direct_block"}         # the implementation that has depthwise convolutions
NONE_YET = {"": ""}                         # no implementation has them: the layers are taken as imported


def programs(tier):
    out = []

    def add(title, f, must=True, **kw):
        p = Program(title, must, **kw)
        b = B(p)
        p.out(f(b))
        out.append(p)
    I4, C4 = (1, 3), (1, 2, 4, 4)
    # single operators
    for sh in ((3,), (1, 3)):
        add(f"linear of {sh}", lambda b: b.lin(b.x(*sh), 2))
        add(f"linear without bias of {sh}", lambda b: b.lin(b.x(*sh), 2, bias=False))
        add(f"two linear and relu of {sh}", lambda b: b.lin(b.relu(b.lin(b.x(*sh), 4)), 2))
        add(f"sum of {sh}", lambda b: (lambda x: b.add(b.lin(x, 2), b.lin(x, 2)))(b.x(*sh)))
        add(f"sum with factor of {sh}", lambda b: (lambda x: b.add(b.lin(x, 2), b.lin(x, 2), alpha=2))(b.x(*sh)), False)
        add(f"sum with itself of {sh}", lambda b: (lambda y: b.add(y, y))(b.lin(b.x(*sh), 2)))
    add("rows of linear", lambda b: b.lin(b.x(2, 3), 2), False)
    add("rows of linear of one feature", lambda b: b.lin(b.x(2, 3), 1), False)
    for k in ((2, 2), (3, 2), (1, 3), (1, 1)):
        add(f"convolution by {k}", lambda b: b.conv(b.x(1, 2, 4, 4), 3, k))
        add(f"convolution by {k} without bias", lambda b: b.conv(b.x(1, 2, 4, 4), 3, k, bias=False))
        add(f"strided convolution by {k} without bias", lambda b: b.conv(b.x(1, 2, 5, 4), 3, k, [2, 2], bias=False))
        add(f"padded convolution by {k}", lambda b: b.conv(b.x(1, 2, 4, 3), 2, k, [1, 1], [1, 0]))
    add("convolution of rectangle", lambda b: b.conv(b.x(1, 2, 5, 3), 2, (2, 2), [1, 1], [0, 1]))
    add("dilated convolution", lambda b: b.conv(b.x(1, 1, 5, 6), 2, (2, 3), [1, 1], [0, 0], [2, 2]))
    add("dilated strided padded convolution", lambda b: b.conv(b.x(1, 2, 6, 5), 2, (3, 2), [2, 2], [2, 1], [2, 2]))
    add("grouped convolution", lambda b: b.conv(b.x(1, 4, 3, 3), 4, groups=2), versions=NONE_YET)
    add("depthwise convolution", lambda b: b.conv(b.x(1, 3, 3, 3), 3, groups=3), versions=BLOCKS)
    add("depthwise convolution twice as deep", lambda b: b.conv(b.x(1, 2, 3, 3), 4, groups=2), versions=NONE_YET)
    add("convolution of three groups, without bias", lambda b: b.relu(b.conv(b.x(1, 6, 4, 3), 3, (2, 1), bias=False, groups=3)), versions=NONE_YET)
    add("grouped convolution by the default implementation", lambda b: b.conv(b.x(1, 4, 3, 3), 4, groups=2), False)
    add("strides of a convolution that differ", lambda b: b.conv(b.x(1, 2, 5, 5), 2, (2, 2), [2, 1]), False)
    add("strides of a convolution that differ, narrow", lambda b: b.conv(b.x(1, 2, 5, 2), 2, (2, 2), [2, 1]), False)
    add("dilations of a convolution that differ", lambda b: b.conv(b.x(1, 1, 8, 8), 1, (3, 3), [3, 3], [0, 0], [1, 2]), False)
    add("dilations of a convolution that differ (2)", lambda b: b.conv(b.x(1, 1, 8, 8), 1, (3, 3), [3, 3], [0, 0], [2, 1]), False)
    for k in ((3, 3), (2, 2), (3, 1)):
        add(f"convolution by {k} of same padding", lambda b: b.conv(b.x(1, 2, 4, 5), 2, k, [1, 1], "same", same=True))
        add(f"dilated convolution by {k} of same padding", lambda b: b.conv(b.x(1, 1, 5, 4), 2, k, [1, 1], "same", [2, 2], same=True))
        add(f"convolution by {k} of valid padding", lambda b: b.conv(b.x(1, 2, 5, 5), 2, k, [2, 2], "valid", same=True))
    add("convolution of an image without batch", lambda b: b.conv(b.x(2, 3, 3), 3), False)
    add("convolution of two images", lambda b: b.conv(b.x(2, 2, 3, 3), 3), False)
    for a in ([2, 2],), ([2, 2], [2, 2]), ([2, 2], [1, 1]), ([3, 3], [2, 2], [1, 1]), ([2, 2], [2, 2], [1, 1]), ([3, 3], [1, 1], [1, 0]), ([2, 2], [], [1, 1]):
        add(f"pooling {a}", lambda b: b.pool(b.x(1, 2, 5, 6), *a))
        add(f"convolution and pooling {a} and relu", lambda b: b.relu(b.pool(b.conv(b.x(1, 1, 5, 5), 2), *a)))
    for a in ([2, 1], [2, 1]), ([2, 2], [2, 1]), ([2, 2], [3, 3], [0, 0], [2, 2]), ([2, 2], [2, 2], [0, 0], [1, 2]), ([2, 2], [2, 2], [0, 0], [1, 1], True), ([3, 3], [2, 2], [0, 0], [1, 1], True), ([2, 2], [1, 1], [0, 0], [2, 2]):
        add(f"pooling {a}", lambda b: b.pool(b.x(1, 2, 7, 7), *a), a[-1] is True and a[0] == [3, 3])
        add(f"pooling {a} of a narrow image", lambda b: b.pool(b.x(1, 1, 7, 3), *a), False)
    for sh, o in ((4, 4), [1, 1]), ((4, 3), [1, 1]), ((3, 4), [1, 1]), ((4, 4), [2, 2]), ((2, 2), [2, 2]), ((1, 1), [1, 1]), ((5, 5), [2, 1]), ((3, 3), [3, 3]):
        add(f"adaptive pooling of {sh} to {o}", lambda b: b.p("adaptive_avg_pool2d.default", b.x(1, 2, *sh), o), sh[0] == sh[1] and o == [1, 1])
    for a in ([2, 2],), ([2, 2], [1, 1]), ([3, 3], [2, 2], [1, 1]), ([2, 2], [2, 2], [1, 1], False, False):
        add(f"average pooling {a}", lambda b: b.p("avg_pool2d.default", b.x(1, 2, 5, 5), *a), False)
    # activations, by what they are applied to
    base = {"input": lambda b: b.x(1, 2, 3, 3), "linear": lambda b: b.lin(b.x(1, 3), 4), "convolution": lambda b: b.conv(b.x(1, 2, 3, 3), 2), "pooling": lambda b: b.pool(b.conv(b.x(1, 2, 4, 4), 2), [2, 2], [1, 1]),
            "sum": lambda b: (lambda x: b.add(b.conv(x, 2), b.conv(x, 2)))(b.x(1, 2, 3, 3)), "concatenation": lambda b: (lambda x: b.cat([b.conv(x, 2), b.conv(x, 1)], 1))(b.x(1, 2, 3, 3)),
            "relu": lambda b: b.relu(b.conv(b.x(1, 1, 3, 3), 2)), "clamp": lambda b: b.clamp(b.conv(b.x(1, 1, 3, 3), 2), -1.5, 2.5), "batch norm": lambda b: b.bn(b.conv(b.x(1, 1, 3, 3), 2)),
            "input batch norm": lambda b: b.bn(b.x(1, 2, 3, 3)), "flattened": lambda b: b.flat(b.conv(b.x(1, 2, 3, 3), 2)), "dropped out": lambda b: b.p("dropout.default", b.lin(b.x(1, 3), 4), .5, False)}
    acts = {"relu": b_relu, "relu_": lambda b, x: b.p("relu_.default", x), "clamp": lambda b, x: b.clamp(x, -.5, .5), "clamp to integers": lambda b, x: b.clamp(x, 0, 6), "clamp from": lambda b, x: b.clamp(x, .25), "clamp to": lambda b, x: b.clamp(x, None, 3.0), "clamp to zero": lambda b, x: b.clamp(x, None, 0.0), "clamp from -1 to zero": lambda b, x: b.clamp(x, -1, 0), "batch norm": lambda b, x: b.bn(x)}
    for bn, f in base.items():
        for an, g in acts.items():
            if an == "batch norm" and bn in ("linear", "dropped out", "flattened"):
                continue
            must = True
            add(f"{an} of {bn}", lambda b: g(b, f(b)), must)
            add(f"{an} of {bn} and its operand", lambda b: (lambda y: b.add(g(b, y), y))(f(b)), must and bn != "input" or an != "relu_")
            if bn != "input":
                add(f"{bn} and its {an}", lambda b: (lambda y: b.add(y, b.relu(g(b, y))))(f(b)), must)
    add("one-dimensional batch norm", lambda b: b.bn(b.lin(b.x(1, 3), 4)), False)
    add("relu of one-dimensional batch norm", lambda b: b.relu(b.bn(b.lin(b.x(1, 3), 4))), False)
    add("batch norm without scale", lambda b: b.bn(b.conv(b.x(1, 1, 3, 3), 2), affine=False), False)
    add("batch norm in training mode", lambda b: b.bn(b.conv(b.x(1, 1, 3, 3), 2), training=True), False)
    add("batch norm with the usual margin", lambda b: b.bn(b.conv(b.x(1, 1, 3, 3), 2), eps=1e-5))
    add("two batch norms", lambda b: b.bn(b.bn(b.conv(b.x(1, 1, 3, 3), 2))))
    add("convolution without bias, batch norm, relu", lambda b: b.relu(b.bn(b.conv(b.x(1, 1, 4, 4), 2, (2, 2), [1, 1], [1, 1], bias=False))))
    add("batch norm of a convolution with two readers", lambda b: (lambda y: b.add(b.bn(y), b.bn(y)))(b.conv(b.x(1, 1, 3, 3), 2)))
    add("two relus of a convolution", lambda b: (lambda y: b.add(b.relu(y), b.clamp(y, -1, 1)))(b.conv(b.x(1, 1, 3, 3), 2)))
    add("relu of a dropped out value read elsewhere", lambda b: (lambda y: b.add(b.relu(b.p("dropout.default", y, .5, False)), y))(b.lin(b.x(1, 3), 2)))
    add("relu of a flattened value read elsewhere", lambda b: (lambda y: b.add(b.lin(b.relu(b.flat(y)), 2), b.lin(b.p("view.default", y, [1, 8]), 2)))(b.conv(b.x(1, 1, 3, 3), 2)))
    add("residual block", lambda b: (lambda x: b.relu(b.add(b.bn(b.conv(b.relu(b.bn(b.conv(x, 2, (3, 3), [1, 1], [1, 1], bias=False))), 2, (3, 3), [1, 1], [1, 1], bias=False)), x)))(b.relu(b.conv(b.x(1, 1, 3, 3), 2))))
    # concatenations
    for sh, dims in ((3,), (0, -1)), ((1, 3), (1, -1, 0, -2)):
        for d in dims:
            add(f"concatenation of {sh} along {d}", lambda b: (lambda x: b.cat([b.lin(x, 2), b.lin(x, 2), x], d) if False else b.cat([b.lin(x, 2), b.lin(x, 2 if d in (0, -2) and len(sh) == 2 else 3)], d))(b.x(*sh)))
    add("concatenation along the first axis by default", lambda b: (lambda x: b.cat([b.lin(x, 2), b.lin(x, 3)]))(b.x(3)))
    add("concatenation of rows by default", lambda b: (lambda x: b.cat([b.lin(x, 2), b.lin(x, 2)]))(b.x(1, 3)))
    for d in (1, 2, 3, -1, -2, -3):
        add(f"concatenation of images along {d}", lambda b: (lambda x: b.cat([b.conv(x, 2), b.conv(x, 2), b.relu(b.conv(x, 2))], d))(b.x(1, 1, 3, 4)))
    add("concatenation of flattened images", lambda b: (lambda x: b.lin(b.cat([b.flat(b.conv(x, 2)), b.flat(b.conv(x, 1, (1, 1)))], 1), 2))(b.x(1, 1, 3, 3)))
    add("concatenation with a value read elsewhere", lambda b: (lambda y: b.cat([y, b.relu(y)], 1))(b.conv(b.x(1, 1, 3, 3), 2)))
    add("concatenation of a value with itself", lambda b: (lambda y: b.cat([y, y], 1))(b.conv(b.x(1, 1, 3, 3), 2)), False)
    # sums
    add("sum of an image and a channel vector", lambda b: (lambda x: b.add(b.conv(x, 2), b.p("adaptive_avg_pool2d.default", b.conv(x, 2), [1, 1])))(b.x(1, 1, 4, 4)))
    add("sum with a number", lambda b: b.add(b.lin(b.x(1, 3), 2), 1), False)
    add("sum with a number, last", lambda b: b.add(b.lin(b.x(1, 3), 2), 2.5), False)
    add("sum with a parameter", lambda b: b.add(b.lin(b.x(1, 3), 2), b.p.param("extra", 2)), False)
    add("sum of a parameter", lambda b: b.add(b.p.param("extra", 2), b.lin(b.x(1, 3), 2)), False)
    add("in-place sum", lambda b: (lambda x: b.p("add_.Tensor", b.conv(x, 2), b.conv(x, 2)))(b.x(1, 1, 3, 3)))
    # views
    add("view of a convolution", lambda b: b.lin(b.p("view.default", b.conv(b.x(1, 2, 3, 3), 2), [1, -1]), 2), False)
    add("view as an image", lambda b: b.conv(b.p("view.default", b.lin(b.x(1, 3), 8), [1, 2, 2, 2]), 2), False)
    add("reshape of a linear as an image, pooled", lambda b: b.pool(b.p("reshape.default", b.lin(b.x(1, 3), 8), [1, 2, 2, 2]), [2, 2]), False)
    add("flattened input", lambda b: b.lin(b.flat(b.x(1, 2, 2, 2)), 3))
    add("flattened from the first axis", lambda b: b.lin(b.p("flatten.using_ints", b.conv(b.x(1, 1, 3, 3), 2)), 3))
    add("flattened, dropped out", lambda b: b.lin(b.p("dropout.default", b.flat(b.relu(b.conv(b.x(1, 1, 3, 3), 2))), .5, False), 3))
    add("dropout in training mode", lambda b: b.lin(b.p("dropout.default", b.lin(b.x(1, 3), 2), .5, True), 3), False)
    # what is not supported, as the last operator and before a supported one
    others = {"leaky_relu.default": (.1,), "relu6.default": (), "hardtanh.default": (), "tanh.default": (), "sigmoid.default": (), "silu.default": (), "clamp_min.default": (.1,), "clamp_max.default": (.1,), "exp.default": (), "neg.default": (),
              "abs.default": (), "sqrt.default": (), "softmax.int": (-1,), "clone.default": (), "contiguous.default": (), "prelu.default": ("param",), "unsqueeze.default": (0,), "transpose.int": (0, 1), "mean.dim": ([-1],), "sum.dim_IntList": ([-1],)}
    for n, a in others.items():
        for bn in ("linear", "convolution"):
            ex = lambda b: [b.p.param("slope", 1) if v == "param" else v for v in a]
            if n == "transpose.int" and bn == "convolution":
                a = (2, 3)
            add(f"{n} of a {bn}", lambda b: b.p(n, base[bn](b), *ex(b)), False)
            if n in ("mean.dim", "sum.dim_IntList") and bn == "linear":
                continue
            add(f"{n} of a {bn}, then relu", lambda b: b.relu(b.p(n, base[bn](b), *ex(b))), False)
    for n in ("mul.Tensor", "sub.Tensor", "div.Tensor", "maximum.default"):
        add(f"{n}", lambda b: (lambda x: b.p(n, b.lin(x, 2), b.lin(x, 2)))(b.x(1, 3)), False)
        add(f"relu of {n}", lambda b: (lambda x: b.relu(b.p(n, b.lin(x, 2), b.lin(x, 2))))(b.x(1, 3)), False)
    add("addmm", lambda b: b.p("addmm.default", b.p.param("bias", 2), b.lin(b.x(1, 3), 3), b.p.param("mat", 3, 2)), False)
    add("addcmul", lambda b: (lambda x: b.p("addcmul.default", b.lin(x, 2), b.lin(x, 2), b.lin(x, 2)))(b.x(1, 3)), False)
    add("permuted convolution", lambda b: b.lin(b.flat(b.p("permute.default", b.conv(b.x(1, 2, 3, 3), 2), [0, 2, 3, 1])), 2), False)
    add("permuted convolution, last", lambda b: b.p("permute.default", b.conv(b.x(1, 2, 3, 3), 2), [0, 2, 3, 1]), False)
    # types and layouts
    for dt in ("float64", "float16"):
        add(f"{dt} linear", lambda b: b.lin(b.x(1, 3), 2), dt == "float64", dtype=dt)
        add(f"{dt} convolution, batch norm", lambda b: b.bn(b.conv(b.x(1, 1, 3, 3), 2)), dt == "float64", dtype=dt)
    add("image of one channel", lambda b: b.lin(b.flat(b.relu(b.conv(b.x(1, 1, 3, 3), 2))), 2))
    add("image of one pixel", lambda b: b.conv(b.x(1, 3, 1, 1), 2, (1, 1)))
    add("image in channels last layout", lambda b: b.conv(b.x(1, 2, 3, 3), 2), last=True)
    r = random.Random(15)
    for k in range(40 if tier != "thorough" else 300):
        out.append(randomly(k, random.Random(f"{r.random()}")))
    return out


def b_relu(b, x):
    return b.relu(x)


def randomly(k, r):
    p = Program(f"random program {k}")
    b = B(p)
    vals = [b.x(1, r.choice((1, 2)), 4, 4)]
    ops = []
    for _ in range(r.randint(2, 6)):
        x = vals[-1] if r.random() < .7 else r.choice(vals)
        kind = r.choice(["conv", "conv", "relu", "clamp", "bn", "add", "cat", "pool", "drop"])
        if kind == "conv":
            y = b.conv(x, x.shape[1] if r.random() < .5 else r.choice((1, 2)), (3, 3), [1, 1], [1, 1], bias=r.random() < .6)
        elif kind == "relu":
            y = b.relu(x)
        elif kind == "clamp":
            y = b.clamp(x, *r.choice([(-1, 1), (0, 6), (.5,), (None, 2.0)]))
        elif kind == "bn":
            y = b.bn(x)
        elif kind == "drop":
            y = p("dropout.default", x, .5, False)
        elif kind == "pool":
            y = b.pool(x, [3, 3], [1, 1], [1, 1])
        else:
            z = r.choice(vals)
            if kind == "add" and z.shape == x.shape:
                y = b.add(x, z)
            elif kind == "cat" and z is not x and x.shape[1] + z.shape[1] < 5:
                y = b.cat([x, z], 1)
            else:
                y = b.relu(x)
        ops.append(kind)
        vals.append(y)
    # every value that nothing reads is gathered
    loose = [v for v in vals[1:] if not v.node.users]
    while len(loose) > 1:
        a, c = loose.pop(), loose.pop()
        loose.append(b.add(a, c) if a.shape == c.shape else b.cat([a, c], 1))
    p.title += ": " + " ".join(n.target.split(".")[0] for n in p.nodes if n.op == "call_function")
    if loose[0].shape[1] * loose[0].node.val[2] and sum(n.target.startswith("conv") for n in p.nodes if n.op == "call_function") > 2:
        pass
    return p.out(loose[0])


# -------------------------------------------------- the network imported

def judged(p):
    return EM.guarded(_judged, p)


def _judged(p):
    I, st = interpreter(EM.REPO)
    fi = I.repo.func("acetone_nnet.importers.PYTORCH_importer.parse_pytorch", "load_pytorch")
    try:
        v = I.call_fi(fi, [I.program(st, p)], {}, st)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        if p.must:
            return "bad", [("refused", f"the program is refused ({e.name})", I.raised_where or fi.loc)]
        return "ok", ("refused", 1)
    if v.op != "tuple" or len(v.a) < 4:
        return "skip", "result " + show(v)[:60]
    out, n = [], 0
    if p.undefined:
        return "bad", [("accepted", "the program is accepted, though it has no meaning a network could have", fi.loc)]
    for what, g, w in (("type", v.a[1], {"float64": "double", "float32": "float"}.get(p.dtype)), ("layout", v.a[3], "channels_last" if p.last else "channels_first")):
        n += 1
        if g.op != "const":
            return "skip", what
        if g.a[0] != w:
            out.append((what, f"the {what} of the network is {g.a[0]} instead of {w}", fi.loc))
    layers = GR.items(I, st, v.a[0])
    out.extend(("model", w, fi.loc) for r, w in GR.well_formed(I, st, layers))
    if out or p.last:
        return ("bad", out) if out else ("ok", ("imported", n))
    if p.versions != NONE_YET:
        try:
            I, st, o = E.generator(I, st, v, False, {"versions": p.versions} if p.versions else {})
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                return "skip", e.name
            if p.must:
                return "bad", [("refused", f"the network imported is refused ({e.name})", I.raised_where or fi.loc)]
            return "ok", ("refused", 1)
        layers = GR.items(I, st, I.attr(o, "layers", st))
    vals = {}
    sinks = [o for o in layers if not GR.links(I, st, o, "next_layer")]
    if len(sinks) != 1:
        return "bad", [("model", f"{len(sinks)} layers of the network compute a value nothing reads", fi.loc)]
    for o in layers:
        i = GR.cint(I, st, o, "idx")
        h = I.h(st, o)
        preds = [GR.cint(I, st, q, "idx") for q in GR.links(I, st, o, "previous_layer")]
        if any(c.name == "InputLayer" for c in h.cls.mro()):
            if preds or len(p.inputs) != 1:
                return "skip", "inputs"
            t = p.inputs[0]
            x = I.nd(st, t.shape, [TM.sym(f"{t.node.name}[{k}]") for k in range(len(t.vals))])
        elif any(q not in vals for q in preds) or not preds:
            return "bad", [("model", f"layer {i} comes before the layers it reads", fi.loc)]
        else:
            x = vals[preds[0]] if len(preds) == 1 else I.new_list(st, [vals[q] for q in preds])
        f = h.cls.find("forward_path_layer")
        try:
            r = I.call_fi(f, [x], {}, st, selfv=o)
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                return "skip", e.name
            return "bad", [("layer", f"layer {i} ({h.cls.name}) cannot compute on the values it is given ({e.name})", fi.loc)]
        a = I.arr(r, st)
        if a is None:
            return "skip", "value of layer " + h.cls.name
        vals[i] = I.nd(st, a.shape, a.data)
    got = [T.number(e) for e in I.arr(vals[GR.cint(I, st, sinks[0], "idx")], st).data]
    want = p.outs[0].vals
    if len(got) != len(want):
        return "bad", [("size", f"the network computes {len(got)} values instead of {len(want)}", fi.loc)]
    same = 0
    for k, (g, w) in enumerate(zip(got, want)):
        if g == w:
            n += 1
            continue
        d = T.differs(g, w, 24, positive=lambda key: "var" in str(key))
        if d is not None:
            return "bad", [("value", f"element {k} of its output is {T.show(g)} instead of {T.show(w)} (e.g. {d[1]:.6g} instead of {d[2]:.6g})", fi.loc)]
        same += 1
    if same:
        return "skip", f"{same} of {len(want)} values agree at the sample points, in another form"
    return "ok", ("imported", n)


def c15(chk):
    chk.rule = ("load_pytorch interpreted on the graphs torch.export makes, for enumerated operators, arguments given or left out, ranks, contexts (value read elsewhere, already activated, input) and random graphs: the layers made, run by their reference on the elements of the "
                "input as leaves, have the value numbers that the definition of the operators gives; a program outside what is supported is refused and never imported as something else")
    chk.assumptions += ["float arithmetic is taken over the reals", "graphs have the form torch.export 2.7 gives them"]
    tier = EM.start(chk)
    ps = programs(tier)
    groups, ref = {}, 0
    for p, (k, v) in zip(ps, EM.run_jobs(judged, ps)):
        chk.count("programs")
        if k == "ok":
            chk.ok(p.title)
            chk.count("programs " + v[0])
            chk.count("values compared", v[1])
        elif k == "skip":
            chk.skip(p.title, v)
        else:
            for c, w, wh in v:
                groups.setdefault(c, []).append((p.title, w, wh))
    EM.report(chk, groups)


CHECKS = {"C15": c15}
