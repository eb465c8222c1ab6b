"""Keras models as the JSON exporter describes them, and their meaning.

A model is built by applying layers to values; every application notes the entry of the description and what Keras
defines the layer to compute (over value numbers), in the layout of the model."""
from __future__ import annotations

import itertools
import math
import random

from . import terms as T


class Val:
    """output of a layer: position of the layer in the description, shape without batch (layout of the model), value numbers"""

    def __init__(self, pos, shape, vals):
        self.pos, self.shape, self.vals = pos, tuple(shape), list(vals)


def cells(shape):
    return itertools.product(*[range(n) for n in shape])


def flatpos(idx, shape):
    k = 0
    for i, n in zip(idx, shape):
        k = k * n + i
    return k


def at(x, *idx):
    return x.vals[flatpos(idx, x.shape)]


def permuted(x, p):
    sh = [x.shape[i] for i in p]
    inv = [p.index(i) for i in range(len(p))]
    return Val(x.pos, sh, [at(x, *[c[k] for k in inv]) for c in cells(sh)])


def total(ps):
    r = T.lift(0.0)
    for p in ps:
        r = T.add(r, p)
    return r


def by_sign(v, f, g):
    """one function, written with the exponential of v where v is negative, of -v elsewhere"""
    return T.ite(T.cmp("<", v, T.lift(0.0)), f(T.fn("exp", v)), g(T.fn("exp", T.mul(T.lift(-1.0), v))))


ACTS = {
    "linear": lambda v: v,
    "relu": lambda v: T.DOM.call("fmax", [v, T.lift(0.0)]),
    "sigmoid": lambda v: by_sign(v, lambda e: T.div(e, T.add(e, T.lift(1.0))), lambda e: T.div(T.lift(1.0), T.add(T.lift(1.0), e))),
    "tanh": lambda v: by_sign(T.mul(T.lift(2.0), v), lambda e: T.div(T.add(e, T.lift(1.0), -1.0), T.add(e, T.lift(1.0))), lambda e: T.div(T.add(T.lift(1.0), e, -1.0), T.add(T.lift(1.0), e))),
    "leaky_relu": lambda v: T.ite(T.cmp(">", v, T.lift(0.0)), v, T.mul(T.lift(.2), v)),
    "elu": lambda v: T.ite(T.cmp(">", v, T.lift(0.0)), v, T.add(T.fn("exp", v), T.lift(1.0), -1.0)),
    "softplus": lambda v: T.fn("log", T.add(T.fn("exp", v), T.lift(1.0))),
    "exponential": lambda v: T.fn("exp", v),
}


def activate(a, shape, vals):
    """along the last axis of the model"""
    if a != "softmax":
        return [ACTS[a](v) for v in vals]
    n = shape[-1]
    out = []
    for k in range(0, len(vals), n):
        e = [T.fn("exp", v) for v in vals[k:k + n]]
        s = total(e)
        out += [T.div(v, s) for v in e]
    return out


def pads(n, k, s, d, mode):
    """size of the output, first padding"""
    w = (k - 1) * d + 1
    if mode == "same":
        o = -(-n // s)
        return o, max((o - 1) * s + w - n, 0) // 2
    return (n - w) // s + 1, 0


FIRST, LAST = "channels_first", "channels_last"


class Model:
    """must: the importer has to import it; otherwise it may refuse it, but not make something else of it"""

    def __init__(self, title, df="channels_first", dtype="float32", must=True, seed=0):
        self.title, self.df, self.dtype, self.must = title, df, dtype, must
        self.layers, self.k = [], {}
        self.r = random.Random(f"{title}{seed}")

    # ------------------------------------------------ values
    @property
    def last(self):
        return self.df == "channels_last"

    def first(self, x):
        """channels first view"""
        return permuted(x, [2, 0, 1]) if self.last and len(x.shape) == 3 else x

    def native(self, x):
        return permuted(x, [1, 2, 0]) if self.last and len(x.shape) == 3 else x

    def shape(self, *s):
        """of the channels, rows and columns given"""
        return (s[1], s[2], s[0]) if self.last and len(s) == 3 else s

    def weights(self, *shape):
        """numbers, exact in any type"""
        if not shape:
            return self.r.choice([-1, 1]) * self.r.randint(1, 63) / 16
        return [self.weights(*shape[1:]) for _ in range(shape[0])]

    def name(self, base):
        k = self.k[base] = self.k.get(base, -1) + 1
        return base if not k else f"{base}_{k}"

    def described(self, shape):
        """as the exporter writes it: with the batch, channels first"""
        if len(shape) == 3 and self.last:
            shape = (shape[2], shape[0], shape[1])
        return [None, *shape]

    def layer(self, cls, ins, shape, vals, cfg=None, name=None, **data):
        """applies a layer, which computes the values given"""
        pos = len(self.layers)
        sh = [self.described(x.shape) for x in ins]
        c = {"name": self.name(name or cls.lower()), "dtype": self.dtype, "trainable": True, **(cfg or {}), "idx": pos, "size": math.prod(shape),
             "input_shape": self.described(shape) if not ins else sh[0] if len(sh) == 1 else sh, "output_shape": self.described(shape), "prev_layer_idx": [x.pos for x in ins] if pos else [-1]}
        self.layers.append({"class_name": cls, "config": c, **data})
        return Val(pos, shape, vals)

    # ------------------------------------------------ layers
    def input(self, *shape):
        """channels, rows, columns or features"""
        s = self.shape(*shape)
        return self.layer("InputLayer", [], s, [T.leaf(f"x[{i}]") for i in range(math.prod(s))], {"batch_input_shape": [None, *s], "sparse": False}, "input")

    def dense(self, x, m, act="linear", bias=True, four=True):
        n = x.shape[-1]
        w, b = self.weights(n, m), self.weights(m)
        out = []
        for c in cells(x.shape[:-1]):
            for j in range(m):
                v = total(T.mul(at(x, *c, i), T.lift(w[i][j])) for i in range(n))
                out.append(T.add(v, T.lift(b[j])) if bias else v)
        sh = x.shape[:-1] + (m,)
        return self.layer("Dense", [x], sh, activate(act, sh, out), {"units": m, "activation": act, "use_bias": bias}, weights=[[w]] if four else w, **({"biases": b} if bias else {}))

    def conv(self, x, f, k=(2, 2), s=(1, 1), padding="valid", d=(1, 1), act="linear", bias=True):
        y = self.first(x)
        C, H, W = y.shape
        w, b = self.weights(C, *k, f), self.weights(f)
        (oh, ph), (ow, pw) = pads(H, k[0], s[0], d[0], padding), pads(W, k[1], s[1], d[1], padding)
        out = []
        for e, i, j in cells((f, oh, ow)):
            ps = []
            for c, p, q in cells((C, *k)):
                h, v = i * s[0] - ph + p * d[0], j * s[1] - pw + q * d[1]
                if 0 <= h < H and 0 <= v < W:
                    ps.append(T.mul(at(y, c, h, v), T.lift(w[c][p][q][e])))
            t = total(ps)
            out.append(T.add(t, T.lift(b[e])) if bias else t)
        z = self.native(Val(None, (f, oh, ow), out))
        return self.layer("Conv2D", [x], z.shape, activate(act, z.shape, z.vals), {"filters": f, "kernel_size": list(k), "strides": list(s), "padding": padding, "dilation_rate": list(d), "data_format": self.df,
                                                                              "groups": 1, "activation": act, "use_bias": bias}, weights=w, **({"biases": b} if bias else {}))

    def pool(self, kind, x, k=(2, 2), s=None, padding="valid"):
        y = self.first(x)
        s = s or k
        C, H, W = y.shape
        (oh, ph), (ow, pw) = pads(H, k[0], s[0], 1, padding), pads(W, k[1], s[1], 1, padding)
        out = []
        for c, i, j in cells((C, oh, ow)):
            vs = [at(y, c, i * s[0] - ph + p, j * s[1] - pw + q) for p, q in cells(k) if 0 <= i * s[0] - ph + p < H and 0 <= j * s[1] - pw + q < W]
            if kind == "Max":
                out.append(T.DOM.call("fmax", vs) if len(vs) > 1 else vs[0])
            else:
                out.append(T.div(total(vs), T.lift(float(len(vs)))))
        z = self.native(Val(None, (C, oh, ow), out))
        return self.layer(kind + ("Pooling2D"), [x], z.shape, z.vals, {"pool_size": list(k), "strides": list(s), "padding": padding, "data_format": self.df})

    def flatten(self, x, other=False):
        """a layer in the channels first layout gives the order of the channels last one"""
        df = self.df if other else LAST
        y = permuted(x, [1, 2, 0]) if df == FIRST and len(x.shape) == 3 else x
        return self.layer("Flatten", [x], (math.prod(x.shape),), y.vals, {"data_format": df})

    def merge(self, cls, *xs):
        f = {"Add": total, "Subtract": lambda v: T.add(v[0], v[1], -1.0), "Average": lambda v: T.div(total(v), T.lift(float(len(v)))), "Maximum": lambda v: T.DOM.call("fmax", list(v)), "Minimum": lambda v: T.DOM.call("fmin", list(v))}

        def product(v):
            r = v[0]
            for e in v[1:]:
                r = T.mul(r, e)
            return r
        f["Multiply"] = product
        sh = tuple(max(n) for n in zip(*[x.shape for x in xs]))
        out = []
        for c in cells(sh):
            out.append(f[cls]([at(x, *[0 if n == 1 else i for i, n in zip(c, x.shape)]) for x in xs]))
        return self.layer(cls, xs, sh, out)

    def cat(self, xs, axis=-1):
        """axis of Keras, with the batch"""
        r = len(xs[0].shape)
        d = axis % (r + 1) - 1
        sh = list(xs[0].shape)
        sh[d] = sum(x.shape[d] for x in xs)
        out = []
        for c in cells(sh):
            k = c[d]
            for x in xs:
                if k < x.shape[d]:
                    out.append(at(x, *c[:d], k, *c[d + 1:]))
                    break
                k -= x.shape[d]
        return self.layer("Concatenate", xs, sh, out, {"axis": axis})

    def pad(self, x, p):
        """p: as Keras takes it"""
        (t, b), (l, r) = ((p, p), (p, p)) if isinstance(p, int) else [(e, e) if isinstance(e, int) else e for e in p]
        y = self.first(x)
        C, H, W = y.shape
        out = [at(y, c, i - t, j - l) if t <= i < t + H and l <= j < l + W else T.lift(0.0) for c, i, j in cells((C, H + t + b, W + l + r))]
        z = self.native(Val(None, (C, H + t + b, W + l + r), out))
        return self.layer("ZeroPadding2D", [x], z.shape, z.vals, {"padding": p if isinstance(p, int) else [e if isinstance(e, int) else list(e) for e in p], "data_format": self.df})

    def bn(self, x, axis=None, eps=.25, listed=True):
        r = len(x.shape) + 1
        if axis is None:
            axis = 1 if not self.last else r - 1
        d = axis % r - 1
        n = x.shape[d]
        g, b, m = self.weights(n), self.weights(n), self.weights(n)
        v = [self.r.choice([4.0, 1.0, 16.0, .25]) - eps for _ in range(n)]        # the deviations are exact
        out = []
        for c in cells(x.shape):
            k = c[d]
            out.append(T.add(T.mul(T.add(at(x, *c), T.lift(m[k]), -1.0), T.lift(g[k] / math.sqrt(v[k] + eps))), T.lift(b[k])))
        return self.layer("BatchNormalization", [x], x.shape, out, {"axis": [axis] if listed else axis, "epsilon": eps, "momentum": .99, "center": True, "scale": True}, gamma=g, beta=b, moving_mean=m, moving_var=v)

    def dropout(self, x, cls="Dropout"):
        return self.layer(cls, [x], x.shape, x.vals, {"rate": .5})

    def reshape(self, x, *target):
        """target: shape of Keras, without the batch"""
        return self.layer("Reshape", [x], target, x.vals, {"target_shape": list(target)})

    def other(self, cls, x, shape, vals, **cfg):
        return self.layer(cls, [x], shape, vals, cfg)

    # ------------------------------------------------ the model
    def out(self, x):
        self.result = x
        self.json = {"class_name": "Functional", "config": {"name": "model", "data_format": self.df, "layers": self.layers}, "keras_version": "2.12.0", "backend": "tensorflow"}
        return self
