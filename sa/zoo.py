"""Networks to emit code for: every operator on its own, and random graphs that mix them (deterministic in the seed)."""
from __future__ import annotations

import math
import random

from .onnxmodel import I64, Model, Nd, T


def conv_out(n, k, s, d, p):
    return (n + p[0] + p[1] - (k - 1) * d - 1) // s + 1


class Builder:
    def __init__(self, rng, shape):
        self.rng, self.nodes, self.inits, self.shapes = rng, [], {}, {"x": shape}
        self.have, self.unused, self.n = ["x"], ["x"], 0

    def node(self, op, ins, shape, **A):
        o = f"t{self.n}"
        self.n += 1
        self.nodes.append(Nd(op, ins, o, **A))
        self.shapes[o] = tuple(shape)
        for i in ins:
            if i in self.unused:
                self.unused.remove(i)
        self.have.append(o)
        self.unused.append(o)
        return o

    def const(self, shape, vals=None, ints=False):
        k = f"k{len(self.inits)}"
        self.inits[k] = (I64(*vals) if ints else T(tuple(shape), vals))
        return k

    def pick(self, ok=lambda s: True):
        pool = [t for t in self.have if ok(self.shapes[t])]
        new = [t for t in self.unused if ok(self.shapes[t])]
        if not pool:
            return None
        return self.rng.choice(new) if new and self.rng.random() < 0.7 else self.rng.choice(pool)

    def step(self):
        r = self.rng
        op = r.choice(("Conv", "Conv", "Pool", "Act", "Act", "BN", "Concat", "Concat", "Elt", "Elt", "EltC", "Broadcast", "Transpose", "Pad", "Gather", "Reduce", "Softmax", "Tile", "Skip", "MatMul", "Mean"))
        x = self.pick()
        s = self.shapes[x]
        c, h, w = s[1:]
        if op == "Conv":
            kh, kw, st = r.choice((1, 2, 3)), r.choice((1, 2, 3)), r.choice((1, 1, 2))
            d = r.choice((1, 1, 1, 2))
            if r.random() < .5:
                p = [r.choice((0, 1)) for _ in range(4)]
            else:
                p = [0] * 4
            o = [conv_out(h, kh, st, d, (p[0], p[2])), conv_out(w, kw, st, d, (p[1], p[3]))]
            if min(o) < 1:
                return
            f = r.choice((1, 2, 3))
            ins = [x, self.const((f, c, kh, kw)), self.const((f,))]
            self.node("Conv", ins, (1, f, *o), kernel_shape=[kh, kw], strides=[st, st], dilations=[d, d], pads=p)
        elif op == "Pool":
            k, st = r.choice((2, 3)), r.choice((1, 2))
            p = r.choice(([0] * 4, [1, 0, 0, 1], [1, 1, 1, 1]))
            o = [conv_out(h, k, st, 1, (p[0], p[2])), conv_out(w, k, st, 1, (p[1], p[3]))]
            if min(o) < 1:
                return
            self.node(r.choice(("MaxPool", "AveragePool")), [x], (1, c, *o), kernel_shape=[k, k], strides=[st, st], pads=p)
        elif op == "Act":
            self.node(r.choice(("Relu", "Tanh", "Sigmoid", "Exp", "LeakyRelu")), [x], s)
        elif op == "BN":
            self.node("BatchNormalization", [x] + [self.const((c,)) for _ in range(4)], s)
        elif op == "Concat":
            ax = r.choice((1, 2, 3))
            y = self.pick(lambda t: all(a == b for i, (a, b) in enumerate(zip(s, t)) if i != ax))
            ins = [x, y] if r.random() < .5 else [y, x]
            if r.random() < .3:
                ins.append(r.choice(ins))
            o = list(s)
            o[ax] = sum(self.shapes[i][ax] for i in ins)
            if math.prod(o) > 200:
                return
            self.node("Concat", ins, o, axis=ax)
        elif op == "Elt":
            y = self.pick(lambda t: t == s)
            self.node(r.choice(("Add", "Sub", "Mul", "Div", "Max", "Min")), [x, y], s)
        elif op == "EltC":
            k = self.const(r.choice((s, (c, 1, 1), (w,), (h, 1))))
            self.node(r.choice(("Add", "Sub", "Mul", "Div")), [x, k] if r.random() < .6 else [k, x], s)
        elif op == "Broadcast":
            y = self.pick(lambda t: t != s and all(a == b or a == 1 or b == 1 for a, b in zip(s, t)))
            if y is None:
                return
            o = [max(a, b) for a, b in zip(s, self.shapes[y])]
            if math.prod(o) > 200:
                return
            self.node(r.choice(("Add", "Sub", "Mul", "Max")), [x, y], o)
        elif op == "Transpose":
            p = [0] + r.sample([1, 2, 3], 3)
            self.node("Transpose", [x], [s[i] for i in p], perm=p)
        elif op == "Pad":
            p = [0] * 8
            mode = r.choice(("constant", "edge", "wrap", "reflect"))
            for i in (1, 2, 3):
                p[i], p[i + 4] = min(r.choice((0, 0, 1)), s[i] - 1), min(r.choice((0, 0, 1)), s[i] - 1)
            o = [n + p[i] + p[i + 4] for i, n in enumerate(s)]
            if math.prod(o) > 250:
                return
            self.node("Pad", [x, self.const((), p, True), self.const((), [1.5])], o, mode=mode)
        elif op == "Gather":
            ax = r.choice((1, 2, 3))
            idx = [r.randrange(-s[ax], s[ax]) for _ in range(r.choice((1, 2, 3)))]
            o = list(s)
            o[ax] = len(idx)
            self.node("Gather", [x, self.const((), idx, True)], o, axis=ax)
        elif op == "Reduce":
            ax = sorted(r.sample([1, 2, 3], r.choice((1, 1, 2, 3))))
            o = [1 if i in ax else n for i, n in enumerate(s)]
            self.node(r.choice(("ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd")), [x, self.const((), ax, True)], o)
        elif op == "Softmax":
            self.node("Softmax", [x], s, axis=r.choice((1, 2, 3)))
        elif op == "Tile":
            rep = [1, r.choice((1, 2)), r.choice((1, 2)), 1]
            o = [a * b for a, b in zip(s, rep)]
            if math.prod(o) > 250:
                return
            self.node("Tile", [x, self.const((), rep, True)], o)
        elif op == "Skip":
            self.node("Dropout", [x], s)
        elif op == "MatMul":
            n = r.choice((1, 2, 3))
            self.node("MatMul", [x, self.const((1, c, w, n))], (1, c, h, n))
        elif op == "Mean":
            self.mean(x)

    def mean(self, x):
        c, h, w = self.shapes[x][1:]
        if h == w and self.rng.random() < .7:
            return self.node("GlobalAveragePool", [x], (1, c, 1, 1))
        return self.node(self.rng.choice(("ReduceMean", "ReduceMax")), [x, self.const((), (2, 3), True)], (1, c, 1, 1))

    def finish(self, r):
        """bring what nothing reads together"""
        tail = r.choice(("sum", "mean", "gemm"))
        if len(self.unused) > 1:
            parts = []
            for t in list(self.unused):
                s = self.shapes[t]
                parts.append(t if s[2:] == (1, 1) else self.mean(t))
            self.node("Concat", parts, (1, sum(self.shapes[p][1] for p in parts), 1, 1), axis=1)
        t = self.unused[0]
        n = math.prod(self.shapes[t])
        if tail == "gemm" and n <= 120:
            f = self.node("Flatten", [t], (1, n))
            m = r.choice((1, 2, 4))
            g = self.node("Gemm", [f, self.const((n, m)), self.const((m,))], (1, m))
            if r.random() < .5:
                self.node("Softmax", [g], (1, m), axis=1)
        elif tail == "mean":
            self.node("Relu", [t], self.shapes[t])


def double_net(seed):
    m = random_net(seed)
    return Model(m.title + " in double precision", m.inputs, m.nodes, {k: T(t.shape, t.vals, 11) if t.elem == 1 else t for k, t in m.inits.items()}, m.shapes, m.opset, elem=11)


def random_net(seed, steps=(3, 9)):
    r = random.Random(seed)
    b = Builder(r, (1, r.choice((1, 2, 3)), r.choice((2, 3, 4, 5)), r.choice((2, 3, 5))))
    for _ in range(r.randint(*steps)):
        b.step()
    if not b.nodes:
        b.node("Relu", ["x"], b.shapes["x"])
    b.finish(r)
    title = f"random network {seed}: " + " ".join(f"{n.outs[0]}={n.op}({','.join(n.ins)})" for n in b.nodes)
    return Model(title, {"x": b.shapes["x"]}, b.nodes, b.inits, {k: v for k, v in b.shapes.items() if k != "x"}, 18)


class Rich(Builder):
    """more operators, chains of convolutions and normalisations, operands of lower rank, and layers of rank two at the end"""

    def step(self):
        r = self.rng
        op = r.choice(("Block", "Block", "Join", "Axis", "Clip", "Resize", "Elements", "Old", "Old", "Old", "Old"))
        if op == "Old":
            return super().step()
        x = self.pick()
        s = self.shapes[x]
        c, h, w = s[1:]
        if op == "Block":
            k, p = r.choice(((1, 0), (3, 1), (2, 0), (3, 1)))
            o = [conv_out(n, k, 1, 1, (p, p)) for n in (h, w)]
            if min(o) < 1:
                return
            f = r.choice((1, 2, 3))
            t = self.node("Conv", [x, self.const((f, c, k, k)), self.const((f,))], (1, f, *o), kernel_shape=[k, k], pads=[p] * 4, strides=[1, 1], dilations=[1, 1])
            for what in r.choice((("Act", "BN"), ("BN", "Act"), ("BN",), ("Act", "BN", "Act"), ("BN", "BN"), ("Act",), ("Dropout", "BN"), ("BN", "Dropout", "Act"))):
                ts = self.shapes[t]
                if what == "BN":
                    t = self.node("BatchNormalization", [t] + [self.const((ts[1],)) for _ in range(4)], ts, epsilon=r.choice((1e-5, 1e-3, 0.0625)))
                elif what == "Act":
                    t = self.node(r.choice(("Relu", "LeakyRelu", "Tanh")), [t], ts)
                else:
                    t = self.node("Dropout", [t], ts)
                if r.random() < .15:
                    self.node("Relu", [t], ts)          # one more reader of what is in the middle
        elif op == "Join":
            def part():
                if r.random() < .4:
                    y = self.pick(lambda q: all(a == b or a == 1 or b == 1 for a, b in zip(s, q)))
                    return y, self.shapes[y]
                d = [r.choice((1, n)) for n in s[1:]]
                d = d[r.choice((0, 0, 0, 1, 2)):]
                return self.const(d), (1,) * (4 - len(d)) + tuple(d)
            ps = [(x, s)] + [part() for _ in range(r.choice((2, 2, 3)))]
            if sum(i in self.inits for i, _ in ps) > 1:
                ps = [p for k, p in enumerate(ps) if p[0] not in self.inits or all(q[0] not in self.inits for q in ps[:k])]
            r.shuffle(ps)
            if any(len({d for d in ds if d > 1}) > 1 for ds in zip(*[q for _, q in ps])) or len(ps) < 2:
                return
            o = [max(ds) for ds in zip(*[q for _, q in ps])]
            if math.prod(o) <= 200:
                self.node(r.choice(("Max", "Min", "Max", "Mean") if len(ps) > 2 else ("Max", "Min", "Mean", "Add", "Sub")), [i for i, _ in ps], o)
        elif op == "Axis":
            ax = r.choice((1, 2, 3))
            y = self.pick(lambda q: all(a == b for i, (a, b) in enumerate(zip(s, q)) if i != ax))
            o = [a + b if i == ax else a for i, (a, b) in enumerate(zip(s, self.shapes[y]))]
            if math.prod(o) <= 200:
                self.node("Concat", [x, y], o, axis=ax - 4)
        elif op == "Clip":
            lo, hi = r.choice(((-1.0, 1.0), (0.0, 6.0), (-.5, 2.0)))
            self.node("Clip", [x, self.const((), [lo]), self.const((), [hi])], s)
        elif op == "Resize":
            a, b = r.choice((1, 2)), r.choice((1, 2, 3))
            if c * h * a * w * b > 200 or a * b == 1:
                return
            mode = r.choice(("nearest", "linear", "cubic"))
            A = dict(mode=mode, coordinate_transformation_mode=r.choice(("half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel")))
            if mode == "nearest":
                A["nearest_mode"] = r.choice(("round_prefer_floor", "round_prefer_ceil", "floor", "ceil"))
            self.node("Resize", [x, "", self.const((4,), [1.0, 1.0, float(a), float(b)])], (1, c, h * a, w * b), **A)
        elif op == "Elements":
            ax = r.choice((1, 2, 3))
            o = list(s)
            o[ax] = r.choice((1, 2, 3))
            k = f"k{len(self.inits)}"
            self.inits[k] = I64(*[r.randrange(0, s[ax]) for _ in range(math.prod(o))], shape=tuple(o))
            self.node("GatherElements", [x, k], o, axis=ax)

    def finish(self, r):
        """flattened, then layers of vectors that branch and join"""
        if r.random() < .4:
            return super().finish(r)
        flat = []
        for t in list(self.unused):
            n = math.prod(self.shapes[t])
            if n > 100:
                t = self.mean(t)
                n = self.shapes[t][1]
            flat.append(self.node("Flatten", [t], (1, n)))
        dense = []
        m = r.choice((2, 3, 4))
        for t in flat[:3] if len(flat) > 1 else flat * 2:
            n = self.shapes[t][1]
            tb = r.choice((0, 1))
            A = dict(dict(transB=tb) if tb else {}, **(dict(alpha=.5) if r.random() < .3 else {}), **(dict(beta=2.0) if r.random() < .3 else {}))
            t = self.node("Gemm", [t, self.const((m, n) if tb else (n, m)), self.const((m,))], (1, m), **A)
            if r.random() < .5:
                t = self.node(r.choice(("Relu", "Sigmoid", "Tanh")), [t], (1, m))
            dense.append(t)
        op = r.choice(("Concat", "Concat", "Add", "Sub", "Mul", "Max"))
        rest = flat[3:]
        t = self.node("Concat", dense, (1, m * len(dense)), axis=r.choice((1, -1))) if op == "Concat" else dense[0]
        for d in dense[1:] if op != "Concat" else ():
            t = self.node(op, [t, d], (1, m))
        if rest:
            t = self.node("Concat", [*rest, t], (1, self.shapes[t][1] + sum(self.shapes[q][1] for q in rest)), axis=1)
        if r.random() < .3:
            self.node("Softmax", [t], self.shapes[t], axis=r.choice((1, -1)))


def rich_net(seed):
    r = random.Random(seed)
    b = Rich(r, (1, r.choice((1, 2, 3)), r.choice((2, 3, 4, 5)), r.choice((2, 3, 5))))
    for _ in range(r.randint(2, 6)):
        b.step()
    if not b.nodes:
        b.node("Relu", ["x"], b.shapes["x"])
    b.finish(r)
    title = f"rich network {seed}: " + " ".join(f"{n.outs[0]}={n.op}({','.join(n.ins)})" for n in b.nodes)
    return Model(title, {"x": b.shapes["x"]}, b.nodes, b.inits, {k: v for k, v in b.shapes.items() if k != "x"}, 18)


VERSIONS = ["6loops", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt"]


def hwc_net(seed):
    """convolutions (plain and point-wise) for the blocked channels-last implementation; the importer refuses depth-wise ones"""
    r = random.Random(1000 + seed)
    b = Builder(r, (1, r.choice((1, 2, 4)), r.choice((3, 4, 5)), r.choice((4, 5, 6))))
    t = "x"
    for _ in range(r.randint(1, 4)):
        c, h, w = b.shapes[t][1:]
        k = r.choice((1, 2, 3, 3))
        st = r.choice((1, 1, 2))
        p = r.choice((0, 1)) if k > 1 else 0
        o = [conv_out(n, k, st, 1, (p, p)) for n in (h, w)]
        if min(o) < 1:
            continue
        f = r.choice((1, 2, 4))
        x = b.node("Conv", [t, b.const((f, c, k, k)), b.const((f,))], (1, f, *o), kernel_shape=[k, k], strides=[st, st], dilations=[1, 1], pads=[p] * 4, group=1)
        if r.random() < .6:
            x = b.node("Relu", [x], b.shapes[x])
        if b.shapes[x] == b.shapes[t] and r.random() < .6:
            x = b.node("Add", [x, t], b.shapes[x])
        t = x
    if t == "x":
        b.node("Relu", ["x"], b.shapes["x"])
    title = f"channels-last network {seed}: " + " ".join(f"{n.outs[0]}={n.op}({','.join(n.ins)})" for n in b.nodes)
    return Model(title, {"x": b.shapes["x"]}, b.nodes, b.inits, {k: v for k, v in b.shapes.items() if k != "x"}, 18)


def _dense(*sizes, acts=(), branch=False):
    from .emit import A, Act, Net
    n0 = sizes[0]
    ls = [("InputLayer", dict(size=n0, input_shape=[1, n0], data_format="channels_first"), ())]
    for i, (a, b) in enumerate(zip(sizes, sizes[1:])):
        act = acts[i] if i < len(acts) else "Linear"
        act = act if isinstance(act, tuple) else (act,)
        ls.append(("Dense", dict(size=b, weights=A(a, b), biases=A(b), activation_function=Act(*act)), (i,)))
    if branch:
        k = len(ls)
        n = sizes[-1]
        ls.append(("Dense", dict(size=n, weights=A(sizes[-2], n), biases=A(n), activation_function=Act("Sigmoid")), (k - 2,)))
        ls.append(("Multiply", dict(size=n, input_shapes=A(2, 4, v=[1, n, 1, 1, 1, n, 1, 1], dt="i"), output_shape=[1, n, 1, 1], activation_function=Act("TanH")), (k - 1, k)))
        ls.append(("Softmax", dict(size=n, output_shape=[1, n], axis=1), (k + 1,)))
    return Net(f"dense network {sizes}" + (" with a branch" if branch else ""), ls)


def _constants(which):
    """element-wise operators that hold one of their operands"""
    from .emit import A, Act, Net
    c, h, w = 2, 3, 2
    ls = [("InputLayer", dict(size=c * h * w, input_shape=[1, c, h, w], data_format="channels_first"), ())]
    for i, (cls, k) in enumerate(which):
        ls.append((cls, dict(size=c * h * w, input_shapes=A(2, 4, v=[1, c, h, w, *k], dt="i"), output_shape=[1, c, h, w], activation_function=Act("Linear" if i % 2 else "TanH"), constant=A(*k)), (i,)))
    return Net("element-wise operators with constants " + ", ".join(x for x, _ in which), ls)


# networks of layer kinds that no ONNX operator gives
LAYERED = {
    "dense chain": lambda: _dense(3, 4, 2, acts=("ReLu",)),
    "dense growing": lambda: _dense(2, 5, 7, 3, acts=("ReLu", "Sigmoid", "TanH")),
    "constant operands": lambda: _constants((("Add", (1, 2, 3, 2)), ("Multiply", (1, 2, 1, 1)), ("Subtract", (1, 1, 3, 2)))),
    "more constant operands": lambda: _constants((("Divide", (1, 1, 1, 2)), ("Maximum", (1, 2, 3, 2)), ("Minimum", (1, 1, 1, 1)), ("Average", (1, 2, 3, 2)))),
    "dense branch": lambda: _dense(3, 4, 4, acts=(("LeakyReLu", 0.25),), branch=True),
}


# ------------------------------------------------------------------ one layer at a time, with any constructor argument

def _one(title, cls, shape, kw, act=("LeakyReLu", 0.25)):
    from .emit import Act, Net
    ls = [("InputLayer", dict(size=math.prod(shape), input_shape=list(shape), data_format="channels_first"), ()),
          (cls, dict(kw, **({"activation_function": Act(*act)} if act else {})), (0,))]
    return Net(title, ls)


def conv_nets(tier="quick"):
    """[(network, implementation, layout)]: windows of every geometry through every implementation"""
    from .emit import A
    r = random.Random(7)
    out = []
    geo = [dict(c=2, h=5, w=4, f=3, kh=3, kw=2, s=1, d=1, p=[0, 0, 0, 0], g=1), dict(c=2, h=5, w=6, f=2, kh=2, kw=3, s=2, d=1, p=[1, 0, 0, 2], g=1), dict(c=3, h=6, w=5, f=2, kh=2, kw=2, s=1, d=2, p=[1, 2, 0, 1], g=1),
           dict(c=2, h=4, w=6, f=4, kh=3, kw=3, s=1, d=1, p=[1, 1, 1, 1], g=1), dict(c=3, h=4, w=3, f=2, kh=1, kw=1, s=1, d=1, p=[0, 0, 0, 0], g=1), dict(c=3, h=5, w=5, f=3, kh=3, kw=3, s=2, d=1, p=[1, 1, 1, 1], g=1),
           dict(c=2, h=4, w=4, f=2, kh=3, kw=3, s=1, d=1, p=[1, 1, 1, 1], g=2), dict(c=4, h=4, w=5, f=4, kh=3, kw=3, s=1, d=1, p=[0, 0, 0, 0], g=4), dict(c=1, h=7, w=6, f=1, kh=3, kw=3, s=1, d=1, p=[1, 1, 1, 1], g=1)]
    for _ in range(12 if tier != "thorough" else 120):
        g = r.choice((1, 1, 1, 2))
        sq = r.random() < .4
        k = r.choice((1, 2, 3))
        c = g * r.choice((1, 2, 3)) if g == 1 else g
        p = [r.choice((0, 1))] * 4 if sq else [r.choice((0, 1, 2)) for _ in range(4)]
        geo.append(dict(c=c, h=r.choice((3, 4, 5, 7)), w=r.choice((3, 4, 6)), f=c if g > 1 else r.choice((1, 2, 3)), kh=k, kw=k if sq else r.choice((1, 2, 3)), s=r.choice((1, 2, 3)), d=r.choice((1, 1, 2)), p=p, g=g))
    for q in geo:
        oh, ow = conv_out(q["h"], q["kh"], q["s"], q["d"], (q["p"][0], q["p"][2])), conv_out(q["w"], q["kw"], q["s"], q["d"], (q["p"][1], q["p"][3]))
        if min(oh, ow) < 1:
            continue
        kw = dict(size=q["f"] * oh * ow, padding=q["p"], strides=q["s"], kernel_h=q["kh"], kernel_w=q["kw"], dilation_rate=q["d"], nb_filters=q["f"], group=q["g"], input_shape=[1, q["c"], q["h"], q["w"]],
                  output_shape=[1, q["f"], oh, ow], weights=A(q["f"], q["c"] // q["g"], q["kh"], q["kw"]), biases=A(q["f"]), conv_algorithm="specs")
        t = f"convolution {q}"
        for v in ("6loops", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt", "indirect_gemm_nn", "indirect_gemm_nt", "indirect_gemm_tn", "indirect_gemm_tt"):
            if q["g"] == 1:
                out.append((_one(t, "Conv2D", (1, q["c"], q["h"], q["w"]), kw), v, None))
        for act in (("LeakyReLu", 0.25), ("Linear",)):
            if q["d"] == 1 and len(set(q["p"])) == 1:
                out.append((_one(t, "Conv2D", (1, q["c"], q["h"], q["w"]), kw, act), "direct_block", "channels_last"))
    return out


def pool_nets(tier="quick"):
    r = random.Random(8)
    out = []
    for _ in range(16 if tier != "thorough" else 120):
        c, h, w, k, s = r.choice((1, 2)), r.choice((3, 4, 5, 6)), r.choice((3, 4, 5)), r.choice((1, 2, 3)), r.choice((1, 2, 3))
        p = [min(r.choice((0, 1, 2)), k - 1) for _ in range(4)]
        oh, ow = conv_out(h, k, s, 1, (p[0], p[2])), conv_out(w, k, s, 1, (p[1], p[3]))
        if min(oh, ow) < 1:
            continue
        for cls in ("MaxPooling2D", "AveragePooling2D"):
            kw = dict(size=c * oh * ow, padding=p, strides=s, pool_size=k, input_shape=[1, c, h, w], output_shape=[1, c, oh, ow])
            out.append(_one(f"{cls} {k}x{k} stride {s} padding {p} of {(c, h, w)}", cls, (1, c, h, w), kw))
    return out


def pad_nets(tier="quick"):
    from .emit import A
    r = random.Random(9)
    out = []
    for _ in range(14 if tier != "thorough" else 100):
        d = [r.choice((1, 2, 3)), r.choice((2, 3, 4)), r.choice((2, 3, 5))]
        p = [0] * 8
        for i in (1, 2, 3):
            p[i], p[i + 4] = r.choice((0, 0, 1, 2)), r.choice((0, 1, 2))
        for mode in ("constant", "edge", "wrap", "reflect"):
            q = list(p)
            if mode in ("wrap", "reflect"):
                q = [0] + [min(x, d[i] - (mode == "reflect")) for i, x in enumerate(p[1:4])] + [0] + [min(x, d[i] - (mode == "reflect")) for i, x in enumerate(p[5:8])]
            o = [n + q[i + 1] + q[i + 5] for i, n in enumerate(d)]
            kw = dict(size=math.prod(o), pads=q, constant_value=1.5, axes=[], input_shape=[1] + d)
            out.append(_one(f"{mode} padding {q} of {d}", mode.capitalize() + "Pad", [1] + d, kw))
    return out


def flatten_nets(tier="quick"):
    out = []
    for d in ((2, 3, 4), (3, 1, 2), (1, 4, 3)):
        for f in ("channels_first", "channels_last"):
            out.append(_one(f"flatten {d} {f}", "Flatten", [1] + list(d), dict(size=math.prod(d), input_shape=[1] + list(d), data_format=f), None))
    return out


RESIZE_MODES = ("half_pixel", "half_pixel_symmetric", "pytorch_half_pixel", "align_corners", "asymmetric", "tf_crop_and_resize")


def resize_nets(tier="quick"):
    out = []
    shapes = [((2, 3, 4), (6, 8)), ((1, 4, 3), (2, 6)), ((2, 5, 3), (3, 4)), ((1, 3, 5), (7, 5)), ((2, 1, 4), (1, 8)), ((2, 4, 1), (6, 1)), ((1, 2, 2), (1, 1))]
    near = ("round_prefer_floor", "round_prefer_ceil", "floor", "ceil")
    for d, (oh, ow) in shapes:
        for mode in RESIZE_MODES:
            for cls in ("Nearest", "Linear", "Cubic"):
                for n in near if cls == "Nearest" else near[:1]:
                    roi = [0.0, 0.0, 0.25, 0.0, 1.0, 1.0, 1.0, 0.75] if mode == "tf_crop_and_resize" else []
                    kw = dict(size=d[0] * oh * ow, input_shape=[1] + list(d), axes=[], coordinate_transformation_mode=mode, exclude_outside=0, keep_aspect_ratio_policy="stretch", boolean_resize=None,
                              target_size=[1, d[0], oh, ow], roi=roi, extrapolation_value=0.5, nearest_mode=n, cubic_coeff_a=-0.75)
                    out.append(_one(f"Resize {cls} {mode} {n if cls == 'Nearest' else ''} {d} to {(oh, ow)}", "Resize" + cls, [1] + list(d), kw))
    # scales, of which the extents are the rounded products
    for d, (a, b) in (((2, 4, 5), (1.7, 0.7)), ((1, 3, 3), (2.0, 1.5)), ((1, 5, 4), (0.5, 2.3))):
        oh, ow = int(d[1] * a), int(d[2] * b)
        for mode in RESIZE_MODES:
            for cls in ("Nearest", "Linear", "Cubic"):
                roi = [0.0, 0.0, 0.25, 0.0, 1.0, 1.0, 1.0, 0.75] if mode == "tf_crop_and_resize" else []
                kw = dict(size=d[0] * oh * ow, input_shape=[1] + list(d), axes=[], coordinate_transformation_mode=mode, exclude_outside=0, keep_aspect_ratio_policy="stretch", boolean_resize=1,
                          target_size=[1.0, 1.0, a, b], roi=roi, extrapolation_value=0.5, nearest_mode=near[0], cubic_coeff_a=-0.75)
                out.append(_one(f"Resize {cls} {mode} {d} by {(a, b)}", "Resize" + cls, [1] + list(d), kw))
    return out


def pairs(tier="quick"):
    """two or three nodes in a row that the optimisation may make one of, in every shape"""
    out = []
    def model(title, shape, nodes, inits, opset=18):
        shapes = {n.outs[0]: s for n, s in nodes}
        out.append(Model(title, {"x": shape}, [n for n, _ in nodes], inits, shapes, opset))
    mm = []
    for a, b in (((1, 3), (3, 4)), ((3, 1), (1, 4)), ((1, 1), (1, 4)), ((2, 3), (3, 4)), ((2, 3), (3, 1)), ((1, 3), (3, 1)), ((1, 1, 3), (1, 3, 2)), ((1, 1, 1, 3), (1, 1, 3, 2)), ((1, 1, 3, 1), (1, 1, 1, 2)), ((1, 2, 1, 3), (1, 2, 3, 2))):
        mm.append((a, b, a[:-1] + b[-1:], False))
    for a, b in (((4, 3), (3, 1)), ((4, 1), (1, 3)), ((4, 3), (3, 2)), ((2, 1), (1, 1)), ((1, 4, 3), (1, 3, 1))):
        mm.append((b, a, a[:-1] + b[-1:], True))
    for xs, ws, o, left in mm:
        n, k = o[-1], o[-2]
        for bias in {(n,), (1, n), (1, 1), (1,), (k, 1), (k, n), (3, n) if k == 1 else (k, n)}:
            r = max(len(o), len(bias))
            e, f = (1,) * (r - len(o)) + o, (1,) * (r - len(bias)) + bias
            if any(p != q and 1 not in (p, q) for p, q in zip(e, f)):
                continue
            s = tuple(max(p, q) for p, q in zip(e, f))
            for tail in (None, "Relu"):
                nodes = [(Nd("MatMul", ["w", "x"] if left else ["x", "w"], "m"), o), (Nd("Add", ["m", "b"] if n % 2 else ["b", "m"], "t"), s)]
                if tail:
                    nodes.append((Nd(tail, "t", "y"), s))
                model(f"MatMul of {'a constant ' + str(ws) + ' by ' if left else ''}{xs}{'' if left else ' by a constant ' + str(ws)} plus {bias}" + (" " + tail if tail else ""), xs, nodes, {"w": T(ws), "b": T(bias)})
    s = (1, 2, 3, 4)
    for before in (None, "Relu", "Conv"):
        for order in (("g", "p"), ("p", "g")):
            for more in (None, "gate", "operand", "both"):
                for tail in ("Relu", "Concat", "Sub"):
                    nodes, inits, p = [], {}, "x"
                    if before == "Relu":
                        nodes.append((Nd("Relu", "x", "p"), s))
                        p = "p"
                    elif before == "Conv":
                        nodes.append((Nd("Conv", ["x", "w", "b"], "p", kernel_shape=[1, 1], strides=[1, 1], pads=[0] * 4, dilations=[1, 1]), s))
                        inits.update(w=T((2, 2, 1, 1)), b=T((2,)))
                        p = "p"
                    nodes += [(Nd("Sigmoid", p, "g"), s), (Nd("Mul", [p if q == "p" else q for q in order], "u"), s)]
                    last = "u"
                    if more:
                        last = "v"
                        nodes.append((Nd("Max", ["u", "g" if more == "gate" else p], "v"), s))
                    if tail == "Relu":
                        nodes.append((Nd("Relu", last, "y"), s))
                    elif tail == "Concat":
                        nodes.append((Nd("Concat", [last, last if more != "both" else "g"], "y", axis=1), (1, 4, 3, 4)))
                    else:
                        inits["k"] = T((2, 1, 1))
                        nodes.append((Nd("Sub", ["k", last], "y"), s))
                    model(f"gate after {before or 'the input'}, operands {order}, {more or 'nothing'} read again, {tail}", s, nodes, inits)
    for shared in (False, True):
        for bias in (True, False):
            for tail in ((), ("Relu",), ("BN",), ("Relu", "BN"), ("Dropout", "BN"), ("BN", "Relu", "BN")):
                nodes, inits, last = [], {"w": T((2, 2, 1, 1)), "b": T((2,))}, []
                for i in range(2 if shared else 1):
                    t = f"c{i}"
                    nodes.append((Nd("Conv", ["x", "w"] + (["b"] if bias else []), t, kernel_shape=[1, 1], strides=[1, 1], pads=[0] * 4, dilations=[1, 1]), s))
                    for j, what in enumerate(tail):
                        u = f"t{i}{j}"
                        if what == "BN":
                            ins = [t] + [f"n{k}" for k in range(4)]
                            inits.update({f"n{k}": T((2,)) for k in range(4)})
                            nodes.append((Nd("BatchNormalization", ins, u), s))
                        else:
                            nodes.append((Nd(what, [t], u), s))
                        t = u
                    last.append(t)
                nodes.append((Nd("Sub" if shared else "Tanh", last, "y"), s))
                model(f"convolution {'' if bias else 'without a bias '}then {tail}" + (", twice with the same parameters" if shared else ""), s, nodes, inits)
    return out
