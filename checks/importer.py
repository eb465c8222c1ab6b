"""C14: what an ONNX model means is what the imported layers mean."""
import itertools
import math
import multiprocessing
import os
import random

from sa import graphs as GR
from sa import onnxmodel as OM
from sa.interp import Raised
from sa.ndarr import Imprecise
from sa.onnxmodel import I64, Model, Nd, T
from sa.repo import Repo
from sa.report import load_known

X4 = (1, 2, 5, 7)


def conv_out(n, k, s, d, p):
    return (n + p[0] + p[1] - (k - 1) * d - 1) // s + 1


def win_model(op, title, shape=X4, k=(3, 3), cout=3, bias=True, opset=17, k_attr=True, extra=None, **A):
    """one convolution or pooling node"""
    A = dict(A)
    if k_attr:
        A["kernel_shape"] = list(k)
    A.update(extra or {})
    s, d = A.get("strides", [1, 1]), A.get("dilations", [1, 1])
    auto = A.get("auto_pad", "NOTSET")
    if auto == "NOTSET":
        p = A.get("pads", [0] * 4)
        pads = [(p[0], p[2]), (p[1], p[3])]
    elif auto == "VALID":
        pads = [(0, 0)] * 2
    else:
        pads = OM.same_pads(auto, shape[2:], k, s, d)
    hw = [conv_out(n, kk, ss, dd, pp) for n, kk, ss, dd, pp in zip(shape[2:], k, s, d, pads)]
    c = cout if op == "Conv" else shape[1]
    inits, ins = {}, ["x"]
    if op == "Conv":
        inits["w"] = T((c, shape[1] // A.get("group", 1)) + tuple(k))
        ins.append("w")
        if bias:
            inits["b"] = T((c,))
            ins.append("b")
    return Model(title, {"x": shape}, [Nd(op, ins, "y", **A)], inits, {"y": (1, c) + tuple(hw)}, opset)


def windows(tier):
    for op in ("Conv", "MaxPool", "AveragePool"):
        ks = ((3, 3), (2, 2), (3, 2), (1, 4)) if op == "Conv" else ((3, 3), (2, 2), (4, 4), (3, 2))
        for k in ks:
            for s in ((1, 1), (2, 2), (3, 3), (2, 1)):
                for auto in ("none", "NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER", "pads", "notset+pads"):
                    for d in ((1, 1), (2, 2), (1, 2)) if op != "AveragePool" else ((1, 1),):
                        if d != (1, 1) and (k[0] > 2 or k[1] > 2) and auto == "VALID" and s != (1, 1):
                            continue
                        A = {}
                        if s != (1, 1) or k == (2, 2):
                            A["strides"] = list(s)
                        if d != (1, 1) or k == (2, 2) and op != "AveragePool":
                            A["dilations"] = list(d)
                        if auto in ("pads", "notset+pads"):
                            A["pads"] = [1, 0, 0, 1] if k[0] == 2 else [1, 0, 1, 1]
                            if auto != "pads":
                                A["auto_pad"] = "NOTSET"
                        elif auto != "none":
                            A["auto_pad"] = auto
                        shape = (1, 2, 6, 9) if d == (1, 1) else (1, 2, 10, 11)
                        m = win_model(op, f"{op} kernel {k} strides {s} dilations {d} padding {auto}", shape, k, **A)
                        if all(x > 0 for x in m.shapes["y"]):
                            yield m
    yield win_model("Conv", "Conv without bias", bias=False, pads=[1, 1, 1, 1])
    yield win_model("Conv", "Conv without bias, SAME", bias=False, auto_pad="SAME_UPPER", strides=[2, 2])
    m = win_model("Conv", "Conv with the kernel shape left to the weights", k_attr=False)
    yield m
    yield win_model("Conv", "Conv in two groups", cout=4, extra={"group": 2})
    yield win_model("Conv", "depthwise Conv", cout=2, extra={"group": 2})
    yield win_model("Conv", "Conv group=1", extra={"group": 1})
    for p in ([1, 1, 1, 1], [0, 0, 0, 0]):
        m = win_model("AveragePool", f"AveragePool counting its padding, pads {p}", pads=p, extra={"count_include_pad": 1})
        yield m
    m = win_model("MaxPool", "MaxPool rounding up", (1, 2, 6, 6), strides=[2, 2], extra={"ceil_mode": 1})
    m.shapes["y"] = (1, 2, 3, 3)
    yield m
    for s in ((1, 3, 4, 4), (1, 2, 3, 5)):
        yield Model(f"GlobalAveragePool of {s}", {"x": s}, [Nd("GlobalAveragePool", "x", "y")], {}, {"y": s[:2] + (1, 1)})


def axes_of(r):
    return range(-r, r)


def softmaxes(tier):
    for shape in ((1, 3, 4, 5), (2, 3, 4), (1, 6), (3, 2)):
        r = len(shape)
        for ops in (13, 17):
            for a in [None, *axes_of(r)]:
                yield Model(f"Softmax of {shape} axis {a} opset {ops}", {"x": shape}, [Nd("Softmax", "x", "y", **({} if a is None else {"axis": a}))], {}, {"y": shape}, ops, expect="either" if r == 4 and a in (0, -4) else "layers")
    for shape in ((1, 3, 4, 5), (1, 6), (1, 6, 1, 1), (1, 1, 1, 6), (1, 2, 1, 5), (1, 2, 4, 1), (3, 1, 4)):
        for ops in (11, 12):
            for a in [None, *axes_of(len(shape))]:
                yield Model(f"Softmax of {shape} axis {a} opset {ops}", {"x": shape}, [Nd("Softmax", "x", "y", **({} if a is None else {"axis": a}))], {}, {"y": shape}, ops)


def concats(tier):
    for r in (4, 3, 2):
        base = (1, 2, 3, 4)[4 - r:]
        for a in axes_of(r):
            for k in (2, 3):
                shp = []
                for j in range(k):
                    s = list(base)
                    s[a % r] += j
                    shp.append(tuple(s))
                o = list(base)
                o[a % r] = sum(s[a % r] for s in shp)
                if r == 4 and a % 4 == 0 or o[0] != 1 and r == 4:
                    continue
                yield Model(f"Concat of {shp} axis {a}", {f"x{j}": s for j, s in enumerate(shp)}, [Nd("Concat", [f"x{j}" for j in reversed(range(k))], "y", axis=a)], {}, {"y": tuple(o)})


def gathers(tier):
    for shape in ((1, 3, 4, 5), (3, 4, 5), (4, 5)):
        r = len(shape)
        for a in [None, *axes_of(r)]:
            ax = (a or 0) % r
            if r == 4 and ax == 0:
                continue
            n = shape[ax]
            A = {} if a is None else {"axis": a}
            for idx in ([0, n - 1], [-1, 1, -n]):
                o = list(shape)
                o[ax] = len(idx)
                yield Model(f"Gather {idx} of {shape} axis {a}", {"x": shape}, [Nd("Gather", ["x", "i"], "y", **A)], {"i": I64(*idx)}, {"y": tuple(o)})
            o = list(shape)
            if r == 4:
                o[ax] = 2
                vals = [(-1) ** j * (j % n) if j % n else 0 for j in range(math.prod(o))]
                yield Model(f"GatherElements of {shape} axis {a}", {"x": shape}, [Nd("GatherElements", ["x", "i"], "y", **A)], {"i": I64(*vals, shape=tuple(o))}, {"y": tuple(o)})
            else:
                o[ax] = 2
                vals = [-(j % n) for j in range(math.prod(o))]
                yield Model(f"GatherElements of {shape} axis {a}", {"x": shape}, [Nd("GatherElements", ["x", "i"], "y", **A)], {"i": I64(*vals, shape=tuple(o))}, {"y": tuple(o)})


def gemms(tier):
    for ta, tb in itertools.product((None, 0, 1), repeat=2):
        for al, be in ((None, None), (0.5, None), (None, 0.25), (2.0, 3.0), (1.0, 1.0), (None, 0.0)):
            for bias in ((4,), None, (1, 4), (1,), (1, 1)):
                M_ = 1 if not ta else 1
                xs = (3, 1) if ta else (1, 3)
                ws = (4, 3) if tb else (3, 4)
                A = {k: v for k, v in (("transA", ta), ("transB", tb), ("alpha", al), ("beta", be)) if v is not None}
                inits = {"w": T(ws)}
                if bias:
                    inits["c"] = T(bias)
                yield Model(f"Gemm transA={ta} transB={tb} alpha={al} beta={be} bias {bias}", {"x": xs}, [Nd("Gemm", ["x", "w"] + (["c"] if bias else []), "y", **A)], inits, {"y": (M_, 4)})


def matmuls(tier):
    for a, b, o in (((1, 3), (3, 4), (1, 4)), ((2, 3), (3, 4), (2, 4)), ((1, 2, 3, 4), (1, 2, 4, 5), (1, 2, 3, 5)), ((2, 3, 4), (2, 4, 5), (2, 3, 5))):
        yield Model(f"MatMul of {a} by {b}", {"x": a, "z": b}, [Nd("MatMul", ["x", "z"], "y")], {}, {"y": o})
        yield Model(f"MatMul of {a} by a constant {b}", {"x": a}, [Nd("MatMul", ["x", "w"], "y")], {"w": T(b)}, {"y": o})
        m = Model(f"MatMul of a constant {a} by {b}", {"x": b}, [Nd("MatMul", ["w", "x"], "y")], {"w": T(a)}, {"y": o})
        yield m


def norms(tier):
    for e in (None, 1e-3, 0.5):
        yield Model(f"BatchNormalization epsilon {e}", {"x": (1, 3, 2, 2)}, [Nd("BatchNormalization", ["x", "s", "b", "m", "v"], "y", **({} if e is None else {"epsilon": e}))],
                    {k: T((3,)) for k in "sbmv"}, {"y": (1, 3, 2, 2)})


def shapes_ops(tier):
    s = (1, 2, 3, 4)
    for p in itertools.permutations(range(4)):
        if p[0] == 0:
            yield Model(f"Transpose {p}", {"x": s}, [Nd("Transpose", "x", "y", perm=list(p))], {}, {"y": tuple(s[i] for i in p)})
    for sh, p in (((1, 2, 3, 4), None), ((2, 3), None), ((2, 3), (1, 0)), ((2, 3, 4), (2, 0, 1)), ((2, 3, 4), (1, 2, 0))):
        q = p or tuple(range(len(sh)))[::-1]
        yield Model(f"Transpose of {sh} {p}", {"x": sh}, [Nd("Transpose", "x", "y", **({} if p is None else {"perm": list(p)}))], {}, {"y": tuple(sh[i] for i in q)}, expect="either")
    for sh, rep in (((1, 2, 3, 4), (1, 2, 3, 1)), ((1, 2, 3, 4), (1, 1, 2, 5)), ((2, 3, 4), (2, 1, 3)), ((2, 3), (1, 4))):
        yield Model(f"Tile of {sh} by {rep}", {"x": sh}, [Nd("Tile", ["x", "r"], "y")], {"r": I64(*rep)}, {"y": tuple(a * b for a, b in zip(sh, rep))})


def reduces(tier):
    for op in ("ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd"):
        for sh in ((1, 2, 3, 4), (2, 3, 4), (3, 4)):
            r = len(sh)
            subsets = [None] + [c for k in (1, 2, 3) for c in itertools.combinations(range(r), k)]
            for ax in subsets:
                for neg in (0, 1) if ax else (0,):
                    for ops in (11, 13, 17, 18):
                        if tier != "thorough" and ops in (13, 17) and (op != "ReduceSum" or ops == 17) and ax and len(ax) != 1:
                            continue
                        for kd in (None, 0, 1) if ax is None or len(ax) == 1 else (None, 0):
                            for noop in (None, 0, 1) if ax is None else (None,):
                                if ops < 18 and noop is not None and not (op == "ReduceSum" and ops >= 13):
                                    continue
                                A, ins, inits = {}, ["x"], {}
                                vals = [a - r if neg else a for a in ax] if ax else None
                                if vals is not None:
                                    if ops < (13 if op == "ReduceSum" else 18):
                                        A["axes"] = vals
                                    else:
                                        ins.append("a")
                                        inits["a"] = I64(*vals)
                                if kd is not None:
                                    A["keepdims"] = kd
                                if noop is not None:
                                    A["noop_with_empty_axes"] = noop
                                red = set(ax) if ax else set() if noop else set(range(r))
                                if kd == 0:
                                    o = tuple(n for i, n in enumerate(sh) if i not in red)
                                else:
                                    o = tuple(1 if i in red else n for i, n in enumerate(sh))
                                yield Model(f"{op} of {sh} axes {vals} keepdims {kd} noop {noop} opset {ops}", {"x": sh}, [Nd(op, ins, "y", **A)], inits, {"y": o}, ops)


def pads(tier):
    s = (1, 2, 3, 4)
    for mode in ("constant", "edge", "wrap", "reflect", None):
        for p in ([0, 0, 1, 2, 0, 0, 0, 1], [0, 1, 1, 1, 0, 1, 2, 0]):
            o = tuple(n + p[i] + p[i + 4] for i, n in enumerate(s))
            A = {"mode": mode} if mode else {}
            yield Model(f"Pad {mode} {p}", {"x": s}, [Nd("Pad", ["x", "p", "v"], "y", **A)], {"p": I64(*p), "v": T((), [1.5])}, {"y": o})
            yield Model(f"Pad {mode} {p} without value", {"x": s}, [Nd("Pad", ["x", "p"], "y", **A)], {"p": I64(*p)}, {"y": o})
    yield Model("Pad of some axes", {"x": s}, [Nd("Pad", ["x", "p", "v", "a"], "y", mode="constant")], {"p": I64(1, 0, 2, 1), "v": T((), [0.0]), "a": I64(2, 3)}, {"y": (1, 2, 6, 5)}, expect="either")
    yield Model("Pad of some axes counted from the end", {"x": s}, [Nd("Pad", ["x", "p", "v", "a"], "y", mode="edge")], {"p": I64(1, 0, 2, 1), "v": T((), [0.0]), "a": I64(-2, -1)}, {"y": (1, 2, 6, 5)}, expect="either")
    yield Model("Pad of a matrix", {"x": (3, 4)}, [Nd("Pad", ["x", "p", "v"], "y", mode="constant")], {"p": I64(1, 0, 2, 1), "v": T((), [0.0])}, {"y": (6, 5)}, expect="either")


def resizes(tier):
    s = (1, 2, 3, 4)
    full = {"coordinate_transformation_mode": "asymmetric", "nearest_mode": "floor", "cubic_coeff_a": -0.5, "exclude_outside": 0, "extrapolation_value": 2.0}
    for mode in ("nearest", "linear", "cubic"):
        for A in ({}, full, {"coordinate_transformation_mode": "align_corners"}, {"coordinate_transformation_mode": "pytorch_half_pixel", "nearest_mode": "ceil"}):
            for sizes in (True, False):
                inits = {"n": I64(1, 2, 6, 8)} if sizes else {"sc": T((4,), [1.0, 1.0, 2.0, 2.0])}
                ins = ["x", "", "", "n"] if sizes else ["x", "", "sc", ""]
                yield Model(f"Resize {mode} {A} by {'sizes' if sizes else 'scales'}", {"x": s}, [Nd("Resize", ins, "y", mode=mode, **A)], inits, {"y": (1, 2, 6, 8)})
        yield Model(f"Resize {mode} by three inputs", {"x": s}, [Nd("Resize", ["x", "", "sc"], "y", mode=mode)], {"sc": T((4,), [1.0, 1.0, 2.0, 2.0])}, {"y": (1, 2, 6, 8)})


def elementwise(tier):
    for op in OM.ELT:
        for a, b, o in (((1, 2, 3, 4), (1, 2, 3, 4), (1, 2, 3, 4)), ((1, 2, 3, 4), (4,), (1, 2, 3, 4)), ((1, 2, 3, 4), (2, 1, 1), (1, 2, 3, 4)), ((1, 2, 1, 4), (1, 1, 3, 1), (1, 2, 3, 4)),
                        ((1, 5), (1, 5), (1, 5)), ((1, 5), (5,), (1, 5)), ((2, 1), (1, 3), (2, 3)), ((1, 2, 3, 4), (), (1, 2, 3, 4)), ((1, 2, 3, 4), (1,), (1, 2, 3, 4))):
            if b:
                yield Model(f"{op} of {a} and {b}", {"x": a, "z": b}, [Nd(op, ["x", "z"], "y")], {}, {"y": o}, expect="layers" if len(b) > 1 else "either")
                yield Model(f"{op} of {b} and {a}", {"x": a, "z": b}, [Nd(op, ["z", "x"], "y")], {}, {"y": o}, expect="layers" if len(b) > 1 else "either")
            yield Model(f"{op} of {a} and a constant {b}", {"x": a}, [Nd(op, ["x", "w"], "y")], {"w": T(b)}, {"y": o})
            yield Model(f"{op} of a constant {b} and {a}", {"x": a}, [Nd(op, ["w", "x"], "y")], {"w": T(b)}, {"y": o})
        yield Model(f"{op} of x and x", {"x": (1, 2, 3, 4)}, [Nd(op, ["x", "x"], "y")], {}, {"y": (1, 2, 3, 4)})
    for op in ("Max", "Min", "Mean"):
        yield Model(f"{op} of three", {"x": (1, 2, 3, 4), "z": (1, 2, 1, 4), "t": (1, 1, 3, 1)}, [Nd(op, ["x", "z", "t"], "y")], {}, {"y": (1, 2, 3, 4)})
        yield Model(f"{op} of two and a constant", {"x": (1, 2, 3, 4), "z": (1, 2, 1, 4)}, [Nd(op, ["x", "w", "z"], "y")], {"w": T((2, 1, 1))}, {"y": (1, 2, 3, 4)})


def activations(tier):
    s = (1, 2, 3, 4)
    for op in OM.ACT:
        if op == "Clip":
            for lo, hi in ((0.0, 6.0), (None, 6.0), (-1.0, None), (-2.0, 3.5)):
                for sh in ((), (1,)):
                    ins, inits = ["x"], {}
                    if lo is not None:
                        inits["lo"] = T(sh, [lo])
                    if hi is not None:
                        inits["hi"] = T(sh, [hi])
                    ins = ["x", "lo" if lo is not None else ""] + (["hi"] if hi is not None else [])
                    yield Model(f"Clip between {lo} and {hi} {sh}", {"x": s}, [Nd(op, ins, "y")], inits, {"y": s})
            yield Model("Clip without bounds", {"x": s}, [Nd(op, ["x"], "y")], {}, {"y": s})
        elif op == "LeakyRelu":
            for al in (None, 0.3, 1.5):
                yield Model(f"LeakyRelu alpha {al}", {"x": s}, [Nd(op, "x", "y", **({} if al is None else {"alpha": al}))], {}, {"y": s})
        else:
            for sh in (s, (1, 5)):
                yield Model(f"{op} of {sh}", {"x": sh}, [Nd(op, "x", "y")], {}, {"y": sh})


def networks(tier):
    s = (1, 2, 6, 6)
    w = lambda o, i, k: T((o, i, k, k))
    same = {"auto_pad": "SAME_UPPER", "kernel_shape": [3, 3]}
    yield Model("classifier", {"x": s}, [
        Nd("Conv", ["x", "w1", "b1"], "c1", kernel_shape=[3, 3], pads=[1, 1, 1, 1]), Nd("Relu", "c1", "r1"), Nd("MaxPool", "r1", "p1", kernel_shape=[2, 2], strides=[2, 2]),
        Nd("Dropout", "p1", "d1"), Nd("Flatten", "d1", "f1"), Nd("Gemm", ["f1", "w2", "b2"], "g1", transB=1), Nd("Relu", "g1", "r2"), Nd("Gemm", ["r2", "w3", "b3"], "g2"), Nd("Softmax", "g2", "y")],
        {"w1": w(3, 2, 3), "b1": T((3,)), "w2": T((5, 27)), "b2": T((5,)), "w3": T((5, 4)), "b3": T((4,))},
        {"c1": (1, 3, 6, 6), "r1": (1, 3, 6, 6), "p1": (1, 3, 3, 3), "d1": (1, 3, 3, 3), "f1": (1, 27), "g1": (1, 5), "r2": (1, 5), "g2": (1, 4), "y": (1, 4)})
    yield Model("residual block", {"x": s}, [
        Nd("Conv", ["x", "w1", "b1"], "c1", **same), Nd("Relu", "c1", "r1"), Nd("Conv", ["r1", "w2", "b2"], "c2", **same), Nd("Add", ["x", "c2"], "a1"), Nd("Relu", "a1", "y")],
        {"w1": w(2, 2, 3), "b1": T((2,)), "w2": w(2, 2, 3), "b2": T((2,))}, {k: s for k in ("c1", "r1", "c2", "a1", "y")})
    yield Model("three branches joined in another order", {"x": s}, [
        Nd("Conv", ["x", "w1", "b1"], "c1", **same), Nd("Relu", "x", "r1"), Nd("MaxPool", "x", "p1", kernel_shape=[3, 3], auto_pad="SAME_LOWER"), Nd("Concat", ["p1", "c1", "r1"], "y", axis=1)],
        {"w1": w(3, 2, 3), "b1": T((3,))}, {"c1": (1, 3, 6, 6), "r1": s, "p1": s, "y": (1, 7, 6, 6)})
    yield Model("difference of branches", {"x": s}, [Nd("Relu", "x", "r"), Nd("Tanh", "x", "t"), Nd("Sub", ["t", "r"], "u"), Nd("Div", ["r", "u"], "y")], {}, {k: s for k in "rtuy"})
    yield Model("sigmoid gate", {"x": s}, [Nd("Sigmoid", "x", "g"), Nd("Mul", ["x", "g"], "y")], {}, {k: s for k in "gy"})
    yield Model("two inputs", {"a": s, "b": s}, [Nd("Relu", "b", "r"), Nd("Sub", ["a", "r"], "u"), Nd("Mul", ["u", "b"], "y")], {}, {k: s for k in "ruy"})
    yield Model("a constant used twice", {"x": s}, [Nd("Mul", ["x", "k"], "u"), Nd("Add", ["k", "u"], "y")], {"k": T((2, 1, 1))}, {k: s for k in "uy"})
    yield Model("weights shared by two layers", {"x": s}, [Nd("Conv", ["x", "w", "b"], "c1", **same), Nd("Conv", ["c1", "w", "b"], "y", **same)], {"w": w(2, 2, 3), "b": T((2,))}, {k: s for k in ("c1", "y")})
    yield Model("constants several times", {"x": s}, [Nd("Div", ["x", "k1"], "u"), Nd("Sub", ["k2", "u"], "v"), Nd("Mul", ["v", "k1"], "y")], {"k1": T((2, 1, 1)), "k2": T((1, 2, 6, 6))}, {k: s for k in "uvy"})
    yield Model("layers skipped in a row", {"x": (1, 12)}, [Nd("Relu", "x", "r"), Nd("Dropout", "r", "d"), Nd("Reshape", ["d", "sh"], "q"), Nd("Dropout", "q", "e"), Nd("Add", ["e", "e"], "y")],
                {"sh": I64(1, 3, 2, 2)}, {"r": (1, 12), "d": (1, 12), "q": (1, 3, 2, 2), "e": (1, 3, 2, 2), "y": (1, 3, 2, 2)})
    yield Model("skipped layer read by two", {"x": s}, [Nd("Relu", "x", "r"), Nd("Dropout", "r", "d"), Nd("Tanh", "d", "t"), Nd("Mul", ["d", "t"], "u"), Nd("Sub", ["r", "u"], "y")], {}, {k: s for k in "rdtuy"})
    yield Model("skipped layer on another branch", {"x": s}, [Nd("Relu", "x", "r"), Nd("Tanh", "x", "t"), Nd("Dropout", "r", "d"), Nd("Sub", ["t", "d"], "y")], {}, {k: s for k in "rtdy"})
    rng = random.Random(7)
    for j in range(120 if tier != "thorough" else 1200):
        n_in = rng.choice((1, 1, 2))
        have, nodes, inits = [f"x{i}" for i in range(n_in)], [], {}
        size = rng.randint(2, 7)
        unused = list(have)
        while len(nodes) < size or len(unused) > 1:
            o = f"t{len(nodes)}"
            pick = lambda: unused[rng.randrange(len(unused))] if unused and rng.random() < 0.6 else rng.choice(have)
            op = rng.choice(("Relu", "Tanh", "Dropout", "Reshape", "Add", "Sub", "Mul", "Div", "Max", "Concat", "const")) if len(nodes) < size else "Sub"
            if op in ("Relu", "Tanh", "Dropout"):
                ins = [pick()]
            elif op == "Reshape":
                ins, inits["shape"] = [pick(), "shape"], I64(*s)
            elif op == "const":
                op, k = rng.choice(("Sub", "Add", "Div")), rng.choice(("k1", "k2"))
                inits[k] = T((2, 1, 1)) if k == "k1" else T(s)
                ins = [pick(), k] if rng.random() < 0.5 else [k, pick()]
            elif op == "Concat" or op == "Max":
                op = "Max"
                ins = [pick(), pick(), pick()]
            else:
                ins = [pick(), pick()] if len(nodes) < size else unused[:2]
            nodes.append(Nd(op, ins, o))
            unused = [u for u in unused if u not in ins] + [o]
            have.append(o)
        yield Model(f"network {j}: " + " ".join(f"{n.outs[0]}={n.op}({','.join(n.ins)})" for n in nodes), {f"x{i}": s for i in range(n_in)}, nodes, inits, {n.outs[0]: s for n in nodes})
    yield Model("double precision", {"x": s}, [Nd("Relu", "x", "y")], {}, {"y": s}, elem=11)
    yield Model("Constant node as a bound", {"x": s}, [Nd("Constant", [], "lo", value=T((), [0.5])), Nd("Clip", ["x", "lo"], "y")], {}, {"y": s}, expect="layers")
    for nm, val in (("scalar", T((), [3.0])), ("vector", T((4,), [1.0, 2.0, 3.0, 4.0])), ("channels", T((2, 1, 1), [1.0, 2.0]))):
        sh = (1, 2, 3, 4)
        m = Model(f"Constant node as an operand ({nm})", {"x": sh}, [Nd("Constant", [], "k", value=val), Nd("Sub", ["x", "k"], "y")], {}, {"y": sh}, expect="either")
        m.consts = {"k": val}
        yield m
    m = Model("Constant node as repeats", {"x": (1, 2, 3, 4)}, [Nd("Constant", [], "r", value=I64(1, 2, 1, 3)), Nd("Tile", ["x", "r"], "y")], {}, {"y": (1, 4, 3, 12)}, expect="either")
    yield m
    for op in ("LRN", "Erf", "Sin", "Not", "CumSum"):
        A = {"size": 3} if op == "LRN" else {}
        yield Model(f"{op} between two layers", {"x": s}, [Nd("Relu", "x", "r"), Nd(op, "r", "t", **A), Nd("Tanh", "t", "y")], {}, {k: s for k in "rty"}, expect="refused")


FAMILIES = [windows, softmaxes, concats, gathers, gemms, matmuls, norms, shapes_ops, reduces, pads, resizes, elementwise, activations, networks]


def judge(repo, m):
    """("ok", n) | ("skip", why) | ("bad", [(construct, what)])"""
    for n in m.nodes:
        if n.op == "Constant":
            m.inits_all = dict(m.inits)
    fi = repo.func("acetone_nnet.importers.ONNX_importer.parser_ONNX", "load_onnx")
    if fi is None:
        return "skip", "importer not found"
    consts = {n.outs[0]: n.attrs["value"] for n in m.nodes if n.op == "Constant"}
    full = dict(m.inits)
    full.update(consts)
    I = OM.Onnx(repo)
    try:
        st, v = I.load(fi, m)
    except Raised as e:
        where = I.raised_where or ""
        m.inits = full
        if m.expect in ("either", "refused") or unsupported(m):
            return "ok", 0
        return "bad", [(m.nodes[-1].op if len(m.nodes) == 1 else "model", f"the importer refuses it ({e.name} {where})")]
    except Imprecise as e:
        return "skip", str(e)
    except GR.Unknown as e:
        return "skip", str(e)
    except RecursionError:
        return "skip", "too deep"
    m.inits = full
    if m.expect == "refused":
        return "bad", [(m.nodes[-2].op, "the node has no layer, yet the model is accepted")]
    u = unsupported(m)
    if u:
        return "bad", [(m.nodes[0].op, f"not supported ({u}), yet the model is accepted")]
    try:
        out, n = OM.compare(I, m, st, v)
    except GR.Unknown as e:
        return "skip", str(e)
    except (Imprecise, Raised) as e:
        return "skip", f"{type(e).__name__} {e}"
    return ("bad", out) if out else ("ok", n)


def unsupported(m):
    for n in m.nodes:
        if n.op in OM.BYPASS or n.op == "Constant":
            continue
        try:
            OM.meaning(m, n)
        except OM.Unsupported as e:
            return str(e)
    return None


def _work(a):
    k, n, tier = a
    repo = Repo()
    out = []
    for i, m in enumerate(mm for f in FAMILIES for mm in f(tier)):
        if i % n != k:
            continue
        m0 = m.title
        try:
            r = judge(repo, m)
        except Exception as e:                                     # noqa: BLE001 - the analysis gives no verdict
            if os.environ.get("SA_DEBUG"):
                raise
            r = ("skip", f"{type(e).__name__}: {e}"[:200])
        out.append((m0, r))
    return out


def c14(chk):
    chk.rule = ("load_onnx interpreted on model schemas (operator, rank, shapes, attributes present or left out, opset, constants, graph shape): every layer it makes has the "
                "class, parameters and operands the ONNX operator specification gives the node; what has no layer is refused")
    chk.assumptions += ["weights are generic values; axes, indices, pads, shapes take the enumerated values", "onnx helper functions and numpy follow their documentation"]
    tier = os.environ.get("VERIF_TIER", "quick")
    n = max(1, min(8, os.cpu_count() or 1))
    with multiprocessing.Pool(n) as p:
        res = [x for r in p.map(_work, [(k, n, tier) for k in range(n)]) for x in r]
    groups, known = {}, {k[1] for k in load_known() if k[0] == chk.prop}
    for t, (k, v) in sorted(res, key=lambda x: x[0]):
        chk.count("models")
        if k == "ok":
            chk.ok(t)
            chk.count("values compared", v)
        elif k == "skip":
            chk.skip(t, v)
        else:
            for c, w in v:
                groups.setdefault((c, w.split(" is ")[0].split(" instead")[0][:80]), []).append((f"{c}|{t}".replace(" ", "_"), f"{t}: {w}"))
    for (c, w), ts in sorted(groups.items()):
        new = [x for x in ts if x[0] not in known]
        for key, what in [x for x in ts if x[0] in known] + new[:4]:
            chk.bad(key, what + (f" (and {len(new) - 4} models like it)" if len(new) > 4 and key not in known else ""), "src/acetone_nnet/importers/ONNX_importer/create_layer.py")


CHECKS = {"C14": c14}
