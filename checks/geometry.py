"""C21: a layer is accepted exactly when its parameters fit its operator, and the geometry it records is that of the operator."""
import math
import os

from sa import graphs as GR
from sa.interp import HObj, Raised, State
from sa.ndarr import Imprecise, NdInterp
from sa.nodes import NONE, const, mk, show, sym
from sa.repo import Repo

RULE = ("every layer constructor interpreted exactly on enumerated parameters: those that fit the operator are accepted and give the geometry the operator defines (padding of each side, extents, sizes, "
        "numbers of parameters); those where one size, extent, shape, axis, index or type does not fit end in an exception")


class A:
    """array argument: shape and values (None: generic)"""

    def __init__(self, *shape, v=None, dt="f"):
        self.shape, self.v, self.dt = shape, v, dt


class Act:
    pass


def value(I, st, x, name=""):
    if isinstance(x, A):
        n = math.prod(x.shape)
        return I.nd(st, x.shape, [const(e) for e in x.v] if x.v is not None else [sym(f"k:{name}[{i}]") for i in range(n)], x.dt)
    if isinstance(x, Act):
        return I.instantiate(I.repo.classes["ReLu"], [], {}, st)
    if isinstance(x, tuple):
        return mk("tuple", *[value(I, st, e, name) for e in x])
    if isinstance(x, list):
        return I.new_list(st, [value(I, st, e, name) for e in x])
    return NONE if x is None else const(x)


def num(v):
    return v.a[0] if v is not None and v.op == "const" else None


def field(I, st, h, name):
    """plain value of a field: number, tuple of numbers, or None when not known"""
    v = h.f.get(name)
    if v is None:
        return None
    if v.op == "const":
        return v.a[0]
    s = I.seq(v, st)
    if s is not None and all(x.op == "const" for x in s):
        return tuple(x.a[0] for x in s)
    return None


def construct(repo, cls, kw):
    """("ok", interp, state, object) | ("raised", name, where) | ("skip", why)"""
    I = NdInterp(repo)
    I.typed = True
    I.record = False
    I.budget = 400000
    st = State()
    try:
        args = {k: value(I, st, v, k) for k, v in kw.items()}
        o = I.instantiate(repo.classes[cls], [], args, st)
    except Raised as e:
        return ("raised", e.name, I.raised_where)
    except (Imprecise, GR.Unknown) as e:
        return ("skip", f"{type(e).__name__} {e}")
    if any(e.kind in ("raise", "badcall") for e in I.events):
        return ("skip", "an exception under a condition the analysis cannot decide")
    h = st.heap.get(o.a[0]) if o.op == "ref" else None
    if h is None:
        return ("skip", "no object")
    return ("ok", I, st, h)


# ------------------------------------------------------------------ operator definitions
def out(n, k, s, d, p):
    return (n + p[0] + p[1] - d * (k - 1) - 1) // s + 1


def auto(mode, n, k, s, d=1):
    """TensorFlow / ONNX definition: output ceil(n / s), the odd element at the end (lower: at the beginning)"""
    if mode.lower() == "valid":
        return 0, 0
    o = -(-n // s)
    t = max((o - 1) * s + d * (k - 1) + 1 - n, 0)
    return (t - t // 2, t // 2) if mode == "SAME_LOWER" else (t // 2, t - t // 2)


def both(gen):
    """layers whose parameters are only checked by the implementation: the base class for what is accepted, the implementation for all"""
    for cls, t, k, v, f in gen:
        if v == "ok" or cls in ("Add", "Subtract", "Multiply", "Divide", "Average", "Maximum", "Minimum", "ReduceMax"):
            yield cls, t, k, v, f
        yield cls + "Default", t, dict(k, version="default"), v, f


def swap(l, i, v):
    l = list(l)
    l[i] = v
    return l


def near(ok, key, kw):
    """perturbations of one entry of a list parameter"""
    for i in range(1, len(kw[key])):
        for dlt in (1, -1):
            k2 = dict(kw)
            k2[key] = swap(kw[key], i, kw[key][i] + dlt)
            yield i, dlt, k2


def types(cls, title, kw, names):
    """a value of another type where an integer (or array) is needed"""
    for n in names:
        if n in ("idx", "size"):      # typed by the traits of the base class
            continue
        k2 = dict(kw)
        v = kw[n]
        if isinstance(v, A):
            k2[n] = [1.0] * 3
        elif isinstance(v, tuple):
            k2[n] = tuple(float(x) for x in v) if v else None
        elif isinstance(v, list):
            for i in range(1, len(v)):
                if isinstance(v[i], int):
                    k3 = dict(kw)
                    k3[n] = swap(v, i, float(v[i]))
                    yield cls, f"{title}: entry {i} of {n} is not an integer", k3, "bad", {}
            continue
        else:
            k2[n] = float(v)
        yield cls, f"{title}: {n} has the wrong type", k2, "bad", {}


BASE = {"original_name": "l", "idx": 3, "activation_function": Act()}


def windows(tier):
    pads = [[1, 0, 2, 1], [0, 1, 0, 0], [0, 0, 0, 0], [2, 1, 1, 2], "same", "valid", "VALID", "SAME_UPPER", "SAME_LOWER"]
    sizes = [(7, 10), (6, 9), (5, 5), (8, 11)] if tier == "thorough" else [(7, 10), (6, 9)]
    first = True
    for H, W in sizes:
        for pad in pads:
            for s in (1, 2, 3):
                for kh, kw_ in ((3, 2), (2, 3), (1, 4), (3, 3)):
                    for d in (1, 2):
                        p = [(pad[0], pad[2]), (pad[1], pad[3])] if isinstance(pad, list) else [auto(pad, H, kh, s, d), auto(pad, W, kw_, s, d)]
                        o = [out(H, kh, s, d, p[0]), out(W, kw_, s, d, p[1])]
                        if min(o) < 1:
                            continue
                        for g in (1, 2) if s == 2 and d == 1 else (1,):
                            F, C = 6, 4
                            k = dict(BASE, conv_algorithm="specs", size=F * o[0] * o[1], padding=pad, strides=s, kernel_h=kh, kernel_w=kw_, dilation_rate=d, nb_filters=F,
                                     input_shape=[1, C, H, W], output_shape=[1, F, *o], weights=A(F, C // g, kh, kw_), biases=A(F), group=g)
                            f = dict(pad_top=p[0][0], pad_bottom=p[0][1], pad_left=p[1][0], pad_right=p[1][1], nb_weights=F * C // g * kh * kw_, nb_biases=F, size=k["size"],
                                     output_channels=F, output_height=o[0], output_width=o[1], input_channels=C, input_height=H, input_width=W, kernel_h=kh, kernel_w=kw_,
                                     strides=s, dilation_rate=d, group=g)
                            t = f"convolution {kh}x{kw_} of {H}x{W} strides {s} dilation {d} padding {pad} groups {g}"
                            yield "Conv2D", t, k, "ok", f
                            if g == 2 or (s, d) in ((1, 2), (2, 1)) and (isinstance(pad, list) or pad == "same"):
                                if d == 2 and kh != 3:
                                    continue
                                for i in (2, 3):
                                    for dl in (1, -1):
                                        os_ = swap(k["output_shape"], i, k["output_shape"][i] + dl)
                                        yield "Conv2D", f"{t}: output extent {i} off by {dl}", dict(k, output_shape=os_, size=F * os_[2] * os_[3]), "bad", {}
                                yield "Conv2D", f"{t}: size off by one", dict(k, size=k["size"] + 1), "bad", {}
                                for i in range(4):
                                    for dl in (1, -1):
                                        w = swap((F, C // g, kh, kw_), i, (F, C // g, kh, kw_)[i] + dl)
                                        if min(w) > 0:
                                            yield "Conv2D", f"{t}: weights of shape {w}", dict(k, weights=A(*w)), "bad", {}
                                if kh != kw_:
                                    yield "Conv2D", f"{t}: weights transposed", dict(k, weights=A(F, C // g, kw_, kh)), "bad", {}
                                for b in ((F + 1,), (F - 1,), (1, F), (F, 1)):
                                    yield "Conv2D", f"{t}: biases of shape {b}", dict(k, biases=A(*b)), "bad", {}
                                if first and g == 2:
                                    first = False
                                    yield from types("Conv2D", t, k, ["idx", "size", "strides", "kernel_h", "kernel_w", "dilation_rate", "nb_filters", "weights", "biases"])
                                    yield "Conv2D", f"{t}: unknown algorithm", dict(k, conv_algorithm="no such algorithm"), "bad", {}
                                    yield "Conv2D", f"{t}: algorithm has the wrong type", dict(k, conv_algorithm=3), "bad", {}
                                    for j in (2, 3):
                                        yield "Conv2D", f"{t}: entry {j} of output_shape is not an integer", dict(k, output_shape=swap(k["output_shape"], j, float(k["output_shape"][j]))), "bad", {}
                                        yield "Conv2D", f"{t}: entry {j} of input_shape is not an integer", dict(k, input_shape=swap(k["input_shape"], j, float(k["input_shape"][j]))), "bad", {}
                                    if isinstance(pad, list):
                                        yield "Conv2D", f"{t}: padding is not made of integers", dict(k, padding=[float(x) for x in pad]), "bad", {}
    for cls in ("MaxPooling2D", "AveragePooling2D"):
        first = True
        for H, W in sizes:
            for pad in pads:
                for s in (1, 2, 3):
                    for ps in (2, 3, 4):
                        p = [(pad[0], pad[2]), (pad[1], pad[3])] if isinstance(pad, list) else [auto(pad, H, ps, s), auto(pad, W, ps, s)]
                        o = [out(H, ps, s, 1, p[0]), out(W, ps, s, 1, p[1])]
                        if min(o) < 1:
                            continue
                        C = 4
                        k = dict(BASE, size=C * o[0] * o[1], padding=pad, strides=s, pool_size=ps, input_shape=[1, C, H, W], output_shape=[1, C, *o])
                        f = dict(pad_top=p[0][0], pad_bottom=p[0][1], pad_left=p[1][0], pad_right=p[1][1], size=k["size"], output_channels=C, output_height=o[0], output_width=o[1],
                                 input_channels=C, input_height=H, input_width=W, pool_size=ps, strides=s)
                        t = f"{cls} {ps} of {H}x{W} strides {s} padding {pad}"
                        yield cls, t, k, "ok", f
                        if s == 2 and (isinstance(pad, list) or pad == "same"):
                            for i in (2, 3):
                                for dl in (1, -1):
                                    os_ = swap(k["output_shape"], i, k["output_shape"][i] + dl)
                                    if min(os_) > 0:
                                        yield cls, f"{t}: output extent {i} off by {dl}", dict(k, output_shape=os_, size=C * os_[2] * os_[3]), "bad", {}
                            yield cls, f"{t}: size off by one", dict(k, size=k["size"] - 1), "bad", {}
                            if first:
                                first = False
                                yield from types(cls, t, k, ["idx", "size", "strides", "pool_size", "input_shape"])
                                for j in (2, 3):
                                    yield cls, f"{t}: entry {j} of output_shape is not an integer", dict(k, output_shape=swap(k["output_shape"], j, float(k["output_shape"][j]))), "bad", {}
                                if isinstance(pad, list):
                                    yield cls, f"{t}: padding is not made of integers", dict(k, padding=[float(x) for x in pad]), "bad", {}


def broadcasts(tier):
    I4, V, act = [1, 3, 4, 5], 60, BASE
    for cls in ("Add", "Subtract", "Multiply", "Divide", "Average", "Maximum", "Minimum"):
        for ins in ([I4, I4], [[1, 1, 4, 5], [1, 3, 1, 5]], [[1, 3, 4, 1], [1, 1, 4, 5], [1, 3, 1, 1]]):
            for c in (None, A(1, 3, 1, 5)) if cls != "Add" else (None,):
                sh = ins if c is None else [*ins[:-1], [1, 3, 1, 5]]
                o = [1] + [max(s[i] for s in sh) for i in (1, 2, 3)]
                k = dict(act, size=math.prod(o), input_shapes=A(len(sh), 4, v=[x for s in sh for x in s], dt="i"), output_shape=o, constant=c)
                if cls == "Add":
                    del k["constant"]
                t = f"{cls} of {sh}" + (" with a constant" if c else "")
                yield cls, t, k, "ok", dict(size=math.prod(o), output_channels=o[1], output_height=o[2], output_width=o[3], **({"constant_size": 15} if c else {}))
                yield cls, t + ": size off by one", dict(k, size=math.prod(o) + 1), "bad", {}
                for i, dl, k2 in near(True, "output_shape", k):
                    if min(k2["output_shape"]) > 0:
                        yield cls, f"{t}: output extent {i} off by {dl}", dict(k2, size=math.prod(k2["output_shape"])), "bad", {}
                for i in (1, 2, 3):
                    s2 = [swap(s, i, 1) for s in sh]
                    k2 = {"constant": A(*[1 if q == i else (1, 3, 1, 5)[q] for q in range(4)])} if c else {}
                    yield cls, f"{t}: axis {i} of all the operands is 1", dict(k, input_shapes=A(len(sh), 4, v=[x for s in s2 for x in s], dt="i"), **k2), "bad", {}
                    j = next((j for j, s in enumerate(sh) if s[i] > 2 and sum(1 for q in sh if q[i] == s[i]) > 1), None)
                    if j is not None:
                        s2 = [swap(s, i, s[i] - 1) if q == j else s for q, s in enumerate(sh)]
                        yield cls, f"{t}: operand {j} has extent {s2[j][i]} on axis {i}", dict(k, input_shapes=A(len(sh), 4, v=[x for s in s2 for x in s], dt="i")), "bad", {}
        if cls != "Add":
            yield cls, f"{t}: constant has the wrong type", dict(k, constant=2.0), "bad", {}
        yield from types(cls, t, k, ["idx", "size", "output_shape"])

def reductions(tier):
    I4, V, act = [1, 3, 4, 5], 60, BASE
    for cls in ("ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd"):
        for ax in ((), (1,), (2,), (3,), (1, 2), (2, 3), (1, 3), (3, 1), (1, 2, 3), (0, 1)):
            for noop in (0, 1):
                red = ax or (() if noop else (1, 2, 3))
                o = [1] + [1 if i in red else I4[i] for i in (1, 2, 3)]
                k = dict(act, size=math.prod(o), axis=ax, keepdims=1, noop_with_empty_axes=noop, input_shape=I4)
                t = f"{cls} over {ax} noop {noop}"
                yield cls, t, k, "ok", dict(size=math.prod(o), output_channels=o[1], output_height=o[2], output_width=o[3], input_channels=3, input_height=4, input_width=5)
                yield cls, t + ": size off by one", dict(k, size=math.prod(o) + 1), "bad", {}
                if o != I4:
                    yield cls, t + ": size of the input", dict(k, size=V), "bad", {}
                for b in (4, -1):
                    yield cls, f"{t}: axis {b}", dict(k, axis=(*ax, b), size=math.prod(o) if ax else V), "bad", {}
        yield from types(cls, t, k, ["idx", "size", "axis", "input_shape"])

def simple(tier):
    I4 = [1, 3, 4, 5]
    V = 60
    act = BASE
    # flatten, input, activation
    k = dict(original_name="l", idx=3, size=V, input_shape=I4, data_format="channels_first")
    yield "Flatten", "Flatten", k, "ok", dict(size=V)
    yield "Flatten", "Flatten channels_last", dict(k, data_format="channels_last"), "ok", dict(size=V)
    for s in (12, 20, 15, 61, 5):
        yield "Flatten", f"Flatten: size {s}", dict(k, size=s), "bad", {}
    yield "Flatten", "Flatten: unknown data format", dict(k, data_format="channels"), "bad", {}
    yield from types("Flatten", "Flatten", k, ["idx", "size", "input_shape"])
    for sh in (I4, [None, 3, 4, 5], [1, 7], [None, 7], [0, 3, 2]):
        n = math.prod(x for x in sh if x)
        for df in ("channels_first", "channels_last"):
            k = dict(original_name="l", idx=0, size=n, input_shape=sh, data_format=df)
            yield "InputLayer", f"input of shape {sh} {df}", k, "ok", dict(size=n)
        for s in (n + 1, n - 1, sh[-1] + 1):
            yield "InputLayer", f"input of shape {sh}: size {s}", dict(k, size=s), "bad", {}
    yield from types("InputLayer", "input", dict(k, input_shape=I4, size=V), ["idx", "size", "input_shape"])
    k = dict(act, size=V)
    yield "ActivationLayer", "activation", k, "ok", dict(size=V)
    yield from types("ActivationLayer", "activation", k, ["idx", "size"])
    yield "ActivationLayer", "activation: not an activation function", dict(k, activation_function="relu"), "bad", {}
    # batch normalisation
    for C, H, W in ((3, 4, 5), (2, 1, 1), (5, 3, 2)):
        k = dict(act, size=C * H * W, input_shape=[1, C, H, W], epsilon=0.5, scale=A(C), biases=A(C), mean=A(C), var=A(C))
        yield "BatchNormalization", f"batch normalisation of {C}x{H}x{W}", k, "ok", dict(size=C * H * W, output_channels=C, output_height=H, output_width=W, nb_biases=C)
        yield "BatchNormalization", f"batch normalisation of {C}x{H}x{W}, integer epsilon", dict(k, epsilon=1), "ok", {}
        yield "BatchNormalization", f"batch normalisation of {C}x{H}x{W}: size off by one", dict(k, size=C * H * W + 1), "bad", {}
        yield "BatchNormalization", f"batch normalisation of {C}x{H}x{W}: epsilon is not a number", dict(k, epsilon="e"), "either", {}
        for p in ("scale", "biases", "mean", "var"):
            for b in ((C + 1,), (W + 7,), (C, 1), (1, C)):
                yield "BatchNormalization", f"batch normalisation of {C}x{H}x{W}: {p} of shape {b}", dict(k, **{p: A(*b)}), "bad", {}
        yield from types("BatchNormalization", f"batch normalisation of {C}x{H}x{W}", k, ["idx", "size", "input_shape", "scale", "biases", "mean", "var"])
    # concatenation
    for ax in (1, 2, 3):
        for n in (2, 3):
            ins = [swap(I4, ax, I4[ax] + j) for j in range(n)]
            o = swap(I4, ax, sum(s[ax] for s in ins))
            k = dict(act, size=math.prod(o), axis=ax, input_shapes=ins, output_shape=o)
            t = f"concatenation of {n} along {ax}"
            yield "Concatenate", t, k, "ok", dict(size=math.prod(o), output_channels=o[1], output_height=o[2], output_width=o[3], axis=ax)
            yield "Concatenate", t + ": size off by one", dict(k, size=math.prod(o) + 1), "bad", {}
            for i, dl, k2 in near(True, "output_shape", k):
                yield "Concatenate", f"{t}: output extent {i} off by {dl}", dict(k2, size=math.prod(k2["output_shape"])), "bad", {}
            for j in range(n):
                for i in range(1, 4):
                    yield "Concatenate", f"{t}: extent {i} of operand {j} too large", dict(k, input_shapes=[swap(s, i, s[i] + 1) if q == j else s for q, s in enumerate(ins)]), "bad", {}
                    yield "Concatenate", f"{t}: extent {i} of operand {j} is not an integer", dict(k, input_shapes=[swap(s, i, float(s[i])) if q == j else s for q, s in enumerate(ins)]), "bad", {}
            for a in (0, 4, -1):
                yield "Concatenate", f"{t}: axis {a}", dict(k, axis=a), "bad", {}
            for a in (0, 4, -1, -2):
                yield "Concatenate", f"{t}, all of the extents of the output: axis {a}", dict(k, axis=a, input_shapes=[o] * n), "bad", {}
            yield from types("Concatenate", t, k, ["idx", "size", "axis", "output_shape"])
    # gathers
    for ax in (1, 2, 3):
        n = I4[ax]
        for idx in ([0, n - 1], [1], [n - 1, 0, 1, 0]):
            o = swap(I4, ax, len(idx))
            k = dict(act, size=math.prod(o), axis=ax, indices=A(len(idx), v=idx, dt="i"), input_shape=I4, output_shape=o)
            t = f"gather {idx} along {ax}"
            yield "Gather", t, k, "ok", dict(size=math.prod(o), output_channels=o[1], output_height=o[2], output_width=o[3], axis=ax, input_channels=3, input_height=4, input_width=5)
            yield "Gather", t + ": size off by one", dict(k, size=math.prod(o) + 1), "bad", {}
            for b in (n, n + 2, -1):
                for pos in range(len(idx)):
                    yield "Gather", f"{t}: index {pos} is {b}", dict(k, indices=A(len(idx), v=swap(idx, pos, b), dt="i")), "bad", {}
            for a in (0, 4, -1):
                yield "Gather", f"{t}: axis {a}", dict(k, axis=a), "bad", {}
        yield from types("Gather", t, k, ["idx", "size", "axis", "indices", "output_shape"])
        J4 = [1, 2, 3, 4]
        n = J4[ax]
        for m in (1, n - 1, n + 1):
            o = swap(J4, ax, m)
            vals = [i % n for i in range(math.prod(o))]
            k = dict(act, size=math.prod(o), axis=ax, indices=A(*o, v=vals, dt="i"), input_shape=J4, output_shape=o)
            t = f"gather elements {m} along {ax}"
            yield "GatherElements", t, k, "ok", dict(size=math.prod(o), output_channels=o[1], output_height=o[2], output_width=o[3], axis=ax)
            yield "GatherElements", t + ": size off by one", dict(k, size=math.prod(o) - 1), "bad", {}
            for b in (n, -1):
                for pos in (0, len(vals) - 1):
                    yield "GatherElements", f"{t}: index {pos} is {b}", dict(k, indices=A(*o, v=swap(vals, pos, b), dt="i")), "bad", {}
            for a in (0, 4, -1):
                yield "GatherElements", f"{t}: axis {a}", dict(k, axis=a), "bad", {}
            if m == n - 1:
                for a in (0, 4, -1, -2):
                    yield "GatherElements", f"gather elements, same extents: axis {a}", dict(k, axis=a, output_shape=J4, size=24, indices=A(*J4, v=[0] * 24, dt="i")), "bad", {}
            for i in (1, 2, 3):
                o2 = swap(o, i, o[i] + 1)
                yield "GatherElements", f"{t}: extent {i} of the output differs from the indices", dict(k, output_shape=o2, size=math.prod(o2)), "bad", {}
                if i != ax:
                    v2 = [q % n for q in range(math.prod(o2))]
                    yield "GatherElements", f"{t}: extent {i} of the output differs from the input", dict(k, output_shape=o2, size=math.prod(o2), indices=A(*o2, v=v2, dt="i")), "bad", {}
        yield from types("GatherElements", t, k, ["idx", "size", "axis", "indices", "output_shape"])
    # transposition, tile
    import itertools
    for perm in itertools.permutations((1, 2, 3)):
        k = dict(act, size=V, input_shape=I4, perm=[0, *perm])
        t = f"transposition {perm}"
        yield "Transpose", t, k, "ok", dict(size=V, output_channels=I4[perm[0]], output_height=I4[perm[1]], output_width=I4[perm[2]])
        yield "Transpose", t + ": size off by one", dict(k, size=V + 1), "bad", {}
    for perm in ([0, 1, 1, 3], [0, 2, 3, 3], [0, 3, 2, 3]):
        o = math.prod(I4[i] for i in perm)
        yield "Transpose", f"transposition {perm[1:]} uses an axis twice", dict(k, size=o, perm=perm), "bad", {}
    for perm in ([0, -3, 2, 3], [0, 1, 2, -1], [0, 4, 2, 3]):
        yield "Transpose", f"transposition {perm[1:]} out of bounds", dict(k, perm=perm), "bad", {}
    yield from types("Transpose", "transposition", k, ["idx", "size", "perm", "input_shape"])
    for r in ([1, 2, 1, 3], [1, 1, 2, 1], [1, 3, 2, 2]):
        o = [1] + [a * b for a, b in zip(I4[1:], r[1:])]
        k = dict(act, size=math.prod(o), repeats=r, input_shape=I4)
        t = f"tile {r}"
        yield "Tile", t, k, "ok", dict(size=math.prod(o), output_channels=o[1], output_height=o[2], output_width=o[3])
        yield "Tile", t + ": size off by one", dict(k, size=math.prod(o) + 1), "bad", {}
        yield "Tile", t + ": size of the input", dict(k, size=V), "bad", {}
        yield "Tile", t + ": too many repeats", dict(k, repeats=[*r, 1]), "bad", {}
        for i in (1, 2, 3):
            for b in (0, -1):
                r2 = swap(r, i, b)
                sz = math.prod(a * b_ for a, b_ in zip(I4[1:], r2[1:]))
                yield "Tile", f"{t}: repeat {i} is {b}", dict(k, repeats=r2, size=sz), "bad", {}
        yield "Tile", f"{t}: repeats both negative", dict(k, repeats=[1, -r[1], -r[2], r[3]]), "bad", {}
        yield from types("Tile", t, k, ["idx", "size", "repeats", "input_shape"])
    # pads
    for cls in ("ConstantPad", "EdgePad", "ReflectPad", "WrapPad"):
        for pads in ([0, 1, 0, 2, 0, 0, 3, 1], [0, 0, 1, 0, 0, 2, 0, 0], [0] * 8):
            o = [1] + [I4[i] + pads[i] + pads[i + 4] for i in (1, 2, 3)]
            k = dict(act, size=math.prod(o), pads=A(8, v=pads, dt="i") if False else pads, constant_value=0.5, axes=[], input_shape=I4)
            t = f"{cls} {pads}"
            yield cls, t, k, "ok", dict(size=math.prod(o), output_channels=o[1], output_height=o[2], output_width=o[3])
            yield cls, t + " on axes", dict(k, axes=[0, 1, 2, 3]), "ok", {}
            yield cls, t + ": size off by one", dict(k, size=math.prod(o) + 1), "bad", {}
            for a in (4, -1):
                yield cls, f"{t}: axis {a}", dict(k, axes=[1, a]), "bad", {}
            yield cls, f"{t}: fill value is not a number", dict(k, constant_value="x"), "bad", {}
        yield from types(cls, t, k, ["idx", "size", "pads", "input_shape"])
    yield from both(broadcasts(tier))
    yield from both(reductions(tier))
    # softmax
    for axis in (1, 2, 3):
        k = dict(original_name="l", idx=3, size=V, output_shape=I4, axis=axis)
        yield "Softmax", f"softmax along {axis}", k, "ok", dict(size=V, output_channels=3, output_height=4, output_width=5, one_dimension=False)
        yield "Softmax", f"softmax along {axis}: size off by one", dict(k, size=V + 1), "bad", {}
        yield from types("Softmax", f"softmax along {axis}", k, ["idx", "size", "axis", "output_shape"])
    for b in (0, 4, -1):
        yield "Softmax", f"softmax: axis {b}", dict(k, axis=b), "bad", {}
    yield "Softmax", "softmax of a vector", dict(k, size=7, output_shape=[1, 7], axis=None), "ok", dict(size=7, one_dimension=True)
    yield "Softmax", "softmax of a vector in 4 dimensions", dict(k, size=7, output_shape=[1, 1, 1, 7], axis=None), "ok", dict(size=7, one_dimension=True)
    # dense, matrix products
    for i, o in ((7, 4), (3, 5), (1, 2)):
        k = dict(act, size=o, weights=A(i, o), biases=A(o))
        t = f"dense {i}->{o}"
        yield "Dense", t, k, "ok", dict(size=o, nb_weights=i * o, nb_biases=o)
        for s in (o + 1, o - 1):
            yield "Dense", f"{t}: size {s}", dict(k, size=s), "bad", {}
            if s:
                yield "Dense", f"{t}: biases of shape {s}", dict(k, biases=A(s)), "bad", {}
                yield "Dense", f"{t}: weights of shape ({i}, {s})", dict(k, weights=A(i, s)), "bad", {}
        if i != o:
            yield "Dense", f"{t}: weights transposed", dict(k, weights=A(o, i)), "bad", {}
        yield from types("Dense", t, k, ["weights", "biases"])
    for c in (1, 2):
        m, n, p = 3, 4, 5
        k = dict(act, size=c * m * p, input_shapes=[[1, c, m, n], [1, c, n, p]])
        t = f"matrix product of {c} matrices"
        yield "MatMul", t, k, "ok", dict(size=c * m * p, output_channels=c, output_height=m, output_width=p, shared_dimension=n)
        yield "MatMul", t + ": size off by one", dict(k, size=c * m * p + 1), "bad", {}
        yield "MatMul", t + ": size of an operand", dict(k, size=c * m * n), "bad", {}
        for d in (1, -1):
            yield "MatMul", f"{t}: rows of the second operand off by {d}", dict(k, input_shapes=[[1, c, m, n], [1, c, n + d, p]]), "bad", {}
            yield "MatMul", f"{t}: columns of the first operand off by {d}", dict(k, input_shapes=[[1, c, m, n + d], [1, c, n, p]]), "bad", {}
    for tA in (0, 1):
        for tB in (0, 1):
            M, K, N = 3, 4, 5
            ish, wsh = ([K, M] if tA else [M, K]), ([N, K] if tB else [K, N])
            for bias in ((N,), (1,), (1, 1)):
                k = dict(act, size=M * N, alpha=1, beta=1, transA=tA, transB=tB, weights=A(*wsh), bias=A(*bias), input_shape=[1, 1, *ish], output_shape=[1, 1, M, N])
                t = f"gemm transA={tA} transB={tB} bias {bias}"
                yield "Gemm", t, k, "ok", dict(size=M * N, output_height=M, output_width=N, input_height=ish[0], input_width=ish[1], nb_weights=K * N, nb_biases=math.prod(bias))
                yield "Gemm", t + ", scaled", dict(k, alpha=0.5, beta=2.0), "ok", {}
                yield "Gemm", t + ", scaled by integers", dict(k, alpha=3, beta=2), "ok", {}
            yield "Gemm", t + ": size off by one", dict(k, size=M * N + 1), "bad", {}
            for i in (0, 1):
                for d in (1, -1):
                    yield "Gemm", f"{t}: weights extent {i} off by {d}", dict(k, weights=A(*swap(wsh, i, wsh[i] + d))), "bad", {}
                    o2 = swap([M, N], i, [M, N][i] + d)
                    yield "Gemm", f"{t}: output extent {i} off by {d}", dict(k, output_shape=[1, 1, *o2], size=math.prod(o2)), "bad", {}
                    yield "Gemm", f"{t}: input extent {i} off by {d}", dict(k, input_shape=[1, 1, *swap(ish, i, ish[i] + d)]), "bad", {}
            yield "Gemm", f"{t}: weights transposed", dict(k, weights=A(*wsh[::-1])), "bad", {}
            for b in ((N + 1,), (N - 1,), (M,)):
                yield "Gemm", f"{t}: bias of shape {b}", dict(k, bias=A(*b)), "bad", {}
            yield from types("Gemm", t, k, ["idx", "size", "weights", "bias"])
            for j in (2, 3):
                yield "Gemm", f"{t}: entry {j} of output_shape is not an integer", dict(k, output_shape=swap(k["output_shape"], j, float(k["output_shape"][j]))), "bad", {}
                yield "Gemm", f"{t}: entry {j} of input_shape is not an integer", dict(k, input_shape=swap(k["input_shape"], j, float(k["input_shape"][j]))), "bad", {}
    # resize
    for cls in ("ResizeLinear", "ResizeNearest", "ResizeCubic"):
        for size, oh, ow in ((False, 8, 10), (False, 6, 3), (True, 8, 15)):
            tgt = [1, 3, oh, ow] if not size else [1.0, 1.0, 2.0, 3.0]
            k = dict(act, size=3 * oh * ow, input_shape=I4, axes=[], coordinate_transformation_mode="asymmetric", exclude_outside=0, keep_aspect_ratio_policy="stretch", boolean_resize=size,
                     target_size=tgt, roi=[], extrapolation_value=0.0, nearest_mode="floor", cubic_coeff_a=-0.75)
            t = f"{cls} to {oh}x{ow}" + (" by scales" if size else "")
            yield cls, t, k, "ok", dict(size=3 * oh * ow, output_channels=3, output_height=oh, output_width=ow, input_channels=3, input_height=4, input_width=5)
            yield cls, t + ": size off by one", dict(k, size=3 * oh * ow + 1), "bad", {}
            yield cls, t + ": unknown mode", dict(k, coordinate_transformation_mode="other"), "bad", {}
            yield cls, t + ": unknown policy", dict(k, keep_aspect_ratio_policy="other"), "bad", {}
            yield cls, t + ": exclude_outside is 2", dict(k, exclude_outside=2), "bad", {}
            yield cls, t + ": axis 4", dict(k, axes=[4]), "bad", {}
            if not size:
                yield cls, t + ": negative extents", dict(k, target_size=[1, 3, -oh, -ow]), "bad", {}
            else:
                yield cls, t + ": negative scales", dict(k, target_size=[1.0, 1.0, -2.0, -3.0]), "bad", {}
            for nm in ("round_prefer_floor", "round_prefer_ceil", "floor", "ceil"):
                if cls == "ResizeNearest":
                    yield cls, f"{t} rounding {nm}", dict(k, nearest_mode=nm), "ok", {}
            for cm in ("half_pixel", "half_pixel_symmetric", "pytorch_half_pixel", "align_corners", "asymmetric", "tf_crop_and_resize"):
                yield cls, f"{t} coordinates {cm}", dict(k, coordinate_transformation_mode=cm, roi=[0.0] * 8), "ok", {}
            if cls == "ResizeNearest":
                yield cls, t + ": unknown rounding", dict(k, nearest_mode="nearest"), "bad", {}
            if cls == "ResizeCubic":
                yield cls, t + ": coefficient is not a number", dict(k, cubic_coeff_a="a"), "bad", {}
            yield cls, t + ": extrapolation value is not a number", dict(k, extrapolation_value="a"), "bad", {}
            yield cls, t + ": axis -1", dict(k, axes=[2, -1]), "bad", {}
            yield cls, t + ": region of interest of 3 values", dict(k, roi=[0.0, 0.5, 1.0]), "bad", {}
            yield cls, t + ": region of interest of 8 values for two axes", dict(k, axes=[2, 3], roi=[0.0] * 8), "bad", {}
        yield from types(cls, t, k, ["idx", "size", "input_shape", "exclude_outside"])


def judge(repo, cls, title, kw, verdict, fields):
    if cls not in repo.classes:
        return "skip", f"no class {cls}"
    r = construct(repo, cls, kw)
    if r[0] == "skip":
        return r
    if r[0] == "raised":
        if verdict == "ok":
            return "bad", f"refused ({r[1]} at {r[2]}) although its parameters fit", r[2]
        return "ok", 1
    if verdict == "bad":
        return "bad", "accepted", None
    _, I, st, h = r
    n = 1
    for k, want in fields.items():
        got = field(I, st, h, k)
        if got is None:
            continue
        n += 1
        if got != want:
            return "bad", f"{k} is {got} instead of {want}", None
    return "ok", n


FAMILIES = [windows, simple]


def _work(a):
    k, n, tier = a
    repo = Repo()
    res = []
    for i, s in enumerate(x for f in FAMILIES for x in f(tier)):
        if i % n != k:
            continue
        try:
            r = judge(repo, *s)
        except Exception as e:                                     # noqa: BLE001 - no verdict
            if os.environ.get("SA_DEBUG"):
                raise
            r = ("skip", f"{type(e).__name__}: {e}"[:200])
        res.append((s[0], s[1], s[3], r))
    return res


def c21(chk):
    import multiprocessing
    chk.rule = RULE
    chk.assumptions += ["values of the enumerated parameters only; weights are generic"]
    tier = os.environ.get("VERIF_TIER", "quick")
    n = max(1, min(8, os.cpu_count() or 1))
    with multiprocessing.Pool(n) as p:
        res = [x for r in p.map(_work, [(k, n, tier) for k in range(n)]) for x in r]
    repo = Repo()
    bad = {}
    for cls, t, verdict, r in sorted(res, key=lambda x: (x[0], x[1])):
        chk.count("accepted schemas" if verdict == "ok" else "refused schemas")
        if r[0] == "ok":
            chk.ok(f"{cls}: {t}")
            chk.count("fields compared", max(r[1] - 1, 0))
        elif r[0] == "skip":
            chk.skip(t, r[1])
        else:
            what = t.split(": ")[-1] if ": " in t else r[1].split(" is ")[0] if " is " in r[1] else "refused"
            import re
            bad.setdefault((cls, re.sub(r"-?\d+(, )?", "#", what)), []).append((t, r))
    for (cls, what), l in sorted(bad.items()):
        c = repo.classes[cls]
        fi = c.find("__init__")
        t, r = l[0]
        chk.bad(f"{cls}:{what}", f"{cls}: {t}: {r[1]}" + (f" (and {len(l) - 1} more)" if len(l) > 1 else ""), r[2] or f"{fi.module.rel}:{fi.node.lineno}")


CHECKS = {"C21": c21}
