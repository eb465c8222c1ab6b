"""Definitions of the operators on tensors of given extents, element by element (values are normal forms of sa/terms.py).

Written from the operator definitions, like spec/operators.py.  `L` gives the parameters of a layer: L.n (integer or float), L.s (string),
L.l (list), L.a (values of a stored array); tensors are flat lists, channels first; `act` is the layer's activation function.
Returns the list of the values of the output, or None where there is no definition here.
"""
import itertools
import math

from sa import terms as T

K = T.lift


class NoSpec(Exception):
    pass


def chw(L, p="input"):
    return L.n(f"{p}_channels"), L.n(f"{p}_height"), L.n(f"{p}_width")


def grid(*d):
    return itertools.product(*(range(n) for n in d))


def conv(L, ins, act):
    x, = ins
    C, H, W = chw(L)
    F, OH, OW = chw(L, "output")
    kh, kw, s, d, g = L.n("kernel_h"), L.n("kernel_w"), L.n("strides"), L.n("dilation_rate"), L.n("group")
    pt, pl = L.n("pad_top"), L.n("pad_left")
    w, b = L.a("weights"), L.a("biases")
    cg, fg = C // g, F // g
    if len(w) != F * cg * kh * kw or len(b) != F:
        raise NoSpec("extent of the weights")
    out = []
    for f, i, j in grid(F, OH, OW):
        t = {}
        for c, a, e in grid(cg, kh, kw):
            y, z = i * s + a * d - pt, j * s + e * d - pl
            if 0 <= y < H and 0 <= z < W:
                for m, k in T.mul(x[((f // fg * cg + c) * H + y) * W + z], w[((f * cg + c) * kh + a) * kw + e]).t.items():
                    t[m] = t.get(m, 0.0) + k
        out.append(act(T.add(T.P(t), b[f])))
    return out


def pool(L, ins, act):
    x, = ins
    C, H, W = chw(L)
    _, OH, OW = chw(L, "output")
    k, s, pt, pl = L.n("pool_size"), L.n("strides"), L.n("pad_top"), L.n("pad_left")
    out = []
    for c, i, j in grid(C, OH, OW):
        v = [x[(c * H + y) * W + z] for a, e in grid(k, k) for y, z in [(i * s + a - pt, j * s + e - pl)] if 0 <= y < H and 0 <= z < W]
        if not v:
            raise NoSpec("window outside the input")
        out.append(act(T.extremum("max", v) if "Max" in L.cls else T.mul(total(v), K(1.0 / len(v)))))
    return out


def total(v):
    t = {}
    for p in v:
        for m, k in p.t.items():
            t[m] = t.get(m, 0.0) + k
    return T.P(t)


def product(v):
    r = K(1.0)
    for p in v:
        r = T.mul(r, p)
    return r


def dense(L, ins, act):
    x, = ins
    n = L.n("size")
    w, b = L.a("weights"), L.a("biases")
    return [act(T.add(total([T.mul(x[j], w[j * n + i]) for j in range(len(x))]), b[i])) for i in range(n)]


def gemm(L, ins, act):
    x, = ins
    ih, iw = L.n("input_height"), L.n("input_width")
    oh, ow = L.n("output_height"), L.n("output_width")
    tA, tB = L.transposed()
    k = ih if tA else iw
    w, b = L.a("weights"), L.a("biases")
    if len(x) != ih * iw or oh * ow != L.n("size") or len(w) != k * ow:
        raise NoSpec("extents")
    al, be = K(L.n("alpha", 1.0)), K(L.n("beta", 1.0))
    bb = (lambda j: b[j]) if len(b) == ow else (lambda j: b[0]) if len(b) == 1 else None
    if bb is None:
        raise NoSpec("extent of the biases")
    return [act(T.add(T.mul(al, total([T.mul(x[q * iw + i] if tA else x[i * iw + q], w[j * k + q] if tB else w[q * ow + j]) for q in range(k)])), T.mul(be, bb(j)))) for i, j in grid(oh, ow)]


def matmul(L, ins, act):
    s = L.rows("input_shapes")
    if len(ins) != 2 or len(s) != 2 or any(len(r) != 4 for r in s):
        raise NoSpec("a stored operand")
    x, y = ins
    (C0, H0, W0), (C1, H1, W1) = s[0][1:], s[1][1:]
    if W0 != H1 or C0 != C1 or len(x) != C0 * H0 * W0 or len(y) != C1 * H1 * W1:
        raise NoSpec("extents")
    return [act(total([T.mul(x[(c * H0 + i) * W0 + k], y[(c * H1 + k) * W1 + j]) for k in range(W0)])) for c, i, j in grid(C0, H0, W1)]


def broadcast(L, ins, act):
    O = chw(L, "output")
    shapes = L.rows("input_shapes")
    ops = [(v, s[1:]) for v, s in zip(ins, shapes)]
    k = L.a("constant", None)
    if k is not None:
        sh = shapes[len(ins)][1:] if len(shapes) == len(ins) + 1 else L.shape("constant")
        sh = ([1, 1, 1] + [n for n in sh])[-3:] if len(sh) != 4 else list(sh)[1:]
        ops.append((k, sh))
    if len(ops) < 2 or any(len(v) != math.prod(s) or len(s) != 3 or any(a not in (1, b) for a, b in zip(s, O)) for v, s in ops):
        raise NoSpec("operand shapes")
    c = L.cls
    out = []
    for p in grid(*O):
        v = []
        for a, s in ops:
            q = [i % n for i, n in zip(p, s)]
            v.append(a[(q[0] * s[1] + q[1]) * s[2] + q[2]])
        if "Add" in c:
            r = total(v)
        elif "Subtract" in c:
            r = T.add(v[0], total(v[1:]), -1.0)
        elif "Multiply" in c:
            r = product(v)
        elif "Divide" in c:
            r = v[0]
            for y in v[1:]:
                r = T.div(r, y)
        elif "Average" in c:
            r = T.mul(total(v), K(1.0 / len(v)))
        else:
            r = T.extremum("max" if "Max" in c else "min", v)
        out.append(act(r))
    return out


def batchnorm(L, ins, act):
    x, = ins
    C, H, W = chw(L, "output")
    s, b, m, v, e = L.a("scale"), L.a("biases"), L.a("mean"), L.a("var"), K(L.n("epsilon"))
    return [act(T.add(T.mul(T.div(T.add(x[(c * H + i) * W + j], m[c], -1.0), T.fn("sqrt", T.add(v[c], e))), s[c]), b[c])) for c, i, j in grid(C, H, W)]


def softmax(L, ins, act):
    x, = ins
    if L.flag("one_dimension"):
        d, ax = (len(x), 1, 1), 0
    else:
        d, ax = chw(L, "output"), L.n("axis") - 1
        if L.n("axis") not in (1, 2, 3):
            raise NoSpec("axis")
    at = lambda p: x[(p[0] * d[1] + p[1]) * d[2] + p[2]]
    out = []
    for p in grid(*d):
        line = [at(p[:ax] + (k,) + p[ax + 1:]) for k in range(d[ax])]
        out.append(act(T.div(T.fn("exp", at(p)), total([T.fn("exp", v) for v in line]))))
    return out


def reduce(L, ins, act):
    x, = ins
    d = chw(L)
    axes = [a % 4 for a in L.l("axes")]
    if not axes:
        axes = [] if L.n("noop_with_empty_axes") else [1, 2, 3]
    axes = [a for a in axes if a]
    out = {}
    for p in grid(*d):
        q = tuple(0 if k + 1 in axes else i for k, i in enumerate(p))
        out.setdefault(q, []).append(x[(p[0] * d[1] + p[1]) * d[2] + p[2]])
    c = L.cls
    f = (lambda v: total(v)) if "Sum" in c else (lambda v: T.mul(total(v), K(1.0 / len(v)))) if "Mean" in c else product if "Prod" in c else (lambda v: T.extremum("max" if "Max" in c else "min", v))
    return [act(f(out[q])) for q in sorted(out)]


def concatenate(L, ins, act):
    shapes = [s[1:] for s in L.rows("input_shapes")]
    ax = L.n("axis") - 1
    if len(shapes) != len(ins) or any(len(v) != math.prod(s) for v, s in zip(ins, shapes)):
        raise NoSpec("operands")
    d = list(shapes[0])
    d[ax] = sum(s[ax] for s in shapes)
    out = []
    for p in grid(*d):
        k, q = 0, list(p)
        while q[ax] >= shapes[k][ax]:
            q[ax] -= shapes[k][ax]
            k += 1
        s = shapes[k]
        out.append(act(ins[k][(q[0] * s[1] + q[1]) * s[2] + q[2]]))
    return out


def gather(L, ins, act):
    x, = ins
    d = list(chw(L))
    ax = L.n("axis") - 1
    idx = [i % d[ax] for i in L.ints("indices")]
    o = list(d)
    o[ax] = len(idx)
    out = []
    for p in grid(*o):
        q = list(p)
        q[ax] = idx[q[ax]]
        out.append(act(x[(q[0] * d[1] + q[1]) * d[2] + q[2]]))
    return out


def gather_elements(L, ins, act):
    x, = ins
    d, o = chw(L), chw(L, "output")
    ax = L.n("axis") - 1
    idx = L.ints("indices")
    if len(idx) != math.prod(o):
        raise NoSpec("indices")
    out = []
    for n, p in enumerate(grid(*o)):
        q = list(p)
        q[ax] = idx[n] % d[ax]
        out.append(act(x[(q[0] * d[1] + q[1]) * d[2] + q[2]]))
    return out


def tile(L, ins, act):
    x, = ins
    d = chw(L)
    r = L.l("repeats")[1:]
    return [act(x[((c % d[0]) * d[1] + h % d[1]) * d[2] + w % d[2]]) for c, h, w in grid(*(a * b for a, b in zip(d, r)))]


def transpose(L, ins, act):
    x, = ins
    d = chw(L)
    perm = L.l("perm")
    o = [d[p - 1] for p in perm[1:]]
    out = []
    for p in grid(*o):
        q = [0, 0, 0]
        for k, i in enumerate(p):
            q[perm[k + 1] - 1] = i
        out.append(act(x[(q[0] * d[1] + q[1]) * d[2] + q[2]]))
    return out


def pad(L, ins, act):
    x, = ins
    d = L.l("input_shape")[1:]
    p = L.l("pads")
    out = []
    for q in grid(*(n + p[k + 1] + p[k + 5] for k, n in enumerate(d))):
        z = [i - p[k + 1] for k, i in enumerate(q)]
        if "Constant" in L.cls:
            if any(not 0 <= i < n for i, n in zip(z, d)):
                out.append(act(K(L.n("constant_value"))))
                continue
        elif "Edge" in L.cls:
            z = [min(max(i, 0), n - 1) for i, n in zip(z, d)]
        elif "Wrap" in L.cls:
            z = [i % n for i, n in zip(z, d)]
        else:
            # the mirror image about the borders, which are not repeated
            z = [0 if n == 1 else (i % (2 * n - 2) if i % (2 * n - 2) < n else 2 * n - 2 - i % (2 * n - 2)) for i, n in zip(z, d)]
        out.append(act(x[(z[0] * d[1] + z[1]) * d[2] + z[2]]))
    return out


def flatten(L, ins, act):
    x, = ins
    if L.s("data_format") == "channels_last":
        C, H, W = L.l("input_shape")[1:]
        return [x[(c * H + h) * W + w] for h, w, c in grid(H, W, C)]
    return list(x)


def input_layer(L, ins, act):
    x, = ins
    if L.s("data_format") != L.s("gen_data_format") and len(L.l("input_shape")) == 4:
        raise NoSpec("converted input")
    return list(x)


def activation(L, ins, act):
    return [act(v) for v in ins[0]]


def constant(L, ins, act):
    k = L.a("constant", None)
    return k if k is not None else L.a("weights")


# ------------------------------------------------------------------ resize

def _coordinate(mode, i, n, m, scale, roi):
    """position in the input (extent n) of element i of the output (extent m)"""
    if mode == "half_pixel":
        return (i + 0.5) / scale - 0.5
    if mode == "half_pixel_symmetric":
        adj = m / (n * scale)
        c = n / 2
        return c * (1 - adj) + (i + 0.5) / scale - 0.5
    if mode == "pytorch_half_pixel":
        return (i + 0.5) / scale - 0.5 if m > 1 else 0.0
    if mode == "align_corners":
        return i * (n - 1) / (m - 1) if m > 1 else 0.0
    if mode == "asymmetric":
        return i / scale
    if mode == "tf_crop_and_resize":
        a, b = roi
        return a * (n - 1) + i * (b - a) * (n - 1) / (m - 1) if m > 1 else 0.5 * (a + b) * (n - 1)
    raise NoSpec(mode)


def _near(x, v):
    """positions are computed in floating point: no definition where rounding decides"""
    r = round(x * 2) / 2
    if x != r and abs(x - r) < 1e-9:
        raise NoSpec("position at a tie")
    return v


def _scales(L, ins, outs):
    """the scales asked for, or the ratios of the extents asked for"""
    try:
        by, target = L.get("boolean_resize"), L.floats("target_size")
        by = bool(by.a[0])
    except (NoSpec, AttributeError, KeyError):
        return L.floats("scale")
    return target if by else [o / i for i, o in zip(ins, outs)]


def resize(L, ins, act):
    x, = ins
    C, H, W = chw(L)
    OC, OH, OW = chw(L, "output")
    sc = _scales(L, (1, C, H, W), (1, OC, OH, OW))
    mode, roi = L.s("coordinate_transformation_mode"), L.floats("roi")
    if OC != C:
        raise NoSpec("channels")
    tf = mode == "tf_crop_and_resize"

    def axis(o, n, m, k):
        """[(index, coefficient)] for output index o, or None outside the region"""
        p = _coordinate(mode, o, n, m, sc[k], (roi[k], roi[k + 4]) if tf else None)
        if tf and (p < 0 or p > n - 1):
            return None
        if "Nearest" in L.cls:
            f = L.s("nearest_mode")
            _near(p, 0)
            q = {"round_prefer_floor": math.ceil(p - 0.5), "round_prefer_ceil": math.floor(p + 0.5), "floor": math.floor(p), "ceil": math.ceil(p)}[f]
            return [(min(max(q, 0), n - 1), 1.0)]
        if "Linear" in L.cls:
            b = math.floor(_near(p, p))
            r = p - b
            w = [(b, 1 - r), (b + 1, r)]
        else:
            a = L.n("cubic_coeff_a")
            b = math.floor(_near(p, p))
            r = p - b

            def near(t):
                return ((a + 2) * t - (a + 3)) * t * t + 1

            def far(t):
                return ((a * t - 5 * a) * t + 8 * a) * t - 4 * a
            w = [(b - 1, far(r + 1)), (b, near(r)), (b + 1, near(1 - r)), (b + 2, far(2 - r))]
        if L.n("exclude_outside"):
            w = [(i, k_) for i, k_ in w if 0 <= i < n]
            t = sum(k_ for i, k_ in w)
            w = [(i, k_ / t) for i, k_ in w]
        return [(min(max(i, 0), n - 1), k_) for i, k_ in w]
    out = []
    for c, i, j in grid(OC, OH, OW):
        a, b = axis(i, H, OH, 2), axis(j, W, OW, 3)
        if a is None or b is None:
            out.append(act(K(L.n("extrapolation_value"))))
            continue
        out.append(act(total([T.mul(K(u * v), x[(c * H + y) * W + z]) for y, u in a for z, v in b])))
    return out


MOVES = {"Concatenate": concatenate, "GatherElements": gather_elements, "Gather": gather, "Tile": tile, "Transpose": transpose, "ConstantPad": pad, "EdgePad": pad, "WrapPad": pad, "ReflectPad": pad, "Flatten": flatten,
         "InputLayer": input_layer, "ConstantLayer": constant}
SUMS = {"Conv2D": conv, "MaxPooling2D": pool, "AveragePooling2D": pool, "Dense": dense, "Gemm": gemm, "MatMul": matmul}
ELEMENTS = {"Add": broadcast, "Subtract": broadcast, "Multiply": broadcast, "Divide": broadcast, "Average": broadcast, "Maximum": broadcast, "Minimum": broadcast, "BatchNormalization": batchnorm, "Softmax": softmax, "Reduce": reduce,
            "ActivationLayer": activation}
RESIZE = {"Resize": resize}


def definition(bases, table):
    """the definition of a layer, from the names of its class and of the classes it extends"""
    for b in bases:
        if b in table:
            return table[b]
    return None
