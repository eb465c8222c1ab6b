"""Reference definitions of the operators, as loop nests over the symbols of sa/layers.py scenarios.

Written from the operator definitions (ONNX operator semantics restricted to what ACETONE documents: batch one,
channels-first storage of activations, activation applied once to every element), not from the implementation.
`ACT(x)` is the activation attached to the layer.  Returns (C text, {symbol: defining expression}) or None.
"""
import itertools


def nest(dims, body):
    return "".join(f"for ({v} = 0; {v} < {n}; ++{v}) " for v, n in dims) + "{ " + body + " }"


def bcast(k, shape):
    c, h, w = shape
    return f"{k}[((i0 % {c})*{h} + (i1 % {h}))*{w} + (i2 % {w})]"


D3 = lambda: [("i0", "OC"), ("i1", "OH"), ("i2", "OW")]
O3 = "out[(i0*OH + i1)*OW + i2]"

OPS = {"Add": "+", "Subtract": "-", "Multiply": "*", "Divide": "/"}


def broadcast(kind, scenario, consts):
    shapes = [("C0", "H0", "W0"), ("C1", "H1", "W1"), ("C2", "H2", "W2")]
    if scenario == "two-inputs":
        ops = [bcast("in0", shapes[0]), bcast("in1", shapes[1])]
    elif scenario == "three-inputs":
        ops = [bcast(f"in{k}", shapes[k]) for k in range(3)]
    else:
        ops = [bcast("in0", shapes[0])]
        if not consts.get("no constant"):
            ops.append(bcast("constant", ("CK", "HK", "WK")))
    if kind in OPS:
        e = f" {OPS[kind]} ".join(ops)
    elif kind == "Average":
        e = "(" + " + ".join(ops) + f") / {len(ops)}.0"
    else:
        f = "fmax" if kind == "Maximum" else "fmin"
        e = ops[0]
        for o in ops[1:]:
            e = f"{f}({e}, {o})"
    return nest(D3(), f"{O3} = ACT({e});"), {}


def pool(kind, hwc):
    if hwc:
        inp, out = "in0[(y*IW + x)*IC + i0]", "out[(i1*OW + i2)*IC + i0]"
    else:
        inp, out = "in0[(i0*IH + y)*IW + x]", "out[(i0*OH + i1)*OW + i2]"
    win = "for (h = 0; h < pool; ++h) for (w = 0; w < pool; ++w) { int y = i1*stride + h - pad_top; int x = i2*stride + w - pad_left; if (y >= 0 && y < IH && x >= 0 && x < IW) { %s } }"
    if kind == "max":
        b = "float m = -INFINITY; " + win % f"if ({inp} > m) m = {inp};" + f" {out} = ACT(m);"
    else:
        b = "float s = 0; int n = 0; " + win % f"s += {inp}; n = n + 1;" + f" {out} = ACT(s / n);"
    return nest([("i0", "IC"), ("i1", "OH"), ("i2", "OW")], b), {}


def conv(dil="dil"):
    b = ("float s = 0; for (c = 0; c < IC; ++c) for (h = 0; h < KH; ++h) for (w = 0; w < KW; ++w) { int y = i1*stride + h*%s - pad_top; int x = i2*stride + w*%s - pad_left; "
         "if (y >= 0 && y < IH && x >= 0 && x < IW) s += in0[(c*IH + y)*IW + x] * weights[((i0*IC + c)*KH + h)*KW + w]; } out[(i0*OH + i1)*OW + i2] = ACT(s + biases[i0]);") % (dil, dil)
    return nest(D3(), b), {}


REDUCE = {"ReduceSum": ("0", "s += {e};", "s"), "ReduceMean": ("0", "s += {e};", "s / ({n})"), "ReduceProd": ("1", "s *= {e};", "s"),
          "ReduceMax": ("-INFINITY", "if ({e} > s) s = {e};", "s"), "ReduceMin": ("INFINITY", "if ({e} < s) s = {e};", "s")}


def reduce(kind, axes):
    given, axes = axes, [a for a in axes if a]          # there is one batch
    if given and not axes:
        return nest([("c", "IC"), ("h", "IH"), ("w", "IW")], "out[(c*IH + h)*IW + w] = ACT(in0[(c*IH + h)*IW + w]);"), {}
    if not axes:
        return nest([("i", "size")], "out[i] = ACT(in0[i]);"), {}
    dims = {1: ("c", "IC"), 2: ("h", "IH"), 3: ("w", "IW")}
    keep = [a for a in (1, 2, 3) if a not in axes]
    init, upd, fin = REDUCE[kind]
    e = "in0[(c*IH + h)*IW + w]"
    body = "float s = " + init + "; " + nest([dims[a] for a in axes], upd.format(e=e))
    out = "0"
    for a in keep:
        out = f"({out})*{dims[a][1]} + {dims[a][0]}"
    body += f" out[{out}] = ACT({fin.format(n=' * '.join(dims[a][1] for a in axes))});"
    return nest([dims[a] for a in keep], body), {}


def pad(mode):
    dims = [("c", "IC", "pad_front", "pad_back"), ("h", "IH", "pad_top", "pad_bottom"), ("w", "IW", "pad_left", "pad_right")]
    pre = ""
    inside = []
    for v, n, a, b in dims:
        x = f"x{v}"
        if mode == "constant":
            pre += f"int {x} = {v} - {a}; "
            inside.append(f"{x} >= 0 && {x} < {n}")
        elif mode == "edge":
            pre += f"int {x} = {v} < {a} ? 0 : ({v} - {a} >= {n} ? {n} - 1 : {v} - {a}); "
    o = "out[(c*(IH + pad_top + pad_bottom) + h)*(IW + pad_left + pad_right) + w]"
    e = "in0[(xc*IH + xh)*IW + xw]"
    if mode == "constant":
        st = f"if ({' && '.join(inside)}) {{ {o} = ACT({e}); }} else {{ {o} = ACT(fill); }}"
    elif mode == "edge":
        st = f"{o} = ACT({e});"
    else:
        return None
    return nest([(v, f"{n} + {a} + {b}") for v, n, a, b in dims], pre + st), {}


def spec(cls, scenario, consts):
    c = cls[:-len("Default")] if cls.endswith("Default") else cls
    if c in ("Add", "Subtract", "Multiply", "Divide", "Average", "Maximum", "Minimum"):
        return broadcast(c, scenario, consts)
    if c in ("MaxPooling2D", "AveragePooling2D"):
        return pool("max" if c.startswith("Max") else "avg", scenario.endswith("channels_last"))
    if c == "BatchNormalization":
        return nest([("c", "IC"), ("i", "IH*IW")], "out[c*IH*IW + i] = ACT(scale[c]*(in0[c*IH*IW + i] - mean[c])/sqrt(var[c] + eps) + biases[c]);"), {}
    if c == "Concatenate":
        ax = int(scenario[-1])
        d = ["C", "H", "W"]
        facts = {"O" + d[a - 1]: (" + ".join(f"{d[a - 1]}{k}" for k in range(3)) if a == ax else f"{d[a - 1]}0") for a in (1, 2, 3)}
        for a in (1, 2, 3):
            if a != ax:
                for k in (1, 2):
                    facts[f"{d[a - 1]}{k}"] = f"{d[a - 1]}0"
        v = f"i{ax - 1}"
        t = ""
        off = ""
        for k in range(3):
            ix = [f"i{m}" + (off if m == ax - 1 else "") for m in range(3)]
            val = f"in{k}[(({ix[0]})*H{k} + ({ix[1]}))*W{k} + ({ix[2]})]"
            off += f" - {d[ax - 1]}{k}"
            cond = f"if ({v}{off} < 0) " if k < 2 else ""
            t += ("else " if k else "") + cond + f"{O3} = ACT({val});\n"
        return nest(D3(), t), facts
    if c == "Gather":
        ax = int(scenario[-1])
        facts = {"builtins.len(indices.flatten())": "NIDX", "O" + "CHW"[ax - 1]: "NIDX"}
        for a in (1, 2, 3):
            if a != ax:
                facts["O" + "CHW"[a - 1]] = "I" + "CHW"[a - 1]
        ix = [f"i{m}" for m in range(3)]
        ix[ax - 1] = f"(int) indices[{ix[ax - 1]}]"
        return nest(D3(), f"{O3} = ACT(in0[(({ix[0]})*IH + ({ix[1]}))*IW + ({ix[2]})]);"), facts
    if c == "GatherElements":
        ax = int(scenario[-1])
        ix = [f"i{m}" for m in range(3)]
        ix[ax - 1] = "(int) indices[(i0*OH + i1)*OW + i2]"
        return nest(D3(), f"{O3} = ACT(in0[(({ix[0]})*IH + ({ix[1]}))*IW + ({ix[2]})]);"), {}
    if c == "Softmax":
        if scenario == "flat":
            return "float s = 0; for (k = 0; k < size; ++k) s += exp(in0[k]); for (j = 0; j < size; ++j) out[j] = ACT(exp(in0[j])/s);", {}
        ax = int(scenario[-1])
        n = ["OC", "OH", "OW"][ax - 1]
        ix = ["i0", "i1", "i2"]
        ix[ax - 1] = "k"
        return nest(D3(), f"float s = 0; for (k = 0; k < {n}; ++k) s += exp(in0[({ix[0]}*OH + {ix[1]})*OW + {ix[2]}]); {O3} = ACT(exp(in0[(i0*OH + i1)*OW + i2])/s);"), {}
    if c == "Conv2D6loops" or c in ("Conv2DStdGemm", "Conv2DIndirectGemm", "Conv2DGemmTarget"):
        return conv()
    if c == "Dense":
        return nest([("i", "size")], "float s = 0; for (j = 0; j < PREV0; ++j) s += in0[j]*weights[j*size + i]; out[i] = ACT(s + biases[i]);"), {}
    if c == "Flatten":
        if scenario == "channels_last":
            return None
        return None
    if c == "Gemm":
        tA, tB = scenario[7] == "1", scenario[-1] == "1"
        # A is the layer input (IH x IW, or its transpose), B the weights, C the bias row
        K = "IH" if tA else "IW"
        a = "in0[k*IW + i]" if tA else "in0[i*IW + k]"
        b = f"weights[j*{K} + k]" if tB else "weights[k*OW + j]"
        facts = {"OH": "IW" if tA else "IH"}
        return nest([("i", "OH"), ("j", "OW")], f"float s = 0; for (k = 0; k < {K}; ++k) s += {a}*{b}; out[i*OW + j] = ACT(alpha*s + beta*biases[j]);"), facts
    if c == "InputLayer":
        a, b = scenario.split("->")
        f = {"size": "IC*IH*IW"}
        cf, cl = "(c*IH + h)*IW + w", "(h*IW + w)*IC + c"
        i, o = (cf if a == "channels_first" else cl), (cf if b == "channels_first" else cl)
        return nest([("c", "IC"), ("h", "IH"), ("w", "IW")], f"out[{o}] = nn_input[{i}];"), f
    if c == "MatMul":
        return nest([("c", "C0"), ("i", "H0"), ("j", "W1")], "float s = 0; for (k = 0; k < W0; ++k) s += in0[(c*H0 + i)*W0 + k]*in1[(c*W0 + k)*W1 + j]; out[(c*H0 + i)*W1 + j] = ACT(s);"), {"C1": "C0", "H1": "W0"}
    if c in ("ConstantPad", "EdgePad"):
        return pad(c[:-3].lower())
    if c == "WrapPad" or c == "ReflectPad":
        return None
    if c in REDUCE:
        axs = scenario.split("=")[1] if "=" in scenario else "1,2,3"
        return reduce(c, () if axs == "none" else tuple(int(a) for a in axs.split(",")))
    if c == "Tile":
        return nest([("c", "IC*R1"), ("h", "IH*R2"), ("w", "IW*R3")], "out[(c*(IH*R2) + h)*(IW*R3) + w] = ACT(in0[((c % IC)*IH + (h % IH))*IW + (w % IW)]);"), {}
    if c == "Transpose":
        perm = [int(x) for x in scenario[len("perm=0,"):].split(",")]
        dims = {1: "IC", 2: "IH", 3: "IW"}
        v = {perm[k]: f"i{k}" for k in range(3)}
        od = [dims[p] for p in perm]
        return nest([(f"i{k}", od[k]) for k in range(3)], f"out[(i0*{od[1]} + i1)*{od[2]} + i2] = ACT(in0[({v[1]}*IH + {v[2]})*IW + {v[3]}]);"), {}
    if c == "ActivationLayer":
        return nest([("i", "size")], "out[i] = ACT(in0[i]);"), {}
    if c == "ConstantLayer":
        return nest([("i", "size")], "out[i] = weights[i];"), {}
    return None
