"""Renders the C code of every layer implementation under finite configuration scenarios."""
from __future__ import annotations

from .interp import HList, HObj, Interp, State
from .mustache import Rendering, TemplateError, Valuation, expand, partitions
from .nodes import BOT, NONE, N, const, is_const, mk, phi, show, sym, walk

S = sym
PADS = ["n0", "pad_front", "pad_top", "pad_left", "n1", "pad_back", "pad_bottom", "pad_right"]


def shape(*names):
    return ["1"] + list(names)


IN = ["IN", "IC", "IH", "IW"]
OUT = ["ON", "OC", "OH", "OW"]


def L(*xs):
    return list(xs)


def scenarios(repo):
    """class name -> [(scenario name, ctor args, number of inputs)]"""
    sc = {}

    def add(cls, name, n=1, **kw):
        sc.setdefault(cls, []).append((name, kw, n))

    act = "$act"
    base = dict(original_name=const("layer"), idx=S("idx"), size=S("size"), activation_function=act, version=const("default"))
    for c in ("Add", "Subtract", "Multiply", "Divide", "Average", "Maximum", "Minimum"):
        A = ["N0", "C0", "H0", "W0"]
        B = ["N1", "C1", "H1", "W1"]
        K = ["NK", "CK", "HK", "WK"]
        D = ["N2", "C2", "H2", "W2"]
        add(c + "Default", "two-inputs", 2, **base, input_shapes=[A, B], output_shape=OUT, constant=NONE)
        add(c + "Default", "three-inputs", 3, **base, input_shapes=[A, B, D], output_shape=OUT, constant=NONE)
        add(c + "Default", "input+constant", 1, **base, input_shapes=[A, K], output_shape=OUT, constant=S("K"))
    for ver in ("default", "channels_last"):
        for c in ("MaxPooling2DDefault", "AveragePooling2DDefault"):
            kw = dict(base)
            kw["version"] = const(ver)
            add(c, "explicit-padding/" + ver, 1, **kw, padding=["pad_top", "pad_left", "pad_bottom", "pad_right"], strides=S("stride"),
                pool_size=S("pool"), input_shape=IN, output_shape=OUT)
    add("BatchNormalizationDefault", "default", 1, **base, input_shape=IN, epsilon=S("eps"), scale=S("scale"), biases=S("biases"), mean=S("mean"), var=S("var"))
    for ax in (1, 2, 3):
        add("ConcatenateDefault", f"axis={ax}", 3, **base, axis=const(ax), input_shapes=[["N0", "C0", "H0", "W0"], ["N1", "C1", "H1", "W1"], ["N2", "C2", "H2", "W2"]], output_shape=OUT)
        add("GatherDefault", f"axis={ax}", 1, **base, axis=const(ax), indices=S("indices"), input_shape=IN, output_shape=OUT)
        add("GatherElementsDefault", f"axis={ax}", 1, **base, axis=const(ax), indices=S("indices"), input_shape=IN, output_shape=OUT)
    kws = {k: v for k, v in base.items() if k != "activation_function"}
    add("SoftmaxDefault", "flat", 1, **kws, output_shape=["1", "OW"], axis=NONE)
    for ax in (1, 2, 3):
        add("SoftmaxDefault", f"axis={ax}", 1, **kws, output_shape=OUT, axis=const(ax))
    conv = dict(base, padding=["pad_top", "pad_left", "pad_bottom", "pad_right"], strides=S("stride"), kernel_h=S("KH"), kernel_w=S("KW"),
                dilation_rate=S("dil"), nb_filters=S("OC"), input_shape=IN, output_shape=OUT, weights=S("weights"), biases=S("biases"))
    for c, alg, vers in (("Conv2D6loops", "6loops", ["6loops"]), ("Conv2DStdGemm", "std_gemm", ["std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt"]),
                   ("Conv2DIndirectGemm", "indirect_gemm", ["indirect_gemm_nn", "indirect_gemm_nt", "indirect_gemm_tn", "indirect_gemm_tt"]),
                   ("Conv2DGemmTarget", "gemm_target", ["gemm_target"]), ("Conv2Ddirect_block", "direct_block", ["direct_block"])):
        for v in vers:
            grp = {"group": const(1)}
            add(c, v, 1, **{k: x for k, x in conv.items() if k != "version"}, conv_algorithm=const(v), **grp)
    add("DenseDefault", "default", 1, **base, weights=S("weights"), biases=S("biases"))
    add("FlattenDefault", "channels_first", 1, **kws, input_shape=IN, data_format=const("channels_first"))
    add("FlattenDefault", "channels_last", 1, **kws, input_shape=IN, data_format=const("channels_last"))
    for tA in (0, 1):
        for tB in (0, 1):
            add("GemmDefault", f"transA={tA},transB={tB}", 1, **base, alpha=S("alpha"), beta=S("beta"), transA=const(tA), transB=const(tB), weights=S("weights"), bias=S("bias"), input_shape=IN, output_shape=OUT)
    for a, b in (("channels_first", "channels_first"), ("channels_last", "channels_first"), ("channels_first", "channels_last"), ("channels_last", "channels_last")):
        add("InputLayerDefault", f"{a}->{b}", 0, **kws, input_shape=IN, data_format=const(a), gen_data_format=const(b))
    add("MatMulDefault", "default", 2, **base, input_shapes=[["N0", "C0", "H0", "W0"], ["N1", "C1", "H1", "W1"]])
    for c, m in (("ConstantPad", "constant"), ("EdgePad", "edge"), ("ReflectPad", "reflect"), ("WrapPad", "wrap")):
        add(c + "Default", "default", 1, **base, pads=PADS, constant_value=S("fill"), axes=S("axes"), input_shape=IN)
    for c in ("ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd"):
        for axs in ((), (1,), (2,), (3,), (1, 2), (1, 3), (2, 3), (1, 2, 3), (0,), (0, 2), (0, 1, 2, 3)):
            add(c + "Default", "axes=" + (",".join(map(str, axs)) or "none"), 1, **base, axis=mk("tuple", *[const(a) for a in axs]), keepdims=const(True),
                noop_with_empty_axes=const(1 if not axs else 0), input_shape=IN)
        add(c + "Default", "all", 1, **base, axis=mk("tuple"), keepdims=const(True), noop_with_empty_axes=const(0), input_shape=IN)
    rs = dict(base, input_shape=IN, axes=S("axes"), exclude_outside=const(0), keep_aspect_ratio_policy=const("stretch"), boolean_resize=const(True),
              target_size=OUT, roi=["r0", "r1", "r_top", "r_left", "r4", "r5", "r_bottom", "r_right"], extrapolation_value=S("extrapolation"), cubic_coeff_a=S("cubic_a"))
    modes = ["half_pixel", "half_pixel_symmetric", "pytorch_half_pixel", "align_corners", "asymmetric", "tf_crop_and_resize"]
    for m in modes:
        add("ResizeLinearDefault", m, 1, **rs, coordinate_transformation_mode=const(m), nearest_mode=const("floor"))
        add("ResizeCubicDefault", m, 1, **rs, coordinate_transformation_mode=const(m), nearest_mode=const("floor"))
        for nm in ("round_prefer_floor", "round_prefer_ceil", "floor", "ceil"):
            add("ResizeNearestDefault", f"{m}/{nm}", 1, **rs, coordinate_transformation_mode=const(m), nearest_mode=const(nm))
    add("TileDefault", "default", 1, **base, repeats=["R0", "R1", "R2", "R3"], input_shape=IN)
    import itertools
    for perm in itertools.permutations((1, 2, 3)):
        add("TransposeDefault", "perm=0," + ",".join(map(str, perm)), 1, **base, perm=L(const(0), *[const(p) for p in perm]), input_shape=IN)
    add("ActivationLayerDefault", "default", 1, **base)
    add("ConstantLayerDefault", "default", 0, original_name=const("layer"), idx=S("idx"), size=S("size"), version=const("default"), constant=S("K"))
    return sc


OPAQUE = {"write_activation_str", "as_lambda", "list_implementations", "compute"}


def build(interp, st, v):
    if isinstance(v, list):
        return interp.new_list(st, [build(interp, st, x) for x in v])
    if isinstance(v, str):
        if v == "$act":
            c = interp.repo.classes.get("ActivationFunctions")
            return interp.new(st, HObj(c, {}, S("act")))
        if v.isdigit():
            return const(int(v))
        return S(v)
    return v


def is_simple(v, depth=0):
    """No phi below: safe to keep as is."""
    return not any(x.op == "phi" for x in walk(v))


class LayerModel:
    """One layer class in one scenario: abstract instance + rendered code."""

    def __init__(self, repo, cls, name, kw, nin, opaque=(), abstract_fields=True):
        self.repo, self.cls, self.scenario, self.nin = repo, cls, name, nin
        self.I = Interp(repo, opaque=OPAQUE | set(opaque))
        self.I.typed = True
        st = self.st = State()
        init = cls.find("__init__")
        args = {k: build(self.I, st, v) for k, v in kw.items()}
        # only pass what the constructor chain can accept
        self.obj = self.I.instantiate(cls, [], {}, st, None, self._open(args), label="self")
        h = st.heap[self.obj.a[0]]
        f = dict(h.f)
        self.defs = {}
        prev = []
        for i in range(nin):
            p = self.I.new(st, HObj(repo.classes.get("Layer"), {}, S(f"prev{i}")))
            prev.append(p)
        f["previous_layer"] = self.I.new_list(st, prev)
        if not cls.name.startswith(("Constant", "Input", "Flatten")):
            f["activation_function"] = self.I.new(st, HObj(repo.classes.get("ActivationFunctions"), {}, S("act")))  # copied by versioning()
        if abstract_fields:
            for k, v in list(f.items()):
                if k.startswith("pad_") or k in ("pad_left", "pad_right", "pad_top", "pad_bottom"):
                    fv = self.I.freeze(st, v)
                    if not is_simple(fv):
                        self.defs[k] = fv
                        f[k] = S("self." + k)
        st.heap[self.obj.a[0]] = HObj(h.cls, f, h.base)

    def _open(self, args):
        d = self.I.new_dict(self.st, args, S("arg"))
        return d

    def field(self, name):
        return self.I.freeze(self.st, self.I.attr(self.obj, name, self.st))

    def call(self, meth, *args):
        m = self.cls.find(meth)
        return self.I.call_fi(m, list(args), {}, self.st, selfv=self.obj)

    def code(self):
        v = self.call("generate_inference_code_layer")
        return self.I.freeze(self.st, v)

    def renderings(self, limit=200):
        v = self.code()
        out = []

        def f(val):
            w = v
            while w.op == "phi":
                w = w.a[1] if val.truth(w.a[0]) else w.a[2]
            if w.op == "bottom":
                return "raises"
            try:
                return render_any(w, val)
            except TemplateError as e:
                return e
        return partitions(f, limit=limit)


def render_any(w, val):
    if w.op == "rendered":
        return expand(w, val)
    r = Rendering(val)
    r.out.append(r.string(val.resolve(w)))
    return r


def all_models(repo, names=None):
    for cname, lst in scenarios(repo).items():
        cls = repo.classes.get(cname)
        if cls is None or (names and cname not in names):
            continue
        for name, kw, n in lst:
            yield LayerModel(repo, cls, name, kw, n)
