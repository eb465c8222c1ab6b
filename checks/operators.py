"""C01-C03: the C code emitted for every layer computes the layer's operator."""
from sa import identity, opcheck
from sa.repo import Repo
from spec import concrete as S
from . import values as V

GROUPS = {
    "C01": ["ConcatenateDefault", "GatherDefault", "GatherElementsDefault", "TileDefault", "TransposeDefault", "FlattenDefault", "ConstantPadDefault", "EdgePadDefault",
            "ReflectPadDefault", "WrapPadDefault", "InputLayerDefault", "ConstantLayerDefault"],
    "C02": ["Conv2D6loops", "Conv2DStdGemm", "Conv2DIndirectGemm", "Conv2DGemmTarget", "Conv2Ddirect_block", "MaxPooling2DDefault", "AveragePooling2DDefault", "DenseDefault",
            "MatMulDefault", "GemmDefault"],
    "C03": ["AddDefault", "SubtractDefault", "MultiplyDefault", "DivideDefault", "AverageDefault", "MaximumDefault", "MinimumDefault", "BatchNormalizationDefault", "SoftmaxDefault",
            "ReduceSumDefault", "ReduceMeanDefault", "ReduceMaxDefault", "ReduceMinDefault", "ReduceProdDefault", "ActivationLayerDefault"],
}

RULE = ("the C text that generate_inference_code_layer emits for the layer (derived from the Python source by value-graph dataflow and from the template), reduced to one guarded "
        "assignment per output element over the shape symbols, equals the operator's reference loop nest reduced in the same way; a pair of unequal normal forms is reported only with a "
        "witness shape on which the two forms denote different values")


def run(prop):
    def f(chk):
        repo = Repo()
        chk.rule = RULE
        chk.assumptions = ["float arithmetic is taken over the reals (no rounding, overflow or NaN)", "int arithmetic does not overflow",
                           "the input buffers of the layer and the output buffer do not overlap unless the layer copies its input first (decided by C08)"]
        for v in opcheck.check_models(repo, GROUPS[prop]):
            chk.count("layer code variants")
            what = f"{v.cls} [{v.scenario}] {v.cond}".strip()
            if v.status == "holds":
                chk.count("equal normal forms" if v.kind != "identity" else "equal by identity test")
                chk.ok(what)
            elif v.status == "differs":
                fp = identity.fingerprint(v.an.stores, "out", opcheck.POSITIVE, opcheck.NONNEG, opcheck.FLOATS, alias=v.alias)
                chk.bad(f"{v.cls}[{v.scenario}]", f"generated code is not the operator ({what}): {v.detail}"[:1500], v.where, fp=fp)
            else:
                chk.skip(what, f"{v.status} {v.kind} {v.detail}")
        chk.rule = RULE + "; moreover " + V.RULE
        V.extend(chk, *UNROLLED[prop], V._judge_job, 12, 24)
    return f


UNROLLED = {"C01": (S.MOVES, ["pad", "flatten"]), "C02": (S.SUMS, ["windows"]), "C03": (S.ELEMENTS, [])}
CHECKS = {p: run(p) for p in GROUPS}


RULE4 = ("the value graph of forward_path_layer, converted to a shape and an index function over symbolic subscripts (pointwise normal form), equals the operator's reference loop nest reduced to the "
         "same normal form; unequal forms are reported only with a witness shape; and no in-place update in the method reaches an array that shares memory with an input")


def forward(chk):
    from sa import fwdcheck, layers
    repo = Repo()
    chk.rule = RULE4
    chk.assumptions = ["numpy operations have their documented meaning", "float arithmetic is taken over the reals", "slices lie inside the array they are taken from (layer shapes are consistent, C12)"]
    done = set()
    for m in layers.all_models(repo):
        key = f"{m.cls.name}[{m.scenario}]"
        try:
            vs = list(fwdcheck.check_model(m))
            muts = fwdcheck.mutations(m)
        except RecursionError:
            raise
        except Exception as e:
            chk.skip(key, f"{type(e).__name__}: {e}")
            continue
        for loc, fn, x in muts:
            chk.bad(f"mutates-input:{m.cls.name}", f"{m.cls.name}.forward_path_layer updates its input array {x} in place, which other layers may still read", loc, fp=None)
        if not muts:
            chk.ok()
            chk.count("methods without in-place update of an input")
        for v in vs:
            chk.count("reference methods under one configuration")
            what = f"{key} {v.cond}".strip()
            if v.status == "holds":
                chk.count("equal normal forms" if v.kind != "identity" else "equal by identity test")
                chk.ok(what)
            elif v.status == "differs":
                fp = identity.fingerprint(v.impl, "out", opcheck.POSITIVE, opcheck.NONNEG, opcheck.FLOATS)
                chk.bad(key, f"the Python reference is not the operator ({what}): {v.detail}"[:1500], v.fi.loc if hasattr(v.fi, "loc") else "", fp=fp)
            else:
                chk.skip(what, f"{v.status} {v.kind} {v.detail}")
    chk.rule = RULE4 + "; moreover, " + V.RULE + "; " + V.RULE_PY
    V.extend(chk, dict(S.MOVES, **S.SUMS, **S.ELEMENTS), ["pad", "flatten", "windows"], V._reference_job, 6, 48)


CHECKS["C04"] = forward
