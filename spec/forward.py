"""Reference of the Python side: the operator definitions of spec/operators.py, except where the Python
reference works on another representation of the same tensors (input order, window positions past the padding)."""
from . import operators
from .operators import nest


def spec(cls, scenario, cs):
    c = cls[:-len("Default")] if cls.endswith("Default") else cls
    if c == "InputLayer":
        return None
    if c == "Flatten":
        if scenario == "channels_last":
            return nest([("h", "IH"), ("w", "IW"), ("c", "IC")], "out[(h*IW + w)*IC + c] = in0[(c*IH + h)*IW + w];"), {}
        return nest([("c", "IC"), ("h", "IH"), ("w", "IW")], "out[(c*IH + h)*IW + w] = in0[(c*IH + h)*IW + w];"), {}
    if c in ("MaxPooling2D", "AveragePooling2D"):
        if scenario.endswith("channels_last"):
            return None
        return operators.spec(cls, "explicit-padding/default", cs)
    if c in ("ReflectPad", "WrapPad"):
        pre = ""
        for v, n, a in (("c", "IC", "pad_front"), ("h", "IH", "pad_top"), ("w", "IW", "pad_left")):
            q = f"({v} - {a})"
            pre += (f"int x{v} = {q} < 0 ? -{q} : ({q} >= {n} ? 2*({n} - 1) - {q} : {q}); " if c == "ReflectPad" else
                    f"int x{v} = {q} < 0 ? {q} + {n} : ({q} >= {n} ? {q} - {n} : {q}); ")
        return nest([("c", "IC + pad_front + pad_back"), ("h", "IH + pad_top + pad_bottom"), ("w", "IW + pad_left + pad_right")],
                    pre + "out[(c*(IH + pad_top + pad_bottom) + h)*(IW + pad_left + pad_right) + w] = ACT(in0[(xc*IH + xh)*IW + xw]);"), {}
    if c in ("Conv2Ddirect_block",):
        return operators.conv()
    sp = operators.spec(cls, scenario, cs)
    if sp and scenario == "input+constant" and cs.get("no constant"):
        return sp[0], {**sp[1], "OC": "C0", "OH": "H0", "OW": "W0"}
    if sp and scenario == "axes=none":
        return sp[0], {**sp[1], "size": "IC*IH*IW"}
    return sp
