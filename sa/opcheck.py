"""Compares the generated C of every layer implementation with its operator definition.

For each layer class and configuration scenario (sa/layers.py) the C text that `generate_inference_code_layer`
would emit is derived from the Python source and the templates (value graph + template expansion), reduced to
its net effect on the output buffer (sa/canal.py) and compared with the net effect of the reference loop nest
in spec/operators.py, which goes through the very same reduction.
"""
from __future__ import annotations

import re

from . import canal as A
from . import cparse as C
from . import identity as ident
from . import layers as LY
from . import mustache as M
from . import poly as P
from .nodes import N, const, rebuild, show

TYPES = {"f": "int", "i": "int", "j": "int", "k": "int", "p": "int", "h": "int", "w": "int", "sum": "float", "max": "float", "dotproduct": "float",
         "count": "int", "x": "float", "y": "float", "x0": "int", "y0": "int", "x1": "int", "y1": "int", "reduced": "float", "position": "int",
         "f11": "float", "f12": "float", "f21": "float", "f22": "float", "a": "float", "f_1": "float", "f0": "float", "f1": "float", "f2": "float",
         "s": "float", "col_index": "int", "indices": "int"}
FLOATS = {"alpha", "beta", "eps", "fill", "extrapolation", "cubic_a", "K", "constant", "min_value", "max_value", "r_top", "r_left", "r_bottom", "r_right"}
POSITIVE = {"IC", "IH", "IW", "OC", "OH", "OW", "KH", "KW", "stride", "pool", "dil", "size", "R1", "R2", "R3", "C0", "H0", "W0", "C1", "H1", "W1", "C2", "H2",
            "W2", "CK", "HK", "WK", "NIDX"}
NONNEG = {"pad_top", "pad_left", "pad_bottom", "pad_right", "pad_front", "pad_back"}

ROLE = [
    (re.compile(r"^output_⟨self\.path⟩$"), lambda m: "out"),
    (re.compile(r"^⟨prev(\d+)\.output_str⟩$"), lambda m: "in" + m.group(1)),
    (re.compile(r"^(weights|biases|bias|mean|var|scale|constant|ppatches)_.*$"), lambda m: "biases" if m.group(1) == "bias" else m.group(1)),
    (re.compile(r"^indice_.*$"), lambda m: "indices"),
]


def role(name):
    for r, f in ROLE:
        m = r.match(name)
        if m:
            return f(m)
    return name


def eval_c(an, e):
    prog = C.parse(f"__r[0] = {e};", {})
    a = A.CAn({"__r": "int"}, FLOATS)
    a.run(prog)
    s = a.stores["__r"][0]
    return s.value


def relevant(cls, scenario, val):
    """False for renderings that a well formed instance of the scenario cannot take"""
    for c, v in val.items:
        if c.op == "cmp" and c.a[0] == "in" and c.a[1].op == "sym" and c.a[1].a[0] == "size":
            if v != (scenario == "flat"):
                return False
        if c.op == "truthy" and show(c.a[0]) == "size" and not v:
            return False
    where = {c.a[1].a[0]: v for c, v in val.items if c.op == "cmp" and c.a[0] == "in" and c.a[1].op == "const" and show(c.a[2]).endswith(".output_str")}
    if len(where) == 2 and len(set(where.values())) == 1:
        return False        # an output_str names either an output_<path> or a cst_<k> buffer
    return True


def decided(v, val, top=True):
    """conditions used as numbers (`n + (x is not None)`) have the value the rendering assumes"""
    if isinstance(v, tuple):
        return tuple(decided(x, val, False) for x in v)
    if not isinstance(v, N):
        return v
    if v.op in ("cmp", "not", "bool", "truthy") and not top:
        k = val.get(v)
        if k is not None:
            return const(int(k))
    if not any(isinstance(x, (N, tuple)) for x in v.a):
        return v
    a = tuple(decided(x, val, False) for x in v.a)
    return v if a == v.a else rebuild(v.op, a)


def consts_of(val):
    out = {}
    for c, v in val.items:
        if v and c.op == "cmp" and c.a[0] == "==" and c.a[1].op == "sym" and c.a[2].op == "const" and type(c.a[2].a[0]) in (int, float):
            out[c.a[1].a[0]] = c.a[2].a[0]
        if c.op == "cmp" and c.a[0] == "is" and c.a[2].op == "const" and c.a[2].a[0] is None and v:
            out["no constant"] = True
    return out


def alias_of(val):
    """the GEMM convolutions copy their own output buffer when the input is an `output_` buffer: it is the same one"""
    for c, v in val.items:
        if v and c.op == "cmp" and c.a[0] == "in" and c.a[1].op == "const" and c.a[1].a[0] == "output" and show(c.a[2]) == "prev0.output_str":
            return {"out": "in0"}
    return None


class Verdict:
    def __init__(self, cls, scenario, cond, status, detail="", kind="", file="", origin=""):
        self.cls, self.scenario, self.cond, self.status, self.detail, self.kind = cls, scenario, cond, status, detail, kind
        self.file, self.origin = file, origin

    def __repr__(self):
        return f"{self.cls} [{self.scenario}] {self.cond}: {self.status} {self.kind} {self.detail[:300]}"


def summarise(parsed, symv):
    an = A.CAn(dict(TYPES), FLOATS, rename=role, symv=symv)
    an.run(parsed)
    return an, A.Summary(an, positive=POSITIVE, nonneg=NONNEG)


def compare(spec, impl, sprog, iprog, alias=None):
    """(status, kind, detail) between the reference and the implementation effects on `out`"""
    if not impl:
        return "differs", "missing", "no store to the output buffer"
    s, t = spec[-1], impl[-1]
    if alias:
        f = P.Subst({}, {a: (lambda A, i, ty, b=b: P.read(b, i, ty)) for a, b in alias.items()})
        t = A.Store(t.array, t.dom, f(t.idx), f(t.value), t.line)
    d = A.diff_stores(s, t)
    if d is None and not s.opaque:
        return "holds", "", ""
    if any(x.opaque for x in spec):
        return "undecided", "opaque", "reference not reduced"
    r, w = ident.compare(sprog, iprog, "out", POSITIVE, NONNEG, FLOATS, alias=alias)
    if r == "same":
        return "holds", "identity", ""
    if r == "unknown":
        if any(x.opaque for x in impl):
            w = "store not reduced: " + repr([x for x in impl if x.opaque][0])[:200]
        return "undecided", "identity", w
    return "differs", d[0], d[1] + " (" + w + ")"


def check_models(repo, names=None, want=None):
    from spec import operators
    for m in LY.all_models(repo, names):
        for val, x in m.renderings():
            cond = val.show()
            if x == "raises" or not relevant(m.cls.name, m.scenario, val):
                continue
            if not isinstance(x, M.Rendering):
                yield Verdict(m.cls.name, m.scenario, cond, "undecided", str(x), "template")
                continue
            try:
                pr = C.parse(x.text, [decided(h, val) for h in x.holes])
            except C.CError as e:
                yield Verdict(m.cls.name, m.scenario, cond, "malformed", str(e), "syntax")
                continue
            cs = consts_of(val)
            sp = operators.spec(m.cls.name, m.scenario, cs)
            if sp is None:
                yield Verdict(m.cls.name, m.scenario, cond, "nospec")
                continue
            text, facts = sp
            symv = {k: eval_c(None, e) for k, e in facts.items()}
            for k, v in cs.items():
                if k != "no constant":
                    symv[k] = P.const(v)
            symv["PREV0"] = P.sym("prev0.size")
            try:
                sa, sm = summarise(C.parse(re.sub(r"\bACT\b", "__ACT__", text), {}), symv)
                sst = sm.final("out")
                an, im = summarise(pr, symv)
                ist = im.final("out")
            except (A.Unsupported, P.TooBig) as e:
                yield Verdict(m.cls.name, m.scenario, cond, "undecided", repr(e), "unsupported")
                continue
            al = alias_of(val)
            st, kind, det = compare(sst, ist, sa.stores, an.stores, al)
            v = Verdict(m.cls.name, m.scenario, cond, st, det, kind)
            v.alias = al
            g = m.cls.find("generate_inference_code_layer")
            v.where = f"{g.module.path}:{g.node.lineno} {g.qual}" if hasattr(g, "qual") else f"{m.cls.module.path} {m.cls.name}.generate_inference_code_layer"
            v.an, v.impl, v.spec = an, ist, sst
            yield v
