"""Compares the Python reference (`forward_path_layer`) of every layer class with the operator definition.

The value graph of the method is converted to a pointwise normal form (sa/pyarr.py) and compared with the reference
loop nest of spec/operators.py - the same reference the generated C is compared with.
"""
from __future__ import annotations

import re

from . import canal as A
from . import cparse as C
from . import identity as ident
from . import layers as LY
from . import mustache as M
from . import opcheck as OC
from . import poly as P
from . import pyarr as PA
from .nodes import N, const as nconst, show, sym as nsym
from .poly import add, const, mul, sym

ONES = {"IN", "ON", "N0", "N1", "N2", "NK", "R0"}


def shape(*names):
    return [const(1) if n in ONES else sym(n) for n in names]


def env_for(m):
    """arrays and numbers the reference is about"""
    c, s = m.cls.name, m.scenario
    e = {n: const(1) for n in ONES}
    f = lambda a, *sh: PA.base(a, shape(*sh))
    if s in ("two-inputs", "three-inputs") or c.startswith("Concatenate"):
        for k in range(3):
            e[f"x{k}"] = f(f"in{k}", f"C{k}", f"H{k}", f"W{k}")
    elif s == "input+constant":
        e["x"] = f("in0", "C0", "H0", "W0")
        e["K"] = f("constant", "NK", "CK", "HK", "WK")
    elif c.startswith("MatMul"):
        e["x0"] = f("in0", "N0", "C0", "H0", "W0")
        e["x1"] = f("in1", "N1", "C1", "H1", "W1")
    elif c.startswith("Dense"):
        e["x"] = PA.base("in0", [sym("prev0.size")])
        e["weights"] = PA.base("weights", [sym("prev0.size"), sym("size")])
        e["biases"] = f("biases", "size")
    elif c.startswith("Gemm"):
        e["x"] = f("in0", "IH", "IW")
        k = "IH" if "transA=1" in s else "IW"
        e["weights"] = PA.base("weights", shape("OW", k) if "transB=1" in s else shape(k, "OW"))
        e["bias"] = e["biases"] = f("biases", "OW")
    elif c.startswith("ActivationLayer") or (c.startswith("Softmax") and s == "flat"):
        e["x"] = f("in0", "size")
    elif c.startswith("Softmax"):
        e["x"] = f("in0", "OC", "OH", "OW")
    elif c.startswith("ConstantLayer"):
        e["K"] = f("weights", "size")
    elif c.startswith("InputLayer"):
        e["x"] = PA.base("nn_input", shape("IC", "IH", "IW"))
    else:
        e["x"] = f("in0", "IC", "IH", "IW")
    if c.startswith("Conv2D"):
        e["weights"] = f("weights", "OC", "IC", "KH", "KW")
        e["biases"] = f("biases", "OC")
    if c.startswith("BatchNorm"):
        for k in ("scale", "biases", "mean", "var"):
            e[k] = f(k, "IC")
    if c.startswith("GatherElements"):
        e["indices"] = PA.base("indices", shape("IN", "OC", "OH", "OW"), "int")
    elif c.startswith("Gather"):
        e["indices"] = PA.base("indices", shape("NIDX"), "int")
    return e


def spec_text(m, cs):
    from spec import forward
    return forward.spec(m.cls.name, m.scenario, cs)


def forward_graph(m):
    fi = m.cls.find("forward_path_layer")
    if m.nin <= 1:
        args = [nsym("x")]
    else:
        args = [m.I.new_list(m.st, [nsym(f"x{i}") for i in range(m.nin)])]
    v = m.call("forward_path_layer", *args)
    return fi, m.I.freeze(m.st, v)


def out_store(x, outsh):
    """result array -> the store `out[lin] = value`"""
    if not isinstance(x, PA.Arr):
        raise PA.Cannot("scalar result")
    sh = list(x.shape)
    if len(sh) > 3 and all(PA.one(s) for s in sh[:len(sh) - 3]):
        y = x
        sh = sh[len(x.shape) - 3:]
        k = len(x.shape) - 3
        x = PA.Arr(sh, lambda i: y.get([const(0)] * k + list(i)))
    # a broadcast dimension is the output dimension in the same place
    if outsh is not None:
        o = outsh[len(outsh) - len(sh):]
        sh = [b if "bdim" in a.k else a for a, b in zip(sh, o)]
    names = [P.fresh("o") for _ in sh]
    idx = [sym(n) for n in names]
    z = {n: const(0) for n, s in zip(names, sh) if PA.one(s)}
    v = x.get(idx)
    i = PA.lin(idx, sh)
    if z:
        f = P.Subst(z)
        v, i = f(v), f(i)
    dom = [(n, const(0), s) for n, s in zip(names, sh) if n not in z]
    return A.Store("out", dom, i, P.as_float(v))


def canon(s):
    class Can:
        stores = {}
    sm = A.Summary.__new__(A.Summary)
    sm.positive, sm.nonneg = OC.POSITIVE, OC.NONNEG
    return A.Summary.canon(sm, s)


class Verdict:
    def __init__(self, m, cond, status, detail="", kind="", fi=None, impl=None):
        self.cls, self.scenario, self.cond, self.status, self.detail, self.kind, self.fi, self.impl = m.cls, m.scenario, cond, status, detail, kind, fi, impl


FRESH = {"copy", "array", "zeros", "ones", "empty", "full", "astype", "flatten"}
VIEW = {"reshape", "transpose", "ravel", "squeeze", "view", "swapaxes", "moveaxis", "expand_dims", "asarray", "atleast_1d"}


def view_of_input(v, inputs):
    """the input array that v shares its memory with, or None"""
    while isinstance(v, N):
        if v in inputs:
            return v
        if v.op == "phi":
            return view_of_input(v.a[1], inputs) or view_of_input(v.a[2], inputs)
        if v.op == "attr" and v.a[1] == "T":
            v = v.a[0]
        elif v.op == "item":
            k = v.a[1]
            ks = k.a if k.op == "tuple" else (k,)
            if len(ks) >= 3 and not any(q.op == "slice" for q in ks):
                return None        # an element
            if all(q.op in ("sym", "top") for q in ks):
                return None
            v = v.a[0]
        elif v.op == "call":
            f = v.a[0]
            if isinstance(f, N) and f.op == "attr" and f.a[1] in VIEW:
                v = f.a[0]
            elif isinstance(f, str) and f.startswith("numpy.") and f.split(".")[1] in VIEW and v.a[1]:
                v = v.a[1][0]
            else:
                return None
        else:
            return None
    return None


def mutations(m):
    """in-place updates of the arrays handed to forward_path_layer: (location, input)"""
    inputs = {nsym("x")} | {nsym(f"x{i}") for i in range(4)}
    out = []
    for e in m.I.events:
        if e.kind not in ("augassign", "setitem"):
            continue
        v = e.value if e.kind == "augassign" else e.target
        w = view_of_input(m.I.freeze_small(m.st, v), inputs)
        if w is not None:
            out.append((e.loc, e.func if hasattr(e, "func") else "", show(w)))
    return out


def check_model(m):
    fi, g = forward_graph(m)

    def run(val):
        env = env_for(m)
        fw = PA.Fwd(env, val, floats=OC.FLOATS)
        try:
            return fw.value(g)
        except (PA.Cannot, P.TooBig, ZeroDivisionError, KeyError, IndexError, TypeError) as e:
            return e
    for val, x in M.partitions(run, limit=60):
        cond = val.show()
        if not OC.relevant(m.cls.name, m.scenario, val):
            continue
        cs = OC.consts_of(val)
        sp = spec_text(m, cs)
        if sp is None:
            yield Verdict(m, cond, "nospec", fi=fi)
            continue
        if isinstance(x, Exception):
            yield Verdict(m, cond, "undecided", repr(x), fi=fi)
            continue
        text, facts = sp
        symv = {k: OC.eval_c(None, e) for k, e in facts.items()}
        for k, v in cs.items():
            if k != "no constant":
                symv[k] = P.const(v)
        symv["PREV0"] = P.sym("prev0.size")
        symv["builtins.len(indices.flatten())"] = sym("NIDX")
        sub = P.Subst({k: v for k, v in symv.items()})
        try:
            sa, sm = OC.summarise(C.parse(re.sub(r"\bACT\b", "__ACT__", text), {}), symv)
            sst = sm.final("out")
            st = out_store(x, None if m.scenario == "flat" else shape("ON", "OC", "OH", "OW"))
            st = A.Store("out", [(n, sub(lo), sub(hi)) for n, lo, hi in st.dom], sub(st.idx), sub(st.value))
            im = canon(st)
        except (PA.Cannot, A.Unsupported, P.TooBig, ZeroDivisionError, TypeError, IndexError) as e:
            yield Verdict(m, cond, "undecided", repr(e), fi=fi)
            continue
        status, kind, det = OC.compare(sst, [im], sa.stores, {"out": [im]}, None)
        yield Verdict(m, cond, status, det, kind, fi, {"out": [im]})


def same_array(node, env, outsh, text, consts=None):
    """(status, detail): does the array denoted by `node` (over the arrays `env`) equal what the C loop nest `text` stores in out?"""
    from .mustache import Valuation
    res = []

    def run(val):
        try:
            x = PA.Fwd(dict(env), val, floats=OC.FLOATS).value(node)
            st = out_store(x, outsh) if isinstance(x, PA.Arr) else A.Store("out", [], const(0), P.as_float(x))
            return canon(st)
        except (PA.Cannot, P.TooBig, ZeroDivisionError, KeyError, IndexError, TypeError, AttributeError) as e:
            return e
    for val, im in M.partitions(run, limit=16):
        if isinstance(im, Exception):
            res.append(("undecided", repr(im)[:200]))
            continue
        symv = {k: const(v) for k, v in (consts or {}).items()}
        try:
            sa, sm = OC.summarise(C.parse(text, {}), symv)
            status, kind, det = OC.compare(sm.final("out"), [im], sa.stores, {"out": [im]}, None)
        except (PA.Cannot, A.Unsupported, P.TooBig, ZeroDivisionError, TypeError, IndexError) as e:
            status, det = "undecided", repr(e)[:200]
        res.append((status, det))
    for w in ("differs", "undecided"):
        for r in res:
            if r[0] == w:
                return r
    return res[0] if res else ("undecided", "no case")
