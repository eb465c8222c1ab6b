"""C13: the generated program and the reference run compute what the ONNX model computes, end to end."""
from __future__ import annotations

import math
import os

from sa import emit as E
from sa import emitted as ED
from sa import graphs as GR
from sa import onnxsem as OS
from sa import terms as T
from sa import zoo
from sa.cparse import CError
from sa.interp import Raised
from sa.nodes import const, sym

from . import emission as EM
from . import formats as F
from . import project as PJ
from .importer import unsupported


class Run(F.Run):
    """the program from the input of the inference to its prediction, on value numbers; parameters are those of the layers (C11)"""

    def mark(self, t):
        pass

    def stored(self, name, a):
        k = PJ.SYMBOL.match(name)
        for o in self.p.layers if k else ():
            if GR.cint(self.p.I, self.p.st, o, "idx") == int(k.group(3)):
                v = PJ.leaf(self.p.I, self.p.st, o, k.group(1))
                if v is not None and len(v) == a.n:
                    return [T.number(x) for x in v]
        raise GR.Unknown("what " + name + " stands for")

    def token(self, tensor, i):
        return T.leaf(f"x[{i}]") if str(tensor) == "x" else super().token(tensor, i)


def compare(what, got, want, where):
    """('ok', values compared) or the difference"""
    if len(got) != len(want):
        return "bad", [("size", f"{what} has {len(got)} values instead of {len(want)}", where)]
    same = 0
    for k, (g, w) in enumerate(zip(got, want)):
        if g is None:
            return "bad", [("value", f"element {k} of {what} is not set", where)]
        g = T.lift(g)
        if g == w or T.same_ratio(g, w):
            continue
        d = T.differs(g, w, 24)
        if d is not None:
            return "bad", [("value", f"element {k} of {what} is {T.show(g)} instead of {T.show(w)} (e.g. {d[1]:.6g} instead of {d[2]:.6g})", where)]
        same, last = same + 1, (g, w)
    if same:
        return "skip", f"{same} of {len(want)} values of {what} agree at the sample points, in another form" + (f": {T.show(last[0])} / {T.show(last[1])}" if os.environ.get("SA_DEBUG") else "")
    return "ok", len(want)


def reference(I, st, o, n, want, where):
    """the values the reference run writes"""
    fi = I.h(st, o).cls.find("compute_inference")
    if fi is None:
        return "skip", "no compute_inference"
    I.printed = []
    st.heap[o.a[0]].f["test_dataset"] = I.nd(st, (1, n), [sym(f"x[{k}]") for k in range(n)], "f")
    try:
        I.call_fi(fi, [const("out")], {}, st, selfv=o)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        return "bad", [("reference", f"the reference run raises {e.name}", I.raised_where or fi.loc)]
    if not I.printed:
        return "skip", "what the reference run writes"
    return compare("the output of the reference run", [T.number(e) for e in I.printed], want, where)


def emitted(I, st, o, want, where, must=True):
    """the values the generated program computes"""
    try:
        files = E.generate(I, st, o)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        if not must:
            return "ok", 0
        return "bad", [("generator", f"no code is generated ({e.name})", I.raised_where or "")]
    p = ED.Program(I, st, o, files)
    try:
        r = Run(p)
    except CError:
        why = PJ.rejected(p)
        if not why:
            raise
        return "bad", [("does not compile/" + k, "the generated program does not compile: " + t, w) for k, t, w in why]
    if r.m.notes:
        return "skip", "; ".join(b for a, b in r.m.notes)[:200]
    return compare("the prediction of the generated program", r.pred.dep, want, where)


# -------------------------------------------------- ONNX models

def judged(case):
    return EM.guarded(_judged, case)


def _judged(case):
    m = OS.numbered(case.model())
    ins = [k for k in m.inputs if k not in m.inits]
    if len(m.outputs) != 1 or len(ins) != 1 or m.inputs[ins[0]][0] != 1 and len(m.inputs[ins[0]]) == 4:
        return "skip", "inputs and outputs"
    try:
        want = OS.evaluate(m, "x")[m.outputs[0]].vals
    except OS.NoMeaning as e:
        return "skip", "no definition: " + str(e)
    n = math.prod(m.inputs[ins[0]])
    gen = dict(dict(nb_tests=1), **case.gen)
    where = "src/acetone_nnet/generator/neural_network.py"
    try:
        I, st, o = E.load_onnx(EM.REPO, m, make=F.loader, **gen)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        if m.expect == "either" or unsupported(m):
            return "ok", ("refused", 1)
        return "bad", [("refused", f"the model is refused ({e.name})", E.LAST.raised_where or where)]
    r = reference(I, st, o, n, want, where)
    if r[0] != "ok":
        return r
    k = r[1]
    I, st, o = E.load_onnx(EM.REPO, m, make=F.loader, **gen)
    r = emitted(I, st, o, want, where)
    if r[0] != "ok":
        return r
    return "ok", ("accepted", k + r[1])


def cases(tier):
    out = []
    for i in range(0, len(EM.single()), 6 if tier != "thorough" else 1):
        out.append(EM.Case("single", i))
    for s in range(120 if tier != "thorough" else 1000):
        for v in ({}, {"optimization": True}) + (({"versions": {"Conv2D": "std_gemm_nn"}},) if s % 3 == 0 else ()):
            out.append(EM.Case("random", 5000 + s, **v))
    for s in range(150 if tier != "thorough" else 1500):
        for v in ({}, {"optimization": True}):
            out.append(EM.Case("rich", s, **v))
    for i in range(0, len(zoo.pairs()), 2 if tier != "thorough" else 1):
        out.append(EM.Case("pair", i, optimization=True))
    for s in range(12 if tier != "thorough" else 100):
        out.append(EM.Case("double", 6000 + s))
        out.append(EM.Case("hwc", s, gen_data_format="channels_last", versions={"Conv2D": "direct_block"}))
    return out


def c13(chk):
    chk.rule = ("importer, optimiser, implementation choice, allocation and generator interpreted on enumerated ONNX models and options: the values the reference run writes and the values the generated program predicts, as value numbers of the elements of the input, are those the ONNX operator "
                "specification gives the model")
    chk.assumptions += ["float arithmetic is taken over the reals", "parameters are given numbers (the values of the parameters do not change the code)"]
    tier = EM.start(chk)
    cs = cases(tier)
    groups = {}
    for c, (k, v) in zip(cs, EM.run_jobs(judged, cs)):
        chk.count("models")
        if k == "ok":
            chk.ok(str(c))
            chk.count("models " + v[0])
            chk.count("values compared", v[1])
        elif k == "skip":
            chk.skip(str(c), v)
        else:
            for key, w, wh in v:
                groups.setdefault(key, []).append((str(c), w, wh))
    EM.report(chk, groups)


CHECKS = {"C13": c13}
