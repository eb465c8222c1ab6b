"""C20: the generated inference is bounded, re-entrant, and leaves its input alone."""
from __future__ import annotations

from sa import ceffects as CE
from sa import emit as E
from sa import emitted as ED
from sa.interp import Raised

from . import emission as EM
from . import formats as F


def judged(a):
    return EM.guarded(_judged, a)


def _judged(case):
    if isinstance(case, tuple):
        m, gen = case[1:]
        I, st, o = F.built(m, "data/net.nnet", True, **gen)
        files = E.generate(I, st, o)
        p, gen = ED.Program(I, st, o, files), gen
    else:
        p, why = EM.program(EM.REPO, case)
        gen = case.gen
        if p is None:
            return why
    units = [p.parse(n) for n in sorted(p.texts) if n.endswith(".c") and n in ("inference.c", "target.c")]
    heads = [p.parse(n) for n in ("inference.h", "target.h") if n in p.texts]
    u = CE.Unit(units + heads, "inference")
    f = u.fns.get("inference")
    if f is None or len(f.params) != 3:
        return "skip", "no inference function"
    issues, unknown, loops, calls = u.judge({f.params[0], f.params[1]}, output=bool(gen.get("debug_mode")))
    if issues:
        where = EM.where(p, None) if False else ""
        fi = p.I.h(p.st, p.o).cls.find("generate_function_source_file")
        where = f"{fi.loc} {fi.qual}" if fi else where
        return "bad", [(k, t, where) for k, t in issues.items()]
    if unknown:
        return "skip", "; ".join(unknown)[:200]
    return "ok", (len(u.reached), loops, calls)


def title(c):
    return f"{c[1].title} normalised" if isinstance(c, tuple) else str(c)


def c20(chk):
    chk.rule = ("syntax of every emitted inference: each loop has a counter which moves towards a bound that stays as it is in the loop and does not come from tensors; no recursion, no heap, no variable length, no static state; "
                "only mathematical functions are called; what is assigned, directly or through pointers and helper functions, lies in the context, in the prediction, or is local")
    chk.assumptions += ["the context, the prediction and the input of a call do not overlap"]
    tier = EM.start(chk)
    cs = EM.cases(tier, every=5, nets=60) + EM.special(tier)
    cs += [EM.Case("random", s, debug_mode="onnx") for s in range(4)]
    cs += [("nnet", m, {}) for m in list(F.nnets("quick"))[:6]]
    groups = {}
    for c, (k, v) in zip(cs, EM.run_jobs(judged, cs)):
        chk.count("networks")
        if k == "ok":
            chk.ok(title(c))
            for n, x in zip(("functions", "loops", "calls"), v):
                chk.count(n, x)
        elif k in ("skip", "refused"):
            chk.skip(title(c), v)
        else:
            for key, what, wh in v:
                groups.setdefault(key, []).append((title(c), what, wh))
    EM.report(chk, groups)


CHECKS = {"C20": c20}
