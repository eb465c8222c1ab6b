"""Properties of the emitted program as a whole: memory accesses, buffers."""
from __future__ import annotations

import multiprocessing
import os
import sys

from sa import cabs
from sa import cparse
from sa import emit as E
from sa import emitted as ED
from sa import graphs as GR
from sa import zoo
from sa.interp import Raised
from sa.mustache import NeedSplit, TemplateError
from sa.ndarr import Imprecise
from sa.report import load_known
from sa.repo import Repo

from sa.terms import TooLarge  # noqa: E402

UNKNOWN = (cabs.Unsupported, Imprecise, GR.Unknown, NeedSplit, TemplateError, RecursionError, KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError, NotImplementedError, TooLarge)


class Case:
    """a network and the options of the generator"""

    def __init__(self, kind, ref, **gen):
        self.kind, self.ref, self.gen = kind, ref, gen

    def model(self):
        if self.kind == "random":
            return zoo.random_net(self.ref)
        if self.kind == "pair":
            return zoo.pairs()[self.ref]
        if self.kind == "rich":
            return zoo.rich_net(self.ref)
        if self.kind == "double":
            return zoo.double_net(self.ref)
        if self.kind == "layers":
            return zoo.LAYERED[self.ref]()
        if self.kind == "hwc":
            return zoo.hwc_net(self.ref)
        if self.kind == "net":
            return self.ref
        return single()[self.ref]

    def __str__(self):
        m = self.model()
        return f"{getattr(m, 'title', m)}" + (" with " + ", ".join(f"{k}={v}" for k, v in self.gen.items()) if self.gen else "")

    def generator(self, repo, private=False, **more):
        m = self.model()
        gen = dict(dict(nb_tests=1), **dict(self.gen, **more))
        if isinstance(m, E.Net):
            return E.load(repo, m, private, **gen)
        return E.load_onnx(repo, m, private, **gen)


_single = None


def single():
    """the single-operator models of the importer check that the importer has to accept"""
    global _single
    if _single is None:
        from .importer import FAMILIES, unsupported
        _single = []
        for f in FAMILIES:
            for m in f("quick"):
                if m.expect != "refused" and len([x for x in m.inputs if x not in m.inits]) == 1:
                    _single.append(m)
    return _single


def cases(tier, every=8, nets=160):
    out = []
    for i in range(0, len(single()), every if tier != "thorough" else 1):
        out.append(Case("single", i))
    for s in range(nets if tier != "thorough" else 10 * nets):
        g = {}
        if s % 3 == 1:
            g["versions"] = {"Conv2D": "std_gemm_nn"}
        if s % 2:
            g["optimization"] = True
        out.append(Case("random", s, **g))
    for k in zoo.LAYERED:
        out.append(Case("layers", k))
        out.append(Case("layers", k, optimization=True))
    for s in range(24 if tier != "thorough" else 200):
        out.append(Case("hwc", s, gen_data_format="channels_last", versions={"Conv2D": "direct_block"}))
    return out


def special(tier):
    """networks around layers with windows, padding and resizing"""
    out = []
    for n, v, lay in zoo.conv_nets(tier):
        if v.startswith("indirect"):
            continue        # constant tables of addresses: not modelled
        out.append(Case("net", n, versions={"Conv2D": v}, **({"gen_data_format": lay} if lay else {})))
    return out + [Case("net", n) for f in (zoo.pool_nets, zoo.pad_nets, zoo.resize_nets) for n in f(tier)]


def program(repo, case, mark=True, private=False, **more):
    """(program, None) or (None, why there is none)"""
    try:
        I, st, o = case.generator(repo, private, **more)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return None, ("skip", e.name)
        E.LAST.refused_at = getattr(e, "where", None)
        return None, ("refused", e.name)
    I.mark = mark
    try:
        files = E.generate(I, st, o)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return None, ("skip", e.name)
        E.LAST.refused_at = getattr(e, "where", None)
        return None, ("refused", "while generating: " + e.name)
    return ED.Program(I, st, o, files), None


def run_jobs(fn, jobs, chunk=4):
    n = max(1, min(8, os.cpu_count() or 1))
    single()
    sys.setrecursionlimit(20000)
    with multiprocessing.get_context("fork").Pool(n) as pool:
        yield from pool.imap(fn, jobs, chunksize=chunk)


def guarded(fn, case, *a):
    try:
        return fn(case, *a)
    except cparse.CError as e:
        return "skip", "emitted text: " + str(e)[:120]
    except Raised as e:
        return "skip", "raised " + e.name
    except UNKNOWN as e:
        if os.environ.get("SA_DEBUG"):
            raise
        return "skip", f"{type(e).__name__} {e}"[:160]


def where(prog, idx):
    for o in prog.layers:
        if GR.field(prog.I, prog.st, o, "idx").a[0] == idx:
            f = prog.I.h(prog.st, o).cls.find("generate_inference_code_layer")
            return f"{f.loc} {f.qual}" if f else ""
    f = prog.I.h(prog.st, prog.o).cls.find("generate_function_source_file")
    return f"{f.loc} {f.qual}" if f else ""


def site(prog, l):
    """class of the layer an event belongs to"""
    if isinstance(l, int):
        return prog.layer_name(l)
    return "generator"


REPO = None


def _safe(case):
    return guarded(safe, case)


def safe(case):
    p, why = program(REPO, case)
    if p is None:
        return why
    r = ED.Run(p)
    if r.m.issues:
        out = []
        for (kind, layer, arr), text in r.m.issues.items():
            l = layer if isinstance(layer, int) else int(layer.split()[1]) if str(layer).startswith("after") else None
            out.append((f"{kind}/{site(p, layer)}", text, where(p, l)))
        return "bad", out
    if r.m.notes:
        return "skip", "; ".join(f"{site(p, a)}: {b}" for a, b in r.m.notes)[:200]
    return "ok", (len(r.info), r.m.accesses, r.m.used)


def start(chk):
    global REPO
    REPO = Repo()
    return os.environ.get("VERIF_TIER", "quick")


def report(chk, groups, what_else="networks"):
    """one finding per construct; the models it shows on are listed"""
    for key, lst in sorted(groups.items()):
        t, what, wh = min(lst, key=lambda x: len(x[0]))
        chk.bad(key, f"{t}: {what}" + (f" (and {len(lst) - 1} {what_else} like it)" if len(lst) > 1 else ""), wh, detail=[x[0] for x in lst[:10]])


def c07(chk):
    chk.rule = ("the code emitted for every network is run abstractly (indices constant-propagated, loops unrolled in the analysis, data replaced by the set of tensor elements it depends on): every array access lies in the extent the "
                "array is declared with in the emitted header, nothing is read before it is written in the same inference, constants are never written, no integer is divided by zero")
    chk.assumptions += ["values of tensors and weights are never known: a condition on them takes both branches", "one inference with its own context; threads share no context"]
    tier = start(chk)
    cs = cases(tier) + special(tier)
    groups = {}
    for c, (k, v) in zip(cs, run_jobs(_safe, cs)):
        chk.count("networks")
        if k == "ok":
            chk.ok(str(c))
            chk.count("layers run", v[0])
            chk.count("array accesses checked", v[1])
        elif k == "refused":
            chk.count("networks refused by the generator")
        elif k == "skip":
            chk.skip(str(c), v)
        else:
            for key, text, wh in v:
                groups.setdefault(key, []).append((str(c), text, wh))
    report(chk, groups)


# ------------------------------------------------------------------ buffers

def _shared(case):
    return guarded(shared, case)


def shared(case):
    p, why = program(REPO, case)
    if p is None:
        return why
    if case.kind == "hwc":
        return "refused", "no oracle"
    r = ED.Run(p)
    if r.m.notes:
        return "skip", "; ".join(b for a, b in r.m.notes)[:200]
    # the same network, every layer in a buffer of its own
    more = {"versions": {}} if "versions" in case.gen else {}
    q, why = program(REPO, case, private=True, **more)
    if q is None:
        return "skip", f"oracle: {why}"
    s = ED.Run(q)
    own = [(site(q, k[1]), f"with a buffer of its own, {t}", where(q, k[1] if isinstance(k[1], int) else None)) for k, t in s.m.issues.items() if k[0] == "unset"]
    if own:
        return "bad", own
    if s.m.issues or s.m.notes:
        return "skip", "oracle: " + "; ".join(list(s.m.issues.values()) + [b for a, b in s.m.notes])[:160]
    if set(r.out) != set(s.out):
        return "skip", "the layers differ from those of the oracle"
    bad = []
    for i in r.info:
        a, b = r.out.get(i), s.out.get(i)
        if b is None:
            return "skip", f"no output of layer {i}"
        if a == b:
            continue
        if a is None:
            bad.append((f"{p.layer_name(i)}", f"layer {i} ({p.layer_name(i)}) has no output in the buffer of its path", where(p, i)))
            break
        k = next(k for k in range(len(b)) if a[k] != b[k])
        bad.append((f"{p.layer_name(i)}", f"element {k} of the output of layer {i} ({p.layer_name(i)}) depends on {deps(p, a[k])} instead of {deps(p, b[k])}", where(p, i)))
        break
    if not bad and r.pred.dep != s.pred.dep:
        k = next(k for k in range(len(s.pred.dep)) if r.pred.dep[k] != s.pred.dep[k])
        bad.append(("prediction", f"element {k} of the prediction depends on {deps(p, r.pred.dep[k])} instead of {deps(p, s.pred.dep[k])}", where(p, None)))
    if not bad:
        # the prediction is the output of the last layer, in order
        last = next(reversed(r.info))
        if any(d != frozenset([(last, k)]) for k, d in enumerate(s.pred.dep)) and p.o is not None and not case.gen.get("gen_data_format"):
            bad.append(("prediction", "the prediction is not the output of the last layer, element by element", where(p, None)))
        for i, (o, preds, size, path) in r.info.items():
            ok = set(preds) | {"x"} if not preds else set(preds)
            for k, d in enumerate(s.out[i]):
                w = {t[0] for t in d or ()} - ok
                if w:
                    bad.append((f"{p.layer_name(i)}", f"element {k} of the output of layer {i} ({p.layer_name(i)}) depends on layers {sorted(w)}, which are none of its operands {sorted(preds)}", where(p, i)))
                    break
            if bad:
                break
    if bad:
        return "bad", bad
    return "ok", (len(r.info), sum(len(x) for x in r.out.values()), len({x[3] for x in r.info.values()}))


def deps(p, d):
    if d is None:
        return "nothing (it is not written)"
    if not d:
        return "no tensor"
    by = {}
    for t in d:
        by.setdefault(t[0], []).append(t[1])
    return " and ".join(("the input" if l == "x" else f"layer {l} ({p.layer_name(l)})") + f" at {sorted(v)[:6]}" for l, v in sorted(by.items(), key=str))


def c08(chk):
    chk.rule = ("for every network, the dependencies of each element of each layer's output, and of the prediction, in the emitted program equal those in the program emitted when every layer has a buffer of its own; "
                "they name only operands of the layer, and the prediction is the last layer's output")
    chk.assumptions += ["two element-wise different computations with the same dependencies are told apart by C01-C05, not here"]
    tier = start(chk)
    cs = [c for c in cases(tier, every=24, nets=240) + special(tier) if c.kind != "hwc" and "gen_data_format" not in c.gen]
    groups = {}
    for c, (k, v) in zip(cs, run_jobs(_shared, cs)):
        chk.count("networks")
        if k == "ok":
            chk.ok(str(c))
            chk.count("layers", v[0])
            chk.count("output elements compared", v[1])
            chk.count("networks with fewer buffers than layers", int(v[2] < v[0]))
        elif k == "refused":
            chk.count("networks refused by the generator")
        elif k == "skip":
            chk.skip(str(c), v)
        else:
            for key, text, wh in v:
                groups.setdefault(key, []).append((str(c), text, wh))
    report(chk, groups)


CHECKS = {"C07": c07, "C08": c08}
