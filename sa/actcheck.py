"""Activation functions: the C text and the Python computation of every class against one definition, and the C text in its place.

`texts(repo, cls)` derives the C text each class writes for a fresh operand; `context(...)` re-renders every layer with the
real texts and compares the parse tree (then, if it differs, the effect) with the one where activation and operand are
parenthesised.
"""
from __future__ import annotations

import math
import re

from . import canal as A
from . import cparse as C
from . import identity as ident
from . import mustache as M
from . import opcheck as OC
from . import poly as P
from . import pyarr as PA
from .interp import HObj, Interp, State
from .nodes import N, const as nconst, show, subst, sym as nsym
from .poly import const, sym

FLOATS = {"alpha", "min_value", "max_value"}
X = "\u27e8x\u27e9"


def classes(repo):
    base = repo.classes.get("ActivationFunctions")
    out = []
    for c in repo.subclasses(base):
        if c is base or c.find("write_activation_str").cls is base:
            continue
        out.append(c)
    return out


def instance(repo, cls, given=None):
    I = Interp(repo, opaque=())
    I.typed = True
    st = State()
    init = cls.find("__init__")
    a = init.node.args
    names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs][1:]
    kw = {n: nconst(given[n]) if given and n in given else nsym(n) for n in names}
    obj = I.instantiate(cls, [], kw, st, None, None, label="self")
    return I, st, obj, names


def finite(v):
    """the symbolic parameters and the operand are finite numbers"""
    def f(x):
        if x.op == "cmp":
            for a, b, op in ((x.a[1], x.a[2], x.a[0]), (x.a[2], x.a[1], FLIP.get(x.a[0]))):
                if a.op == "sym" and a.a[0] in FLOATS and b.op == "const" and isinstance(b.a[0], float) and math.isinf(b.a[0]) and op:
                    return nconst({"==": False, "!=": True, "<": b.a[0] > 0, "<=": b.a[0] > 0, ">": b.a[0] < 0, ">=": b.a[0] < 0}[op])
        if x.op == "call" and isinstance(x.a[0], str) and x.a[0].split(".")[-1] in ("isinf", "isfinite", "isneginf", "isposinf") and len(x.a[1]) == 1:
            a = x.a[1][0]
            k = x.a[0].split(".")[-1]
            if a.op == "sym" and a.a[0] in FLOATS:
                return nconst(k == "isfinite")
            if a.op == "const" and isinstance(a.a[0], (int, float)):
                w = float(a.a[0])
                return nconst({"isinf": math.isinf(w), "isfinite": math.isfinite(w), "isneginf": w == -math.inf, "isposinf": w == math.inf}[k])
        return None
    return subst(v, f)


FLIP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}


def texts(repo, cls, given=None):
    """[(condition, C text of the activation of X)]"""
    I, st, obj, names = instance(repo, cls, given)
    v = finite(I.freeze(st, I.call_fi(cls.find("write_activation_str"), [nsym(X)], {}, st, selfv=obj)))

    def run(val):
        w = val.resolve(v)
        if w.op == "bottom":
            return None
        r = M.Rendering(val)
        t = r.string(w)
        def f(m):
            h = r.holes[int(m.group(1))]
            h = h.a[0] if h.op in ("fmt",) and h.op == "fmt" else h
            if h.op == "call" and h.a[0] == "builtins.str":
                h = h.a[1][0]
            if h.op != "sym":
                raise C.CError("hole " + show(h))
            return h.a[0]
        return re.sub(M.HO + r"(\d+)" + M.HC, f, t)
    out = []
    for val, t in M.partitions(run, limit=20):
        if t is not None:
            out.append((val, t))
    return out


def effect(text):
    prog = C.parse(text, {})
    an = A.CAn({"i": "int"}, FLOATS)
    an.run(prog)
    sm = A.Summary(an, positive=OC.POSITIVE, nonneg=OC.NONNEG)
    return an, sm.final("out")


def spec_effect(cls, f=None):
    from spec import activations
    f = f or activations.FORMULA.get(cls.name)
    if f is None:
        return None
    return effect("for (i = 0; i < size; ++i) out[i] = " + re.sub(r"\bx\b", "in0[i]", f) + ";")


def c_effect(text):
    return effect("for (i = 0; i < size; ++i) out[i] = " + text.replace(X, "in0[i]") + ";")


def py_effects(repo, cls, given=None):
    """[(condition, effect or exception)] of compute"""
    I, st, obj, names = instance(repo, cls, given)
    fi = cls.find("compute")
    g = finite(I.freeze(st, I.call_fi(fi, [nsym("x")], {}, st, selfv=obj)))

    def run(val):
        env = {"x": PA.base("in0", [sym("size")])}
        try:
            return PA.Fwd(env, val, floats=FLOATS).value(g)
        except (PA.Cannot, P.TooBig, ZeroDivisionError, KeyError, IndexError, TypeError) as e:
            return e
    from . import fwdcheck
    for val, x in M.partitions(run, limit=20):
        if isinstance(x, Exception):
            yield val, x
            continue
        try:
            yield val, fwdcheck.canon(fwdcheck.out_store(x, None))
        except (PA.Cannot, P.TooBig, TypeError) as e:
            yield val, e


def possible(val):
    """False for the constructor's rejected configurations"""
    return True


# ---- overflow of intermediate results -------------------------------------------------------------------------------
def unsafe_exponentials(tree, sign=0, out=None):
    """calls exp(c*x) reached under a guard that allows c*x to be arbitrarily large; tree: C expression over the operand `x`"""
    out = [] if out is None else out

    def lin(t):
        """coefficient of x when t is c*x, else None"""
        k = t[0]
        if k == "num":
            return None
        if k == "id":
            return 1.0 if t[1] == "x" else None
        if k == "paren":
            return lin(t[1])
        if k == "un" and t[1] == "-":
            c = lin(t[2])
            return None if c is None else -c
        if k == "bin" and t[1] == "*":
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                c = lin(b)
                n = number(a)
                if c is not None and n is not None:
                    return c * n
        return None

    def number(t):
        if t[0] == "num":
            try:
                return float(str(t[1]).rstrip("fFlL"))
            except ValueError:
                return None
        if t[0] == "un" and t[1] == "-":
            n = number(t[2])
            return None if n is None else -n
        return None

    def guard(t):
        """sign of x when the condition holds: -1, +1 or 0"""
        if t[0] == "bin" and t[1] in ("<", "<=", ">", ">="):
            up = t[1][0] == ">"
            a, b = t[2], t[3]
            if lin(a) is not None and number(b) == 0:
                s = 1 if up else -1
                return s if lin(a) > 0 else -s
            if lin(b) is not None and number(a) == 0:
                s = -1 if up else 1
                return s if lin(b) > 0 else -s
        return 0

    def w(t, s):
        if not isinstance(t, tuple):
            return
        if t and t[0] == "tern":
            g = guard(t[1])
            w(t[1], s)
            w(t[2], g or s)
            w(t[3], -g if g else s)
            return
        if t and t[0] == "call" and t[1][0] == "id" and t[1][1] in ("exp", "expf"):
            c = lin(t[2][0])
            if c is not None and not (s and c * s < 0):
                out.append((c, s))
            return
        for u in t:
            if isinstance(u, tuple):
                w(u, s)
            elif isinstance(u, list):
                for y in u:
                    w(y, s)
    w(tree, sign)
    return out


# ---- the text in its place ------------------------------------------------------------------------------------------
def split_act(text):
    """[(pieces)] of text around the innermost __ACT__(...) occurrences"""
    k = text.rfind("__ACT__(")
    if k < 0:
        return None
    d, j = 0, k + 7
    while j < len(text):
        if text[j] == "(":
            d += 1
        elif text[j] == ")":
            d -= 1
            if d == 0:
                return text[:k], text[k + 8:j], text[j + 1:]
        j += 1
    raise C.CError("unbalanced activation text")


def put(text, t, safe):
    while True:
        p = split_act(text)
        if p is None:
            return text
        a, x, b = p
        text = a + (f"({t.replace(X, '(' + x + ')')})" if safe else t.replace(X, x)) + b


def in_place(repo, acts):
    """(layer model, condition, activation, status, detail) for every layer code variant and activation text"""
    from . import layers as LY
    seen = {}
    for m in LY.all_models(repo):
        for val, x in m.renderings():
            if x == "raises" or not isinstance(x, M.Rendering) or "__ACT__(" not in x.text or not OC.relevant(m.cls.name, m.scenario, val):
                continue
            try:
                C.parse(x.text, x.holes)
            except C.CError as e:
                yield m, val, "any activation", "undecided", "layer code does not parse: " + str(e)
                continue
            for name, t in acts:
                try:
                    raw, safe = C.parse(put(x.text, t, False), x.holes), C.parse(put(x.text, t, True), x.holes)
                except C.CError as e:
                    yield m, val, name, "undecided", str(e)
                    continue
                if same_tree(raw, safe):
                    yield m, val, name, "holds", ""
                    continue
                try:
                    (sa, sm), (an, im) = OC.summarise(safe, {"PREV0": sym("prev0.size")}), OC.summarise(raw, {"PREV0": sym("prev0.size")})
                    st = OC.compare(sm.final("out"), im.final("out"), sa.stores, an.stores)
                except (A.Unsupported, P.TooBig) as e:
                    st = ("undecided", "", repr(e))
                yield m, val, name, st[0], st[2]


def same_tree(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return a is b or a == b
