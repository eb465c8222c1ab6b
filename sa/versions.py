"""Layer implementation registry: what each registered factory function makes of a layer.

Module-level registration statements are interpreted (not matched), so that the registry is the one the program builds.
"""
from __future__ import annotations

import ast

from . import layers as LY
from .interp import Frame, HObj, Interp, State
from .nodes import BOT, NONE, N, const, mk, show, sym, walk
from .repo import FuncInfo


class Registration:
    def __init__(self, module, node, factory, name, func):
        self.module, self.node, self.factory, self.name, self.func = module, node, factory, name, func

    @property
    def where(self):
        return self.node


def top_level(module):
    """executable module-level statements"""
    skip = (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)
    return [s for s in module.tree.body if not isinstance(s, skip) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def registrations(repo, method="register_implementation", pick=None):
    """([Registration], Interp, State)"""
    I = Interp(repo, opaque={method} | LY.OPAQUE)
    I.typed = True
    st = State()
    out = []
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        body = top_level(m)
        if not any(isinstance(x, ast.Attribute) and x.attr == method or isinstance(x, ast.Name) and x.id == method for s in m.tree.body for x in ast.walk(s)) \
                and not any(repo.mentions(m, s, {method}) for s in body):
            continue
        fi = FuncInfo(m, ast.parse("def _module(): pass").body[0])
        I.frames.append(Frame(fi))
        n0 = len(I.events)
        try:
            ex = I.block(body, State({}, st.heap, st.over, ()))
            for e in ex:
                if e.kind == "next":
                    st.heap, st.over = e.st.heap, e.st.over
        finally:
            I.frames.pop()
        for e in I.events[n0:]:
            if e.kind == "call" and e.name.split(".")[-1] == method:
                a = list(e.args)
                kw = dict(e.kwargs)
                name = a[0] if a else kw.get("name", NONE)
                func = a[1] if len(a) > 1 else kw.get("variant", NONE)
                out.append(Registration(m, e.loc, e.selfv, name, func))
    return out, I, st


def base_scenarios(repo):
    """layer class (not an implementation) -> [(scenario, ctor args)] from the scenario table of the implementations"""
    out = {}
    for cname, lst in LY.scenarios(repo).items():
        cls = repo.classes.get(cname)
        if cls is None:
            continue
        b = cls
        while True:
            nxt = next((x for x in b.bases() if hasattr(x, "find")), None) if True else None
            if nxt is None or nxt.name in ("Layer", "object", "ABC", "ABCHasTraits"):
                break
            if is_impl(b):
                b = nxt
                continue
            break
        for name, kw, n in lst:
            kw = {k: v for k, v in kw.items() if k != "version"}
            key = (b.name, name.split("/")[0] if name.endswith(("/default", "/channels_last")) else name)
            out.setdefault(b.name, {}).setdefault(key, (b, name, kw))
    return {k: list(v.values()) for k, v in out.items()}


def is_impl(cls):
    """does the class (not one of its bases) add an implementation version"""
    n = cls.name
    return n.endswith("Default") or n in ("Conv2D6loops", "Conv2DStdGemm", "Conv2DGemm", "Conv2DIndirectGemm", "Conv2DGemmTarget", "Conv2Ddirect_block")


def instance(I, st0, cls, kw, label):
    st = st0.copy()
    args = {k: LY.build(I, st, v) for k, v in kw.items()}
    obj = I.instantiate(cls, [], args, st, None, None, label=label)
    return obj, st


def own_attrs(cls, stop):
    """attributes assigned or read by the methods of cls and its bases below `stop`"""
    stored, read = set(), set()
    for c in cls.mro():
        if c is stop:
            break
        for fi in c.methods.values():
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    (stored if isinstance(x.ctx, ast.Store) else read).add(x.attr)
    return stored, read


def self_refs(n, ref):
    """value with references to the methods of one object made independent of that object"""
    from .nodes import subst
    return subst(n, lambda x: mk("func", x.a[0], None) if x.op == "func" and x.a[1] is ref else None)
