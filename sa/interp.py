"""Abstract interpreter over Python ast.

Every value is a node of a gated value graph (nodes.py).  Control flow joins build
phi nodes gated by the branch condition: no path is enumerated and nothing is executed.
Unknown values stay symbolic; loops over unknown iterables are summarised (elem / rep /
loop nodes).  Calls to functions of the package are inlined, other calls become
uninterpreted `call` nodes.
"""
from __future__ import annotations

import ast

from .nodes import (ABSENT, BOT, FALSE, NONE, TRUE, N, bin_, bool_, cat, cmp_, const, cval, is_const, is_str, mk, not_,
                    phi, show, sym, top, truth)
from . import stdlib
from .repo import ClassInfo, FuncInfo, Module

MAXDEPTH = 24
EXT_CONST = {"numpy.inf": float("inf"), "numpy.Inf": float("inf"), "math.inf": float("inf"), "numpy.PINF": float("inf"), "numpy.NINF": float("-inf"), "math.pi": 3.141592653589793, "numpy.pi": 3.141592653589793}
BUILTINS = {"len", "range", "str", "int", "float", "isinstance", "type", "enumerate", "zip", "list", "tuple", "dict",
            "set", "sorted", "min", "max", "sum", "abs", "any", "all", "print", "open", "hasattr", "getattr", "setattr",
            "super", "reversed", "bool", "map", "filter", "round", "repr", "iter", "next", "id", "callable", "frozenset",
            "object", "property", "ValueError", "TypeError", "KeyError", "IndexError", "NotImplementedError",
            "FileExistsError", "FileNotFoundError", "Exception", "RuntimeError", "AttributeError", "ImportError",
            "AssertionError", "StopIteration", "ord", "chr", "bytes", "hash", "divmod", "pow", "issubclass", "vars",
            "Warning", "UserWarning", "slice", "complex", "input", "exit", "NotImplemented", "Ellipsis", "staticmethod",
            "classmethod", "hex", "bin", "format", "memoryview", "bytearray", "OSError", "OverflowError", "ArithmeticError", "ZeroDivisionError"}


def own_nodes(f):
    """nodes of a function, without those of the functions and classes in it"""
    todo = list(ast.iter_child_nodes(f))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


def bindings(tree):
    """names given a value somewhere in the tree, in any way"""
    r = getattr(tree, "_bindings", None)
    if r is None:
        r = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r.add(x.id)
            elif isinstance(x, ast.arg):
                r.add(x.arg)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x is not tree:
                r.add(x.name)
            elif isinstance(x, ast.alias):
                r.add((x.asname or x.name).split(".")[0])
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                r.update(x.names)
            else:
                for k in ("name", "rest"):
                    if isinstance(getattr(x, k, None), str):
                        r.add(getattr(x, k))
        tree._bindings = r
    return r


class HList:
    k = "list"
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)


class HSet:
    k = "set"
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)


class Raised(Exception):
    """definite exception of a container operation (precise mode)"""

    def __init__(self, name, st):
        self.name, self.st = name, st


class HDict:
    k = "dict"
    __slots__ = ("d", "extra", "base")

    def __init__(self, d=None, extra=(), base=None):
        self.d, self.extra, self.base = dict(d or {}), tuple(extra), base


class HObj:
    k = "obj"
    __slots__ = ("cls", "f", "base")

    def __init__(self, cls, f=None, base=None):
        self.cls, self.f, self.base = cls, dict(f or {}), base


class HArr:
    """numpy-like array created by a call, with recorded stores."""
    k = "arr"
    __slots__ = ("init", "stores")

    def __init__(self, init, stores=()):
        self.init, self.stores = init, tuple(stores)


class State:
    __slots__ = ("env", "heap", "over", "pc")

    def __init__(self, env=None, heap=None, over=None, pc=()):
        self.env, self.heap, self.over, self.pc = env if env is not None else {}, heap if heap is not None else {}, over if over is not None else {}, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.over), self.pc)

    def assume(self, c, pol):
        s = self.copy()
        s.pc = self.pc + ((c, pol),)
        return s

    def become(self, o):
        self.env, self.heap, self.over, self.pc = o.env, o.heap, o.over, o.pc


class Exit:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Event:
    __slots__ = ("kind", "pc", "loc", "data", "loops", "fn")

    def __init__(self, kind, pc, loc, loops, fn, **data):
        self.kind, self.pc, self.loc, self.loops, self.fn, self.data = kind, pc, loc, loops, fn, data

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return f"<{self.kind} {self.loc} {self.data} pc={[(show(c), p) for c, p in self.pc]}>"


class Frame:
    def __init__(self, fi, cls=None):
        self.fi, self.cls = fi, cls
        self.yields = self.entry = None


def leaves(v, cap):
    if v.op != "phi":
        return 1
    n = leaves(v.a[1], cap)
    return min(cap, n + (leaves(v.a[2], cap - n) if n < cap else 0))


class Interp:
    unrolled = 80        # longest loop followed element by element
    unrolled_range = 64
    other_order = False  # the other order of what Python leaves unordered

    def __init__(self, repo, opaque=(), max_inline=MAXDEPTH, track_arrays=True, assume=None):
        self.repo = repo
        self.events = []
        self.raises = []
        self.ids = 0
        self.depth = 0
        self.frames = []
        self.loops = []
        self.opaque = set(opaque)     # names of functions/methods not to inline
        self.max_inline = max_inline
        self.track_arrays = track_arrays
        self.closures = {}
        self.gcache = {}
        self.precise = False          # containers have known content: model their exceptions, sets, queues and loops exactly
        self.typed = False            # arguments are assumed to have the type the code tests for
        self.assume = assume          # optional hook: node -> node (partition assumption)
        self.inlined = set()
        self.steps = 0
        self.budget = 400000
        self.unknown = set()

    # ------------------------------------------------------------ heap helpers
    def new(self, st, h):
        self.ids += 1
        st.heap[self.ids] = h
        return mk("ref", self.ids)

    def h(self, st, v):
        if v.op == "ref":
            return st.heap.get(v.a[0])
        return None

    def new_list(self, st, items=()):
        return self.new(st, HList(items))

    def new_dict(self, st, d=None, base=None):
        return self.new(st, HDict(d, (), base))

    def event(self, kind, st, node, **data):
        fi = self.frames[-1].fi if self.frames else None
        loc = f"{fi.module.rel}:{getattr(node, 'lineno', 0)}" if fi else "?"
        self.events.append(Event(kind, st.pc, loc, tuple(self.loops), fi.qual if fi else "?", **data))

    def freeze(self, st, v, memo=None, depth=0):
        """Deep, heap-free copy of a value."""
        if memo is None:
            memo = {}
        if not isinstance(v, N):
            if isinstance(v, tuple):
                return tuple(self.freeze(st, x, memo, depth) for x in v)
            return v
        if v in memo:
            return memo[v]
        if v.op == "ref":
            memo[v] = mk("cyclic", v.a[0])
            h = st.heap.get(v.a[0])
            if h is None or depth > 12:
                r = v
            elif h.k in ("list", "set"):
                r = mk(h.k, *[self.freeze(st, x, memo, depth + 1) for x in h.items])
            elif h.k == "dict":
                r = mk("dict", tuple((k, self.freeze(st, x, memo, depth + 1)) for k, x in h.d.items()),
                       tuple((self.freeze(st, e[0], memo, depth + 1), self.freeze(st, e[1], memo, depth + 1), e[2]) for e in h.extra))
            elif h.k == "arr":
                r = mk("arr", self.freeze(st, h.init, memo, depth + 1),
                       tuple(self.freeze(st, s, memo, depth + 1) for s in h.stores)) if h.stores else self.freeze(st, h.init, memo, depth + 1)
            else:
                r = mk("inst", h.cls.name if h.cls else "?", h.base if h.base is not None else NONE) if depth else \
                    mk("obj", h.cls.name if h.cls else "?", tuple((k, self.freeze(st, x, memo, depth + 1)) for k, x in h.f.items()))
            memo[v] = r
            return r
        if v.op in ("const", "sym", "func", "cls", "mod", "ext"):
            return v
        if not any(isinstance(x, (N, tuple)) for x in v.a):
            return v
        na = tuple(self.freeze(st, x, memo, depth) for x in v.a)
        if na == v.a:
            r = v
        else:
            from .nodes import rebuild
            r = rebuild(v.op, na)
        memo[v] = r
        return r

    # ------------------------------------------------------------ merging
    def mval(self, c, a, b, sa, sb, out):
        if a is b:
            return a
        return phi(c, a, b)

    def merge(self, c, a, b, pc):
        """State holding a if c else b."""
        tv = truth(c)
        if tv is True:
            a = a.copy(); a.pc = pc; return a
        if tv is False:
            b = b.copy(); b.pc = pc; return b
        out = State({}, {}, {}, pc)
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k, ABSENT), b.env.get(k, ABSENT)
            out.env[k] = x if x is y else (y if x is ABSENT else x if y is ABSENT else phi(c, x, y))
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None:
                out.heap[k] = x
            elif x is None:
                out.heap[k] = y
            else:
                out.heap[k] = self.mheap(c, x, y)
        for k in a.over.keys() | b.over.keys():
            base = mk("attr", *k) if isinstance(k[1], str) else mk("item", *k)
            x, y = a.over.get(k, base), b.over.get(k, base)
            out.over[k] = phi(c, x, y)
        return out

    def mheap(self, c, x, y):
        if x.k != y.k:
            return x
        if x.k == "list":
            p = 0
            while p < len(x.items) and p < len(y.items) and x.items[p] is y.items[p]:
                p += 1
            xt, yt = x.items[p:], y.items[p:]
            if not xt and not yt:
                return x
            if len(xt) == len(yt) and not any(i.op in ("rep", "cond") for i in xt + yt):
                return HList(x.items[:p] + tuple(phi(c, i, j) for i, j in zip(xt, yt)))
            return HList(x.items[:p] + (mk("cond", c, xt, yt),))
        if x.k == "dict":
            d = {}
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                da = x.d.get(k, mk("item", x.base, const(k)) if x.base is not None else ABSENT)
                db = y.d.get(k, mk("item", y.base, const(k)) if y.base is not None else ABSENT)
                d[k] = phi(c, da, db)
            ex = list(x.extra) + [e for e in y.extra if e not in x.extra]
            return HDict(d, ex, x.base)
        if x.k == "obj":
            f = {}
            for k in list(x.f) + [k for k in y.f if k not in x.f]:
                fa = x.f.get(k, mk("attr", x.base, k) if x.base is not None else ABSENT)
                fb = y.f.get(k, mk("attr", y.base, k) if y.base is not None else ABSENT)
                f[k] = phi(c, fa, fb)
            return HObj(x.cls, f, x.base)
        if x.k == "arr":
            p = 0
            while p < len(x.stores) and p < len(y.stores) and x.stores[p] is y.stores[p]:
                p += 1
            st = list(x.stores[:p])
            for s in x.stores[p:]:
                st.append(mk("gated", c, s))
            for s in y.stores[p:]:
                st.append(mk("gated", not_(c), s))
            return HArr(phi(c, x.init, y.init), st)
        return x

    def fold(self, exits, base, default=None):
        """exits: list[(relative pc, Exit)] -> merged Exit (value + state)."""
        nonempty = []
        for rel, e in exits:
            if not rel:
                default = e
            else:
                nonempty.append((rel, e))
        if not nonempty:
            return default
        c = nonempty[0][0][0][0]
        T = [(r[1:], e) for r, e in nonempty if r[0] == (c, True)]
        F = [(r[1:], e) for r, e in nonempty if r[0] == (c, False)]
        R = [(r, e) for r, e in nonempty if r[0][0] is not c]
        d2 = self.fold(R, base, default) if R else default
        a = self.fold(T, base, d2) if T else d2
        b = self.fold(F, base, d2) if F else d2
        if a is None:
            return b
        if b is None or a is b:
            return a
        va, vb = a.val if a.val is not None else NONE, b.val if b.val is not None else NONE
        st = self.merge(c, a.st, b.st, base)
        return Exit(a.kind, st, phi(c, va, vb))

    # ------------------------------------------------------------ calls
    def bind(self, fi, args, kwargs, st, star=None, starstar=None):
        a = fi.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        kwd = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        args = list(args)
        ok = True
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
        rest = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = self.new_list(st, rest)
        elif rest:
            ok = False
        if star is not None:
            k = 0
            for p in pos[len(args):]:
                if p not in kwargs and p not in env:
                    env[p] = mk("item", star, const(k))
                    k += 1
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwd:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                ok = False
        sdict = self.h(st, starstar) if starstar is not None else None
        base = None
        if sdict is not None and sdict.k == "dict":
            for k, v in sdict.d.items():
                if k in pos or k in kwd:
                    env.setdefault(k, v)
                else:
                    extra.setdefault(k, v)
            base = sdict.base
        elif starstar is not None:
            base = starstar
        for p in pos + list(kwd):
            if p in env:
                continue
            if base is not None and not (p == "self"):
                env[p] = self.open_item(base, p)
            elif p in defaults or (p in kwd and kwd[p] is not None):
                e = defaults.get(p, kwd.get(p))
                fr = Frame(fi, fi.cls)
                self.frames.append(fr)
                try:
                    env[p] = self.eval(e, State({}, st.heap, st.over, st.pc))
                finally:
                    self.frames.pop()
            else:
                env[p] = mk("missing", fi.qual, p)
                ok = False
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(st, extra, base)
        return env, ok

    def open_item(self, base, key):
        if base.op == "sym" and base.a[0].endswith("arg"):
            return sym("arg." + key)
        return mk("item", base, const(key))

    def call_fi(self, fi, args, kwargs, st, star=None, starstar=None, selfv=None, closure_env=None, node=None):
        if self.depth >= self.max_inline and not (self.precise and self.depth < 60) or sum(1 for f in self.frames if f.fi is fi) >= (40 if self.precise else 3):
            return mk("call", fi.qual, tuple(args), tuple(sorted(kwargs.items())))
        self.inlined.add(fi.loc)
        a2 = ([selfv] if selfv is not None else []) + list(args)
        env, ok = self.bind(fi, a2, kwargs, st, star, starstar)
        if not ok:
            self.event("badcall", st, node or fi.node, fi=fi, args=tuple(a2), kwargs=tuple(kwargs.items()))
        if closure_env:
            e2 = dict(closure_env)
            e2.update(env)
            env = e2
        if isinstance(fi.node, ast.Lambda):
            self.frames.append(Frame(fi, fi.cls))
            self.depth += 1
            s2 = State(env, st.heap, st.over, st.pc)
            try:
                v = self.eval(fi.node.body, s2)
            finally:
                self.frames.pop(); self.depth -= 1
            st.heap, st.over = s2.heap, s2.over
            return v
        own = list(own_nodes(fi.node))
        is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own)
        outer = [n for x in own if isinstance(x, ast.Nonlocal) for n in x.names]
        if outer:
            # what a function assigns in the function around it is not followed
            for e in (st.env, closure_env if closure_env is not None else {}):
                for n in outer:
                    if n in e:
                        e[n] = top("nonlocal " + n)
            return mk("call", fi.qual, tuple(args), tuple(sorted(kwargs.items())))
        if is_gen and not self.precise:
            return mk("call", fi.qual, tuple(args), tuple(sorted(kwargs.items())))
        fr = Frame(fi, fi.cls)
        fr.yields = [] if is_gen else None
        fr.entry = st.pc
        self.frames.append(fr)
        self.depth += 1
        try:
            s2 = State(env, st.heap, st.over, st.pc)
            exits = self.block(fi.node.body, s2)
        finally:
            self.frames.pop()
            self.depth -= 1
        if is_gen:
            go = [e for e in exits if e.kind != "raise"]
            if fr.yields is None or len(go) != 1 or len(exits) != 1:
                return top("generator " + fi.qual)
            st.heap, st.over = go[0].st.heap, go[0].st.over
            return self.new_list(st, fr.yields)
        n0 = len(st.pc)
        outs = []
        for e in exits:
            if e.kind == "raise":
                continue
            outs.append((e.st.pc[n0:], Exit("return", e.st, e.val if e.kind == "return" else NONE)))
        if not outs:
            st.pc = st.pc  # everything raised
            return BOT
        r = self.fold(outs, st.pc)
        st.heap, st.over = r.st.heap, r.st.over
        return r.val if r.val is not None else NONE

    def instantiate(self, ci, args, kwargs, st, star=None, starstar=None, label=None, node=None):
        self.ids += 1
        base = sym(label or f"new:{ci.name}")
        obj = self.new(st, HObj(ci, {}, base))
        init = ci.find("__init__")
        self.event("new", st, node or ci.node, cls=ci, args=tuple(args), kwargs=tuple(kwargs.items()), obj=obj)
        if init is not None and ("new " + ci.name) not in self.opaque and "__init__" not in self.opaque:
            self.call_fi(init, args, kwargs, st, star, starstar, selfv=obj, node=node)
        elif "Enum" in str(ci.base_names()):
            return mk("call", ci.name, tuple(args), ())
        else:
            h = st.heap[obj.a[0]]
            f = dict(h.f)
            f["__ctor_args__"] = mk("tuple", *args)
            for k, v in kwargs.items():
                f["__kw_" + k] = v
            st.heap[obj.a[0]] = HObj(ci, f, base)
        return obj

    def symbolic_instance(self, cls, st, label="self", mode="init", overrides=None):
        """An instance of cls whose constructor parameters are symbolic."""
        init = cls.find("__init__")
        kw = dict(overrides or {})
        base = sym("arg")
        obj = self.instantiate(cls, [], kw, st, None, base if init is not None else None, label=label)
        return obj

    def call_value(self, f, args, kwargs, st, star=None, starstar=None, node=None):
        self.steps += 1
        if f.op == "phi":
            return self.on_phi(f, st, lambda v, s: self.call_value(v, args, kwargs, s, star, starstar, node))
        if f.op in ("keyerror", "bottom"):
            return BOT
        if f.op == "func":
            fi, selfv = f.a
            if fi.name in self.opaque or fi.qual in self.opaque:
                v = mk("call", fi.qual, ((selfv,) if selfv is not None else ()) + tuple(args), tuple(sorted(kwargs.items())))
                self.event("call", st, node, name=fi.qual, args=tuple(args), kwargs=dict(kwargs), value=v, selfv=selfv, fi=fi)
                return v
            self.event("call", st, node, name=fi.qual, args=tuple(args), kwargs=dict(kwargs), value=None, selfv=selfv, fi=fi)
            return self.call_fi(fi, args, kwargs, st, star, starstar, selfv=selfv, node=node)
        if f.op == "closure":
            fi, env = self.closures[f.a[0]]
            return self.call_fi(fi, args, kwargs, st, star, starstar, closure_env=env, node=node)
        if f.op == "partial":
            kw = dict(f.a[2])
            kw.update(kwargs)
            return self.call_value(f.a[0], list(f.a[1]) + list(args), kw, st, star, starstar, node)
        if f.op == "identity":
            return args[0] if args else NONE
        if f.op == "getter" and len(args) == 1:
            r = stdlib.getter(self, f, args, st, node)
            if r is not None:
                return r
        if f.op == "traitinit":
            # the keyword arguments become attributes
            kw = dict(kwargs)
            hd = self.h(st, starstar) if starstar is not None else None
            for k, v in (self.dict_items(hd) or [] if hd is not None and hd.k == "dict" else []):
                if k.op == "const":
                    kw[k.a[0]] = v
            for k, v in kw.items():
                self.setattr(f.a[0], k, v, st, node)
            return NONE
        if f.op == "cls":
            return self.instantiate(f.a[0], args, kwargs, st, star, starstar, node=node)
        if f is NONE and self.strict_names and not st.pc:
            raise Raised("TypeError", st)
        if f.op == "ref":
            h = self.h(st, f)
            if h and h.k == "obj" and h.cls:
                m = h.cls.find("__call__")
                if m:
                    return self.call_fi(m, args, kwargs, st, star, starstar, selfv=f, node=node)
        if f.op == "meth":
            r = self.method(f.a[0], f.a[1], args, kwargs, st, node)
            if r is not None:
                return r
            f = mk("attr", f.a[0], f.a[1])
        if f.op == "ext":
            r = self.external(f.a[0], args, kwargs, st, node, star, starstar)
            if r is not None:
                return r
        fn = f.a[0] if f.op == "ext" else f
        fa = tuple(self.freeze_small(st, x) for x in args)
        fk = tuple(sorted((k, self.freeze_small(st, x)) for k, x in kwargs.items()))
        if star is not None:
            fa = fa + (mk("star", self.freeze_small(st, star)),)
        if starstar is not None:
            fk = fk + (("**", self.freeze_small(st, starstar)),)
        if isinstance(fn, N):
            fn = self.freeze_small(st, fn)
        v = mk("call", fn, fa, fk)
        self.event("call", st, node, name=fn if isinstance(fn, str) else show(fn), args=tuple(args), kwargs=dict(kwargs), value=v, selfv=None, fi=None)
        if self.track_arrays and isinstance(fn, str) and fn in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.pad", "numpy.copy", "numpy.array"):
            return self.new(st, HArr(v))
        if self.track_arrays and isinstance(fn, N) and fn.op == "attr" and fn.a[1] in ("flatten", "copy") and not args:
            return self.new(st, HArr(v))
        return v

    def freeze_small(self, st, v):
        if v.op in ("const", "sym"):
            return v
        return self.freeze(st, v, None, 1)

    def on_phi(self, v, st, f):
        """Apply an effectful operation to both sides of a phi value."""
        c = v.a[0]
        k = self.known(c, st)
        if k is not None:
            return f(v.a[1] if k else v.a[2], st)
        a, b = st.assume(c, True), st.assume(c, False)
        x, y = f(v.a[1], a), f(v.a[2], b)
        st.become(self.merge(c, a, b, st.pc))
        return phi(c, x, y)

    # ------------------------------------------------------------ known calls
    def seq(self, v, st):
        """Concrete list of item nodes or None."""
        if v.op in ("tuple", "list"):
            if any(x.op in ("rep", "cond") for x in v.a):
                return None
            return list(v.a)
        h = self.h(st, v)
        if h and h.k == "set":
            # Python leaves open the order of a set of strings: it is another one in another process
            return list(h.items)[::-1 if self.other_order and any(not (x.op == "const" and isinstance(x.a[0], int)) for x in h.items) else 1]
        if h and h.k == "list":
            if any(x.op in ("rep", "cond") for x in h.items):
                return None
            return list(h.items)
        if h and h.k == "dict":
            if h.extra or h.base is not None or any(x is ABSENT or (x.op == "phi" and ABSENT in x.a) for x in h.d.values()):
                return None
            return [k if isinstance(k, N) else const(k) for k in h.d]
        if v.op == "const" and isinstance(v.a[0], str):
            return [const(c) for c in v.a[0]]
        if v.op == "range":
            if all(x.op == "const" for x in v.a):
                try:
                    r = range(*[x.a[0] for x in v.a])
                    if len(r) <= self.unrolled_range:
                        return [const(i) for i in r]
                except Exception:
                    return None
        if v.op == "enumerate":
            s = self.seq(v.a[0], st)
            if s is not None and v.a[1].op == "const":
                return [mk("tuple", const(i + v.a[1].a[0]), x) for i, x in enumerate(s)]
        if v.op == "zip":
            ss = [self.seq(x, st) for x in v.a]
            if all(s is not None for s in ss):
                return [mk("tuple", *t) for t in zip(*ss)]
        return None

    def dict_items(self, h):
        if h.extra or h.base is not None or any(x is ABSENT or (x.op == "phi" and ABSENT in x.a) for x in h.d.values()):
            return None
        return [(k if isinstance(k, N) else const(k), v) for k, v in h.d.items()]

    def external(self, name, args, kwargs, st, node, star, starstar):
        b = name[len("builtins."):] if name.startswith("builtins.") else None
        if star is not None or starstar is not None:
            return None
        r = stdlib.call(self, name, args, kwargs, st, node)
        if r is not None:
            return r
        if b == "isinstance" and len(args) == 2:
            return self.isinst(args[0], args[1], st)
        if b == "issubclass" and len(args) == 2 and args[0].op == "cls":
            cs = list(args[1].a) if args[1].op in ("tuple", "list") else [args[1]]
            while any(x.op == "bin" and x.a[0] == "|" for x in cs):
                cs = [z for y in cs for z in (y.a[1:3] if y.op == "bin" and y.a[0] == "|" else [y])]
            if all(x.op == "cls" for x in cs):
                return const(any(args[0].a[0].is_sub(x.a[0]) for x in cs))
        if b == "len" and args:
            s = self.seq(args[0], st)
            if s is not None:
                return const(len(s))
            return None
        if b == "str":
            if not args:
                return const("")
            v = args[0]
            if is_str(v):
                return v
            if v.op == "const":
                return const(str(v.a[0]))
            return mk("fmt", self.freeze_small(st, v), "")
        if b in ("int", "float", "bool") and len(args) == 1:
            if args[0].op == "const":
                try:
                    return const({"int": int, "float": float, "bool": bool}[b](args[0].a[0]))
                except Exception:
                    return None
            return None
        if b in ("abs", "round") and len(args) == 1 and args[0].op == "const":
            return const(abs(args[0].a[0]) if b == "abs" else round(args[0].a[0]))
        if b == "range":
            if len(args) == 1:
                return mk("range", const(0), args[0], const(1))
            if len(args) == 2:
                return mk("range", args[0], args[1], const(1))
            return mk("range", *args)
        if b == "enumerate" and args:
            start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
            return mk("enumerate", args[0], start)
        if b == "zip":
            return mk("zip", *args)
        if self.precise and name == "collections.deque" and len(args) <= 1:
            s = self.seq(args[0], st) if args else []
            return self.new_list(st, s) if s is not None else None
        if self.precise and b in ("set", "frozenset") and len(args) <= 1:
            s = self.seq(args[0], st) if args else []
            return self.new(st, HSet(dict.fromkeys(s))) if s is not None else None
        if b in ("list", "tuple") and len(args) <= 1:
            if not args:
                return self.new_list(st) if b == "list" else mk("tuple")
            s = self.seq(args[0], st)
            if s is not None:
                return self.new_list(st, s) if b == "list" else mk("tuple", *s)
            h = self.h(st, args[0])
            if h and h.k == "list":
                return self.new_list(st, h.items)
            return mk("call", "builtins." + b, (self.freeze_small(st, args[0]),), ())
        if b == "dict" and not args:
            return self.new_dict(st, {k: v for k, v in kwargs.items()})
        if b == "dict" and len(args) == 1:
            h = self.h(st, args[0])
            if h is not None and h.k == "dict":
                r = self.new(st, HDict(dict(h.d), h.extra, h.base))
                for k, v in kwargs.items():
                    self.setitem(r, const(k), v, st, node)
                return r
            s = self.seq(args[0], st)
            ps = [self.seq(x, st) for x in s] if s is not None else None
            if ps is not None and all(p is not None and len(p) == 2 for p in ps):
                r = self.new_dict(st, {})
                for k, v in ps:
                    self.setitem(r, k, v, st, node)
                for k, v in kwargs.items():
                    self.setitem(r, const(k), v, st, node)
                return r
        if b == "reversed" and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None:
                return mk("tuple", *s[::-1])
            return None
        if b in ("min", "max") and args:
            s = args if len(args) > 1 else self.seq(args[0], st)
            if s is not None and len(args) == 1 and set(kwargs) == {"default"}:
                if not s:
                    return kwargs["default"]
                kwargs = {}
            if s is not None and s and not kwargs:
                if all(x.op == "const" for x in s):
                    return const((min if b == "min" else max)(x.a[0] for x in s))
                flat = []
                for x in s:
                    x = self.freeze_small(st, x)
                    if x.op == "call" and x.a[0] == "builtins." + b and not x.a[2] and len(x.a[1]) > 1:
                        flat.extend(x.a[1])
                    else:
                        flat.append(x)
                return mk("call", "builtins." + b, tuple(sorted(set(flat), key=show)), ())
            return None
        if b in ("any", "all") and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None:
                if not s:
                    return FALSE if b == "any" else TRUE
                return bool_("or" if b == "any" else "and", tuple(s))
            return None
        if b == "sum" and args:
            s = self.seq(args[0], st)
            if s is not None:
                r = const(0)
                for x in s:
                    r = bin_("+", r, x)
                return r
            return None
        if b == "sorted" and len(args) == 1 and kwargs and set(kwargs) <= {"key", "reverse"}:
            s = self.seq(args[0], st)
            rv = kwargs.get("reverse", FALSE)
            if s is not None and rv.op == "const":
                ks = [self.call_value(kwargs["key"], [x], {}, st, node=node) for x in s] if "key" in kwargs and kwargs["key"] is not NONE else list(s)
                if all(k.op == "const" for k in ks):
                    try:
                        order = sorted(range(len(s)), key=lambda i: ks[i].a[0], reverse=bool(rv.a[0]))
                    except TypeError:
                        return None
                    return self.new_list(st, [s[i] for i in order])
            return None
        if b == "sorted" and args and not kwargs:
            s = self.seq(args[0], st)
            if s is not None and all(x.op == "const" for x in s):
                try:
                    return self.new_list(st, sorted(s, key=lambda n: n.a[0]))
                except TypeError:
                    return None
            return None
        if b == "hasattr" and len(args) == 2 and args[1].op == "const":
            h = self.h(st, args[0])
            if h and h.k == "obj" and h.cls:
                n = args[1].a[0]
                if n in h.f:
                    return TRUE
                if h.cls.find(n) or h.cls.find_attr(n):
                    return TRUE
                return FALSE
            return None
        if b == "getattr" and len(args) >= 2 and args[1].op == "const":
            if len(args) == 2:
                return self.attr(args[0], args[1].a[0], st, node)
            h = self.h(st, args[0])
            if h and h.k == "obj":
                n = args[1].a[0]
                if n in h.f or (h.cls and (h.cls.find(n) or h.cls.find_attr(n))):
                    return self.attr(args[0], n, st, node)
                if self.precise and h.cls and len(args) > 2:
                    return args[2]
            return None
        if b == "setattr" and len(args) == 3 and args[1].op == "const":
            self.setattr(args[0], args[1].a[0], args[2], st, node)
            return NONE
        if b == "type" and len(args) == 1:
            h = self.h(st, args[0])
            if h and h.k == "obj" and h.cls:
                return mk("cls", h.cls)
            if args[0].op == "const":
                return mk("ext", "builtins." + type(args[0].a[0]).__name__)
            return None
        if b == "print":
            self.event("print", st, node, args=tuple(self.freeze(st, a) for a in args), kwargs=dict(kwargs))
            return NONE
        if b == "open" and args:
            mode = args[1] if len(args) > 1 else kwargs.get("mode", const("r"))
            v = mk("file", self.freeze_small(st, args[0]), mode)
            self.event("open", st, node, path=v.a[0], mode=mode)
            return v
        if name in ("pystache.render",) and args:
            t = args[0]
            d = args[1] if len(args) > 1 else NONE
            v = mk("rendered", self.freeze_small(st, t), self.freeze(st, d))
            self.event("render", st, node, template=v.a[0], hash=v.a[1], value=v)
            return v
        if name.startswith("pathlib.Path.") and name[13:] in ("open", "exists", "mkdir", "read_text", "read_bytes", "is_file", "is_dir", "unlink", "touch") and args:
            r = self.method(args[0], name[13:], list(args[1:]), kwargs, st, node)
            if r is not None:
                return r
        if name in ("pathlib.Path", "pathlib.PurePath") and args:
            out = args[0]
            for x in args[1:]:
                out = self.join(out, x)
            return out if len(args) > 1 or out.op in ("path", "const") else mk("path", out)
        if name in ("os.path.join",) and args:
            out = args[0]
            for x in args[1:]:
                out = self.join(out, x)
            return out
        if name in ("math.floor", "math.ceil", "math.prod") and len(args) == 1:
            if args[0].op == "const":
                import math
                return const(getattr(math, name.split(".")[1])(args[0].a[0]))
            if name == "math.floor" and args[0].op == "bin" and args[0].a[0] == "/":
                return mk("bin", "//", args[0].a[1], args[0].a[2])
            return None
        if name == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if name in ("copy.copy", "copy.deepcopy") and len(args) == 1:
            h = self.h(st, args[0])
            if h:
                return self.new(st, h)
            return None
        return None

    def join(self, a, b):
        return cat(a if a.op != "path" else a.a[0], const("/"), b if b.op != "path" else b.a[0])

    def isinst(self, v, c, st):
        if v.op == "phi":
            return phi(v.a[0], self.isinst(v.a[1], c, st), self.isinst(v.a[2], c, st))
        cs = []

        def flat(x):
            if x.op in ("tuple", "list"):
                for y in x.a:
                    flat(y)
            elif x.op == "bin" and x.a[0] == "|":
                flat(x.a[1]); flat(x.a[2])
            elif self.h(st, x) is not None and self.h(st, x).k == "list":
                for y in self.h(st, x).items:
                    flat(y)
            else:
                cs.append(x)
        flat(c)
        h = self.h(st, v)
        cs = [mk("ext", "builtins.NoneType") if x is NONE else x for x in cs]
        if h and h.k == "obj" and h.cls and all(x.op == "cls" for x in cs):
            return const(any(h.cls.is_sub(x.a[0]) for x in cs))
        if h and h.k in ("list", "dict") and all(x.op in ("ext", "cls") for x in cs):
            return const(any(x.op == "ext" and x.a[0] == "builtins." + h.k for x in cs))
        if v.op == "const" and all(x.op in ("ext", "cls") for x in cs):
            return const(any(x.op == "ext" and x.a[0] == "builtins." + type(v.a[0]).__name__ for x in cs))
        if is_str(v) and v.op != "phi" and all(x.op in ("ext", "cls") for x in cs):
            return const(any(x.op == "ext" and x.a[0] == "builtins.str" for x in cs))
        if len(cs) == 1:
            return mk("isinst", self.freeze_small(st, v), cs[0])
        out = FALSE
        for x in cs:
            e = mk("isinst", self.freeze_small(st, v), x)
            out = e if out is FALSE else bool_("or", (out, e))
        return out

    def method(self, b, name, args, kwargs, st, node):
        """Methods of builtin containers/strings/files; None = unknown."""
        if b.op == "phi":
            # only containers / strings
            def each(v, s):
                if v.op == "ref" or is_str(v) or v.op == "phi":
                    r = self.call_value(self.attr(v, name, s, node), args, kwargs, s, node=node)
                    return r
                r = self.method(v, name, args, kwargs, s, node)
                return r if r is not None else mk("call", mk("attr", v, name), tuple(args), tuple(sorted(kwargs.items())))
            return self.on_phi(b, st, each)
        h = self.h(st, b)
        if h is not None and h.k == "list":
            if name == "append" and len(args) == 1:
                st.heap[b.a[0]] = HList(h.items + (args[0],))
                self.event("append", st, node, target=b, value=args[0])
                return NONE
            if name == "extend" and len(args) == 1:
                s = self.seq(args[0], st)
                oh = self.h(st, args[0])
                items = tuple(s) if s is not None else oh.items if oh is not None and oh.k == "list" else \
                    (mk("rep", self.freeze_small(st, args[0]), (mk("elem", self.freeze_small(st, args[0]), 0),)),)
                st.heap[b.a[0]] = HList(h.items + items)
                return NONE
            if self.precise and not any(x.op in ("rep", "cond", "mut", "popped", "inserted", "store") for x in h.items):
                r = self.exact_list(b, h, name, args, st)
                if r is not None:
                    return r
            if name == "insert" and len(args) == 2:
                if args[0].op == "const" and args[0].a[0] == 0:
                    st.heap[b.a[0]] = HList((args[1],) + h.items)
                else:
                    st.heap[b.a[0]] = HList(h.items + (mk("inserted", args[0], args[1]),))
                return NONE
            if name == "pop":
                if not args and h.items and h.items[-1].op not in ("rep", "cond"):
                    st.heap[b.a[0]] = HList(h.items[:-1])
                    return h.items[-1]
                st.heap[b.a[0]] = HList(h.items + (mk("popped", *args),))
                return top("pop")
            if name == "copy":
                return self.new(st, h)
            if name in ("clear",):
                st.heap[b.a[0]] = HList()
                return NONE
            if name == "sort" and stdlib.exact(h.items) and not args:
                r = self.external("builtins.sorted", [b], kwargs, st, node, None, None)
                hr = self.h(st, r) if r is not None else None
                if hr is not None and hr.k == "list":
                    st.heap[b.a[0]] = HList(hr.items)
                    return NONE
            if name in ("remove", "sort", "reverse"):
                st.heap[b.a[0]] = HList(h.items + (mk("mut", name, *[self.freeze_small(st, x) for x in args]),))
                return NONE
            if name == "count" and len(args) == 1:
                s = self.seq(b, st)
                if s is not None and all(x.op == "const" for x in s) and args[0].op == "const":
                    return const(sum(1 for x in s if x is args[0]))
            return None
        if h is not None and h.k == "set":
            if name == "add" and len(args) == 1:
                if not any(x is args[0] for x in h.items):
                    st.heap[b.a[0]] = HSet(h.items + (args[0],))
                return NONE
            if name in ("remove", "discard") and len(args) == 1:
                if not any(x is args[0] for x in h.items) and name == "remove":
                    raise Raised("KeyError", st)
                st.heap[b.a[0]] = HSet(tuple(x for x in h.items if x is not args[0]))
                return NONE
            if name == "copy":
                return self.new(st, h)
            return None
        if h is not None and h.k == "dict" and self.precise and name == "pop" and args and args[0].op == "const" and self.dict_items(h) is not None and args[0].a[0] not in h.d and len(args) == 1:
            raise Raised("KeyError", st)
        if h is not None and h.k == "dict":
            if name == "get" and args:
                k = args[0]
                d = args[1] if len(args) > 1 else NONE
                if k.op == "const" and self.dict_items(h) is not None or (k.op == "const" and k.a[0] in h.d):
                    kk = k.a[0]
                    if kk in h.d:
                        v = h.d[kk]
                        return d if v is ABSENT else v
                    return d
                if h.base is not None and k.op == "const":
                    return mk("call", mk("attr", h.base, "get"), (k, d), ())
                return None
            if name in ("items", "keys", "values"):
                it = self.dict_items(h)
                if it is not None:
                    if name == "items":
                        return mk("tuple", *[mk("tuple", k, v) for k, v in it])
                    return mk("tuple", *[(k if name == "keys" else v) for k, v in it])
                return None
            if name == "update" and len(args) <= 1:
                nd = dict(h.d)
                ex, base = h.extra, h.base
                if args:
                    o = self.h(st, args[0])
                    if o is None or o.k != "dict":
                        st.heap[b.a[0]] = HDict(nd, ex + ((top("update"), self.freeze_small(st, args[0]), tuple(self.loops)),), base)
                        return NONE
                    nd.update(o.d)
                    ex = ex + o.extra
                    base = base or o.base
                nd.update(kwargs)
                st.heap[b.a[0]] = HDict(nd, ex, base)
                return NONE
            if name == "pop" and args and args[0].op == "const":
                nd = dict(h.d)
                v = nd.pop(args[0].a[0], args[1] if len(args) > 1 else None)
                if v is None:
                    return mk("item", h.base, args[0]) if h.base is not None else None
                st.heap[b.a[0]] = HDict(nd, h.extra, h.base)
                return v
            if name == "setdefault" and args and args[0].op == "const":
                k = args[0].a[0]
                if k in h.d and h.d[k] is not ABSENT:
                    return h.d[k]
                nd = dict(h.d)
                nd[k] = args[1] if len(args) > 1 else NONE
                st.heap[b.a[0]] = HDict(nd, h.extra, h.base)
                return nd[k]
            if name == "copy":
                return self.new(st, h)
            return None
        if b.op == "file":
            if name in ("read",):
                return mk("template", b.a[0])
            if name == "close":
                self.event("close", st, node, file=b)
                return NONE
            if name in ("write", "writelines"):
                self.event("write", st, node, file=b, value=self.freeze(st, args[0]) if args else NONE)
                return NONE
            return None
        if self.precise and b.op == "const" and isinstance(b.a[0], str) and name in ("open", "exists", "mkdir", "read_text", "write_text", "read_bytes", "is_file", "is_dir", "unlink", "iterdir", "touch"):
            b = mk("path", b)
        if b.op == "path" and name == "open":
            return self.external("builtins.open", [b] + list(args), kwargs, st, node, None, None)
        if (is_str(b) and b.op != "path") or b.op == "const" and isinstance(b.a[0], str):
            if name == "join" and len(args) == 1:
                s = self.seq(args[0], st)
                if s is not None:
                    out = []
                    for i, x in enumerate(s):
                        if i:
                            out.append(b)
                        out.append(x)
                    return cat(*out) if out else const("")
                return mk("strjoin", b, self.freeze(st, args[0]))
            if b.op == "const" and all(x.op == "const" for x in args) and not kwargs:
                try:
                    r = getattr(b.a[0], name)(*[x.a[0] for x in args])
                    if isinstance(r, (str, int, bool)):
                        return const(r)
                    if isinstance(r, list):
                        return self.new_list(st, [const(x) for x in r])
                except Exception:
                    return None
            if name == "format" and b.op == "const":
                return stdlib.formatted(self, b.a[0], args, kwargs, st)
            return None
        if name in ("exists", "mkdir", "resolve", "absolute", "as_posix", "with_suffix", "is_file", "is_dir", "unlink") and b.op in ("path", "cat", "fmt"):
            v = mk("call", "Path." + name, (b,) + tuple(args), tuple(sorted(kwargs.items())))
            self.event("call", st, node, name="Path." + name, args=(b,) + tuple(args), kwargs=dict(kwargs), value=v, selfv=None, fi=None)
            return v
        if name in ("open",) and b.op in ("path", "cat", "fmt", "const"):
            return self.external("builtins.open", [b] + list(args), kwargs, st, node, None, None)
        if name == "read_text":
            return mk("template", b)
        return None

    def exact_list(self, b, h, name, args, st):
        items = list(h.items)
        if name == "index" and args:
            for i, x in enumerate(items):
                if x is args[0]:
                    return const(i)
            if args[0].op in ("ref", "const") and all(x.op in ("ref", "const") for x in items):
                raise Raised("ValueError", st)
            return None
        if name == "remove" and len(args) == 1:
            for i, x in enumerate(items):
                if x is args[0]:
                    st.heap[b.a[0]] = HList(items[:i] + items[i + 1:])
                    return NONE
            if args[0].op in ("ref", "const") and all(x.op in ("ref", "const") for x in items):
                raise Raised("ValueError", st)
            return None
        if name in ("pop", "popleft") and (not args or args[0].op == "const" and isinstance(args[0].a[0], int)):
            i = 0 if name == "popleft" else args[0].a[0] if args else -1
            if not -len(items) <= i < len(items):
                raise Raised("IndexError", st)
            v = items.pop(i)
            st.heap[b.a[0]] = HList(items)
            return v
        if name == "appendleft" and len(args) == 1:
            st.heap[b.a[0]] = HList([args[0]] + items)
            return NONE
        if name == "insert" and len(args) == 2 and args[0].op == "const" and isinstance(args[0].a[0], int):
            items.insert(args[0].a[0], args[1])
            st.heap[b.a[0]] = HList(items)
            return NONE
        if name == "reverse":
            st.heap[b.a[0]] = HList(items[::-1])
            return NONE
        if name == "count" and len(args) == 1 and all(x.op in ("ref", "const") for x in items):
            return const(sum(1 for x in items if x is args[0]))
        return None

    # ------------------------------------------------------------ attributes / items
    def attr(self, v, name, st, node=None):
        if v.op == "phi":
            c = v.a[0]
            k = self.known(c, st)
            if k is not None:
                return self.attr(v.a[1] if k else v.a[2], name, st, node)
            return phi(c, self.attr(v.a[1], name, st, node), self.attr(v.a[2], name, st, node))
        h = self.h(st, v)
        if h is not None:
            if h.k == "obj":
                if name in h.f:
                    return h.f[name]
                if name == "__class__" and h.cls:
                    return mk("cls", h.cls)
                if h.cls:
                    m = h.cls.find(name)
                    if m is not None:
                        if any(d in ("property", "cached_property") for d in m.decorators):
                            if m.name in self.opaque:
                                return mk("attr", self.freeze_small(st, v), name)
                            return self.call_fi(m, [], {}, st, selfv=v, node=node)
                        if "staticmethod" in m.decorators:
                            return self.function(m, None, st)
                        if "classmethod" in m.decorators:
                            return self.function(m, mk("cls", h.cls), st)
                        return self.function(m, v, st)
                    ca = h.cls.find_attr(name)
                    if ca is not None:
                        r = self.class_attr(ca, st)
                        if self.precise:
                            d = self.trait_default(r, st)
                            if d is not None:
                                h = self.h(st, v)
                                st.heap[v.a[0]] = HObj(h.cls, dict(h.f, **{name: d}), h.base)
                                return d
                        if not (r.op == "call" and isinstance(r.a[0], str) and r.a[0].startswith("traits")):
                            if not (r.op == "call" and isinstance(r.a[0], str) and not r.a[0].startswith("builtins")):
                                hr = self.h(st, r)
                                if not (hr is not None and hr.k == "obj" and hr.cls and hr.cls.name in ("Name",)):
                                    return r
                return mk("attr", h.base, name) if h.base is not None else mk("attr", v, name)
            return mk("meth", v, name) if h.k in ("list", "dict", "set") else mk("attr", v, name)
        if v.op == "mod":
            r = self.repo.lookup(v.a[0], name)
            if r is None:
                r = self.repo.modules.get(v.a[0].name + "." + name)
            if r is not None:
                return self.glob(r, st)
            if name == "__file__":
                return const(str(v.a[0].path))
            return mk("attr", v, name)
        if v.op == "cls":
            ci = v.a[0]
            m = ci.find(name)
            if m is not None:
                return self.function(m, v if "classmethod" in m.decorators else None, st)
            ca = ci.find_attr(name)
            if ca is not None:
                return self.class_attr(ca, st) if not any("Enum" in b for c in ci.mro() for b in c.base_names()) else mk("enum", ci.name, name)
            if name == "__name__":
                return const(ci.name)
            return mk("attr", v, name)
        if v.op == "ext":
            n = v.a[0] + "." + name
            return const(EXT_CONST[n]) if n in EXT_CONST else mk("ext", n)
        if v.op == "super":
            ci, selfv = v.a
            hs = self.h(st, selfv) if isinstance(selfv, N) else None
            mro = hs.cls.mro() if hs is not None and hs.cls else ci.mro()
            if ci in mro:
                mro = mro[mro.index(ci) + 1:]
            for c in mro:
                if name in c.methods:
                    return self.function(c.methods[name], None if "staticmethod" in c.methods[name].decorators else selfv, st)
            if name == "__init__" and hs is not None and any("HasTraits" in b for c in hs.cls.mro() for b in c.base_names()):
                return mk("traitinit", selfv)
            return mk("ext", "builtins.object." + name)
        if name == "parent" and (v.op == "const" and isinstance(v.a[0], str)):
            return const(v.a[0].rsplit("/", 1)[0])
        if name in ("value", "name") and v.op == "enum":
            if self.precise:
                ci = self.repo.classes.get(v.a[0])
                ca = ci.find_attr(v.a[1]) if ci is not None else None
                if name == "name":
                    return const(v.a[1])
                if ca is not None and isinstance(ca[1], ast.Constant):
                    return const(ca[1].value)
            return mk("attr", v, name)
        if (v, name) in st.over:
            return st.over[(v, name)]
        if v.op in ("const", "cat", "fmt", "file", "path", "strjoin", "rendered", "template", "listv"):
            return mk("meth", v, name)
        return mk("attr", v, name)

    def trait_default(self, r, st):
        """initial value of an attribute declared as a trait (None: not modelled)"""
        if r.op != "call" or not isinstance(r.a[0], str) or not r.a[0].startswith("traits.api."):
            return None
        kind, kw = r.a[0].split(".")[-1], dict(r.a[2]) if len(r.a) > 2 else {}
        if kind == "List" and "value" not in kw:
            return self.new_list(st)
        if kind == "Int":
            return kw.get("default_value", r.a[1][0] if r.a[1] else const(0))
        if kind == "Str":
            return kw.get("default_value", const(""))
        if kind == "Union" and r.a[1]:
            return r.a[1][0] if r.a[1][0] is NONE else None
        if kind == "Instance" and "factory" in kw and kw["factory"].op == "cls":
            return self.instantiate(kw["factory"].a[0], [], {}, st)
        return None

    def class_attr(self, ca, st):
        c, e = ca
        key = ("ca", c.qual, id(e))
        if key in self.gcache:
            return self.gcache[key]
        self.frames.append(Frame(FuncInfo(c.module, ast.parse("def _c(): pass").body[0]), c))
        try:
            r = self.eval(e, State({}, st.heap, st.over, st.pc))
        finally:
            self.frames.pop()
        if r.op != "ref":
            self.gcache[key] = r
        return r

    def setattr(self, v, name, val, st, node):
        if v.op == "phi":
            self.on_phi(v, st, lambda x, s: (self.setattr(x, name, val, s, node), NONE)[1])
            return
        h = self.h(st, v)
        self.event("setattr", st, node, target=v, name=name, value=val, cls=h.cls if h is not None and h.k == "obj" else None)
        if h is not None and h.k == "obj":
            if self.precise and h.cls:
                ca = h.cls.find_attr(name)
                hv = self.h(st, val)
                if ca is not None and hv is not None and hv.k == "list":
                    r = self.class_attr(ca, st)
                    if r.op == "call" and r.a[0] == "traits.api.List":
                        val = self.new_list(st, hv.items)  # a list trait stores a copy of what it is given
            f = dict(h.f)
            f[name] = val
            st.heap[v.a[0]] = HObj(h.cls, f, h.base)
        else:
            st.over[(v, name)] = val

    def known(self, c, st):
        t = truth(c)
        if t is not None:
            return t
        for (k, pol) in reversed(st.pc):
            if k is c:
                return pol
        n = not_(c)
        if n.op != "not":
            for (k, pol) in reversed(st.pc):
                if k is n:
                    return not pol
        if self.assume is not None:
            return self.assume(c, st)
        return None

    def item(self, v, k, st, node=None):
        if v.op == "phi":
            kn = self.known(v.a[0], st)
            if kn is not None:
                return self.item(v.a[1] if kn else v.a[2], k, st, node)
            return phi(v.a[0], self.item(v.a[1], k, st, node), self.item(v.a[2], k, st, node))
        if k.op == "phi" and (v.op in ("ref", "tuple", "list") or v.op == "const"):
            return phi(k.a[0], self.item(v, k.a[1], st, node), self.item(v, k.a[2], st, node))
        h = self.h(st, v)
        if k.op == "slice":
            s = self.seq(v, st)
            if s is not None and all(x.op == "const" for x in k.a):
                sl = slice(*[x.a[0] for x in k.a])
                if v.op == "const":
                    return const(v.a[0][sl])
                return self.new_list(st, s[sl]) if v.op == "ref" else mk("tuple", *s[sl])
            if v.op == "ref" and h.k == "arr":
                return mk("item", v, self.freeze_small(st, k))
            return mk("item", self.freeze_small(st, v), self.freeze_small(st, k))
        if h is not None:
            if h.k == "dict":
                if k.op == "const":
                    try:
                        if k.a[0] in h.d:
                            return h.d[k.a[0]]
                    except TypeError:
                        pass
                    if h.base is not None:
                        return self.open_item(h.base, k.a[0]) if isinstance(k.a[0], str) else mk("item", h.base, k)
                else:
                    if k in h.d:
                        return h.d[k]
                    kf = self.freeze_small(st, k)
                    for ek, ev, _ in reversed(h.extra):
                        if ek is kf or ek is k:
                            return ev
                    it = self.dict_items(h)
                    if it is not None and 0 < len(it) <= 16:
                        out = BOT
                        for kk, vv in reversed(it):
                            c = self.keyeq(k, kk, st)
                            out = phi(c, vv, out if out is not BOT else mk("keyerror", kf))
                        return out
                    if it is not None and 0 < len(it) <= 80:
                        return mk("item", self.freeze(st, v), kf)
                return mk("item", self.freeze(st, v), self.freeze_small(st, k))
            if h.k == "list":
                if k.op == "const" and isinstance(k.a[0], int):
                    i = k.a[0]
                    if i >= 0 and len(h.items) > i and not any(x.op in ("rep", "cond") for x in h.items[: i + 1]):
                        return h.items[i]
                    if i < 0 and len(h.items) >= -i and not any(x.op in ("rep", "cond") for x in h.items[i:]):
                        return h.items[i]
                return mk("item", self.freeze(st, v, None, 1), self.freeze_small(st, k))
            if h.k == "arr":
                if not h.stores:
                    return mk("item", self.freeze_small(st, h.init), self.freeze_small(st, k))
                return mk("item", self.freeze_small(st, v), self.freeze_small(st, k))
        if v.op in ("tuple", "list") and k.op == "const" and isinstance(k.a[0], int):
            i = k.a[0]
            if not any(x.op in ("rep", "cond") for x in v.a) and -len(v.a) <= i < len(v.a):
                return v.a[i]
        if v.op == "const" and isinstance(v.a[0], (str, tuple)) and k.op == "const":
            try:
                return const(v.a[0][k.a[0]])
            except Exception:
                return top("index")
        kk = (v, k)
        if kk in st.over:
            return st.over[kk]
        return mk("item", self.freeze_small(st, v), self.freeze_small(st, k))

    def keyeq(self, k, kk, st):
        if k.op == "tuple" and kk.op == "tuple" and len(k.a) == len(kk.a):
            return bool_("and", tuple(self.compare("==", x, y, st) for x, y in zip(k.a, kk.a))) if k.a else TRUE
        return self.compare("==", k, kk, st)

    def setitem(self, v, k, val, st, node):
        if v.op == "phi":
            self.on_phi(v, st, lambda x, s: (self.setitem(x, k, val, s, node), NONE)[1])
            return
        h = self.h(st, v)
        self.event("setitem", st, node, target=v, key=k, value=val)
        if h is not None and h.k == "dict":
            if k.op == "const":
                d = dict(h.d)
                d[k.a[0]] = val
                st.heap[v.a[0]] = HDict(d, h.extra, h.base)
            else:
                st.heap[v.a[0]] = HDict(h.d, h.extra + ((self.freeze_small(st, k), val, tuple(self.loops)),), h.base)
            return
        if h is not None and h.k == "list":
            if k.op == "const" and isinstance(k.a[0], int) and -len(h.items) <= k.a[0] < len(h.items) \
                    and not any(x.op in ("rep", "cond") for x in h.items):
                it = list(h.items)
                it[k.a[0]] = val
                st.heap[v.a[0]] = HList(it)
            else:
                st.heap[v.a[0]] = HList(h.items + (mk("store", self.freeze_small(st, k), self.freeze_small(st, val), tuple(self.loops)),))
            return
        if h is not None and h.k == "arr":
            st.heap[v.a[0]] = HArr(h.init, h.stores + (mk("store", self.freeze_small(st, k), self.freeze_small(st, val), tuple(self.loops)),))
            return
        st.over[(v, k)] = val

    # ------------------------------------------------------------ names
    def glob(self, r, st):
        if isinstance(r, FuncInfo):
            return self.function(r, None, st)
        if isinstance(r, ClassInfo):
            return mk("cls", r)
        if isinstance(r, Module):
            return mk("mod", r)
        if r[0] == "opaque":
            return mk("undef", r[2])
        if r[0] == "ext":
            return const(EXT_CONST[r[1]]) if r[1] in EXT_CONST else mk("ext", r[1])
        _, m, e = r
        key = ("g", m.name, id(e))
        if key in self.gcache:
            v = self.gcache[key]
            if v.op == "ref" and v.a[0] not in st.heap:
                st.heap[v.a[0]] = self.gcache[("h",) + key]
            return v
        prev = m.earlier.get(id(e))
        self.gcache[key] = self.glob((r[0], m, prev), st) if prev is not None else sym(f"global:{m.name}")
        self.frames.append(Frame(FuncInfo(m, ast.parse("def _g(): pass").body[0])))
        try:
            v = self.eval(e, State({}, st.heap, st.over, st.pc))
        finally:
            self.frames.pop()
        self.gcache[key] = v
        if v.op == "ref":
            self.gcache[("h",) + key] = st.heap[v.a[0]]
            if st.heap[v.a[0]].k in ("list", "dict", "set", "obj"):
                for m2, w in self.repo.changes().get(id(e), ()):
                    if isinstance(w, FuncInfo):
                        self.function(w, None, st, True)
                        continue
                    if st.heap[v.a[0]].k == "obj":
                        continue
                    self.frames.append(Frame(FuncInfo(m2, ast.parse("def _g(): pass").body[0])))
                    try:
                        for x in self.block([w], State({}, st.heap, st.over, st.pc)):
                            if x.kind == "next":
                                st.heap, st.over = x.st.heap, x.st.over
                    finally:
                        self.frames.pop()
                self.gcache[("h",) + key] = st.heap[v.a[0]]
        return v

    strict_names = False
    Raised = Raised

    def name(self, n, st):
        if n in st.env:
            return st.env[n]
        if self.frames:
            m = self.frames[-1].fi.module
            r = self.repo.lookup(m, n)
            if r is not None:
                return self.glob(r, st)
            if n == "__file__":
                return const(str(m.path))
            if n == "__name__":
                return const(m.name)
        if n in BUILTINS or n in dir(__builtins__) if not isinstance(__builtins__, dict) else n in __builtins__:
            return mk("ext", "builtins." + n)
        self.unknown.add((self.frames[-1].fi.module.rel if self.frames else "?", n))
        if self.strict_names and self.frames and not st.pc and not self.bound_somewhere(n):
            raise Raised("NameError", st)
        return mk("undef", n)

    def bound_somewhere(self, n):
        """may the current function, or the module, give a value to the name in a way which is not modelled"""
        fi = self.frames[-1].fi
        m = fi.module
        nested = not any(fi.node is f for f in m.tree.body) and fi.cls is None
        if n in bindings(fi.node) or m.stars and any(x not in self.repo.modules for x in m.stars):
            return True
        return n in (bindings(m.tree) if nested else m.bound)

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        self.steps += 1
        if self.steps > self.budget:
            return top("budget")
        if m is None:
            return top(type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def e_Attribute(self, e, st):
        return self.attr(self.eval(e.value, st), e.attr, st, e)

    def e_Subscript(self, e, st):
        v = self.eval(e.value, st)
        return self.item(v, self.eval(e.slice, st), st, e)

    def e_Slice(self, e, st):
        f = lambda x: self.eval(x, st) if x is not None else NONE
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                s = self.seq(v, st)
                out.extend(s if s is not None else [mk("rep", self.freeze_small(st, v), (mk("elem", self.freeze_small(st, v), 0),))])
            else:
                out.append(self.eval(x, st))
        return mk("tuple", *out)

    def e_List(self, e, st):
        return self.new_list(st, self.e_Tuple(e, st).a)

    def e_Set(self, e, st):
        return self.make_set(self.e_Tuple(e, st).a, st)

    def make_set(self, items, st):
        if all(x.op in ("const", "ref", "ext", "cls", "enum") for x in items):
            items = list(dict.fromkeys(items))
            if self.precise:
                return self.new(st, HSet(items))
        return mk("tuple", *items)

    def e_Dict(self, e, st):
        d, ex, base = {}, [], None
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                h = self.h(st, vv)
                if h and h.k == "dict":
                    d.update(h.d); ex.extend(h.extra); base = base or h.base
                else:
                    base = vv
                continue
            kk = self.eval(k, st)
            if kk.op == "const":
                d[kk.a[0]] = vv
            elif kk.op in ("func", "cls", "ext", "enum", "tuple"):
                d[kk] = vv
            else:
                ex.append((kk, vv, tuple(self.loops)))
        return self.new(st, HDict(d, ex, base))

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                parts.append(self.e_FormattedValue(x, st))
        return cat(const(""), *parts) if parts else const("")

    def e_FormattedValue(self, x, st):
        v = self.eval(x.value, st)
        spec = ""
        if x.format_spec is not None:
            sp = self.eval(x.format_spec, st)
            spec = sp.a[0] if sp.op == "const" else "?"
        return self.fmt(v, spec, x.conversion, st)

    def fmt(self, v, spec, conv, st):
        if v.op == "phi":
            return phi(v.a[0], self.fmt(v.a[1], spec, conv, st), self.fmt(v.a[2], spec, conv, st))
        if v.op == "const" and spec != "?" and conv in (-1, 115):
            try:
                return const(format(v.a[0], spec))
            except Exception:
                pass
        if spec == "" and is_str(v):
            return v
        return mk("fmt", self.freeze_small(st, v), spec)

    def e_BinOp(self, e, st):
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
               ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^"}
        op = ops[type(e.op)]
        l, r = self.eval(e.left, st), self.eval(e.right, st)
        return self.binop(op, l, r, st)

    def binop(self, op, l, r, st):
        if op == "+" and (l.op == "phi" or r.op == "phi") and (is_str(l) or is_str(r)) and leaves(l, 9) * leaves(r, 9) > 6:
            return cat(l, r)
        if l.op == "phi" and (is_str(l) or self.h(st, l.a[1]) or self.h(st, l.a[2])) or (l.op == "phi" and r.op == "const" and all(x.op in ("const",) for x in l.a[1:])):
            return phi(l.a[0], self.binop(op, l.a[1], r, st), self.binop(op, l.a[2], r, st))
        if r.op == "phi" and is_str(l):
            return phi(r.a[0], self.binop(op, l, r.a[1], st), self.binop(op, l, r.a[2], st))
        if op == "/" and (l.op in ("path", "cat", "const", "fmt") or is_str(l)) and (is_str(r) or r.op in ("cat", "fmt", "path")):
            return self.join(l, r)
        if op == "/" and l.op in ("sym", "attr") and is_str(r):
            return self.join(l, r)
        hl, hr = self.h(st, l), self.h(st, r)
        if op == "+" and hl is not None and hl.k == "list":
            ritems = hr.items if hr is not None and hr.k == "list" else tuple(self.seq(r, st) or ()) if self.seq(r, st) is not None else \
                (mk("rep", self.freeze_small(st, r), (mk("elem", self.freeze_small(st, r), 0),)),)
            return self.new_list(st, hl.items + tuple(ritems))
        if op == "*" and hl is not None and hl.k == "list" and r.op == "const" and isinstance(r.a[0], int) and 0 <= r.a[0] < 64:
            return self.new_list(st, hl.items * r.a[0])
        if op == "%" and l.op == "const" and isinstance(l.a[0], str):
            x = stdlib.percent(self, l.a[0], r, st)
            if x is not None:
                return x
        if hl is not None and hr is not None and op in ("|", "&", "-", "^"):
            x = stdlib.set_op(self, op, l, r, st)
            if x is not None:
                return x
            if op == "|" and hl.k == hr.k == "dict":
                x = self.new(st, hl)
                self.method(x, "update", [r], {}, st, None)
                return x
        if op == "%" and is_str(l):
            return mk("fmtmod", l, self.freeze_small(st, r))
        if op == "|" and l.op in ("cls", "ext", "const", "bin"):
            return mk("bin", "|", l, r)
        return bin_(op, self.freeze_small(st, l), self.freeze_small(st, r))

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            h = self.h(st, v)
            if h is not None and h.k in ("list", "dict"):
                t = self.truthy(v, st)
                return not_(t)
            return not_(self.truthy(v, st))
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if v.op == "const":
            try:
                return const(-v.a[0] if op == "-" else +v.a[0] if op == "+" else ~v.a[0])
            except Exception:
                pass
        return self.unop(op, v, st)

    def unop(self, op, v, st):
        return mk("un", op, self.freeze_small(st, v))

    def truthy(self, v, st):
        h = self.h(st, v)
        if h is not None:
            if h.k == "list":
                if not h.items:
                    return FALSE
                if any(x.op not in ("rep", "cond") for x in h.items):
                    return TRUE
                return mk("nonempty", self.freeze(st, v))
            if h.k == "dict":
                it = self.dict_items(h)
                if it is not None:
                    return const(bool(it))
                return mk("nonempty", self.freeze(st, v))
            if h.k == "obj":
                return TRUE
        if v.op == "phi" and (is_str(v) or v.a[1].op in ("const", "list", "tuple") or v.a[2].op in ("const", "list", "tuple")):
            memo = self.__dict__.setdefault("_tmemo", {})
            if v not in memo:
                memo[v] = phi(v.a[0], self.truthy(v.a[1], st), self.truthy(v.a[2], st))
            return memo[v]
        return v

    def e_BoolOp(self, e, st):
        op = "and" if isinstance(e.op, ast.And) else "or"
        parts = []
        cur = st
        for x in e.values:
            v = self.truthy(self.eval(x, st), st) if x is not e.values[-1] or True else None
            k = self.known(v, st)
            if k is not None and v.op not in ("const",):
                v = const(k)
            parts.append(v)
            t = truth(v)
            if (op == "and" and t is False) or (op == "or" and t is True):
                break
        return bool_(op, tuple(parts))

    def e_Compare(self, e, st):
        ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
               ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
        l = self.eval(e.left, st)
        out = None
        for o, c in zip(e.ops, e.comparators):
            r = self.eval(c, st)
            v = self.compare(ops[type(o)], l, r, st)
            out = v if out is None else bool_("and", (out, v))
            l = r
        return out

    def compare(self, op, l, r, st):
        v = self.compare0(op, l, r, st)
        if self.typed and v.op in ("cmp", "not"):
            c = v.a[0] if v.op == "not" else v
            if c.op == "cmp" and c.a[0] in ("is", "==", "is not", "!="):
                for x in c.a[1:]:
                    if x.op == "call" and x.a[0] == "builtins.type":
                        return const((v.op != "not") == (c.a[0] in ("is", "==")))
        return v

    def compare0(self, op, l, r, st):
        if op in ("in", "not in"):
            if l.op == r.op == "const" and isinstance(l.a[0], (str, bytes)) and type(l.a[0]) is type(r.a[0]):
                return const((l.a[0] in r.a[0]) == (op == "in"))
            s = self.seq(r, st)
            h = self.h(st, r)
            if h is not None and h.k == "dict" and s is not None:
                if l.op == "const" or l in s:
                    v = l in s
                    return const(v if op == "in" else not v)
            if h is not None and h.k == "dict" and s is None and l.op == "const" and l.a[0] in h.d:
                x = h.d[l.a[0]]
                if x.op == "phi" and ABSENT in x.a:
                    cc = x.a[0] if x.a[2] is ABSENT else not_(x.a[0])
                    return cc if op == "in" else not_(cc)
                if x is not ABSENT:
                    return const(op == "in")
            if self.precise and s is not None and l.op in ("ref", "const") and all(x.op in ("ref", "const", "tuple") for x in s):
                return const(any(x is l or x.op == l.op == "const" and x.a[0] == l.a[0] for x in s) == (op == "in"))
            if s is not None:
                r = mk("tuple", *s)
            return cmp_(op, self.freeze_small(st, l), self.freeze_small(st, r))
        if self.precise and op in ("is", "is not", "==", "!=") and l.op == r.op == "ref" and self.h(st, l).k == "obj" and self.h(st, r).k == "obj":
            return const((l is r) == (op in ("is", "==")))
        if self.precise and l.op == r.op == "enum" and op in ("is", "is not", "==", "!="):
            return const((l is r) == (op in ("is", "==")))
        if op in ("is", "is not", "==", "!="):
            hl = self.h(st, l)
            if hl is not None and is_const(r) and not isinstance(r.a[0], tuple):
                return const(op in ("is not", "!="))
            hr = self.h(st, r)
            if hr is not None and is_const(l) and not isinstance(l.a[0], tuple):
                return const(op in ("is not", "!="))
            if op in ("==", "!=") and hl is not None and hr is not None and hl.k == hr.k == "list":
                sl, sr = self.seq(l, st), self.seq(r, st)
                if sl is not None and sr is not None and len(sl) != len(sr):
                    return const(op == "!=")
                if sl is not None and sr is not None and all(x is y for x, y in zip(sl, sr)):
                    return const(op == "==")
        return cmp_(op, self.freeze_small(st, l), self.freeze_small(st, r))

    def e_IfExp(self, e, st):
        c = self.truthy(self.eval(e.test, st), st)
        k = self.known(c, st)
        if k is not None:
            return self.eval(e.body if k else e.orelse, st)
        c2, pol = self.canon(c)
        a, b = st.assume(c2, pol), st.assume(c2, not pol)
        x, y = self.eval(e.body, a), self.eval(e.orelse, b)
        st.become(self.merge(c, a, b, st.pc))
        return phi(c, x, y)

    def canon(self, c):
        if c.op == "not":
            return c.a[0], False
        if c.op == "cmp" and c.a[0] in ("!=", "is not", "not in"):
            return not_(c), False
        return c, True

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Lambda(self, e, st):
        self.ids += 1
        fi = FuncInfo(self.frames[-1].fi.module, e)
        fi.name = "<lambda>"
        self.closures[self.ids] = (fi, st.env)
        return mk("closure", self.ids)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        return self.give([v], st)

    def e_YieldFrom(self, e, st):
        return self.give(self.seq(self.eval(e.value, st), st), st)

    def give(self, vs, st):
        fr = self.frames[-1]
        if fr.yields is not None:
            fr.yields = fr.yields + list(vs) if stdlib.exact(vs) and st.pc == fr.entry and len(fr.yields) < 5000 else None
        return NONE

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def comp(self, e, st, emit):
        saved = dict(st.env)
        out = []

        def gen(i, s):
            if i == len(e.generators):
                return emit(s)
            g = e.generators[i]
            it = self.eval(g.iter, s)
            seq = self.seq(it, s)
            res = []
            if seq is not None:
                for x in seq:
                    self.assign(g.target, x, s, e)
                    res.extend(self._comp_ifs(g, i, s, gen))
                return res
            itf = self.freeze_small(s, it)
            self.loops.append(itf)
            try:
                self.assign(g.target, self.elem(it, s), s, e)
                body = self._comp_ifs(g, i, s, gen)
            finally:
                self.loops.pop()
            return [mk("rep", itf, tuple(self.freeze_small(s, b) if isinstance(b, N) else b for b in body))]

        out = gen(0, st)
        st.env = saved
        return out

    def _comp_ifs(self, g, i, s, gen):
        c = None
        for t in g.ifs:
            v = self.truthy(self.eval(t, s), s)
            c = v if c is None else bool_("and", (c, v))
        if c is None:
            return gen(i + 1, s)
        k = self.known(c, s)
        if k is False:
            return []
        if k is True:
            return gen(i + 1, s)
        return [mk("cond", c, tuple(gen(i + 1, s)), ())]

    def e_ListComp(self, e, st):
        return self.new_list(st, self.comp(e, st, lambda s: [self.eval(e.elt, s)]))

    def e_GeneratorExp(self, e, st):
        return self.new_list(st, self.comp(e, st, lambda s: [self.eval(e.elt, s)]))

    def e_SetComp(self, e, st):
        items = self.comp(e, st, lambda s: [self.eval(e.elt, s)])
        if all(x.op in ("const", "ref", "ext", "cls", "enum") for x in items):
            return self.make_set(items, st)
        return self.new_list(st, items)

    def e_DictComp(self, e, st):
        items = self.comp(e, st, lambda s: [mk("tuple", self.eval(e.key, s), self.eval(e.value, s))])
        if all(x.op == "tuple" and x.a[0].op == "const" for x in items):
            return self.new_dict(st, {x.a[0].a[0]: x.a[1] for x in items})
        return mk("dictcomp", tuple(items))

    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            cls = self.frames[-1].cls if self.frames else None
            if cls is not None:
                a = self.frames[-1].fi.node.args
                first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
                return mk("super", cls, st.env.get(first, NONE))
        f = self.eval(e.func, st)
        args, star, starstar, kwargs = [], None, None, {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                s = self.seq(v, st)
                if s is not None:
                    args.extend(s)
                else:
                    star = v
            else:
                args.append(self.eval(x, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                h = self.h(st, v)
                if h is not None and h.k == "dict" and not h.extra and h.base is None:
                    for kk, vv in h.d.items():
                        if isinstance(kk, str) and vv is not ABSENT:
                            kwargs[kk] = vv
                else:
                    starstar = v
            else:
                kwargs[k.arg] = v
        if f.op == "attr":
            r = self.method(f.a[0], f.a[1], args, kwargs, st, e)
            if r is not None:
                return r
        return self.call_value(f, args, kwargs, st, star, starstar, e)

    # ------------------------------------------------------------ statements
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.setattr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.setitem(b, k, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.seq(v, st)
            n = len(t.elts)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if s is not None and not stars and len(s) == n:
                for x, y in zip(t.elts, s):
                    self.assign(x, y, st, node)
            elif s is not None and stars and len(s) >= n - 1:
                i = stars[0]
                after = n - i - 1
                for x, y in zip(t.elts[:i], s[:i]):
                    self.assign(x, y, st, node)
                self.assign(t.elts[i].value, self.new_list(st, s[i:len(s) - after]), st, node)
                for x, y in zip(t.elts[i + 1:], s[len(s) - after:]):
                    self.assign(x, y, st, node)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, top("star"), st, node)
                    else:
                        self.assign(x, self.item(v, const(i), st, node), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def block(self, stmts, st):
        exits = []
        for s in stmts:
            r = self.stmt(s, st)
            if r is None:
                continue
            nxt = None
            for e in r:
                if e.kind == "next":
                    nxt = e
                else:
                    exits.append(e)
            if nxt is None:
                return exits
            if nxt.st is not st:
                st = nxt.st
        exits.append(Exit("next", st))
        return exits

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.budget:
            return None
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return None
        return m(s, st)

    def s_Expr(self, s, st):
        v = self.eval(s.value, st)
        if v is BOT:
            return []
        return None

    def s_Pass(self, s, st):
        return None

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return None

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return None

    def s_AugAssign(self, s, st):
        fake = ast.copy_location(ast.BinOp(left=_load(s.target), op=s.op, right=s.value), s)
        if isinstance(s.target, ast.Name):
            self.event("augassign", st, s, value=self.eval(fake.left, st))
        if isinstance(s.op, ast.Add):
            l = self.eval(fake.left, st)
            h = self.h(st, l)
            if h is not None and h.k == "list":
                r = self.eval(s.value, st)
                self.method(l, "extend", [r], {}, st, s)
                return None
            if h is not None and h.k == "arr":
                r = self.eval(s.value, st)
                v = self.binop("+", h.init if not h.stores else self.freeze_small(st, l), r, st)
                self.assign(s.target, v, st, s)
                return None
        v = self.eval(fake, st)
        self.assign(s.target, v, st, s)
        return None

    def s_FunctionDef(self, s, st):
        self.ids += 1
        fi = FuncInfo(self.frames[-1].fi.module, s)
        self.closures[self.ids] = (fi, st.env)
        st.env[s.name] = mk("closure", self.ids)
        st.env[s.name] = self.decorate(fi, st.env[s.name], st)
        return None

    def s_ClassDef(self, s, st):
        st.env[s.name] = top("class " + s.name)
        return None

    def decorate(self, fi, v, st):
        """what the decorators of a function make of it"""
        for d in reversed(getattr(fi.node, "decorator_list", [])):
            n = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
            if n in stdlib.PLAIN:
                continue
            v = self.call_value(self.eval(d, st), [v], {}, st, node=d)
        return v

    def plain(self, fi):
        r = getattr(fi, "is_plain", None)
        if r is None:
            r = fi.is_plain = all(ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] in stdlib.PLAIN for d in getattr(fi.node, "decorator_list", []))
        return r

    def function(self, fi, selfv, st, only=False):
        """the value a name or attribute bound to a function has"""
        f = mk("func", fi, selfv)
        if self.plain(fi):
            return f
        key = ("dec", id(fi.node))
        if key not in self.gcache and not only:
            for r in self.repo.changed_by(fi):
                self.glob(r, st)
        if key not in self.gcache:
            self.gcache[key] = mk("func", fi, None)
            self.frames.append(Frame(FuncInfo(fi.module, ast.parse("def _g(): pass").body[0]), fi.cls))
            try:
                self.gcache[key] = self.decorate(fi, mk("func", fi, None), State({}, st.heap, st.over, st.pc))
            finally:
                self.frames.pop()
        d = self.gcache[key]
        if d.op == "func" and d.a[0] is fi:
            return f
        return d if selfv is None else mk("partial", d, (selfv,), ())

    def s_Import(self, s, st):
        for al in s.names:
            m = self.repo.modules.get(al.name)
            st.env[al.asname or al.name.split(".")[0]] = mk("mod", m) if m else mk("ext", al.name if al.asname else al.name.split(".")[0])
        return None

    def s_ImportFrom(self, s, st):
        m = self.frames[-1].fi.module
        base = m._abs(s)
        for al in s.names:
            mm = self.repo.modules.get(base)
            r = self.repo.lookup(mm, al.name) if mm else None
            if r is None:
                r = self.repo.modules.get(base + "." + al.name)
            st.env[al.asname or al.name] = self.glob(r, st) if r is not None else mk("ext", base + "." + al.name)
        return None

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if v is BOT:
            return []
        return [Exit("return", st, v)]

    def s_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else NONE
        self.event("raise", st, s, value=self.freeze(st, v, None, 1))
        return [Exit("raise", st, v)]

    def s_Assert(self, s, st):
        c = self.eval(s.test, st)
        if self.precise and self.truthy(c, st) is FALSE:
            raise Raised("AssertionError", st)
        return None

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.event("delitem", st, s, target=b, key=k)
                h = self.h(st, b)
                if h is not None and h.k == "dict" and k.op == "const" and k.a[0] in h.d:
                    st.heap[b.a[0]] = HDict({x: y for x, y in h.d.items() if x != k.a[0]}, h.extra, h.base)
                elif h is not None and h.k == "list" and stdlib.exact(h.items) and k.op == "const" and isinstance(k.a[0], int) and -len(h.items) <= k.a[0] < len(h.items):
                    items = list(h.items)
                    del items[k.a[0]]
                    st.heap[b.a[0]] = HList(items)
                elif h is not None and h.k == "list" and self.precise:
                    st.heap[b.a[0]] = HList(h.items + (mk("mut", "del"),))
                elif h is not None and h.k == "dict" and self.precise:
                    st.heap[b.a[0]] = HDict(h.d, h.extra + ((top("del"), NONE, tuple(self.loops)),), h.base)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return None

    def s_Break(self, s, st):
        return [Exit("break", st)]

    def s_Continue(self, s, st):
        return [Exit("continue", st)]

    def s_If(self, s, st):
        c = self.truthy(self.eval(s.test, st), st)
        k = self.known(c, st)
        if k is not None:
            return self.block(s.body if k else s.orelse, st)
        return self.branch(c, st, lambda a: self.block(s.body, a), lambda b: self.block(s.orelse, b))

    def branch(self, c, st, fa, fb):
        c2, pol = self.canon(c)
        # decompose conjunction so that later tests see each conjunct
        a, b = st.assume(c2, pol), st.assume(c2, not pol)
        if c2.op == "bool":
            if c2.a[0] == "and" and pol or c2.a[0] == "or" and not pol:
                tgt = a if pol else a
                for x in c2.a[1]:
                    y, p = self.canon(x)
                    a.pc = a.pc + ((y, p if pol else not p),)
            elif c2.a[0] == "or" and pol or c2.a[0] == "and" and not pol:
                for x in c2.a[1]:
                    y, p = self.canon(x)
                    b.pc = b.pc + ((y, (not p) if pol else p),)
        ra, rb = fa(a), fb(b)
        na = [e for e in ra if e.kind == "next"]
        nb = [e for e in rb if e.kind == "next"]
        out = [e for e in ra + rb if e.kind != "next"]
        if na and nb:
            out.append(Exit("next", self.merge(c, na[0].st, nb[0].st, st.pc)))
        elif na or nb:
            out.append((na or nb)[0])
        return out

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
            if v.op == "call" and v.a[0] == "contextlib.suppress":
                one = ast.With(items=s.items[s.items.index(it) + 1:], body=s.body) if it is not s.items[-1] else None
                h = ast.ExceptHandler(type=ast.Tuple(elts=list(it.context_expr.args), ctx=ast.Load()), name=None, body=[ast.Pass()])
                t = ast.Try(body=[one] if one else s.body, handlers=[h], orelse=[], finalbody=[])
                return self.stmt(ast.fix_missing_locations(ast.copy_location(t, s)), st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        before = st.copy()
        self.ids += 1
        nf, nl, nd = len(self.frames), len(self.loops), self.depth
        try:
            r = self.block(s.body, st)
        except Raised as x:
            if x.st is None or x.st.pc != before.pc:
                raise
            del self.frames[nf:], self.loops[nl:]
            self.depth = nd
            st.heap, st.over = x.st.heap, x.st.over
            for h in s.handlers:
                ty = self.eval(h.type, st) if h.type is not None else NONE
                tys = ty.a if ty.op == "tuple" else (ty,)
                if ty is NONE or any(self.catches(t, x.name) for t in tys):
                    if h.name:
                        st.env[h.name] = mk("excvalue", ty)
                    out = self.block(h.body, st)
                    if s.finalbody:
                        nx = [e for e in out if e.kind == "next"]
                        out = [e for e in out if e.kind != "next"] + (self.block(s.finalbody, nx[0].st) if nx else [])
                    return out
            raise
        outs = [e for e in r if e.kind not in ("next", "raise")]
        nxt = [e for e in r if e.kind == "next"]
        if s.orelse and nxt:
            r2 = self.block(s.orelse, nxt[0].st)
            outs += [e for e in r2 if e.kind not in ("next",)]
            nxt = [e for e in r2 if e.kind == "next"]
        cur = nxt[0].st if nxt else None
        for h in (() if self.precise and cur is not None else s.handlers):
            ty = self.eval(h.type, before) if h.type is not None else NONE
            c = mk("exc", ty, len(self.loops))
            hs = before.copy()
            hs.pc = before.pc + ((c, True),)
            if h.name:
                hs.env[h.name] = mk("excvalue", ty)
            rh = self.block(h.body, hs)
            outs += [e for e in rh if e.kind not in ("next",)]
            nh = [e for e in rh if e.kind == "next"]
            if nh:
                cur = self.merge(c, nh[0].st, cur, before.pc) if cur is not None else nh[0].st
        if cur is None and not outs:
            return [e for e in r if e.kind == "raise"]
        if cur is not None:
            if s.finalbody:
                rf = self.block(s.finalbody, cur)
                outs += [e for e in rf if e.kind != "next"]
                nf = [e for e in rf if e.kind == "next"]
                cur = nf[0].st if nf else None
            if cur is not None:
                outs.append(Exit("next", cur))
        return outs

    def catches(self, t, name):
        """may a handler for t take an exception of that name"""
        import builtins
        classes = [self.repo.classes[name]] if name in self.repo.classes else []
        names = {name} | {c.name for k in classes for c in k.mro()} | {b.split(".")[-1] for k in classes for c in k.mro() for b in c.base_names()}
        for n in list(names):
            e = getattr(builtins, n, None)
            if isinstance(e, type):
                names |= {c.__name__ for c in e.__mro__}
        if classes or not hasattr(builtins, name):
            names.add("Exception")
        if t.op == "cls":
            return t.a[0].name in names
        return t.op == "ext" and t.a[0].split(".")[-1] in names

    def s_Match(self, s, st):
        v = self.eval(s.subject, st)
        return self._match(v, s.cases, st)

    def _match(self, v, cases, st):
        if not cases:
            return [Exit("next", st)]
        case = cases[0]
        c = self.pat(case.pattern, v, st)
        if case.guard is not None:
            g = self.truthy(self.eval(case.guard, st), st)
            c = bool_("and", (c, g))
        k = self.known(c, st)
        if k is True:
            return self.block(case.body, st)
        if k is False:
            return self._match(v, cases[1:], st)
        return self.branch(c, st, lambda a: self.block(case.body, a), lambda b: self._match(v, cases[1:], b))

    def pat(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            return self.compare("==", v, self.eval(p.value, st), st)
        if isinstance(p, ast.MatchSingleton):
            return self.compare("is", v, const(p.value), st)
        if isinstance(p, ast.MatchAs):
            c = self.pat(p.pattern, v, st) if p.pattern is not None else TRUE
            if p.name:
                st.env[p.name] = v
            return c
        if isinstance(p, ast.MatchOr):
            return bool_("or", tuple(self.pat(x, v, st) for x in p.patterns))
        if isinstance(p, ast.MatchClass):
            c = self.isinst(v, self.eval(p.cls, st), st)
            ty = self.eval(p.cls, st)
            if len(p.patterns) == 1 and ty.op == "ext" and ty.a[0] in ["builtins." + t for t in ("int", "str", "float", "bool", "list", "tuple", "dict", "set", "bytes")]:
                c = bool_("and", (c, self.pat(p.patterns[0], v, st)))
            elif p.patterns:
                for x in p.patterns:
                    self.pat(x, top("pattern"), st)
                c = bool_("and", (c, top("pattern")))
            for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                c = bool_("and", (c, self.pat(x, self.attr(v, k, st), st)))
            return c
        if isinstance(p, ast.MatchSequence):
            c = TRUE
            s = self.seq(v, st)
            if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                i = [isinstance(x, ast.MatchStar) for x in p.patterns].index(True)
                after = len(p.patterns) - i - 1
                if not stdlib.exact(s):
                    for x in p.patterns:
                        if isinstance(x, ast.MatchStar):
                            if x.name:
                                st.env[x.name] = top("pattern")
                        else:
                            self.pat(x, top("pattern"), st)
                    return top("pattern")
                if len(s) < len(p.patterns) - 1:
                    return FALSE
                if p.patterns[i].name:
                    st.env[p.patterns[i].name] = self.new_list(st, s[i:len(s) - after])
                for x, y in zip(p.patterns[:i] + p.patterns[i + 1:], list(s[:i]) + list(s[len(s) - after:])):
                    c = bool_("and", (c, self.pat(x, y, st)))
                return c
            if s is not None and len(s) != len(p.patterns):
                return FALSE
            for i, x in enumerate(p.patterns):
                c = bool_("and", (c, self.pat(x, self.item(v, const(i), st), st)))
            return c
        if isinstance(p, ast.MatchMapping):
            h = self.h(st, v)
            c = TRUE if h is not None and h.k == "dict" else top("pattern")
            for k, x in zip(p.keys, p.patterns):
                kv = self.eval(k, st)
                if c is not FALSE and h is not None and h.k == "dict":
                    i = self.compare("in", kv, v, st)
                    c = bool_("and", (c, i))
                    if self.known(i, st) is False:
                        return FALSE
                    c = bool_("and", (c, self.pat(x, self.item(v, kv, st), st)))
                else:
                    self.pat(x, top("pattern"), st)
            if p.rest:
                st.env[p.rest] = top("pattern")
            return c
        return top("pattern")

    def elem(self, it, st):
        if it.op == "enumerate":
            x = self.elem(it.a[0], st)
            i = mk("index", x)
            return mk("tuple", i if is_const(it.a[1], 0) else bin_("+", i, it.a[1]), x)
        if it.op == "zip":
            return mk("tuple", *[self.elem(x, st) for x in it.a])
        h = self.h(st, it)
        itf = self.freeze_small(st, it)
        nest = sum(1 for l in self.loops if l is itf) - 1
        if h is not None and h.k == "list" and len(h.items) == 1 and h.items[0].op == "rep" and len(h.items[0].a[1]) == 1:
            return h.items[0].a[1][0]
        return mk("elem", itf, max(nest, 0))

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        seq = self.seq(it, st)
        if seq is not None and len(seq) <= self.unrolled:
            outs, breaks = [], []
            cur = st
            n0 = len(st.pc)
            for x in seq:
                self.assign(s.target, x, cur, s)
                r = self.block(s.body, cur)
                nx = []
                for e in r:
                    if e.kind in ("next", "continue"):
                        nx.append((e.st.pc[len(cur.pc):] if e.st.pc[:len(cur.pc)] == cur.pc else (), e))
                    elif e.kind == "break":
                        breaks.append(e)
                    else:
                        outs.append(e)
                if not nx:
                    cur = None
                    break
                f = self.fold(nx, cur.pc)
                pc = f.st.pc
                cur = f.st
            ends = [(e.st.pc[n0:], e) for e in breaks]
            if cur is not None:
                if s.orelse:
                    r = self.block(s.orelse, cur)
                    outs += [e for e in r if e.kind != "next"]
                    nn = [e for e in r if e.kind == "next"]
                    cur = nn[0].st if nn else None
            if cur is not None:
                if ends:
                    ends.append(((), Exit("next", cur)))
                    f = self.fold(ends, st.pc)
                    f.st.pc = st.pc
                    outs.append(Exit("next", f.st))
                else:
                    outs.append(Exit("next", cur))
            elif ends:
                f = self.fold(ends, st.pc)
                outs.append(Exit("next", f.st))
            return outs
        itf = self.freeze_small(st, it)
        return self.sym_loop(s, st, itf, it)

    def s_While(self, s, st):
        c = self.truthy(self.eval(s.test, st), st)
        if self.known(c, st) is False:
            return self.block(s.orelse, st) if s.orelse else None
        if self.precise and self.known(c, st) is True:
            outs = []
            for _ in range(400):
                r = self.block(s.body, st)
                for e in r:
                    if e.kind not in ("next", "continue", "break"):
                        outs.append(e)
                go = [e for e in r if e.kind in ("next", "continue", "break")]
                if not go:
                    return outs
                if len(go) > 1:
                    raise Raised("imprecise loop", st)
                st = go[0].st
                if go[0].kind == "break":
                    return outs + [Exit("next", st)]
                k = self.known(self.truthy(self.eval(s.test, st), st), st)
                if k is False:
                    return outs + (self.block(s.orelse, st) if s.orelse else [Exit("next", st)])
                if k is None:
                    raise Raised("imprecise loop", st)
            raise Raised("endless loop", st)
        return self.sym_loop(s, st, None, None)

    def sym_loop(self, s, st, itf, it):
        names = []
        for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names:
                names.append(x.id)
        before = st.copy()
        d = len(self.loops)
        init = {}
        for i, n in enumerate(names):
            if n in st.env:
                v = st.env[n]
                init[n] = v
                if v.op != "ref":
                    st.env[n] = mk("acc", d, n)
        if itf is None:
            cond = self.truthy(self.eval(s.test, st), st)
            itf = mk("while", self.freeze_small(st, cond))
        self.loops.append(itf)
        try:
            body = st.copy()
            body.pc = st.pc + ((mk("iter", itf), True),)
            if it is not None:
                self.assign(s.target, self.elem(it, body), body, s)
            r = self.block(s.body, body)
        finally:
            self.loops.pop()
        outs, nx = [], []
        for e in r:
            if e.kind in ("next", "continue", "break"):
                nx.append((e.st.pc[len(body.pc):] if e.st.pc[:len(body.pc)] == body.pc else (), e))
            else:
                outs.append(e)
        after = before.copy()
        if nx:
            f = self.fold(nx, body.pc)
            fs = f.st
            for n, v in fs.env.items():
                if n in init:
                    acc = mk("acc", d, n)
                    v0 = init[n]
                    if v is acc or v is v0:
                        after.env[n] = v0
                    elif v0.op == "ref" and v.op == "ref":
                        after.env[n] = v
                    else:
                        after.env[n] = mk("loop", self.freeze_small(before, v0), self.freeze_small(fs, v), itf, acc)
                else:
                    after.env[n] = v
            after.over = fs.over
            for i, hv in fs.heap.items():
                ov = before.heap.get(i)
                if ov is None or ov is hv:
                    after.heap[i] = hv
                    continue
                after.heap[i] = self.loop_heap(ov, hv, itf, fs)
        if s.orelse:
            r = self.block(s.orelse, after)
            outs += [e for e in r if e.kind != "next"]
            nn = [e for e in r if e.kind == "next"]
            if nn:
                outs.append(nn[0])
            return outs
        outs.append(Exit("next", after))
        return outs

    def loop_heap(self, ov, hv, itf, fs):
        if hv.k == "list" and ov.k == "list":
            n = len(ov.items)
            if hv.items[:n] == ov.items:
                return HList(ov.items + (mk("rep", itf, tuple(self.freeze_small(fs, x) for x in hv.items[n:])),))
            return HList((mk("rep", itf, (top("list"),)),))
        if hv.k == "dict" and ov.k == "dict":
            d = {}
            for k, v in hv.d.items():
                o = ov.d.get(k, ABSENT)
                d[k] = v if o is v else (v if o is ABSENT else mk("last", itf, self.freeze_small(fs, v), self.freeze_small(fs, o)))
            return HDict(d, hv.extra, hv.base)
        if hv.k == "obj" and ov.k == "obj":
            f = {}
            for k, v in hv.f.items():
                o = ov.f.get(k)
                f[k] = v if o is v or o is None or v.op == "ref" else mk("last", itf, self.freeze_small(fs, v), self.freeze_small(fs, o))
            return HObj(hv.cls, f, hv.base)
        return hv

    # ------------------------------------------------------------ entry points
    def run(self, fi, args=(), kwargs=None, st=None, selfv=None, starstar=None):
        """Analyse a function with symbolic arguments for the missing ones."""
        st = st if st is not None else State()
        kw = dict(kwargs or {})
        return self.call_fi(fi, list(args), kw, st, None, starstar if starstar is not None else sym("arg"), selfv=selfv), st


def _load(t):
    t2 = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
    return t2
