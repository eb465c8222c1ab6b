"""Meaning of small functions of the standard library (functools, itertools, operator, ...) on values whose items are known."""
from __future__ import annotations

import itertools
import math
import string

from .nodes import FALSE, NONE, TRUE, N, bin_, cat, const, is_str, mk

OPERATORS = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "matmul": "@",
             "lshift": "<<", "rshift": ">>", "or_": "|", "and_": "&", "xor": "^", "concat": "+"}
COMPARISONS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "is_": "is", "is_not": "is not"}
MATH = {"log", "log2", "log10", "sqrt", "exp", "pow", "gcd", "lcm", "fabs", "trunc", "hypot", "sin", "cos", "tan", "tanh", "sinh", "cosh",
        "isqrt", "copysign", "fmod", "isclose", "comb", "perm", "factorial"}
# decorators which leave the meaning of what they decorate alone
PLAIN = {"staticmethod", "classmethod", "property", "cached_property", "abstractmethod", "abstractproperty", "override", "final", "lru_cache",
         "cache", "overload", "setter", "getter", "deleter", "no_type_check", "njit", "jit", "deprecated", "typechecked", "dataclass",
         "total_ordering", "runtime_checkable", "unique", "provides", "observe", "on_trait_change"}


def exact(s):
    return s is not None and not any(x.op in ("rep", "cond", "mut", "popped", "inserted", "store") for x in s)


def call(I, name, args, kwargs, st, node):
    b = name[9:] if name.startswith("builtins.") else None
    mod, _, f = name.rpartition(".")
    seqs = lambda vs: [I.seq(v, st) for v in vs]
    apply = lambda g, *a: I.call_value(g, list(a), {}, st, node=node)
    if b == "map" and len(args) >= 2 and not kwargs:
        ss = seqs(args[1:])
        if all(exact(s) for s in ss):
            return I.new_list(st, [apply(args[0], *t) for t in zip(*ss)])
    elif b == "filter" and len(args) == 2:
        s = I.seq(args[1], st)
        if exact(s):
            out = []
            for x in s:
                k = I.known(I.truthy(x if args[0] is NONE else apply(args[0], x), st), st)
                if k is None:
                    return None
                if k:
                    out.append(x)
            return I.new_list(st, out)
    elif b == "iter" and len(args) == 1:
        s = I.seq(args[0], st)
        h = I.h(st, args[0])
        if h is not None and h.k == "iter":
            return args[0]
        if exact(s):
            return I.new_list(st, s)
    elif b == "next" and args:
        h = I.h(st, args[0])
        if h is not None and h.k == "list" and exact(h.items):
            if h.items:
                st.heap[args[0].a[0]] = type(h)(h.items[1:])
                return h.items[0]
            if len(args) > 1:
                return args[1]
            if I.precise and not st.pc:
                raise I.Raised("StopIteration", st)
    elif b == "divmod" and len(args) == 2:
        return mk("tuple", I.binop("//", args[0], args[1], st), I.binop("%", args[0], args[1], st))
    elif b == "pow" and len(args) == 2:
        return I.binop("**", args[0], args[1], st)
    elif b == "slice" and args and not kwargs:
        a = list(args) if len(args) > 1 else [NONE, args[0]]
        return mk("slice", *(a + [NONE] * (3 - len(a))))
    elif b == "callable" and len(args) == 1 and args[0].op in ("func", "closure", "cls", "partial"):
        return TRUE
    elif b == "sum" and (len(args) == 2 or len(args) == 1 and "start" in kwargs):
        s = I.seq(args[0], st)
        if not exact(s):
            return mk("call", name, tuple(I.freeze_small(st, x) for x in args), tuple(sorted((k, I.freeze_small(st, v)) for k, v in kwargs.items())))
        r = args[1] if len(args) == 2 else kwargs["start"]
        for x in s:
            r = I.binop("+", r, x, st)
        return r
    elif b in ("min", "max") and args and set(kwargs) in ({"key"}, {"key", "default"}):
        s = list(args) if len(args) > 1 else I.seq(args[0], st)
        if exact(s):
            if not s:
                return kwargs.get("default")
            ks = [apply(kwargs["key"], x) for x in s]
            if all(k.op == "const" for k in ks):
                try:
                    return s[(min if b == "min" else max)(range(len(s)), key=lambda i: ks[i].a[0])]
                except TypeError:
                    return None
    elif name == "builtins.dict.fromkeys" and args:
        s = I.seq(args[0], st)
        if exact(s):
            r = I.new_dict(st, {})
            for k in s:
                I.setitem(r, k, args[1] if len(args) > 1 else NONE, st, node)
            return r
    elif mod == "functools":
        if f == "reduce" and len(args) >= 2:
            s = I.seq(args[1], st)
            if exact(s) and (s or len(args) > 2):
                s = list(args[2:]) + list(s)
                r = s[0]
                for x in s[1:]:
                    r = apply(args[0], r, x)
                return r
        elif f in ("wraps", "update_wrapper"):
            return mk("identity") if f == "wraps" else args[0] if args else None
        elif f in ("lru_cache", "cache"):
            return args[0] if args and args[0].op in ("func", "closure") else mk("identity")
    elif mod == "itertools" or mod == "itertools.chain":
        if name == "itertools.chain":
            ss = seqs(args)
            if all(exact(s) for s in ss):
                return I.new_list(st, [x for s in ss for x in s])
        elif f == "from_iterable" and len(args) == 1:
            s = I.seq(args[0], st)
            ss = seqs(s) if exact(s) else [None]
            if all(exact(s) for s in ss):
                return I.new_list(st, [x for s in ss for x in s])
        elif f == "product" and set(kwargs) <= {"repeat"}:
            ss = seqs(args)
            rep = kwargs.get("repeat", const(1))
            if all(exact(s) for s in ss) and rep.op == "const" and math.prod(len(s) for s in ss) ** rep.a[0] <= 4096:
                return I.new_list(st, [mk("tuple", *t) for t in itertools.product(*ss, repeat=rep.a[0])])
        elif f == "accumulate" and args:
            s = I.seq(args[0], st)
            g = args[1] if len(args) > 1 else kwargs.get("func", NONE)
            if exact(s):
                out = [kwargs["initial"]] if "initial" in kwargs and kwargs["initial"] is not NONE else []
                for x in s:
                    out.append(x if not out else I.binop("+", out[-1], x, st) if g is NONE else apply(g, out[-1], x))
                return I.new_list(st, out)
        elif f == "repeat" and len(args) == 2 and args[1].op == "const":
            return I.new_list(st, [args[0]] * args[1].a[0])
        elif f == "pairwise" and len(args) == 1:
            s = I.seq(args[0], st)
            if exact(s):
                return I.new_list(st, [mk("tuple", x, y) for x, y in zip(s, s[1:])])
        elif f == "starmap" and len(args) == 2:
            s = I.seq(args[1], st)
            ss = seqs(s) if exact(s) else [None]
            if all(exact(x) for x in ss):
                return I.new_list(st, [apply(args[0], *x) for x in ss])
    elif mod in ("operator", "_operator"):
        if f in OPERATORS and len(args) == 2:
            return I.binop(OPERATORS[f], args[0], args[1], st)
        if f in COMPARISONS and len(args) == 2:
            return I.compare(COMPARISONS[f], args[0], args[1], st)
        if f == "contains" and len(args) == 2:
            return I.compare("in", args[1], args[0], st)
        if f == "getitem" and len(args) == 2:
            return I.item(args[0], args[1], st, node)
        if f in ("neg", "pos") and len(args) == 1 and args[0].op == "const":
            return const(-args[0].a[0] if f == "neg" else args[0].a[0])
        if f in ("attrgetter", "itemgetter") and args and not kwargs:
            return mk("getter", f, tuple(args))
    elif name == "typing.cast" and len(args) == 2:
        return args[1]
    elif mod == "math" and f in MATH and args and not kwargs and all(x.op == "const" for x in args):
        try:
            return const(getattr(math, f)(*[x.a[0] for x in args]))
        except (ValueError, OverflowError, TypeError):
            return None
    elif name == "math.prod" and len(args) == 1:
        s = I.seq(args[0], st)
        if exact(s):
            r = kwargs.get("start", const(1))
            for x in s:
                r = x if r.op == "const" and r.a[0] == 1 else I.binop("*", r, x, st)
            return r
    elif name == "dataclasses.field" and I.precise:
        if set(kwargs) & {"default_factory"} and kwargs["default_factory"].op in ("ext", "closure", "func", "cls"):
            return None
    return None


def getter(I, f, args, st, node):
    kind, names = f.a
    out = []
    for n in names:
        v = args[0]
        if kind == "itemgetter":
            v = I.item(v, n, st, node)
        elif n.op == "const" and isinstance(n.a[0], str):
            for p in n.a[0].split("."):
                v = I.attr(v, p, st, node)
        else:
            return None
        out.append(v)
    return out[0] if len(out) == 1 else mk("tuple", *out)


def formatted(I, text, args, kwargs, st):
    """text.format(*args, **kwargs)"""
    out, auto = [], 0
    try:
        parts = list(string.Formatter().parse(text))
    except ValueError:
        return None
    for lit, field, spec, conv in parts:
        if lit:
            out.append(const(lit))
        if field is None:
            continue
        if spec and "{" in spec:
            return None
        if field == "":
            field, auto = str(auto), auto + 1
        if field.isdigit():
            if int(field) >= len(args):
                return None
            v = args[int(field)]
        elif field.isidentifier():
            if field not in kwargs:
                return None
            v = kwargs[field]
        else:
            return None
        out.append(I.fmt(v, spec or "", ord(conv) if conv else -1, st))
    return cat(*out) if out else const("")


def percent(I, text, v, st):
    """text % v, for plain %s and %d"""
    vs = list(v.a) if v.op == "tuple" else [v]
    out, i, k = [], 0, 0
    while i < len(text):
        j = text.find("%", i)
        if j < 0:
            out.append(const(text[i:]))
            break
        if j > i:
            out.append(const(text[i:j]))
        c = text[j + 1:j + 2]
        if c == "%":
            out.append(const("%"))
        elif c in ("s", "d", "i") and k < len(vs):
            x = vs[k]
            k += 1
            if c != "s" and not (x.op == "const" and isinstance(x.a[0], int)):
                return None
            out.append(I.fmt(x, "", -1, st))
        else:
            return None
        i = j + 2
    return cat(*out) if k == len(vs) and out else None


def set_op(I, op, l, r, st):
    """set operations on sets of constants or objects"""
    hl, hr = I.h(st, l), I.h(st, r)
    if hl is None or hr is None or hl.k != "set" or hr.k != "set" or op not in ("|", "&", "-", "^"):
        return None
    a, b = list(hl.items), list(hr.items)
    if not all(x.op in ("const", "ref", "cls", "ext", "enum") for x in a + b):
        return None
    inn = lambda x, s: any(x is y for y in s)
    out = {"|": a + [x for x in b if not inn(x, a)], "&": [x for x in a if inn(x, b)], "-": [x for x in a if not inn(x, b)],
           "^": [x for x in a if not inn(x, b)] + [x for x in b if not inn(x, a)]}[op]
    return I.new(st, type(hl)(out))
