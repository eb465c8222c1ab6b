"""Deciding whether two extracted value graphs denote the same value.

Equal after case-splitting on the conditions both depend on -> "holds".  Otherwise the two terms are compared as terms: constructors
and calls of named functions are compared argument by argument, arithmetic is compared as a function of its free symbols at sample
points.  A term which does not depend on a symbol the reference depends on, or denotes another number/string/structure, "differs";
everything else is "undecided" (reported in the evidence, never as a violation).
"""
from __future__ import annotations

import hashlib
import math
import random
from fractions import Fraction

from .mustache import NeedSplit, Valuation, partitions
from .nodes import ABSENT, BOT, N, const, mk, show, subst, walk


class Unknown(Exception):
    pass


def leaves(n, out=None):
    """free symbols (symbols, and attribute / constant-key item paths on symbols)"""
    out = set() if out is None else out

    def path(x):
        return x.op == "sym" or x.op == "attr" and isinstance(x.a[0], N) and path(x.a[0]) or \
            x.op == "item" and isinstance(x.a[0], N) and path(x.a[0]) and isinstance(x.a[1], N) and x.a[1].op == "const"

    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
            return
        if not isinstance(x, N) or x in seen:
            return
        seen.add(x)
        if path(x):
            out.add(show(x))
            return
        for y in x.a:
            rec(y)
    rec(n)
    return out


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b,
       "%": lambda a, b: a % b, "**": lambda a, b: a ** b}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       "is": lambda a, b: a is b or a == b, "is not": lambda a, b: not (a == b), "in": lambda a, b: a in b, "not in": lambda a, b: a not in b}


class Ev:
    """evaluate a phi-free term; unknown operators become tokens recorded in `opaque`"""

    def __init__(self, seed, val):
        self.seed, self.val = seed, val
        self.memo = {}
        self.opaque = set()

    def leaf(self, key):
        d = hashlib.md5(repr((self.seed, key)).encode()).digest()
        return 2 + int.from_bytes(d[:3], "big") % 37

    def v(self, n):
        if isinstance(n, tuple):
            return tuple(self.v(x) for x in n)
        if not isinstance(n, N):
            return n
        if n in self.memo:
            return self.memo[n]
        r = self.memo[n] = self.ev(n)
        return r

    def ev(self, n):
        o, a = n.op, n.a
        if o == "const":
            return a[0]
        eq = self.val.num(n) if self.val is not None else None
        if eq is not None:
            return eq
        if o == "sym":
            return self.leaf(a[0])
        if o in ("attr", "item") and o == "attr" or o == "item":
            b = self.v(a[0])
            k = a[1] if o == "attr" else self.v(a[1])
            if o == "item" and isinstance(b, (tuple, list)) and isinstance(k, int) and -len(b) <= k < len(b):
                return b[k]
            try:
                return self.leaf((o, b, k))
            except TypeError:
                raise Unknown(show(n))
        if o == "bin":
            l, r = self.v(a[1]), self.v(a[2])
            try:
                if a[0] == "/" and isinstance(l, (int, Fraction)) and isinstance(r, (int, Fraction)):
                    return Fraction(l) / Fraction(r)
                if a[0] in OPS and (not isinstance(l, str) or isinstance(r, str)) and not isinstance(l, tuple) or isinstance(l, tuple) and a[0] == "+" and isinstance(r, tuple):
                    return OPS[a[0]](l, r)
            except (ZeroDivisionError, TypeError, OverflowError):
                raise Unknown("arithmetic")
            self.opaque.add("bin" + a[0])
            return self.leaf(("bin", a[0], l, r))
        if o == "un":
            x = self.v(a[1])
            if a[0] == "-" and isinstance(x, (int, float, Fraction)):
                return -x
            self.opaque.add("un" + a[0])
            return self.leaf(("un", a[0], x))
        if o == "cmp":
            l, r = self.v(a[1]), self.v(a[2])
            try:
                return CMP[a[0]](l, r)
            except TypeError:
                raise Unknown("comparison")
        if o == "bool":
            vs = [bool(self.v(x)) for x in a[1]]
            return all(vs) if a[0] == "and" else any(vs)
        if o == "not":
            return not self.v(a[0])
        if o == "truthy":
            return bool(self.v(a[0]))
        if o in ("tuple", "list"):
            return tuple(self.v(x) for x in a)
        if o == "cat":
            vs = [self.v(x) for x in a]
            return ("cat",) + tuple(vs) if not all(isinstance(x, str) for x in vs) else "".join(vs)
        if o == "fmt":
            x = self.v(a[0])
            return str(x) if not a[1] else ("fmt", x, a[1])
        if o == "phi":
            return self.v(a[1]) if self.v(a[0]) else self.v(a[2])
        if o == "func":
            return ("func", a[0].qual)
        if o == "cls":
            return ("cls", a[0].name)
        if o in ("ext", "enum", "inst", "mod"):
            return (o,) + tuple(self.v(x) if isinstance(x, N) else str(x) for x in a)
        if o == "dict":
            if a[1]:
                self.opaque.add("dict")
            return ("dict", tuple(sorted(((k if not isinstance(k, N) else self.v(k), self.v(v)) for k, v in a[0]), key=repr)), self.v(a[1]))
        if o == "obj":
            return ("obj", a[0], tuple(sorted(((k, self.v(v)) for k, v in a[1]), key=lambda t: t[0])))
        if o == "call":
            f = a[0] if isinstance(a[0], str) else self.v(a[0])
            args, kw = self.v(a[1]), tuple((k, self.v(v)) for k, v in a[2])
            if f in ("builtins.min", "builtins.max") and len(args) > 1 and not kw:
                return (min if f.endswith("min") else max)(args)
            if f in ("builtins.int",) and len(args) == 1 and isinstance(args[0], (int, float, Fraction)):
                return int(args[0])
            if f in ("builtins.float",) and len(args) == 1 and isinstance(args[0], (int, float, Fraction)):
                return args[0]
            if f in ("builtins.abs",) and len(args) == 1 and isinstance(args[0], (int, float, Fraction)):
                return abs(args[0])
            if f in ("math.ceil", "math.floor", "numpy.ceil", "numpy.floor") and len(args) == 1 and isinstance(args[0], (int, float, Fraction)):
                return math.ceil(args[0]) if f.endswith("ceil") else math.floor(args[0])
            if f in ("builtins.tuple", "builtins.list") and len(args) == 1 and isinstance(args[0], tuple):
                return args[0]
            self.opaque.add(f"call {f}")
            return self.leaf(("call", f, args, kw))
        if o in ("top", "undef", "rep", "elem", "cond", "store", "listv"):
            self.opaque.add(o)
        elif o not in ("bottom", "absent", "keyerror"):
            self.opaque.add(o)
        return (o,) + tuple(self.v(x) if isinstance(x, (N, tuple)) else str(x) for x in a)


def consistent(ev, val):
    """does the sample satisfy the case condition (as far as it can be evaluated)"""
    for c, pol in val.items:
        try:
            op0 = set(ev.opaque)
            t = bool(ev.v(c))
            if ev.opaque - op0:
                ev.opaque = op0
                continue
            if t != pol:
                return False
        except Unknown:
            continue
    return True


def decide(ref, impl, limit=300, extra_ok=()):
    """("holds"|"differs"|"undecided", detail)"""
    if ref is impl:
        return "holds", ""
    def f(val):
        r, i = val.resolve(ref), val.resolve(impl)
        # the two polarity checks force every condition to be split
        return r, i
    full = []
    try:
        cases = partitions(f, limit=limit, on_limit=lambda: full.append(1))
    except RecursionError:
        return "undecided", "recursion"
    und = ""
    for val, (r, i) in cases:
        st, det = terms(r, i, val)
        if st == "differs":
            return "differs", (("when " + val.show()[:200] + ": ") if val.items else "") + det
        if st != "holds":
            und = und or det
    if full:
        und = und or "too many cases"
    return ("undecided", und) if und else ("holds", "")


def terms(r, i, val=None):
    if r is i:
        return "holds", ""
    val = val or Valuation()
    bad, agree, tried = None, 0, 0
    for seed in range(40):
        er, ei = Ev(seed, val), Ev(seed, val)
        try:
            if not consistent(er, val):
                continue
            tried += 1
            ar = er.v(r)
            ai = ei.v(i)
        except (Unknown, RecursionError) as e:
            return "undecided", f"not evaluated: {e}"[:200]
        if same(ar, ai):
            agree += 1
            if agree >= 6:
                return "holds", ""
            continue
        if er.opaque != ei.opaque:
            lost = leaves(r) - leaves(i)
            if not lost:
                return "undecided", f"{show(i)[:150]} against {show(r)[:150]}"
        bad = f"{show(i)[:160]} instead of {show(r)[:160]}"
        return "differs", bad
    return ("holds", "") if agree else ("undecided", f"no sample satisfies the case: {show(i)[:100]} / {show(r)[:100]} {val.show()[:200]}")


def same(a, b):
    if isinstance(a, (float, Fraction)) and isinstance(b, (int, float, Fraction)) or isinstance(b, (float, Fraction)) and isinstance(a, (int, float)):
        try:
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)))
        except OverflowError:
            return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
