"""Identity test between two reduced effects.

Used only when the normal forms of the reference and of the implementation are not syntactically equal: the two
(already extracted) normal forms are terms over shape symbols and uninterpreted array reads, and are compared as
functions at sample points.  A difference is a witness that the forms denote different functions; agreement on
every point means the normaliser was merely too weak to equate them, and nothing is reported.
"""
from __future__ import annotations

import hashlib
import itertools
import math
import random
from fractions import Fraction


class Cannot(Exception):
    pass


def h(*key):
    d = hashlib.md5(repr(key).encode()).digest()
    return (int.from_bytes(d[:6], "big") / float(1 << 48)) * 4.0 - 2.0


class Ev:
    def __init__(self, env, mem=None, budget=400000, prog=None, alias=None):
        self.env, self.mem = dict(env), mem if mem is not None else {}
        self.budget = budget
        self.prog = prog or {}      # array -> stores in order, for staged reads A@n
        self.alias = alias or {}
        self.memo = {}

    def content(self, a, n):
        """content of array a after its first n stores"""
        key = (a, n)
        if key not in self.memo:
            if n == 0:
                self.memo[key] = {}
            else:
                base = dict(self.content(a, n - 1))
                saved, self.mem = self.mem, base
                outer, self.env = self.env, {k: v for k, v in self.env.items() if not k.startswith(("#", "%"))}
                base.update(self.exec(self.prog[a][n - 1]))
                self.mem, self.env = saved, outer
                self.memo[key] = base
        return self.memo[key]

    def exec(self, s):
        pend = {}

        def rec(k):
            if k == len(s.dom):
                i = self.v(s.idx)
                pend[(s.array, i)] = self.v(s.value)
                return
            n, lo, hi = s.dom[k]
            l, u = self.v(lo), self.v(hi)
            if u - l > 200:
                raise Cannot("range")
            for z in range(int(l), math.ceil(u)):
                self.env[n] = z
                rec(k + 1)
            self.env.pop(n, None)
        rec(0)
        return pend

    def v(self, x):
        self.budget -= 1
        if self.budget < 0:
            raise Cannot("budget")
        while not x.leaf:
            p = self.v(x.cond.p)
            k = x.cond.kind
            t = p >= 0 if k == "ge" else p > 0 if k == "gt" else p == 0
            x = x.hi if t else x.lo
        tot = 0
        for m, c in x.terms:
            t = int(c) if c.denominator == 1 else (c if x.ty == "int" else float(c))
            for a in m:
                t = t * self.atom(a)
            tot = tot + t
        return tot

    def atom(self, a):
        if a.kind == "sym":
            n = a.a[0]
            if n == "INFINITY":
                return math.inf
            if n not in self.env:
                if n.startswith(("opaque", "uninit")):
                    raise Cannot(n)
                self.env[n] = (1 + int((h("sym", n) + 2) * 0.7)) if a.ty == "int" else h("sym", n)
            return self.env[n]
        if a.kind == "rd":
            i = self.v(a.a[1])
            n = a.a[0]
            if n.endswith("!OLD"):
                n = n[:-4]
                if (n, i) in self.mem:
                    return self.mem[(n, i)]
                return h("rd", self.alias.get(n, n), float(i))
            if "@" in n:
                b, _, k = n.rpartition("@")
                if not k.isdigit() or b not in self.prog:
                    raise Cannot("staged read " + n)
                c = self.content(b, int(k))
                if (b, i) in c:
                    return c[(b, i)]
                n = b
            n = self.alias.get(n, n)
            if isinstance(i, float) and (math.isinf(i) or math.isnan(i)):
                raise Cannot("index")
            if a.ty == "int":
                return int((h("rd", n, float(i)) + 2) * 0.7)
            return h("rd", n, float(i))
        if a.kind == "inv":
            q = self.v(a.a[0])
            if q == 0:
                return math.inf
            return 1.0 / q
        if a.opaque:
            raise Cannot("opaque")
        if a.kind == "red":
            kind, vs, body = a.a
            acc = {"sum": 0, "prod": 1, "max": -math.inf, "min": math.inf}.get(kind)
            if acc is None:
                raise Cannot(kind)
            saved = {n: self.env.get(n) for n, _, _ in vs}

            def rec(k, acc):
                if k == len(vs):
                    z = self.v(body)
                    return acc + z if kind == "sum" else acc * z if kind == "prod" else max(acc, z) if kind == "max" else min(acc, z)
                n, lo, hi = vs[k]
                l, u = self.v(lo), self.v(hi)
                if u - l > 64:
                    raise Cannot("range")
                for z in range(int(l), math.ceil(u)):
                    self.env[n] = z
                    acc = rec(k + 1, acc)
                return acc
            r = rec(0, acc)
            for n, z in saved.items():
                if z is None:
                    self.env.pop(n, None)
                else:
                    self.env[n] = z
            return r
        if a.kind == "fn":
            name = a.a[0]
            args = [self.v(y) for y in a.a[1:]]
            return self.call(name, args, a.ty)
        raise Cannot(a.kind)

    def call(self, name, g, ty):
        try:
            if name == "idiv":
                return int(g[0] / g[1]) if g[1] else self.bad("div")
            if name == "mod":
                return int(math.fmod(g[0], g[1])) if g[1] else self.bad("mod")
            if name == "cdiv":
                return int(g[0] / g[1]) if g[1] else self.bad("div")
            if name == "fdiv":
                return g[0] // g[1] if g[1] else self.bad("div")
            if name == "bdim":
                return g[0] if g[1] in (1, g[0]) else g[1] if g[0] == 1 else self.bad("broadcast")
            if name == "trunc":
                return int(g[0])
            if name == "floor":
                return math.floor(g[0])
            if name == "ceil":
                return math.ceil(g[0])
            if name == "exp":
                return math.exp(g[0])
            if name == "sqrt":
                return math.sqrt(abs(g[0]))
            if name == "tanh":
                return math.tanh(g[0])
            if name == "fabs":
                return abs(g[0])
            if name in ("max2", "min2"):
                return max(g) if name == "max2" else min(g)
        except (OverflowError, ValueError):
            raise Cannot(name)
        return h("fn", name, tuple(round(float(z), 9) for z in g))

    def bad(self, w):
        raise Cannot(w)


def run(prog, out, env, budget=400000, alias=None):
    ev = Ev(env, {}, budget, prog, alias)
    return ev.content(out, len(prog[out]))


def near(a, b):
    if a == b:
        return True
    try:
        a, b = float(a), float(b)
    except (OverflowError, TypeError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def symbols(stores):
    out = set()
    for s in stores:
        b = {n for n, _, _ in s.dom}
        for x in [s.idx, s.value] + [y for _, lo, hi in s.dom for y in (lo, hi)]:
            out |= {n for n in x.fv if n not in b and not n.startswith("%")}
    return out


def sample(names, positive, nonneg, floats, rng):
    env = {}
    for n in sorted(names):
        rng.n = n
        if n in floats:
            env[n] = rng.uniform(0.1, 2.0)
        elif n in nonneg:
            env[n] = rng.choice((0, 1, 2))
        elif n in positive:
            env[n] = rng.choice((1, 2, 3, 2, 3))
    if "min_value" in env and "max_value" in env:       # bounds are ordered
        lo, hi = sorted((env["min_value"], env["max_value"]))
        env["min_value"], env["max_value"] = lo - 1.3, hi
    if "pool" in env:       # a window lies at least partly on the input
        for n in ("pad_top", "pad_left", "pad_bottom", "pad_right"):
            if n in env:
                env[n] = min(env[n], env["pool"] - 1)
    for o, i, k, a, b in (("OH", "IH", "KH", "pad_top", "pad_bottom"), ("OW", "IW", "KW", "pad_left", "pad_right")):
        kk = k if k in names else "pool" if "pool" in names else None
        if kk and i in names and "stride" in names:
            eff = (env[kk] - 1) * env.get("dil", 1) + 1
            tot = env[i] + env.get(a, 0) + env.get(b, 0)
            while tot < eff:
                env[i] += 1
                tot += 1
            env[o] = (tot - eff) // env["stride"] + 1
    return env


def compare(spec, impl, out, positive, nonneg, floats, rounds=14, alias=None):
    """spec, impl: array -> stores.  'same' / ('different', witness) / ('unknown', why)"""
    rng = random.Random(7)
    names = symbols([s for l in spec.values() for s in l]) | symbols([s for l in impl.values() for s in l])
    ok = 0
    why = ""
    for k in range(rounds):
        env = sample(names, positive, nonneg, floats, rng)
        try:
            a = run(spec, out, dict(env))
            env["size"] = len(a)        # the constructors reject a size which is not the number of output elements
            b = run(impl, out, dict(env), alias=alias)
        except (Cannot, ZeroDivisionError, OverflowError, ValueError) as e:
            why = str(e)
            continue
        ok += 1
        for key in sorted(a, key=repr):     # elements beyond the layer's size are scratch
            if key not in b or not near(a[key], b[key]):
                w = {n: env[n] for n in sorted(env)}
                return "different", f"element {key[1]} differs for " + ", ".join(f"{n}={z if isinstance(z, int) else round(z, 3)}" for n, z in w.items())
    if ok >= 4:
        return "same", ""
    return "unknown", why


def fingerprint(impl, out, positive, nonneg, floats, rounds=6, alias=None):
    """Behavioural identity of an effect on `out`: checksums of its value at fixed sample points (None when it cannot be evaluated).

    Two different texts with the same effect have the same fingerprint; it names which defect a known finding is about."""
    names = set(positive) | set(nonneg) | set(floats)
    res = []
    for k in range(rounds):
        class R:        # values depend on the symbol only, so that new symbols leave recorded fingerprints alone
            def choice(self, xs):
                return xs[int((h("fp", self.n, k) + 2) * 1e6) % len(xs)]

            def uniform(self, a, b):
                return a + (b - a) * (h("fp", self.n, k) + 2) / 4
        env = sample(names, positive, nonneg, floats, R())
        env["size"] = env["OC"] * env["OH"] * env["OW"]
        try:
            a = run(impl, out, dict(env), alias=alias)
        except (Cannot, ZeroDivisionError, OverflowError, ValueError, TypeError):
            res += [0, 0.0]
            continue
        tot = 0.0
        for key, z in a.items():
            z = float(z)
            tot += (z if math.isfinite(z) else 7.0) * h("w", float(key[1]))
        res += [len(a), round(tot, 7)]
    return res if any(res) else None
