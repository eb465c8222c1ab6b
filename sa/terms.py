"""Value numbers of the data of an unrolled loop nest: polynomials over leaves (tensor elements, weights) and hash-consed operations.

`sa/cabs.py` propagates the constants of emitted C and keeps, for data, what it depends on; with this domain it keeps which expression of the
leaves it is.  Two equal normal forms are the same value; two that differ are told apart at sample values of the leaves.
"""
from __future__ import annotations

import math
import random

from .nodes import N, show as show_node

_ATOMS: dict = {}
_LIST: list = []


def atom(*key):
    i = _ATOMS.get(key)
    if i is None:
        i = _ATOMS[key] = len(_LIST)
        _LIST.append(key)
    return i


_REP: dict = {}
_MEMO: dict = {}


def _r(c):
    """coefficients that only differ by rounding are the same: the first one seen stands for all"""
    r = _MEMO.get(c)
    if r is None:
        r = _MEMO[c] = _near(c)
    return r


def _near(c):
    if c == 0 or math.isinf(c) or math.isnan(c):
        return c
    m, e = math.frexp(abs(c))
    b = int(m * 2 ** 33)
    for k, x in ((b, e), (b - 1, e), (b + 1, e), (2 ** 33 - 1, e - 1), (2 ** 32, e + 1)):
        r = _REP.get((c > 0, k, x))
        if r is not None and abs(r - c) <= 2e-10 * abs(c):
            return r
    _REP[(c > 0, b, e)] = c
    return c


class P:
    """polynomial: monomial (sorted tuple of atoms) -> coefficient"""

    __slots__ = ("t", "k")

    def __init__(self, t):
        self.t = t
        self.k = None

    def key(self):
        if self.k is None:
            self.k = tuple(sorted((m, _r(c)) for m, c in self.t.items() if abs(c) > 1e-12))
        return self.k

    def __eq__(self, o):
        return self is o or type(o) is P and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def const(self):
        """the number it is, or None"""
        if not self.t:
            return 0.0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        k = self.key()
        return 0.0 if not k else k[0][1] if len(k) == 1 and k[0][0] == () else None

    def __repr__(self):
        return show(self)


def lift(v):
    return v if type(v) is P else P({(): float(v)} if v else {})


def leaf(*key):
    return P({(atom("leaf", *key),): 1.0})


def fn(name, *args):
    if name in ("sqrt", "exp") and len(args) == 1 and args[0].const() is not None and (name == "exp" or args[0].const() >= 0.0) and args[0].const() < 700:
        return lift(getattr(math, name)(args[0].const()))
    return P({(atom("fn", name, tuple(a.key() for a in args)),): 1.0})


def un(key):
    return P(dict(key))


def add(a, b, s=1.0):
    t = dict(a.t)
    for m, c in b.t.items():
        x = t.get(m, 0.0) + s * c
        if x == 0.0:
            t.pop(m, None)
        else:
            t[m] = x
    return P(t)


class TooLarge(Exception):
    """a polynomial that is not worth its memory"""


def mul(a, b):
    if len(a.t) * len(b.t) > 300000:
        raise TooLarge("product")
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = tuple(sorted(m + n)) if m and n else m or n
            x = t.get(k, 0.0) + c * d
            t[k] = x
    return P({k: c for k, c in t.items() if c != 0.0})


def inv(a):
    if a.const() is not None:
        c = a.const()
        return lift(1.0 / c) if c else fn("undefined")
    k = a.key()
    if len(k) == 1:
        m, c = k[0]
        r = P({(): 1.0 / c})
        for x in m:
            r = mul(r, fn("inv", P({(x,): 1.0})))
        return r
    c = k[0][1]
    return mul(lift(1.0 / c), fn("inv", P({m: d / c for m, d in k})))


def div(a, b):
    return mul(a, inv(b))


INF = math.inf


def cmp(o, a, b):
    """0, 1 or a condition"""
    x, y = a.const(), b.const()
    if x is not None and y is not None:
        return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[o])
    if o in ("<", "<="):
        o, a, b, x, y = {"<": ">", "<=": ">="}[o], b, a, y, x
    if o in (">", ">="):
        for v, r in ((x, 1), (y, 0)):
            if v is not None and (math.isinf(v) or abs(v) >= 3.4e38):   # data is finite
                return r if v > 0 else 1 - r
        d = add(a, b, -1.0)
        if not d.key():
            return int(o == ">=")
        return fn("pos" if o == ">" else "nneg", d)
    if any(v is not None and math.isinf(v) for v in (x, y)):
        return int(o == "!=")
    d = add(a, b, -1.0)
    if not d.key():
        return int(o == "==")
    if d.key()[0][1] < 0:
        d = mul(lift(-1.0), d)
    z = fn("zero", d)
    return z if o == "==" else add(lift(1.0), z, -1.0)


def _single(p):
    k = p.key()
    if len(k) == 1 and k[0][1] == 1.0 and len(k[0][0]) == 1:
        a = _LIST[k[0][0][0]]
        if a[0] == "fn":
            return a
    return None


def extremum(name, args):
    flat = set()
    for p in args:
        a = _single(p)
        if a is not None and a[1] == name:
            flat.update(a[2])
        else:
            flat.add(p.key())
    nums = {k: un(k).const() for k in flat}
    nums = {k: c for k, c in nums.items() if c is not None and c == c}
    if len(nums) > 1:       # one number is left
        flat.difference_update(nums)
        flat.add(lift((max if name == "max" else min)(nums.values())).key())
    if len(flat) > 1:       # an infinite bound is none
        flat.discard(lift(-math.inf if name == "max" else math.inf).key())
    if len(flat) == 1:
        return un(flat.pop())
    if name == "max" and len(flat) == 2:        # max(lo, min(hi, x)) is min(hi, max(lo, x)) where lo <= hi
        for k in flat:
            lo, (o,) = un(k).const(), flat - {k}
            s = _single(un(o))
            if lo is not None and s is not None and s[1] == "min":
                hi = [c for c in (un(q).const() for q in s[2]) if c is not None]
                if hi and hi[0] >= lo:
                    rest = [un(q) for q in s[2] if un(q).const() is None]
                    return extremum("min", [lift(hi[0])] + [extremum("max", [lift(lo), extremum("min", rest)])])
    return P({(atom("fn", name, tuple(sorted(flat))),): 1.0})


def clamp(d, a, b):
    """`x > hi ? hi : max(lo, x)` and `x < lo ? lo : min(hi, x)` with lo <= hi"""
    k, s = a.const(), _single(b)
    if k is None or s is None or s[1] not in ("max", "min"):
        return None
    up, ps = s[1] == "max", [un(q) for q in s[2]]
    n, rest = [c for c in (p.const() for p in ps) if c is not None], [p for p in ps if p.const() is None]
    if n and rest and (n[0] <= k if up else n[0] >= k):
        x = extremum(s[1], rest)
        if d == (add(x, a, -1.0) if up else add(a, x, -1.0)):
            return extremum("min" if up else "max", (a, b))
    return None


def ite(c, a, b):
    if type(c) is not P:
        return a if c else b
    if c.const() is not None:
        return a if c.const() else b
    if a == b:
        return a
    s = _single(c)
    if s is not None and s[1] in ("pos", "nneg"):
        d = un(s[2][0])
        e = add(a, b, -1.0)
        if e == d:
            return extremum("max", (a, b))
        if e == mul(lift(-1.0), d):
            return extremum("min", (a, b))
        m = clamp(d, a, b) or clamp(mul(lift(-1.0), d), b, a)
        if m is not None:
            return m
        if s[1] == "nneg":          # one form for the two ways of writing a test; they differ where the operand is zero only
            s, d, a, b = ("fn", "pos"), mul(lift(-1.0), d), b, a
        if d.key()[0][1] < 0:
            d, a, b = mul(lift(-1.0), d), b, a
        if (_exps(a) or _exps(b)) and same_ratio(a, b):
            return min(a, b, key=lambda p: (len(p.t), sum(map(len, p.t)), p.key()))
        return fn("ite", fn("pos", d), a, b)
    if s is None and c.t.get(()) == 1.0:
        # the negation of a condition
        n = add(lift(1.0), c, -1.0)
        if _single(n) is not None:
            return ite(n, b, a)
    return fn("ite", c, a, b)


# -------------------------------------------------- quotients of polynomials in the exponential

def _exps(p):
    """does a form divide by something that has an exponential?"""
    return any(_LIST[i][0] == "fn" and _LIST[i][1] == "inv" for m in p.t for i in m)


def ratio(p, depth=0):
    """(numerator, denominator) without inverses; exp(-x) is 1 / exp(x)"""
    num, den = lift(0.0), lift(1.0)
    if depth > 6:
        return p, den
    for m, c in p.key():
        n, d = lift(c), lift(1.0)
        for i in m:
            k = _LIST[i]
            if k[0] == "fn" and k[1] == "inv":
                a, b = ratio(un(k[2][0]), depth + 1)
                n, d = mul(n, b), mul(d, a)
            elif k[0] == "fn" and k[1] == "exp":
                z = un(k[2][0])
                if z.key() and z.key()[-1][1] < 0:
                    d = mul(d, fn("exp", mul(lift(-1.0), z)))
                else:
                    n = mul(n, P({(i,): 1.0}))
            else:
                n = mul(n, P({(i,): 1.0}))
        if d == den:
            num = add(num, n)
        else:
            num, den = add(mul(num, d), mul(n, den)), mul(den, d)
        if len(num.t) + len(den.t) > 4000:
            raise OverflowError("quotient")
    return num, den


def same_ratio(a, b):
    """the two forms, multiplied out, are the same quotient"""
    try:
        (n, d), (m, e) = ratio(a), ratio(b)
        if (len(n.t) + 1) * (len(e.t) + 1) + (len(m.t) + 1) * (len(d.t) + 1) > 40000:
            return False
        return mul(n, e) == mul(m, d)
    except OverflowError:
        return False


class Terms:
    """the domain, as sa/cabs.py uses it"""

    def lift(self, v):
        return lift(v)

    def op(self, o, a, b):
        a, b = lift(a), lift(b)
        if o == "+":
            return add(a, b)
        if o == "-":
            return add(a, b, -1.0)
        if o == "*":
            return mul(a, b)
        if o == "/":
            return div(a, b)
        if o in ("<", ">", "<=", ">=", "==", "!="):
            return cmp(o, a, b)
        if o == "&&":
            return ite(a, ite(b, lift(1), lift(0)), lift(0))
        if o == "||":
            return ite(a, lift(1), ite(b, lift(1), lift(0)))
        return fn("op" + o, a, b)

    def un(self, o, a):
        if o == "-":
            return mul(lift(-1.0), a)
        if o == "+":
            return a
        if o == "!":
            return add(lift(1.0), a, -1.0)
        return fn("un" + o, a)

    def ite(self, c, a, b):
        return ite(c, lift(a), lift(b))

    def call(self, name, args):
        args = [lift(a) for a in args]
        if name in ("fmax", "max"):
            return extremum("max", args)
        if name in ("fmin", "min"):
            return extremum("min", args)
        if name == "fma" and len(args) == 3:
            return add(mul(args[0], args[1]), args[2])
        return fn(name, *args)

    def trunc(self, v):
        return fn("trunc", v)

    def unknown(self):
        return fn("undefined")

    def hole(self, e):
        return number(e[1])


F = {"ACT": lambda x: 1.25 * x + .1 * x * x + .01 * x ** 3, "exp": math.exp, "log": lambda x: math.log(abs(x)), "sqrt": lambda x: math.sqrt(abs(x)), "tanh": math.tanh, "fabs": abs, "abs": abs, "floor": math.floor, "ceil": math.ceil, "pow": math.pow, "max": max, "min": min,
     "inv": lambda x: 1.0 / x, "ite": lambda c, a, b: a if c else b, "pos": lambda x: float(x > 0), "nneg": lambda x: float(x >= 0), "zero": lambda x: float(x == 0), "trunc": math.trunc, "erf": math.erf, "cos": math.cos, "sin": math.sin,
     "round": lambda x: math.floor(x + .5) if x >= 0 else -math.floor(-x + .5), "rint": round, "log1p": lambda x: math.log1p(abs(x)), "expm1": math.expm1}


class Point:
    """one choice of a value for every leaf"""

    def __init__(self, seed, positive=lambda key: False):
        self.seed, self.memo, self.positive = seed, {}, positive

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            k = _LIST[i]
            if k[0] == "leaf":
                r = random.Random(repr((self.seed, k[1:])))
                v = r.uniform(.3, 2.0)
                if not self.positive(k[1:]) and r.random() < .5:
                    v = -v
            else:
                if k[1] not in F:
                    raise ValueError(k[1])
                v = F[k[1]](*[self.key(x) for x in k[2]])
            self.memo[i] = v
        return v

    def key(self, k):
        s = 0.0
        for m, c in k:
            x = c
            for a in m:
                x *= self.atom(a)
            s += x
        return s

    def __call__(self, p):
        return self.key(p.key())


def differs(a, b, n=4, positive=lambda key: False):
    """a point where the two values are clearly not the same; None when there is none among the sample points; ValueError: not comparable"""
    for s in range(n):
        pt = Point(s, positive)
        try:
            x, y = pt(a), pt(b)
        except (OverflowError, ZeroDivisionError):
            continue
        if math.isnan(x) or math.isnan(y):
            continue
        if x != y and not abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)):
            return s, x, y
    return None


def show_atom(i):
    k = _LIST[i]
    if k[0] == "leaf":
        return str(k[1]) if len(k) == 2 else f"{k[1]}[{','.join(str(x) for x in k[2:])}]"
    return f"{k[1]}({', '.join(show(un(x)) for x in k[2])})"


def show(p, limit=6):
    out = []
    ks = p.key()
    for m, c in ks[:limit]:
        f = "*".join(show_atom(a) for a in m)
        out.append(f"{c:g}" if not f else f if c == 1 else f"{c:g}*{f}")
    return " + ".join(out) + (" + ..." if len(ks) > limit else "") if out else "0"


NAMES = {"numpy." + k: k for k in ("exp", "log", "sqrt", "tanh", "floor", "ceil", "fabs", "abs", "cos", "sin")}
NAMES.update({"math." + k: k for k in ("exp", "log", "sqrt", "tanh", "floor", "ceil", "fabs", "erf", "cos", "sin")})
NAMES.update({"builtins.abs": "fabs", "numpy.absolute": "fabs", "numpy.maximum": "fmax", "numpy.minimum": "fmin", "builtins.max": "fmax", "builtins.min": "fmin", "numpy.power": "pow"})
DOM = Terms()


_NUM: dict = {}


class NoNumber(ValueError):
    """a node with no value number"""


def number(n):
    """value number of a node of the value graph"""
    if not isinstance(n, N):
        return lift(n)
    r = _NUM.get(n)
    if r is None:
        if len(_NUM) > 400000:
            _NUM.clear()
        r = _NUM[n] = _number(n)
    return r


def _number(n):
    if not isinstance(n, N):
        return lift(n)
    o, a = n.op, n.a
    if o == "const" and isinstance(a[0], (int, float)):
        return lift(a[0])
    if o == "const" and isinstance(a[0], str):
        try:
            return lift(float(a[0].rstrip("fF")))
        except ValueError:
            pass
    if o == "fmt":
        return number(a[0])
    if o == "bin" and a[0] in ("+", "-", "*", "/"):
        return DOM.op(a[0], number(a[1]), number(a[2]))
    if o == "bin" and a[0] == "**":
        e = number(a[2]).const()
        b = number(a[1])
        if e == 0.5:
            return fn("sqrt", b)
        if e is not None and e == int(e) and 0 <= e <= 4:
            r = lift(1.0)
            for _ in range(int(e)):
                r = mul(r, b)
            return r
        return fn("pow", b, number(a[2]))
    if o == "un" and a[0] in ("-", "+"):
        return DOM.un(a[0], number(a[1]))
    if o == "cmp" and a[0] in ("<", ">", "<=", ">=", "==", "!="):
        return lift(cmp(a[0], number(a[1]), number(a[2])))
    if o == "not":
        return DOM.un("!", number(a[0]))
    if o == "phi":
        return ite(number(a[0]), number(a[1]), number(a[2]))
    if o == "call":
        f = a[0].a[0] if isinstance(a[0], N) and a[0].op == "ext" else a[0] if isinstance(a[0], str) else None
        if f == "ACT":
            return fn("ACT", number(a[1][0]))
        if f in NAMES and not (len(a) > 2 and a[2]):
            return DOM.call(NAMES[f], [number(x) for x in a[1]])
        if f in ("builtins.float", "numpy.float32", "numpy.float64") and len(a[1]) == 1:
            return number(a[1][0])
        if f in ("math.trunc", "numpy.floor", "numpy.ceil", "numpy.rint", "numpy.round"):
            return fn(f.split(".")[1], *[number(x) for x in a[1]])
    if o != "sym":
        raise NoNumber(show_node(n)[:100])
    return leaf(a[0])


# -------------------------------------------------- functions of one leaf, made of lines

class Split(Exception):
    pass


class NotLines(ValueError):
    pass


def leaves(p, out=None):
    out = set() if out is None else out
    todo, seen = [p.key()], set()
    while todo:
        for m, c in todo.pop():
            for i in m:
                if i in seen:
                    continue
                seen.add(i)
                k = _LIST[i]
                if k[0] == "leaf":
                    out.add(i)
                else:
                    todo.extend(k[2])
    return out


def _root(l, lo, hi):
    """where a line crosses zero inside an open interval"""
    m, q = l
    if m == 0.0:
        return None
    r = -q / m
    return r if lo < r < hi and abs(r - lo) > 1e-12 * (1 + abs(r)) and abs(r - hi) > 1e-12 * (1 + abs(r)) else None


def _mid(lo, hi):
    if math.isinf(lo):
        return hi - 1.0 if not math.isinf(hi) else 0.0
    return lo + 1.0 if math.isinf(hi) else (lo + hi) / 2


def _line(k, lo, hi):
    """slope and offset of a form on an open interval, or a point to split it at"""
    sl, of = 0.0, 0.0
    for m, c in k:
        a, b = 0.0, c
        for i in m:
            x, y = _atom_line(_LIST[i], lo, hi)
            if a and x:
                raise NotLines("product")
            a, b = a * y + b * x, b * y
        sl, of = sl + a, of + b
    return sl, of


def _sign(l, lo, hi):
    r = _root(l, lo, hi)
    if r is not None:
        raise Split(r)
    return l[0] * _mid(lo, hi) + l[1]


def _atom_line(k, lo, hi):
    if k[0] == "leaf":
        return 1.0, 0.0
    f, args = k[1], k[2]
    if f in ("max", "min", "fmax", "fmin"):
        ls = [_line(x, lo, hi) for x in args]
        b = ls[0]
        for l in ls[1:]:
            s = _sign((l[0] - b[0], l[1] - b[1]), lo, hi)
            if s > 0 and "max" in f or s < 0 and "min" in f:
                b = l
        return b
    if f in ("pos", "nneg", "zero"):
        l = _line(args[0], lo, hi)
        s = _sign(l, lo, hi)
        return 0.0, float(s > 0 if f == "pos" else s >= 0 if f == "nneg" else l == (0.0, 0.0))
    if f == "ite":
        c = _line(args[0], lo, hi)
        if c[0]:
            raise NotLines("condition")
        return _line(args[1] if c[1] else args[2], lo, hi)
    if f == "inv":
        l = _line(args[0], lo, hi)
        if l[0] or not l[1]:
            raise NotLines("inverse")
        return 0.0, 1.0 / l[1]
    raise NotLines(f)


def same_lines(a, b, budget=400):
    """are two functions of one leaf, made of lines, the same?  NotLines when they are something else"""
    d = leaves(add(a, b, -1.0))
    if len(d) != 1:
        raise NotLines("leaves")
    todo, points = [(-INF, INF)], set()
    while todo:
        lo, hi = todo.pop()
        budget -= 1
        if budget < 0:
            raise NotLines("too many pieces")
        try:
            x, y = _line(a.key(), lo, hi), _line(b.key(), lo, hi)
        except Split as s:
            r = s.args[0]
            points.add(r)
            todo += [(lo, r), (r, hi)]
            continue
        for t in (_mid(lo, hi), _mid(_mid(lo, hi), hi)):
            u, v = x[0] * t + x[1], y[0] * t + y[1]
            if not abs(u - v) <= 1e-9 * (1 + abs(u) + abs(v)):
                return False
    i, = d
    for r in points:
        pt = Point(0)
        pt.memo[i] = r
        u, v = pt(a), pt(b)
        if not abs(u - v) <= 1e-6 * (1 + abs(u) + abs(v)):
            return False
    return True
