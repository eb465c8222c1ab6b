"""Pointwise normal forms of numpy expressions.

The value graph of a Python method over arrays (slices, loops that fill an array, broadcasting, reductions, products,
reshapes) is turned into an index function: shape and, for symbolic subscripts, the element stored there, in the same
normal form (sa/poly.py) that the analysis of the generated C uses.  Nothing is executed.
"""
from __future__ import annotations

from . import poly as P
from .nodes import N, const as nconst, show, walk
from .poly import add, const, div, mod, mul, neg, sub, sym

ZERO, ONE = const(0), const(1)
const0 = nconst(0)


class Cannot(Exception):
    pass


class Arr:
    def __init__(self, shape, get, flat=None):
        self.shape, self.get, self._flat = list(shape), get, flat

    def at(self, idx):
        return self.get(list(idx))

    def flat(self, lin):
        if self._flat is not None:
            return self._flat(lin)
        return self.get(unlin(lin, self.shape))

    def map(self, f):
        return Arr(self.shape, lambda i: f(self.get(i)), (lambda l: f(self.flat(l))) if self._flat else None)


def base(name, shape, ty="float"):
    return Arr(shape, lambda i: P.read(name, lin(i, shape), ty), lambda l: P.read(name, l, ty))


def lin(idx, shape):
    out = ZERO
    for i, n in zip(idx, shape):
        out = add(mul(out, n), i)
    return out


def unlin(l, shape):
    out = []
    for n in reversed(shape[1:]):
        out.append(mod(l, n))
        l = P.fn("idiv", [l, n], "int") if not (P.isconst(n) and P.cval(n) == 1) else l
    out.append(l)
    return out[::-1]


def one(v):
    return P.isconst(v) and P.cval(v) == 1


def prod(xs):
    out = ONE
    for x in xs:
        out = mul(out, x)
    return out


def bdim(a, b):
    if a is b or one(b):
        return a
    if one(a):
        return b
    return P.fn("bdim", sorted([a, b], key=lambda v: v.k), "int")


def floordiv(u, v):
    if one(v):
        return u
    if P.isconst(u) and P.isconst(v) and P.cval(v):
        return P.const(int(P.cval(u) // P.cval(v)))
    return P.fn("fdiv", [u, v], "int")


def bcast(x, shape):
    """index function of x broadcast to shape"""
    if not isinstance(x, Arr):
        return lambda i: x
    k = len(shape) - len(x.shape)

    def get(i):
        j = []
        for d, ii, full in zip(x.shape, i[k:], shape[k:]):
            if one(d):
                j.append(ZERO)
            elif d is full:
                j.append(ii)
            elif "bdim(" in d.k:
                j.append(ii)        # itself a broadcast extent: the operands below wrap by their own extents
            else:
                j.append(mod(ii, d))
        return x.get(j)
    return get


def shape_of(*xs):
    r = max((len(x.shape) for x in xs if isinstance(x, Arr)), default=0)
    out = [ONE] * r
    for x in xs:
        if isinstance(x, Arr):
            k = r - len(x.shape)
            for i, d in enumerate(x.shape):
                out[k + i] = bdim(out[k + i], d)
    return out


def pointwise(f, *xs):
    if not any(isinstance(x, Arr) for x in xs):
        return f(*xs)
    sh = shape_of(*xs)
    gs = [bcast(x, sh) for x in xs]
    return Arr(sh, lambda i: f(*[g(i) for g in gs]))


def reshape(x, shape):
    if not isinstance(x, Arr):
        x = Arr([], lambda i: x)
    shape = list(shape)
    neg1 = [k for k, s in enumerate(shape) if P.isconst(s) and P.cval(s) == -1]
    if neg1:
        rest = [s for k, s in enumerate(shape) if k not in neg1]
        if len(rest) == 0:
            shape[neg1[0]] = prod(x.shape)
        else:
            q = P.exact_div(prod(x.shape), prod(rest))
            if q is None:
                raise Cannot("reshape -1")
            shape[neg1[0]] = q
    a = [s for s in x.shape if not one(s)]
    b = [s for s in shape if not one(s)]
    if len(a) == len(b) and all(p is q for p, q in zip(a, b)):
        def get(i):
            it = iter([ii for ii, s in zip(i, shape) if not one(s)])
            return x.get([ZERO if one(s) else next(it) for s in x.shape])
        return Arr(shape, get, x._flat)
    return Arr(shape, lambda i: x.flat(lin(i, shape)), lambda l: x.flat(l))


def transpose(x, perm=None):
    n = len(x.shape)
    perm = list(range(n))[::-1] if perm is None else [p % n for p in perm]
    if sorted(perm) != list(range(n)):
        raise Cannot("transpose")
    inv = [perm.index(k) for k in range(n)]
    return Arr([x.shape[p] for p in perm], lambda i: x.get([i[inv[k]] for k in range(n)]))


def reduce_axes(kind, x, axes=None, keep=False):
    if not isinstance(x, Arr):
        return x
    n = len(x.shape)
    axes = list(range(n)) if axes is None else sorted({a % n for a in axes})
    keepd = [k for k in range(n) if k not in axes]
    k0 = "sum" if kind == "mean" else kind

    def get(i):
        names = {a: P.fresh("r") for a in axes}
        it = iter(i)
        idx = []
        for k in range(n):
            if k in names:
                idx.append(sym(names[k]))
                if keep:
                    next(it)
            else:
                idx.append(next(it))
        vs = [(names[a], ZERO, x.shape[a]) for a in axes if not one(x.shape[a])]
        body = x.get(idx)
        f = P.Subst({names[a]: ZERO for a in axes if one(x.shape[a])})
        body = f(body)
        r = P.reduce_(k0, vs, body) if vs else body
        if kind == "mean":
            r = div(P.as_float(r), prod(x.shape[a] for a in axes))
        return r
    sh = [(ONE if k in axes else x.shape[k]) for k in range(n)] if keep else [x.shape[k] for k in keepd]
    return Arr(sh, get) if sh else get([])


def contract(a, b):
    """numpy.dot / matmul of operands of rank 1 or more"""
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        raise Cannot("product of scalars")
    ra, rb = len(a.shape), len(b.shape)
    if ra == 0 or rb == 0:
        return pointwise(mul, a, b)
    k = a.shape[-1]

    def get(i):
        n = P.fresh("r")
        if ra == 1 and rb == 1:
            ia, ib = [sym(n)], [sym(n)]
        elif ra == 1:
            ia, ib = [sym(n)], list(i[:rb - 2]) + [sym(n), i[-1]]
        elif rb == 1:
            ia, ib = list(i) + [sym(n)], [sym(n)]
        else:
            bat = list(i[:-2])
            ia = bat[len(bat) - (ra - 2):] if ra > 2 else []
            ib = bat[len(bat) - (rb - 2):] if rb > 2 else []
            ia = [ZERO if one(s) else j for s, j in zip(a.shape, ia)] + [i[-2], sym(n)]
            ib = [ZERO if one(s) else j for s, j in zip(b.shape, ib)] + [sym(n), i[-1]]
        return P.reduce_("sum", [(n, ZERO, k)], mul(a.get(ia), b.get(ib)))
    if ra == 1 and rb == 1:
        return get([])
    if ra == 1:
        sh = b.shape[:rb - 2] + [b.shape[-1]]
    elif rb == 1:
        sh = a.shape[:-1]
    else:
        A, B = a.shape[:-2], b.shape[:-2]
        r = max(len(A), len(B))
        A = [ONE] * (r - len(A)) + A
        B = [ONE] * (r - len(B)) + B
        sh = [y if one(x) else x for x, y in zip(A, B)] + [a.shape[-2], b.shape[-1]]
    return Arr(sh, get)


def const_of(n):
    if n.op == "const":
        return n.a[0]
    raise Cannot("constant expected: " + show(n)[:80])


class Fwd:
    """Converts value-graph nodes.  env: symbol node name -> Arr / V; act: name of the activation object's base"""

    def __init__(self, env, val, resolve=None, floats=()):
        self.env, self.val, self.floats = env, val, set(floats)
        self.elems = {}
        self.accs = {}
        self.memo = {}
        self.resolve = resolve

    # ---- conditions
    def boolean(self, c):
        """V used as a boolean, or None when it has to be split on"""
        if c.op == "const":
            return ONE if c.a[0] else ZERO
        if c.op == "not":
            b = self.boolean(c.a[0])
            return None if b is None else P.not_(b)
        if c.op == "bool":
            bs = [self.boolean(x) for x in c.a[1]]
            if any(b is None for b in bs):
                return None
            out = bs[0]
            for b in bs[1:]:
                out = P.and_(out, b) if c.a[0] == "and" else P.or_(out, b)
            return out
        if c.op == "phi":
            b, t, f = self.boolean(c.a[0]), self.boolean(c.a[1]), self.boolean(c.a[2])
            return None if b is None or t is None or f is None else P.b_ite(b, t, f)
        if c.op == "truthy":
            return self.boolean(c.a[0])
        if c.op == "cmp" and c.a[0] in ("<", "<=", "==", "!="):
            try:
                l, r = self.num(c.a[1]), self.num(c.a[2])
            except Cannot:
                return None
            return {"<": P.lt, "<=": P.le, "==": P.eq, "!=": lambda a, b: P.not_(P.eq(a, b))}[c.a[0]](l, r)
        if c.op in ("bin", "sym", "attr", "item", "call", "un"):
            try:
                return P.not_(P.eq(self.num(c), ZERO))
            except Cannot:
                return None
        return None

    def choose(self, c):
        """resolve a condition that is not arithmetic by splitting the valuation"""
        if c.op == "cmp" and c.a[0] in ("==", "!=") and (c.a[1].op == "phi" or c.a[2].op == "phi"):
            from .nodes import cmp_
            for k in (1, 2):
                x = c.a[k]
                if x.op == "phi":
                    y = x.a[1] if self.truth(x.a[0]) else x.a[2]
                    return self.choose(cmp_(c.a[0], *((y, c.a[2]) if k == 1 else (c.a[1], y))))
        if c.op == "const":
            return bool(c.a[0])
        if c.op == "not":
            return not self.choose(c.a[0])
        return self.val.truth(c)

    def truth(self, c):
        return self.choose(c)

    # ---- values
    def num(self, n):
        v = self.ev(n)
        if isinstance(v, Arr):
            if all(one(s) for s in v.shape):
                return v.get([ZERO] * len(v.shape))
            raise Cannot("array where a number is expected: " + show(n)[:60])
        if isinstance(v, list):
            if len(v) == 1:
                return v[0]
            raise Cannot("list")
        if v is None:
            raise Cannot("None")
        return v

    def seq(self, n):
        if n.op == "phi":
            return self.seq(n.a[1] if self.truth(n.a[0]) else n.a[2])
        if n.op in ("tuple", "list"):
            return list(n.a)
        raise Cannot("sequence expected: " + show(n)[:80])

    def ints(self, n):
        """axis argument: None or list of constants"""
        while n.op == "phi":
            n = n.a[1] if self.truth(n.a[0]) else n.a[2]
        if n.op == "const":
            return None if n.a[0] is None else [int(n.a[0])]
        return [int(P.cval(self.num(x))) if P.isconst(self.num(x)) else self.fail(x) for x in self.seq(n)]

    def fail(self, x):
        raise Cannot(show(x)[:80])

    def ev(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.ev1(n)
            self.memo[n] = r
        return r

    def ev1(self, n):
        o, a = n.op, n.a
        if self.resolve is not None:
            r = self.resolve(self, n)
            if r is not None:
                return r
        if o == "const":
            if isinstance(a[0], bool):
                return ONE if a[0] else ZERO
            if isinstance(a[0], float) and a[0] != a[0]:
                raise Cannot("nan")
            if isinstance(a[0], float) and a[0] in (float("inf"), float("-inf")):
                return P.POSINF if a[0] > 0 else neg(P.POSINF)
            if isinstance(a[0], (int, float)):
                return const(a[0])
            raise Cannot(repr(a[0])[:40])
        if o == "sym":
            if a[0] in self.env:
                return self.env[a[0]]
            return sym(a[0], "float" if a[0] in self.floats else "int")
        if o == "elem":
            if n in self.elems:
                return self.elems[n]
            raise Cannot("loop element " + show(n)[:60])
        if o == "acc":
            if n in self.accs:
                return self.accs[n]
            raise Cannot("accumulator")
        if o == "phi":
            b = self.boolean(a[0])
            k = self.val.get(a[0])
            if k is not None:
                return self.ev(a[1] if k else a[2])
            if b is None or any(x.op in ("list", "tuple") or (x.op == "const" and not isinstance(x.a[0], (int, float))) for x in a[1:]):
                return self.ev(a[1] if self.truth(a[0]) else a[2])
            if P.isconst(b):
                return self.ev(a[1] if P.cval(b) else a[2])
            t, f = self.ev(a[1]), self.ev(a[2])
            return self.merge(b, t, f)
        if o == "un":
            x = self.ev(a[1])
            if a[0] == "-":
                return x.map(neg) if isinstance(x, Arr) else neg(x)
            raise Cannot("unary")
        if o == "bin":
            return self.bin(a[0], self.value(a[1]), self.value(a[2]))
        if o == "cmp" and a[0] in ("<", "<=", "==", "!="):
            return pointwise({"<": P.lt, "<=": P.le, "==": P.eq, "!=": lambda u, v: P.not_(P.eq(u, v))}[a[0]], self.value(a[1]), self.value(a[2]))
        if o == "not":
            x = self.value(a[0])
            return x.map(P.not_) if isinstance(x, Arr) else P.not_(x)
        if o in ("tuple", "list"):
            return self.value(n)
        if o == "attr":
            if a[1] == "T":
                return transpose(self.arr(a[0]))
            if a[1] in ("size",) and a[0].op != "sym":
                return prod(self.arr(a[0]).shape)
            return sym(show(n))
        if o == "item":
            return self.item(n)
        if o == "arr":
            return self.filled(n)
        if o == "loop":
            return self.loop(n)
        if o == "call":
            return self.call(n)
        raise Cannot(o + " " + show(n)[:60])

    def value(self, n):
        """array view of lists"""
        while n.op == "phi" and (self.boolean(n.a[0]) is None or any(x.op in ("list", "tuple") for x in n.a[1:])):
            n = n.a[1] if self.truth(n.a[0]) else n.a[2]
        if n.op in ("tuple", "list"):
            if len(n.a) == 1 and n.a[0].op == "rep":
                return self.rep(n.a[0])
            xs = [self.value(x) for x in n.a]
            if not xs:
                raise Cannot("empty list")
            if len(xs) == 1:
                x = xs[0]
                sh = x.shape if isinstance(x, Arr) else []
                return Arr([ONE] + sh, lambda i: x.get(i[1:]) if isinstance(x, Arr) else x)

            def get(i):
                out = xs[-1].get(i[1:]) if isinstance(xs[-1], Arr) else xs[-1]
                for k in range(len(xs) - 2, -1, -1):
                    v = xs[k].get(i[1:]) if isinstance(xs[k], Arr) else xs[k]
                    out = P.b_ite(P.eq(i[0], const(k)), v, out)
                return out
            return Arr([const(len(xs))] + (xs[0].shape if isinstance(xs[0], Arr) else []), get)
        return self.ev(n)

    def arr(self, n):
        v = self.value(n)
        if not isinstance(v, Arr):
            raise Cannot("array expected: " + show(n)[:60])
        return v

    def merge(self, b, t, f):
        if isinstance(t, Arr) or isinstance(f, Arr):
            if not (isinstance(t, Arr) and isinstance(f, Arr)) or len(t.shape) != len(f.shape):
                raise Cannot("different ranks")
            sh = [x if x is y else P.b_ite(b, x, y) for x, y in zip(t.shape, f.shape)]
            return Arr(sh, lambda i: P.b_ite(b, t.get(i), f.get(i)))
        if t is None or f is None:
            raise Cannot("None or value")
        return P.b_ite(b, t, f)

    def bin(self, op, x, y):
        f = {"+": add, "-": sub, "*": mul, "/": lambda u, v: div(P.as_float(u), v),
             "//": floordiv, "%": mod}.get(op)
        if op == "@":
            return contract(x, y)
        if op == "**":
            if not isinstance(y, Arr) and P.isconst(y) and P.cval(y) in (1, 2, 3):
                f = lambda u, v: prod([u] * int(P.cval(v)))
        if f is None:
            raise Cannot("operator " + op)
        return pointwise(f, x, y)

    def rep(self, r):
        """[body for _ in range] as an array"""
        itf, body = r.a
        lo, hi = self.range(itf)
        if len(body) != 1:
            raise Cannot("rep")
        e = self.elem_of(itf)
        saved = self.elems.get(e)
        nm = P.fresh("e")
        x = self.scoped({e: sym(nm)}, lambda: self.value(body[0]))
        sh = x.shape if isinstance(x, Arr) else []

        def get(i):
            v = x.get(i[1:]) if isinstance(x, Arr) else x
            return P.Subst({nm: add(lo, i[0])})(v)
        return Arr([sub(hi, lo)] + sh, get)

    def scoped(self, binds, f):
        old, oldm, olda = self.elems, self.memo, self.accs
        self.elems = {**self.elems, **{k: v for k, v in binds.items() if k.op == "elem"}}
        self.accs = {**self.accs, **{k: v for k, v in binds.items() if k.op == "acc"}}
        self.memo = {}
        try:
            return f()
        finally:
            self.elems, self.memo, self.accs = old, oldm, olda

    def elem_of(self, itf, seen=()):
        from .nodes import mk
        k = 0
        while mk("elem", itf, k) in self.elems:
            k += 1
        return mk("elem", itf, k)

    def range(self, itf):
        if itf.op == "range":
            lo, hi, st = itf.a
            if not (st.op == "const" and st.a[0] == 1):
                raise Cannot("range step")
            return self.num(lo), self.num(hi)
        raise Cannot("iterates over " + show(itf)[:60])

    # ---- indexing
    def position(self, s, n):
        """index or slice bound -> V (negative counts from the end)"""
        v = self.num(s)
        return self.wrap(v, n)

    def wrap(self, v, n):
        if P.isconst(v):
            return add(n, v) if P.cval(v) < 0 else v
        if v.leaf and v.terms and all(c < 0 for _, c in v.terms):       # -p with p >= 0: 0 stays 0
            return P.ite(P.Cond("eq", v), ZERO, add(n, v)) if len(v.terms) == 1 else add(n, v)
        if not v.leaf:
            return P.lift(lambda u: self.wrap(u, n), v)
        return v

    def bounds(self, s, n, steps=False):
        """slice -> (start, stop)"""
        lo, hi, st = s.a
        if not (st.op == "const" and st.a[0] in (None, 1)) and not steps:
            raise Cannot("slice step")
        def pos(x, d):
            if x.op == "const" and x.a[0] is None:
                return d
            if x.op == "phi":
                b = self.boolean(x.a[0])
                if b is None:
                    return pos(x.a[1] if self.truth(x.a[0]) else x.a[2], d)
                return P.b_ite(b, pos(x.a[1], d), pos(x.a[2], d))
            return self.position(x, n)
        return pos(lo, ZERO), pos(hi, n)

    def item(self, n):
        b, k = n.a
        if b.op in ("tuple", "list") and k.op == "const" and isinstance(k.a[0], int) and -len(b.a) <= k.a[0] < len(b.a) and not any(x.op in ("rep", "cond") for x in b.a):
            return self.value(b.a[k.a[0]])
        if b.op == "attr" and b.a[1] == "shape":
            return self.arr(b.a[0]).shape[const_of(k)]
        try:
            x = self.value(b)
        except Cannot:
            if b.op == "sym" and k.op == "const":
                return sym(show(n))
            raise
        if not isinstance(x, Arr):
            if b.op == "sym":
                return sym(show(n), "float" if b.a[0] in self.floats else "int")
            raise Cannot("subscript of a number")
        ks = list(k.a) if k.op == "tuple" else [k]
        if any(q.op == "const" and q.a[0] is Ellipsis for q in ks):
            p = [i for i, q in enumerate(ks) if q.op == "const" and q.a[0] is Ellipsis][0]
            from .nodes import mk, NONE
            rest = len(x.shape) - (len([q for q in ks if not (q.op == "const" and q.a[0] is None)]) - 1)
            ks[p:p + 1] = [mk("slice", NONE, NONE, NONE)] * rest
        plan, sh, d = [], [], 0
        for q in ks:
            if q.op == "const" and q.a[0] is None:
                sh.append(ONE)
                plan.append(("new", None, None))
                continue
            if d >= len(x.shape):
                raise Cannot("too many indices")
            if q.op == "slice":
                lo, hi = self.bounds(q, x.shape[d], True)
                st = ONE if q.a[2].op == "const" and q.a[2].a[0] is None else self.num(q.a[2])
                if one(st):
                    sh.append(sub(hi, lo))
                else:
                    w = P.exact_div(sub(sub(hi, lo), ONE), st)
                    if w is None or (P.isconst(st) and P.cval(st) <= 0):
                        raise Cannot("slice step")
                    sh.append(add(w, ONE))
                plan.append(("sl", lo, st))
            else:
                v = self.ev(q)
                if isinstance(v, Arr):
                    if v.shape:
                        raise Cannot("fancy index")
                    v = v.get([])
                plan.append(("ix", self.wrap(v, x.shape[d]), ONE))
            d += 1
        for m in range(d, len(x.shape)):
            sh.append(x.shape[m])
            plan.append(("sl", ZERO, ONE))

        def get(i):
            it = iter(i)
            out = []
            for kind, v, st in plan:
                if kind == "new":
                    next(it)
                elif kind == "sl":
                    out.append(add(mul(next(it), st), v))
                else:
                    out.append(v)
            return x.get(out)
        return Arr(sh, get) if sh else get([])

    def filled(self, n):
        """array filled by subscript stores in loops"""
        init, stores = n.a
        x = self.arr(init)
        for s in stores:
            x = self.stored(x, s)
        return x

    def stored(self, x, s):
        from .nodes import mk
        gates = []
        while s.op == "gated":
            gates.append(s.a[0])
            s = s.a[1]
        key, val, loops = s.a
        binds, rng = {}, {}
        cnt = {}
        for itf in loops:
            k = cnt.get(itf, 0)
            cnt[itf] = k + 1
            e = mk("elem", itf, k)
            nm = P.fresh("e")
            binds[e] = sym(nm)
            rng[nm] = self.range(itf)
        def go():
            ks = list(key.a) if key.op == "tuple" else [key]
            if len(ks) > len(x.shape):
                raise Cannot("too many subscripts")
            pos = []
            for d, q in enumerate(ks):
                if q.op == "slice":
                    pos.append(("sl",) + self.bounds(q, x.shape[d]))
                else:
                    pos.append(("ix", self.wrap(self.num(q), x.shape[d])))
            for d in range(len(ks), len(x.shape)):
                pos.append(("sl", ZERO, x.shape[d]))
            v = self.value(val)
            g = ONE
            for c in gates:
                b = self.boolean(c)
                if b is None:
                    if any(e.op == "elem" for e in walk(c)):
                        raise Cannot("condition " + show(c)[:60])
                    b = ONE if self.truth(c) else ZERO
                g = P.and_(g, b)
            return pos, v, g
        pos, v, gate = self.scoped(binds, go)
        # which loop variable each position determines
        solve = []
        used = set()
        for p in pos:
            if p[0] == "ix":
                fv = [nm for nm in rng if nm in p[1].fv]
                if not fv:
                    solve.append(None)
                    continue
                if len(fv) > 1 or fv[0] in used or not p[1].leaf:
                    raise Cannot("subscript " + p[1].k)
                off = sub(p[1], sym(fv[0]))
                if fv[0] in off.fv:
                    raise Cannot("subscript " + p[1].k)
                used.add(fv[0])
                solve.append((fv[0], off))
            else:
                if any(nm in p[1].fv or nm in p[2].fv for nm in rng):
                    raise Cannot("slice depends on the loop")
                solve.append(None)
        if used != set(rng):
            raise Cannot("the same element is stored by several iterations")
        shape = x.shape

        def get(i):
            conds, sb, sub_idx = [], {}, []
            for p, sl, ii, nn in zip(pos, solve, i, shape):
                if p[0] == "ix":
                    if sl is None:
                        if p[1] is not ii:
                            conds.append(P.eq(ii, p[1]))
                        continue
                    nm, off = sl
                    q = sub(ii, off)
                    sb[nm] = q
                    lo, hi = rng[nm]
                    if not (lo is ZERO and off is ZERO):
                        conds.append(P.le(lo, q))
                    if sub(add(hi, off), nn) is not ZERO:
                        conds.append(P.lt(q, hi))
                else:
                    if p[1] is not ZERO:
                        conds.append(P.le(p[1], ii))
                    if p[2] is not nn:
                        conds.append(P.lt(ii, p[2]))
                    sub_idx.append(sub(ii, p[1]))
            f = P.Subst(sb)
            if isinstance(v, Arr):
                w = f(v.get(sub_idx[len(sub_idx) - len(v.shape):]))
            else:
                w = f(v)
            c = f(gate)
            for b in conds:
                c = P.and_(c, f(b))
            return P.b_ite(c, w, x.get(i)) if c is not ONE else w
        return Arr(shape, get)

    def loop(self, n):
        init, body, itf, acc = n.a
        lo, hi = self.range(itf)
        x0 = self.ev(init)
        if isinstance(x0, Arr):
            raise Cannot("array accumulator")
        e = self.elem_of(itf)
        nm = P.fresh("r")
        an = P.fresh("acc")
        v = self.scoped({e: sym(nm), acc: sym(an, x0.ty)}, lambda: self.num(body))
        d = sub(v, sym(an, x0.ty))
        if an not in d.fv:
            return add(x0, P.reduce_("sum", [(nm, lo, hi)], d))
        raise Cannot("accumulation")

    # ---- calls
    def call(self, n):
        f, args, kw = n.a
        kw = dict(kw)
        if isinstance(f, N):
            if f.op == "attr":
                return self.method(f.a[0], f.a[1], args, kw, n)
            if f.op == "ext":
                f = f.a[0]
            else:
                raise Cannot("call " + show(f)[:60])
        name = f.split(".")[-1]
        if f == "ActivationFunctions.compute" or f.endswith(".compute"):
            x = self.value(args[-1])
            g = lambda v: P.fn("act", [P.as_float(v)], "float")
            return x.map(g) if isinstance(x, Arr) else g(x)
        mod_ = f.split(".")[0]
        if f in ("numpy.add.reduce", "numpy.multiply.reduce", "numpy.maximum.reduce", "numpy.minimum.reduce"):
            kw = dict(kw)
            kw.setdefault("axis", const0)
            name = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min"}[f.split(".")[1]]
        if mod_ in ("numpy", "np"):
            return self.numpy(name, list(args), kw, n)
        if mod_ in ("math", "builtins", "functools"):
            if name in ("int", "floor", "ceil", "sqrt", "exp", "float", "abs"):
                v = self.num(args[0])
                if name == "float":
                    return P.as_float(v)
                if name == "int":
                    return v if v.ty == "int" else P.simp_fn("trunc", [v], "int")
                if name in ("floor", "ceil"):
                    return v if v.ty == "int" else P.simp_fn(name, [v], "int")
                return P.simp_fn({"abs": "fabs"}.get(name, name), [P.as_float(v)], "float")
            if name in ("max", "min"):
                vs = [self.num(x) for x in (args if len(args) > 1 else self.seq(args[0]))]
                out = vs[0]
                for v in vs[1:]:
                    out = P.b_ite(P.lt(out, v), v, out) if name == "max" else P.b_ite(P.lt(v, out), v, out)
                return out
            if name == "len" and len(args) == 1:
                try:
                    return self.arr(args[0]).shape[0]
                except Cannot:
                    return sym(show(n))
            if name == "sum" and len(args) == 1:
                x = self.value(args[0])
                if isinstance(x, Arr) and len(x.shape) == 1:
                    return reduce_axes("sum", x)
            if name in ("tuple", "list"):
                return self.value(args[0])
        raise Cannot("call " + f)

    def shape_attr(self, n):
        """dimensions denoted by `array.shape` of an array under analysis"""
        if n is not None and n.op == "attr" and n.a[1] == "shape":
            try:
                x = self.value(n.a[0])
            except Cannot:
                return None
            return list(x.shape) if isinstance(x, Arr) else None
        return None

    def method(self, b, m, args, kw, n):
        if m in ("reshape",):
            if len(args) == 1 and self.shape_attr(args[0]) is not None:
                sh = self.shape_attr(args[0])
            elif len(args) == 1 and (args[0].op in ("tuple", "list", "phi")):
                sh = [self.num(x) for x in self.seq(args[0])] if not (args[0].op == "phi" and self.scalar(args[0])) else [self.num(args[0])]
            else:
                sh = [self.num(x) for x in args]
            return reshape(self.value(b), sh)
        if m in ("flatten", "ravel"):
            x = self.value(b)
            return reshape(x, [prod(x.shape)])
        if m in ("astype", "copy"):
            return self.value(b)
        if m in ("transpose",):
            x = self.arr(b)
            if not args:
                return transpose(x)
            p = args if len(args) > 1 else self.seq(args[0])
            return transpose(x, [int(const_of(q)) for q in p])
        if m in ("sum", "mean", "max", "min", "prod", "dot", "take"):
            return self.numpy(m, [b] + list(args), kw, n)
        raise Cannot("method " + m)

    def scalar(self, n):
        try:
            return self.ev(n) is not None and not isinstance(self.ev(n), Arr)
        except Cannot:
            return False

    def numpy(self, name, args, kw, n):
        for k in ("dtype", "casting", "order", "copy", "out"):
            if k == "out" and k in kw:
                raise Cannot("out=")
            kw.pop(k, None)
        if name in ("copy", "asarray", "ascontiguousarray", "array", "float32", "float64", "asanyarray"):
            return self.value(args[0])
        if name in ("zeros", "ones", "empty", "full"):
            sh = args[0] if args else kw["shape"]
            shape = [self.num(x) for x in sh.a] if sh.op in ("tuple", "list") else [self.num(sh)]
            v = {"zeros": ZERO, "ones": ONE, "empty": sym("uninit:empty", "float")}.get(name)
            if name == "full":
                v = self.num(args[1] if len(args) > 1 else kw["fill_value"])
            return Arr(shape, lambda i: v, lambda l: v)
        if name in ("zeros_like", "ones_like", "empty_like"):
            x = self.arr(args[0])
            v = {"zeros_like": ZERO, "ones_like": ONE}.get(name, sym("uninit:empty", "float"))
            return Arr(x.shape, lambda i: v, lambda l: v)
        if name == "reshape":
            sh = args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape"))
            if self.shape_attr(sh) is not None:
                return reshape(self.value(args[0]), self.shape_attr(sh))
            return reshape(self.value(args[0]), [self.num(x) for x in self.seq(sh)] if sh.op in ("tuple", "list", "phi") else [self.num(sh)])
        if name in ("ravel",):
            x = self.arr(args[0])
            return reshape(x, [prod(x.shape)])
        if name in ("sum", "mean", "prod", "amax", "amin", "max", "min", "average"):
            ax = args[1] if len(args) > 1 else kw.get("axis")
            keep = kw.get("keepdims")
            if set(kw) - {"axis", "keepdims"} or len(args) > 2:
                raise Cannot("reduction arguments")
            kd = False
            if keep is not None:
                kd = self.truth(keep)
            return reduce_axes({"amax": "max", "amin": "min", "average": "mean"}.get(name, name), self.value(args[0]), None if ax is None else self.ints(ax), kd)
        if name in ("exp", "sqrt", "tanh", "floor", "ceil", "log", "abs", "absolute"):
            f = lambda v: P.simp_fn({"abs": "fabs", "absolute": "fabs"}.get(name, name), [P.as_float(v)], "float")
            x = self.value(args[0])
            return x.map(f) if isinstance(x, Arr) else f(x)
        if name in ("add", "subtract", "multiply", "divide", "true_divide"):
            return self.bin({"add": "+", "subtract": "-", "multiply": "*"}.get(name, "/"), self.value(args[0]), self.value(args[1]))
        if name in ("maximum", "minimum"):
            f = (lambda a, b: P.b_ite(P.lt(a, b), b, a)) if name == "maximum" else (lambda a, b: P.b_ite(P.lt(a, b), a, b))
            return pointwise(f, self.value(args[0]), self.value(args[1]))
        if name == "clip":
            x, lo, hi = [self.value(q) for q in args[:3]]
            if lo is neg(P.POSINF) and hi is P.POSINF:
                return x
            if lo is neg(P.POSINF):
                return pointwise(lambda v, h: P.b_ite(P.lt(h, v), h, v), x, hi)
            if hi is P.POSINF:
                return pointwise(lambda v, l: P.b_ite(P.lt(v, l), l, v), x, lo)
            return pointwise(lambda v, l, h: P.b_ite(P.lt(v, l), l, P.b_ite(P.lt(h, v), h, v)), x, lo, hi)
        if name == "where":
            try:
                c = self.value(args[0])
            except Cannot:
                c = None
            if isinstance(c, Arr):
                return pointwise(P.b_ite, c, self.value(args[1]), self.value(args[2]))
            c = self.boolean(args[0])
            if c is None:
                raise Cannot("where")
            return self.merge(c, self.value(args[1]), self.value(args[2]))
        if name in ("dot", "matmul"):
            return contract(self.value(args[0]), self.value(args[1]))
        if name == "transpose":
            p = args[1] if len(args) > 1 else kw.get("axes")
            return transpose(self.arr(args[0]), None if p is None or (p.op == "const" and p.a[0] is None) else self.ints(p))
        if name in ("moveaxis", "swapaxes"):
            x = self.arr(args[0])
            i, j = int(const_of(args[1])) % len(x.shape), int(const_of(args[2])) % len(x.shape)
            p = list(range(len(x.shape)))
            if name == "swapaxes":
                p[i], p[j] = p[j], p[i]
            else:
                p.remove(i)
                p.insert(j, i)
            return transpose(x, p)
        if name in ("expand_dims", "squeeze"):
            x = self.arr(args[0])
            ax = args[1] if len(args) > 1 else kw.get("axis")
            if name == "expand_dims":
                k = int(const_of(ax)) % (len(x.shape) + 1)
                return reshape(x, x.shape[:k] + [ONE] + x.shape[k:])
            ks = [k for k, s in enumerate(x.shape) if one(s)] if ax is None else [k % len(x.shape) for k in self.ints(ax)]
            return reshape(x, [s for k, s in enumerate(x.shape) if k not in ks])
        if name == "concatenate":
            ax = args[1] if len(args) > 1 else kw.get("axis")
            xs = [self.arr(x) for x in self.seq(args[0])]
            k = 0 if ax is None else int(P.cval(self.num(ax))) if P.isconst(self.num(ax)) else self.fail(ax)
            return concat(xs, k % len(xs[0].shape))
        if name == "tile":
            x = self.arr(args[0])
            r = [self.num(q) for q in self.seq(args[1] if len(args) > 1 else kw["reps"])]
            while len(r) < len(x.shape):
                r = [ONE] + r
            sh = [ONE] * (len(r) - len(x.shape)) + x.shape
            return Arr([mul(s, q) for s, q in zip(sh, r)], lambda i: x.get([mod(ii, s) for ii, s in zip(i, sh)][len(sh) - len(x.shape):]))
        if name == "take":
            x = self.arr(args[0])
            ind = self.arr(args[1] if len(args) > 1 else kw["indices"])
            ax = args[2] if len(args) > 2 else kw.get("axis")
            if ax is None or (ax.op == "const" and ax.a[0] is None):
                return Arr(ind.shape, lambda i: x.flat(self.toint(ind.get(i))))
            v = self.num(ax)
            if not P.isconst(v):
                raise Cannot("take axis")
            k = int(P.cval(v)) % len(x.shape)
            r = len(ind.shape)
            return Arr(x.shape[:k] + ind.shape + x.shape[k + 1:], lambda i: x.get(i[:k] + [self.toint(ind.get(i[k:k + r]))] + i[k + r:]))
        if name == "pad":
            return self.pad(args, kw)
        raise Cannot("numpy." + name)

    def toint(self, v):
        return v if v.ty == "int" else P.simp_fn("trunc", [v], "int")

    def pad(self, args, kw):
        x = self.arr(args[0])
        w = args[1] if len(args) > 1 else kw["pad_width"]
        m = args[2] if len(args) > 2 else kw.get("mode")
        while m is not None and m.op == "phi":
            m = m.a[1] if self.truth(m.a[0]) else m.a[2]
        mode = "constant" if m is None else const_of(m)
        ws = [self.seq(p) for p in self.seq(w)]
        if len(ws) != len(x.shape) or any(len(p) != 2 for p in ws):
            raise Cannot("pad_width")
        ws = [(self.num(a), self.num(b)) for a, b in ws]
        sh = [add(add(s, a), b) for s, (a, b) in zip(x.shape, ws)]
        fill = kw.get("constant_values")
        if mode == "constant":
            fv = ZERO if fill is None else self.num(fill)

            def get(i):
                c = ONE
                for ii, s, (a, b) in zip(i, x.shape, ws):
                    c = P.and_(c, P.and_(P.le(a, ii), P.lt(ii, add(a, s))))
                return P.b_ite(c, x.get([sub(ii, a) for ii, (a, b) in zip(i, ws)]), fv)
            return Arr(sh, get)
        if mode == "edge":
            def pos(ii, s, a):
                q = sub(ii, a)
                return P.b_ite(P.lt(q, ZERO), ZERO, P.b_ite(P.le(s, q), sub(s, ONE), q))
        elif mode in ("reflect", "wrap"):
            # one period, which covers every padding not larger than the axis
            def pos(ii, s, a):
                q = sub(ii, a)
                if mode == "reflect":
                    return P.b_ite(P.lt(q, ZERO), neg(q), P.b_ite(P.le(s, q), sub(mul(const(2), sub(s, ONE)), q), q))
                return P.b_ite(P.lt(q, ZERO), add(q, s), P.b_ite(P.le(s, q), sub(q, s), q))
        else:
            raise Cannot("pad mode " + str(mode))
        return Arr(sh, lambda i: x.get([pos(ii, s, a) for ii, s, (a, b) in zip(i, x.shape, ws)]))


def concat(xs, k):
    sh = list(xs[0].shape)
    for x in xs[1:]:
        sh[k] = add(sh[k], x.shape[k])

    def get(i):
        out = None
        off = ZERO
        parts = []
        for x in xs:
            parts.append((off, x))
            off = add(off, x.shape[k])
        for o, x in reversed(parts):
            v = lambda o=o, x=x: x.get(i[:k] + [sub(i[k], o)] + i[k + 1:])
            out = v() if out is None else P.b_ite(P.lt(sub(i[k], o), x.shape[k]), v(), out)
        return out
    return Arr(sh, get)
