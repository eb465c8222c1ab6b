"""Normal forms for C values: decision diagrams (guards) over polynomials (index / data expressions).

A value is a `V`:  a leaf polynomial  sum(coeff * product(atoms))  or  ite(cond, V, V)  with conditions in a
fixed global order, so that two expressions with the same normal form denote the same function of the
symbols, and (for integer subscripts and guards) two different normal forms denote different functions.
"""
from __future__ import annotations

from fractions import Fraction
from functools import lru_cache


class TooBig(Exception):
    """a normal form grew beyond the analysis budget"""


LIMIT = 200000


class Atom:
    __slots__ = ("k", "kind", "a", "ty", "opaque", "fv", "__weakref__")
    tab = {}

    def __new__(cls, kind, a, ty, key, opaque=False, fv=frozenset()):
        key = (kind, key, ty)
        o = cls.tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.a, o.ty, o.k, o.opaque, o.fv = kind, a, ty, key[1], opaque, fv
            cls.tab[key] = o
        return o

    def __repr__(self):
        return self.k

    def __lt__(self, o):
        return self.k < o.k


class V:
    """leaf: terms (tuple of (monomial, coeff)); node: (cond, hi, lo)"""
    __slots__ = ("terms", "cond", "hi", "lo", "ty", "k", "fv", "opaque")
    tab = {}

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.k

    @property
    def leaf(self):
        return self.cond is None


def _num(c):
    return str(c)


def _mk_leaf(terms, ty):
    ts = tuple(sorted(((m, c) for m, c in terms.items() if c), key=lambda t: (-len(t[0]), [a.k for a in t[0]])))
    key = (ts, ty)
    v = V.tab.get(key)
    if v is None:
        v = object.__new__(V)
        v.terms, v.cond, v.hi, v.lo, v.ty = ts, None, None, None, ty
        parts = []
        for m, c in ts:
            s = "*".join(a.k for a in m)
            if not s:
                s = _num(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = _num(c) + "*" + s
            parts.append(s)
        v.k = "(" + " + ".join(parts).replace("+ -", "- ") + ")" if len(parts) > 1 else (parts[0] if parts else "0")
        fv = frozenset()
        op = False
        for m, c in ts:
            for a in m:
                fv |= a.fv
                op = op or a.opaque
        v.fv, v.opaque = fv, op
        V.tab[key] = v
    return v


class Cond:
    """kind: 'ge' (int p>=0), 'gt' (float p>0), 'eq' (p==0)"""
    __slots__ = ("kind", "p", "k", "fv", "opaque")
    tab = {}

    def __new__(cls, kind, p):
        key = (kind, p)
        o = cls.tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.p, o.fv, o.opaque = kind, p, p.fv, p.opaque
            o.k = {"ge": "a", "eq": "b", "gt": "c", "nan": "d"}[kind] + p.k
            cls.tab[key] = o
        return o

    def __repr__(self):
        return self.p.k + {"ge": " >= 0", "gt": " > 0", "eq": " == 0", "nan": " is NaN"}[self.kind]


def _mk_node(c, hi, lo):
    if hi is lo:
        return hi
    if hi.ty != lo.ty:
        ty = "float"
        hi, lo = as_float(hi), as_float(lo)
        if hi is lo:
            return hi
    key = (c, hi, lo)
    v = V.tab.get(key)
    if v is None:
        v = object.__new__(V)
        v.terms, v.cond, v.hi, v.lo, v.ty = None, c, hi, lo, hi.ty
        v.k = f"[{c!r} ? {hi.k} : {lo.k}]"
        if len(v.k) > LIMIT:
            raise TooBig
        v.fv = c.fv | hi.fv | lo.fv
        v.opaque = c.opaque or hi.opaque or lo.opaque
        V.tab[key] = v
    return v


def as_float(v):
    if v.ty == "float":
        return v
    if v.leaf:
        return _mk_leaf(dict(v.terms), "float")
    return _mk_node(v.cond, as_float(v.hi), as_float(v.lo))


def const(c, ty=None):
    if ty is None:
        ty = "int" if isinstance(c, int) else "float"
    return _mk_leaf({(): Fraction(c)} if c else {}, ty)


ZERO, ONE = const(0), const(1)


def of_atom(a):
    return _mk_leaf({(a,): Fraction(1)}, "float" if a.ty == "float" else "int")


def sym(name, ty="int"):
    return of_atom(Atom("sym", (name,), ty, name, fv=frozenset([name])))


def _order(*vs):
    c = None
    for v in vs:
        if v.cond is not None and (c is None or v.cond.k < c.k):
            c = v.cond
    return c


def _cof(v, c, side):
    if v.cond is c:
        return v.hi if side else v.lo
    return v


_apply = {}


def apply(op, u, v):
    if u.leaf and v.leaf:
        return _OPS[op](u, v)
    key = (op, u, v)
    r = _apply.get(key)
    if r is None:
        c = _order(u, v)
        r = _apply[key] = ite(c, apply(op, _cof(u, c, 1), _cof(v, c, 1)), apply(op, _cof(u, c, 0), _cof(v, c, 0)))
    return r


_ite = {}


def ite(c, hi, lo):
    """c: Cond"""
    if hi is lo:
        return hi
    key = (c, hi, lo)
    r = _ite.get(key)
    if r is None:
        d = _order(hi, lo)
        if d is None or c.k < d.k:
            r = _mk_node(c, hi, lo)
        elif d is c:
            r = ite(c, _cof(hi, c, 1), _cof(lo, c, 0))
        else:
            r = _mk_node(d, ite(c, _cof(hi, d, 1), _cof(lo, d, 1)), ite(c, _cof(hi, d, 0), _cof(lo, d, 0)))
            # a top-level rebuild keeps the global order
        _ite[key] = r
    return r


def b_ite(b, t, f):
    """b: boolean value = V with leaves 0/1"""
    if b.leaf:
        return t if b is not ZERO else f
    key = ("b", b, t, f)
    r = _ite.get(key)
    if r is None:
        r = _ite[key] = ite(b.cond, b_ite(b.hi, t, f), b_ite(b.lo, t, f))
    return r


def _ty(u, v):
    return "float" if "float" in (u.ty, v.ty) else "int"


def _add(u, v):
    d = dict(u.terms)
    for m, c in v.terms:
        d[m] = d.get(m, 0) + c
    return _mk_leaf(d, _ty(u, v))


def _mono(a, b):
    out = list(a) + list(b)
    # x * inv(x) = 1
    res = []
    for x in out:
        if x.kind == "inv":
            base = x.a[0]
            y = next((y for y in res if of_atom_is(y, base)), None)
            if y is not None:
                res.remove(y)
                continue
        else:
            y = next((y for y in res if y.kind == "inv" and of_atom_is(x, y.a[0])), None)
            if y is not None:
                res.remove(y)
                continue
        res.append(x)
    return tuple(sorted(res, key=lambda x: x.k))


def of_atom_is(atom, v):
    return v.leaf and len(v.terms) == 1 and v.terms[0][1] == 1 and v.terms[0][0] == (atom,)


def _mul(u, v):
    d = {}
    if len(u.terms) * len(v.terms) > 400:
        return of_atom(Atom("fn", ("mul", u, v), _ty(u, v), f"mul({u.k},{v.k})", True, u.fv | v.fv))
    for m, c in u.terms:
        for n, e in v.terms:
            k = _mono(m, n)
            d[k] = d.get(k, 0) + c * e
    return _mk_leaf(d, _ty(u, v))


def isconst(v):
    return v.leaf and all(not m for m, c in v.terms)


def cval(v):
    return v.terms[0][1] if v.terms else Fraction(0)


def _inv(v):
    """1/v for a float leaf"""
    if isconst(v):
        if not v.terms:
            return fn_atom("inv", [v], "float")
        return _mk_leaf({(): 1 / cval(v)}, "float")
    if len(v.terms) == 1:
        m, c = v.terms[0]
        out = const(1 / c, "float")
        for a in m:
            if a.kind == "inv":
                out = _mul(out, as_float(a.a[0]))
            else:
                b = of_atom(a)
                out = _mul(out, of_atom(Atom("inv", (b,), "float", f"inv({b.k})", a.opaque, a.fv)))
        return out
    # normalise the sign/scale: 1/(c*q) = 1/c * 1/q with leading coefficient 1
    c = v.terms[0][1]
    q = _mk_leaf({m: x / c for m, x in v.terms}, v.ty)
    return _mul(const(1 / c, "float"), of_atom(Atom("inv", (q,), "float", f"inv({q.k})", v.opaque, v.fv)))


def _div(u, v):
    if "float" in (u.ty, v.ty):
        return _mul(as_float(u), _inv(as_float(v)))
    if isconst(v) and v.terms:
        c = cval(v)
        if c == 1:
            return u
        if isconst(u):
            q = abs(cval(u)) // abs(c)
            return const(int(q if (cval(u) >= 0) == (c > 0) else -q))
        if all((x / c).denominator == 1 for m, x in u.terms):
            return _mk_leaf({m: x / c for m, x in u.terms}, "int")
    if u is v:
        return ONE
    if not u.terms:
        return ZERO
    # exact monomial division: every term of u has all atoms of the single monomial v
    if v.leaf and len(v.terms) == 1:
        m, c = v.terms[0]
        out = {}
        for n, x in u.terms:
            rest = list(n)
            try:
                for a in m:
                    rest.remove(a)
            except ValueError:
                out = None
                break
            if (x / c).denominator != 1:
                out = None
                break
            out[tuple(rest)] = x / c
        if out is not None:
            return _mk_leaf(out, "int")
    # (a / b) / c == a / (b*c)   (non negative operands)
    if len(u.terms) == 1 and u.terms[0][1] == 1 and len(u.terms[0][0]) == 1:
        a = u.terms[0][0][0]
        if a.kind == "fn" and a.a[0] == "idiv":
            return _div(a.a[1], _mul(a.a[2], v))
    return fn_atom("idiv", [u, v], "int")


def exact_div(u, v):
    """u / v when v is a monomial dividing every term of u, else None"""
    r = _div(u, v) if u.leaf and v.leaf and u.ty == v.ty == "int" else None
    if r is None or any(a.kind == "fn" and a.a[0] == "idiv" for m, c in r.terms for a in m):
        return None
    return r


def divmods(v, names, out=None, seen=None):
    """(bound variable, modulus) for every idiv/mod of a bare loop variable"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if not x.leaf:
            st += [x.hi, x.lo, x.cond.p]
            continue
        for m, c in x.terms:
            for a in m:
                if a.kind == "red":
                    st.append(a.a[2])
                    continue
                for y in a.a:
                    if isinstance(y, V):
                        st.append(y)
                if a.kind == "fn" and a.a[0] in ("idiv", "mod"):
                    u, w = a.a[1], a.a[2]
                    if u.leaf and len(u.terms) == 1 and u.terms[0][1] == 1 and len(u.terms[0][0]) == 1 and u.terms[0][0][0].kind == "sym" \
                            and u.terms[0][0][0].a[0] in names and w.leaf and not (w.fv & names):
                        out.setdefault(u.terms[0][0][0].a[0], []).append(w)
    return out


def split_var(vs, bodies, p, M):
    """loop p<B with M | B  ->  p = q*M + r ; returns (vs, bodies)"""
    n, lo, B = next(x for x in vs if x[0] == p)
    K = exact_div(B, M)
    if K is None or lo is not ZERO:
        return None
    q, r = fresh("q"), fresh("r")
    Q, R = sym(q), sym(r)
    whole = add(mul(Q, M), R)
    sb = SplitSubst({p: whole}, whole, Q, R, M)
    out = []
    for x in vs:
        if x[0] == p:
            if K is not ONE:
                out.append((q, ZERO, K))
            out.append((r, ZERO, M))
        else:
            out.append((x[0], sb(x[1]), sb(x[2])))
    bodies = [sb(b) for b in bodies]
    if K is ONE:
        s0 = Subst({q: ZERO})
        bodies = [s0(b) for b in bodies]
    return out, bodies


def autosplit(vs, bodies):
    """splits loops whose variable is divided / reduced modulo a factor of its range"""
    names = frozenset(n for n, _, _ in vs)
    for _ in range(6):
        dm = {}
        for b in bodies:
            divmods(b, names, dm)
        done = False
        for p, ms in sorted(dm.items()):
            ms = sorted(set(ms), key=lambda m: (sum(len(t[0]) for t in m.terms), m.k))
            for M in ms:
                r = split_var(vs, bodies, p, M)
                if r is not None:
                    vs, bodies = r
                    names = frozenset(n for n, _, _ in vs)
                    done = True
                    break
            if done:
                break
        if not done:
            break
    return vs, bodies


def _mod(u, v):
    if isconst(u) and isconst(v) and v.terms:
        a, b = int(cval(u)), int(cval(v))
        import math
        return const(int(math.fmod(a, b)))
    return fn_atom("mod", [u, v], "int")


def fn_atom(name, args, ty, opaque=False):
    fv = frozenset()
    for x in args:
        fv |= x.fv
        opaque = opaque or x.opaque
    return of_atom(Atom("fn", (name,) + tuple(args), ty, f"{name}({','.join(x.k for x in args)})", opaque, fv))


_OPS = {"+": _add, "*": _mul, "/": _div, "%": _mod}


def add(u, v):
    return apply("+", u, v)


def mul(u, v):
    return apply("*", u, v)


def neg(u):
    return apply("*", const(-1), u)


def sub(u, v):
    return add(u, neg(v))


def div(u, v):
    return apply("/", u, v)


def mod(u, v):
    return apply("%", u, v)


def lift(f, *args):
    """apply f (on leaves) through the decision diagrams of args"""
    c = _order(*args)
    if c is None:
        return f(*args)
    return ite(c, lift(f, *[_cof(x, c, 1) for x in args]), lift(f, *[_cof(x, c, 0) for x in args]))


def fn(name, args, ty, opaque=False):
    return lift(lambda *xs: fn_atom(name, xs, ty, opaque), *args)


def read(array, idx, ty="float", opaque=False):
    return lift(lambda i: of_atom(Atom("rd", (array, i), ty, f"{array}[{i.k}]", opaque or i.opaque, i.fv)), idx)


# ---- conditions --------------------------------------------------------------------------
def _int_cond(p):
    """boolean value of p >= 0 for an int leaf p"""
    if isconst(p):
        return ONE if cval(p) >= 0 else ZERO
    import math
    # divide by the gcd of the non constant coefficients (floor the constant)
    cs = [c for m, c in p.terms if m]
    g = 0
    for c in cs:
        if c.denominator != 1:
            g = 0
            break
        g = math.gcd(g, abs(c.numerator))
    if g > 1:
        p = _mk_leaf({m: (c / g if m else Fraction((c / g).__floor__())) for m, c in p.terms}, "int")
    lead = next(c for m, c in p.terms if m)
    if lead < 0:     # canonical polarity: leading coefficient positive
        q = sub(neg(p), ONE)
        return _mk_node(Cond("ge", q), ZERO, ONE)
    return _mk_node(Cond("ge", p), ONE, ZERO)


def _pos(v):
    """leaf known to be a positive quantity: not attempted (0/1 answers only for constants)"""
    return None


def ge0(p):
    return lift(lambda q: _int_cond(q) if q.ty == "int" else _not_leaf(_gt(neg(q))), p)


def _gt(p):
    if isconst(p):
        return ONE if cval(p) > 0 else ZERO
    lead = abs(p.terms[0][1])
    if lead != 1:
        p = _mk_leaf({m: c / lead for m, c in p.terms}, p.ty)
    return _mk_node(Cond("gt", p), ONE, ZERO)


def _not_leaf(b):
    return b_ite(b, ZERO, ONE)


def lt(u, v):
    """u < v"""
    d = sub(v, u)
    return lift(lambda q: _int_cond(sub(q, ONE)) if q.ty == "int" else _gt(q), d)


def le(u, v):
    d = sub(v, u)
    return lift(lambda q: _int_cond(q) if q.ty == "int" else _not_leaf(_gt(neg(q))), d)


def _eq0(p):
    if isconst(p):
        return ONE if cval(p) == 0 else ZERO
    lead = p.terms[0][1]
    p = _mk_leaf({m: c / lead for m, c in p.terms}, p.ty)
    return _mk_node(Cond("eq", p), ONE, ZERO)


def eq(u, v):
    return lift(_eq0, sub(u, v))


def not_(b):
    return b_ite(b, ZERO, ONE)


def and_(a, b):
    return b_ite(a, b, ZERO)


def or_(a, b):
    return b_ite(a, ONE, b)


def boolean(v):
    """C truth value of v"""
    def f(q):
        if isconst(q):
            return ONE if cval(q) else ZERO
        return not_(_eq0(q))
    if v.ty == "int" and _is01(v):
        return v
    return lift(f, v)


def _is01(v):
    if v.leaf:
        return v is ZERO or v is ONE
    return _is01(v.hi) and _is01(v.lo)


# ---- substitution ------------------------------------------------------------------------
class Subst:
    """rebuilds a value with symbols (by name), arrays or atoms replaced"""

    def __init__(self, syms=None, arrays=None):
        self.s = syms or {}
        self.arr = arrays or {}      # array name -> f(array, idx, ty) -> V
        self.memo = {}
        self.names = frozenset(self.s)

    def __call__(self, v):
        if not self.arr and not (v.fv & self.names):
            return v
        r = self.memo.get(v)
        if r is None:
            if v.leaf:
                r = const(0, v.ty)
                for m, c in v.terms:
                    t = const(c, v.ty)
                    if c.denominator == 1 and v.ty == "int":
                        t = const(int(c))
                    else:
                        t = const(c, "float" if v.ty == "float" else "int")
                    for a in m:
                        t = mul(t, self.atom(a))
                    r = add(r, t)
                if v.ty == "float":
                    r = as_float(r)
            else:
                r = b_ite(self.cond(v.cond), self(v.hi), self(v.lo))
            self.memo[v] = r
        return r

    def cond(self, c):
        p = self(c.p)
        if c.kind == "ge":
            return lift(_int_cond, p)
        if c.kind == "gt":
            return lift(_gt, p)
        return lift(_eq0, p)

    def atom(self, a):
        if a.kind == "sym":
            r = self.s.get(a.a[0])
            return of_atom(a) if r is None else r
        if not self.arr and not (a.fv & self.names):
            return of_atom(a)
        if a.kind == "rd":
            i = self(a.a[1])
            f = self.arr.get(a.a[0])
            if f is not None:
                return f(a.a[0], i, a.ty)
            return read(a.a[0], i, a.ty)
        if a.kind == "fn":
            name = a.a[0]
            args = [self(x) for x in a.a[1:]]
            if name == "idiv":
                return lift(_div, *args)
            if name == "mod":
                return lift(_mod, *args)
            return simp_fn(name, args, a.ty)
        if a.kind == "inv":
            return lift(lambda q: _inv(as_float(q)), self(a.a[0]))
        if a.kind == "red":
            kind, vs, body = a.a
            # open the binder with fresh names so that nothing is captured
            s2 = dict(self.s)
            ren = []
            for n, lo, hi in vs:
                f = fresh("b")
                s2[n] = sym(f)
                ren.append((f, lo, hi))
            sb = type(self)(s2, self.arr)
            sb.bounds = {**getattr(self, "bounds", {}), **{f: (lo, hi) for f, lo, hi in ren}}
            return reduce_(kind, [(f, sb(lo), sb(hi)) for f, lo, hi in ren], sb(body))
        if a.kind == "last":
            n, lo, hi, body = a.a
            return last_(n, self(lo), self(hi), self(body))
        return of_atom(a)


class SplitSubst(Subst):
    """substitution p := q*M + r (0 <= r < M) that also evaluates p / (M*K) and p % (M*K)"""

    def __init__(self, syms, whole=None, Q=None, R=None, M=None):
        if whole is not None and not isinstance(whole, V):
            raise TypeError
        super().__init__(syms)
        self.w, self.Q, self.R, self.M = whole, Q, R, M

    def atom(self, a):
        if a.kind == "fn" and a.a[0] in ("idiv", "mod") and (a.fv & self.names):
            u, w = self(a.a[1]), self(a.a[2])
            if u is self.w and w.leaf:
                K = exact_div(w, self.M)
                if K is not None:
                    if a.a[0] == "idiv":
                        return self.Q if K is ONE else _div(self.Q, K)
                    return self.R if K is ONE else add(mul(fn_atom("mod", [self.Q, K], "int"), self.M), self.R)
            return lift(_div if a.a[0] == "idiv" else _mod, u, w)
        if a.kind == "red":
            kind, vs, body = a.a
            s2 = dict(self.s)
            ren = []
            for n, lo, hi in vs:
                f = fresh("b")
                s2[n] = sym(f)
                ren.append((f, lo, hi))
            sb = SplitSubst(s2, self.w, self.Q, self.R, self.M)
            return reduce_(kind, [(f, sb(lo), sb(hi)) for f, lo, hi in ren], sb(body))
        return super().atom(a)


FUNCS = {}


def simp_fn(name, args, ty):
    def f(*xs):
        if name in ("trunc", "floor", "ceil", "round", "rint") and xs[0].ty == "int":
            return xs[0]
        if name in ("trunc", "floor", "ceil") and isconst(xs[0]):
            import math
            c = cval(xs[0])
            return const(int({"trunc": math.trunc, "floor": math.floor, "ceil": math.ceil}[name](c)), "int" if ty == "int" else "float")
        return fn_atom(name, xs, ty)
    return lift(f, *args)


# ---- reductions --------------------------------------------------------------------------
POSINF = sym("INFINITY", "float")
NEGINF = neg(POSINF)
_fresh = [0]


def fresh(base="v"):
    _fresh[0] += 1
    return f"#{base}{_fresh[0]}"


def _depth(v):
    """nesting level for canonical bound names: 1 + max level of bound names in v"""
    return 1 + max((int(n[1:].split(".")[0]) for n in v.fv if n.startswith("%")), default=0)


def bound_level(v, seen=None):
    m = 0
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.leaf:
            for mo, c in x.terms:
                for a in mo:
                    if a.kind == "red":
                        m = max(m, max((int(n[1:].split(".")[0]) for n, _, _ in a.a[1]), default=0))
                        stack.append(a.a[2])
                    elif a.kind in ("fn",):
                        stack += [y for y in a.a[1:]]
                    elif a.kind in ("rd",):
                        stack.append(a.a[1])
                    elif a.kind == "inv":
                        stack.append(a.a[0])
        else:
            stack += [x.hi, x.lo, x.cond.p]
    return m


def reduce_(kind, vs, body):
    """kind in sum,max,min,prod; vs: [(name, lo, hi)] ; returns a value"""
    for x in vs:
        if not (x[1].leaf and x[2].leaf):
            c = _order(x[1], x[2])
            def side(s):
                return reduce_(kind, [(n, _cof(lo, c, s), _cof(hi, c, s)) for n, lo, hi in vs], _cof(body, c, s) if body.cond is c else body)
            return ite(c, side(1), side(0))
    # linearity: pull apart sums, flatten nested reductions of the same kind
    names = frozenset(n for n, _, _ in vs)
    if kind == "sum":
        if body.leaf and len(body.terms) > 1:
            out = const(0, body.ty)
            for m, c in body.terms:
                out = add(out, reduce_(kind, vs, _mk_leaf({m: c}, body.ty)))
            return out
        if body.leaf and len(body.terms) == 1:
            m, c = body.terms[0]
            inv = [a for a in m if not (a.fv & names)]
            dep = [a for a in m if a.fv & names]
            if not dep:
                out = body
                for n, lo, hi in vs:
                    out = mul(out, sub(hi, lo))
                return out
            if inv or c != 1:
                co = _mk_leaf({tuple(inv): c}, body.ty)
                return mul(co, reduce_(kind, vs, _mk_leaf({tuple(dep): Fraction(1)}, body.ty)))
            if len(dep) == 1 and dep[0].kind == "red" and dep[0].a[0] == "sum":
                inner = dep[0]
                ren, s = [], {}
                for n, lo, hi in inner.a[1]:
                    f = fresh()
                    s[n] = sym(f)
                    ren.append((f, lo, hi))
                sb = Subst(s)
                return reduce_(kind, list(vs) + [(f, lo, hi) for f, lo, hi in ren], sb(inner.a[2]))
        if body.leaf and not body.terms:
            return body
    elif kind in ("max", "min"):
        if body.leaf and len(body.terms) == 1 and body.terms[0][1] == 1 and len(body.terms[0][0]) == 1:
            a = body.terms[0][0][0]
            if a.kind == "red" and a.a[0] == kind:
                ren, s = [], {}
                for n, lo, hi in a.a[1]:
                    f = fresh()
                    s[n] = sym(f)
                    ren.append((f, lo, hi))
                sb = Subst(s)
                return reduce_(kind, list(vs) + ren, sb(a.a[2]))
        if not (body.fv & names):
            return body
    elif kind == "prod":
        if body.leaf and len(body.terms) == 1 and len(body.terms[0][0]) == 1 and body.terms[0][1] == 1:
            a = body.terms[0][0][0]
            if a.kind == "red" and a.a[0] == "prod":
                ren, s = [], {}
                for n, lo, hi in a.a[1]:
                    f = fresh()
                    s[n] = sym(f)
                    ren.append((f, lo, hi))
                sb = Subst(s)
                return reduce_(kind, list(vs) + ren, sb(a.a[2]))
    # guards independent of the bound variables float out of the reduction
    c = _indep(body, names)
    if c is not None:
        return ite(c, reduce_(kind, vs, _restrict(body, c, 1)), reduce_(kind, vs, _restrict(body, c, 0)))
    # lower bounds to zero
    nvs, s = [], {}
    for n, lo, hi in vs:
        if lo is not ZERO:
            s[n] = add(sym(n), lo)
        nvs.append((n, ZERO, sub(hi, lo)))
    if s:
        body = Subst(s)(body)
    vs = nvs
    vs, body = autosplit(vs, [body])
    vs, body = collapse(vs, body)
    body = body[0]
    lvl = bound_level(body) + 1
    best = None
    import itertools
    idxs = list(range(len(vs)))
    perms = itertools.permutations(idxs) if len(vs) <= 4 else [tuple(idxs)]
    for p in perms:
        s = {vs[i][0]: sym(f"%{lvl}.{j}") for j, i in enumerate(p)}
        sb = Subst(s)
        b = sb(body)
        nv = tuple((f"%{lvl}.{j}", sb(vs[i][1]), sb(vs[i][2])) for j, i in enumerate(p))
        key = f"{kind}{{{','.join(n + '<' + hi.k for n, lo, hi in nv)}}}({b.k})"
        if best is None or key < best[0]:
            best = (key, nv, b)
    key, nv, b = best
    bn = frozenset(n for n, _, _ in nv)
    fv = (b.fv - bn)
    op = b.opaque
    for n, lo, hi in nv:
        fv |= hi.fv - bn
        op = op or hi.opaque
    if len(vs) > 4:
        op = True
    return of_atom(Atom("red", (kind, nv, b), b.ty if kind in ("sum", "prod") else "float" if b.ty == "float" else "int", key, op, fv))


def _indep(v, names, seen=None):
    if v.leaf:
        return None
    if not (v.cond.fv & names):
        return v.cond
    return _indep(v.hi, names) or _indep(v.lo, names)


def _restrict(v, c, side):
    if v.leaf:
        return v
    if v.cond is c:
        return v.hi if side else v.lo
    return ite(v.cond, _restrict(v.hi, c, side), _restrict(v.lo, c, side))


def last_(n, lo, hi, body):
    """value of body in the last iteration of n"""
    return Subst({n: sub(hi, ONE)})(body)


def collapse(vs, bodies):
    """merges loops (a<A, b<B) used only as b + B*a into one loop over A*B.  All lower bounds are zero."""
    vs = list(vs)
    changed = True
    while changed:
        changed = False
        for x in range(len(vs)):
            for y in range(len(vs)):
                if x == y:
                    continue
                a, alo, A = vs[x]
                b, blo, B = vs[y]
                if not (alo is ZERO and blo is ZERO) or a in B.fv or b in A.fv:
                    continue
                if any((a in h.fv or b in h.fv) for n, l, h in vs if n not in (a, b)):
                    continue
                t = fresh("t")
                sb = Subst({b: sub(sym(t), mul(B, sym(a)))})
                nb = [sb(z) for z in bodies]
                if all(a not in z.fv and b not in z.fv for z in nb):
                    vs = [q for i, q in enumerate(vs) if i not in (x, y)] + [(t, ZERO, mul(A, B))]
                    bodies = nb
                    changed = True
                    break
            if changed:
                break
    # drop unit loops
    out, s = [], {}
    for n, lo, hi in vs:
        if hi is ONE and lo is ZERO:
            s[n] = ZERO
        else:
            out.append((n, lo, hi))
    if s:
        sb = Subst(s)
        bodies = [sb(z) for z in bodies]
        out = [(n, sb(lo), sb(hi)) for n, lo, hi in out]
    return out, bodies


def clear():
    Atom.tab.clear(); V.tab.clear(); Cond.tab.clear(); _apply.clear(); _ite.clear()
