"""Abstract interpretation of generated layer C code.

Structured analysis over the parsed statements: scalars are forward substituted, loops are summarised
(induction variables -> closed forms, accumulations -> sum/max/min/prod reductions), array writes become
`Store`s: (loop domain, index polynomial, guarded value).  Staging through a temporary array is composed
away when the copy is a full-domain map.  Anything that does not fit yields an `opaque` value, never a guess.
"""
from __future__ import annotations

import itertools

from . import poly as P
from .nodes import N, show
from .poly import NEGINF, ONE, POSINF, ZERO, Subst, V, add, and_, b_ite, boolean, const, div, eq, fn, fresh, ite, le, lt, mod, mul, neg, not_, or_, read, reduce_, sub, sym


class Unsupported(Exception):
    pass


class Ptr:
    def __init__(self, array, off, ty="float"):
        self.array, self.off, self.ty = array, off, ty

    def __repr__(self):
        return f"&{self.array}[{self.off!r}]"


class Store:
    """for vars in dom: array[idx] = value   (value may be guarded; OLD = previous content)"""

    def __init__(self, array, dom, idx, value, line=0):
        self.array, self.dom, self.idx, self.value, self.line = array, list(dom), idx, value, line

    def __repr__(self):
        d = ",".join(f"{n}∈[{lo!r},{hi!r})" for n, lo, hi in self.dom)
        return f"{self.array}[{self.idx!r}] = {self.value!r}  for {d}"

    @property
    def opaque(self):
        return self.idx.opaque or self.value.opaque or any(h.opaque or l.opaque for _, l, h in self.dom)


OLD = "OLD"
INT_FN = {"abs"}
FLOAT_FN = {"floor": "floor", "floorf": "floor", "ceil": "ceil", "ceilf": "ceil", "exp": "exp", "expf": "exp", "sqrt": "sqrt", "sqrtf": "sqrt", "tanh": "tanh", "tanhf": "tanh",
            "log": "log", "logf": "log", "pow": "pow", "powf": "pow", "fabs": "fabs", "fabsf": "fabs", "round": "round", "roundf": "round", "rint": "rint", "fmodf": "fmod", "fmod": "fmod", "erf": "erf", "erff": "erf"}


class Env:
    """value of scalars, pointers, and pending array cells"""

    def __init__(self, vars=None, cells=None, types=None):
        self.vars = dict(vars or {})
        self.cells = dict(cells or {})       # (array, idxV) -> (value, line), insertion ordered
        self.types = dict(types or {})

    def copy(self):
        return Env(self.vars, self.cells, self.types)


class CAn:
    def __init__(self, types=None, float_syms=(), hole_value=None, calls=None, funcs=None, macros=None, rename=None, symv=None):
        self.symv = symv or {}
        self.rename = rename or (lambda n: n)
        self.types = types or {}            # declared C types of outer variables
        self.float_syms = set(float_syms)
        self.hole_value = hole_value
        self.funcs = funcs or {}            # user functions: name -> handler(args)
        self.stores = {}                    # array -> [Store]
        self.dims = {}                      # declared array dims (local arrays)
        self.loops = []
        self.notes = []
        self.ntop = 0
        self.lver = {}                      # arrays written by an enclosing loop -> (loop name, #stores at entry)
        self.accesses = []                  # (array, 'r'/'w', idx, loops)

    # ---- holes ----
    def hole(self, n):
        if self.hole_value is not None:
            v = self.hole_value(n)
            if v is not None:
                return v
        return self.node(n)

    def node(self, n):
        """value-graph node -> V"""
        o = n.op
        if o == "const":
            c = n.a[0]
            if isinstance(c, bool):
                return const(int(c))
            if isinstance(c, (int, float)):
                return const(c)
            if isinstance(c, str):
                s = c.strip()
                try:
                    return const(int(s))
                except ValueError:
                    try:
                        return const(float(s))
                    except ValueError:
                        raise Unsupported(f"text {s!r} as value")
        if o == "sym":
            nm = n.a[0]
            if nm in self.symv:
                return self.symv[nm]
            return sym(nm, "float" if nm in self.float_syms else "int")
        if o == "bin":
            op, l, r = n.a
            l, r = self.node(l), self.node(r)
            if op == "+":
                return add(l, r)
            if op == "-":
                return sub(l, r)
            if op == "*":
                return mul(l, r)
            if op == "/":
                return div(P.as_float(l), P.as_float(r))
            if op == "//":
                return fn("fdiv", [l, r], "int") if not (P.isconst(l) and P.isconst(r)) else const(int(P.cval(l) // P.cval(r)))
        if o == "un" and n.a[0] == "-":
            return neg(self.node(n.a[1]))
        if o in ("str", "fmt") and n.a and isinstance(n.a[0], N):
            return self.node(n.a[0])
        if o == "cat" and len(n.a) == 1:
            return self.node(n.a[0])
        if o == "call" and n.a[0] in ("builtins.int", "builtins.float", "builtins.round", "math.floor", "math.ceil") and len(n.a[1]) == 1:
            v = self.node(n.a[1][0])
            if n.a[0].endswith("float"):
                return P.as_float(v)
            return P.simp_fn({"int": "trunc", "round": "pyround", "floor": "floor", "ceil": "ceil"}[n.a[0].split(".")[1]], [v], "int")
        if o == "call" and n.a[0] in ("builtins.min", "builtins.max") and len(n.a[1]) == 2:
            l, r = self.node(n.a[1][0]), self.node(n.a[1][1])
            c = lt(l, r)
            return b_ite(c, l, r) if n.a[0].endswith("min") else b_ite(c, r, l)
        if o == "phi":
            c = self.ncond(n.a[0])
            if c is not None:
                return b_ite(c, self.node(n.a[1]), self.node(n.a[2]))
        nm = show(n)
        if nm in self.symv:
            return self.symv[nm]
        return sym(nm, "float" if nm in self.float_syms else "int")

    def ncond(self, n):
        if n.op == "cmp":
            op, l, r = n.a
            try:
                l, r = self.node(l), self.node(r)
            except Unsupported:
                return None
            return self.cmp(op, l, r)
        if n.op == "not":
            c = self.ncond(n.a[0])
            return None if c is None else not_(c)
        if n.op == "bool":
            cs = [self.ncond(x) for x in n.a[1:]]
            if any(c is None for c in cs):
                return None
            out = cs[0]
            for c in cs[1:]:
                out = and_(out, c) if n.a[0] == "and" else or_(out, c)
            return out
        return None

    def cmp(self, op, l, r):
        if op == "<":
            return lt(l, r)
        if op == ">":
            return lt(r, l)
        if op == "<=":
            return le(l, r)
        if op == ">=":
            return le(r, l)
        if op == "==":
            return eq(l, r)
        if op == "!=":
            return not_(eq(l, r))
        return None

    # ---- lvalues ----
    def cname(self, t):
        """array / variable name of an expression or None"""
        if t[0] == "id":
            return t[1]
        if t[0] == "field":
            return t[2]
        if t[0] == "un" and t[1] == "*":
            return None
        return None

    def ref(self, t, env):
        """(array name, index V) for an element lvalue, or ('scalar', name)"""
        if t[0] == "id":
            v = env.vars.get(t[1])
            return ("scalar", t[1])
        if t[0] == "field":
            return ("scalar", t[2])
        if t[0] == "idx":
            base, i = t[1], self.ex(t[2], env)
            if isinstance(i, Ptr):
                raise Unsupported("pointer as subscript")
            if base[0] == "idx":
                a, off = self.ref(base, env)
                d = self.dims.get(a)
                if a == "scalar" or not d or len(d) < 2:
                    # row pointer arrays: treat as two-level read
                    raise Unsupported("multi-level subscript")
                depth = 0
                b = base
                while b[0] == "idx":
                    depth += 1
                    b = b[1]
                return (a, add(mul(off, d[depth]), i))
            p = self.pointer(base, env)
            return (p.array, add(p.off, i))
        if t[0] == "un" and t[1] == "*":
            p = self.ex(t[2], env)
            if isinstance(p, Ptr):
                return (p.array, p.off)
            raise Unsupported("deref")
        if t[0] == "cast":
            return self.ref(t[2], env)
        if t[0] == "hole":
            return ("scalar", "⟨" + show(t[1]) + "⟩")
        raise Unsupported(f"lvalue {t[0]}")

    def pointer(self, t, env):
        if t[0] == "id":
            v = env.vars.get(t[1])
            if isinstance(v, Ptr):
                return v
            n = self.rename(t[1])
            return Ptr(n, ZERO, self.elty(n))
        if t[0] == "field":
            n = self.rename(t[2])
            return Ptr(n, ZERO, self.elty(n))
        if t[0] == "hole":
            return Ptr(self.rename("⟨" + show(t[1]) + "⟩"), ZERO)
        v = self.ex(t, env)
        if isinstance(v, Ptr):
            return v
        raise Unsupported("pointer expression")

    def elty(self, name):
        t = self.types.get(name)
        return "int" if t == "int" else "float"

    # ---- expressions ----
    def ex(self, t, env):
        k = t[0]
        if k == "num":
            v = t[1]
            if isinstance(v, float) or "." in t[2]:
                return const(float(v))
            return const(int(v))
        if k == "hole":
            return self.hole(t[1])
        if k == "id":
            n = t[1]
            if n in env.vars:
                return env.vars[n]
            if n in self.types and self.types[n] in ("int", "float"):
                return sym("uninit:" + n, self.types[n])
            if n in self.dims:
                return Ptr(n, ZERO, self.elty(n))
            if n in self.symv:
                return self.symv[n]
            if n in ("INFINITY", "HUGE_VAL", "HUGE_VALF"):
                return POSINF
            return sym(n, "float" if n in self.float_syms else "int")
        if k == "field":
            if t[2] in env.vars:
                return env.vars[t[2]]
            n = self.rename(t[2])
            return Ptr(n, ZERO, self.elty(n))
        if k == "idx":
            a, i = self.ref(t, env)
            return self.load(a, i, env)
        if k == "cast":
            v = self.ex(t[2], env)
            if isinstance(v, Ptr):
                return v
            ty = t[1]
            if "int" in ty.split() or ty in ("int", "long", "size_t", "unsigned", "short"):
                return P.simp_fn("trunc", [v], "int")
            if ty in ("float", "double", "const float") or ty.startswith("⟨"):
                return P.as_float(v)
            return v
        if k == "un":
            op = t[1]
            if op == "&":
                if t[2][0] == "idx":
                    a, i = self.ref(t[2], env)
                    return Ptr(a, i, self.elty(a))
                return self.pointer(t[2], env)
            if op == "*":
                p = self.ex(t[2], env)
                if isinstance(p, Ptr):
                    return self.load(p.array, p.off, env)
                raise Unsupported("deref of non pointer")
            v = self.num(t[2], env)
            if op == "-":
                return neg(v)
            if op == "+":
                return v
            if op == "!":
                return not_(boolean(v))
            raise Unsupported("~")
        if k == "bin":
            op = t[1]
            l, r = self.ex(t[2], env), self.ex(t[3], env)
            if isinstance(l, Ptr) and op in "+-" and not isinstance(r, Ptr):
                return Ptr(l.array, add(l.off, r) if op == "+" else sub(l.off, r), l.ty)
            if isinstance(r, Ptr) and op == "+":
                return Ptr(r.array, add(r.off, l), r.ty)
            if isinstance(l, Ptr) or isinstance(r, Ptr):
                raise Unsupported("pointer arithmetic")
            if op == "+":
                return add(l, r)
            if op == "-":
                return sub(l, r)
            if op == "*":
                return mul(l, r)
            if op == "/":
                return div(l, r)
            if op == "%":
                return mod(l, r)
            if op == "&&":
                return and_(boolean(l), boolean(r))
            if op == "||":
                return or_(boolean(l), boolean(r))
            c = self.cmp(op, l, r)
            if c is not None:
                return c
            return fn("c" + op, [l, r], "int")
        if k == "tern":
            c = boolean(self.num(t[1], env))
            return b_ite(c, self.num(t[2], env), self.num(t[3], env))
        if k in ("pre", "post"):
            old = self.num(t[2], env)
            new = add(old, ONE) if t[1] == "++" else sub(old, ONE)
            self.assign(t[2], new, env, 0)
            return new if k == "pre" else old
        if k == "assign":
            return self.do_assign(t, env)
        if k == "comma":
            self.ex(t[1], env)
            return self.ex(t[2], env)
        if k == "call":
            return self.call(t, env)
        if k == "str":
            raise Unsupported("string")
        raise Unsupported(k)

    def num(self, t, env):
        v = self.ex(t, env)
        if isinstance(v, Ptr):
            raise Unsupported("pointer used as number")
        return v

    def call(self, t, env):
        f = t[1]
        name = f[1] if f[0] in ("id", "hole") and not isinstance(f[1], N) else None
        if name == "__ACT__":
            return fn("act", [P.as_float(self.num(t[2][0], env))], "float")
        if name in self.funcs:
            return self.funcs[name](self, [self.ex(x, env) for x in t[2]])
        args = [self.num(x, env) for x in t[2]]
        if name in FLOAT_FN:
            return P.simp_fn(FLOAT_FN[name], [P.as_float(a) for a in args], "float") if FLOAT_FN[name] not in ("floor", "ceil", "round", "rint") else P.simp_fn(FLOAT_FN[name], args, "float")
        if name in ("fmax", "fmaxf", "max", "MAX") and len(args) == 2:
            return b_ite(lt(args[0], args[1]), args[1], args[0])
        if name in ("fmin", "fminf", "min", "MIN") and len(args) == 2:
            return b_ite(lt(args[0], args[1]), args[0], args[1])
        if name == "isnan":
            return ZERO
        if name == "abs":
            return b_ite(lt(args[0], ZERO), neg(args[0]), args[0])
        return fn("call:" + str(name), args, "float", opaque=True)

    # ---- memory ----
    def load(self, a, i, env):
        if a == "scalar":
            v = env.vars.get(i)
            if v is None:
                raise Unsupported(f"scalar {i}")
            return v
        return P.lift(lambda j: self.load1(a, j, env), i)

    def load1(self, a, i, env):
        self.accesses.append((a, "r", i, list(self.loops)))
        key = (a, i)
        if key in env.cells:
            return env.cells[key][0]
        for (b, j) in reversed(list(env.cells)):
            if b != a:
                continue
            d = sub(i, j)
            if P.isconst(d):
                continue
            # distinct symbolic cell: may alias
            return self.opq(f"read {a}[{i!r}] may alias {a}[{j!r}]", i)
        return self.memread(a, i)

    def memread(self, a, i):
        sts = self.stores.get(a)
        lv = self.lver.get(a)
        if lv is not None:
            if len(sts or ()) == lv[1]:
                return read(f"{a}@L{lv[0]}", i, self.elty(a))
            r = self.compose(a, i, lv[1])
            if r is not None:
                return r
            if all(x.idx is i for x in sts[lv[1]:]):
                pass
            return self.opq(f"read of {a} after a partial write", i)
        if sts:
            r = self.compose(a, i)
            if r is not None:
                return r
            # in-place/partial content: named version
            return read(f"{a}@{len(sts)}", i, self.elty(a))
        return read(a, i, self.elty(a))

    def opq(self, why, *args):
        self.notes.append(why)
        return fn("opaque:" + why, list(args), "float", opaque=True)

    def compose(self, a, i, n0=0):
        """content of a[i] after the recorded stores: only when the last store's index is a plain loop
        variable over a zero based range, or structurally equal to i"""
        sts = self.stores[a][n0:]
        if not sts:
            return None
        s = sts[-1]
        if len(sts) > 1 and any(x.idx is not s.idx for x in sts[:-1]) and not self.same_dom(sts):
            return None
        m = unify(s, i)
        if m is not None:
            # the matched positions must range over the store's own domain
            bounds = {n: (lo, hi) for n, lo, hi in self.loops}
            for n, lo, hi in s.dom:
                v = m.get(n)
                if v is None:
                    if n in s.value.fv:
                        return None
                    continue
                if v.leaf and len(v.terms) == 1 and v.terms[0][1] == 1 and len(v.terms[0][0]) == 1 and v.terms[0][0][0].kind == "sym":
                    b = bounds.get(v.terms[0][0][0].a[0])
                    if b is not None and (b[0] is not self.N(lo) or b[1] is not self.N(hi)):
                        return None
                    if b is None:
                        return None
                else:
                    return None
            val = Subst(m)(s.value)
            if has_old(val):
                if len(sts) > 1:
                    return None
                return None
            return val
        return None

    def N(self, v):
        return v

    def same_dom(self, sts):
        """every store is a full flat map over the same range"""
        s = sts[-1]
        return len(s.dom) == 1 and all(len(x.dom) == 1 and x.dom[0][1] is s.dom[0][1] and x.dom[0][2] is s.dom[0][2] and x.idx is sym(x.dom[0][0]) for x in sts)

    def assign(self, t, v, env, line):
        a, i = self.ref(t, env)
        if a == "scalar":
            if isinstance(v, V):
                ty = env.types.get(i) or self.types.get(i)
                if ty == "int":
                    v = P.simp_fn("trunc", [v], "int") if v.ty != "int" else v
                elif ty == "float":
                    v = P.as_float(v)
            env.vars[i] = v
            return
        if isinstance(v, Ptr):
            raise Unsupported("pointer stored in array")
        if self.elty(a) == "float":
            v = P.as_float(v)
        if not i.leaf:
            i = self.opq("conditional subscript", i)
        self.accesses.append((a, "w", i, list(self.loops)))
        env.cells.pop((a, i), None)
        env.cells[(a, i)] = (v, line)

    def do_assign(self, t, env):
        op, l, r, line = t[1], t[2], t[3], t[4]
        v = self.ex(r, env)
        if op != "=":
            old = self.ex(l, env)
            if isinstance(old, Ptr):
                if isinstance(v, Ptr) or op not in ("+=", "-="):
                    raise Unsupported("pointer op")
                v = Ptr(old.array, add(old.off, v) if op == "+=" else sub(old.off, v), old.ty)
            else:
                f = {"+=": add, "-=": sub, "*=": mul, "/=": div, "%=": mod}.get(op)
                if f is None or isinstance(v, Ptr):
                    raise Unsupported(op)
                v = f(old, v)
        self.assign(l, v, env, line)
        return v

    # ---- statements ----
    def stmts(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        k = s[0]
        if k == "block":
            saved_t = env.types
            env.types = dict(env.types)
            before = set(env.vars)
            shadow = {}
            for q in s[1]:
                if q[0] == "decl":
                    for nm, *_ in q[2]:
                        if nm in env.vars and nm not in shadow:
                            shadow[nm] = env.vars[nm]
                self.stmt(q, env)
            env.types = saved_t
            env.vars.update(shadow)
        elif k == "decl":
            for nm, ptr, dims, init in s[2]:
                if dims:
                    self.dims[nm] = [self.num(d, env) if d is not None else None for d in dims]
                    self.types[nm] = "int" if "int" in s[1] else "float"
                    if init is not None:
                        pass
                    continue
                ty = "int" if "int" in s[1].split() or s[1] in ("size_t", "long") else "float"
                if not ptr:
                    env.types[nm] = ty
                env.vars.pop(nm, None)
                if init is not None:
                    v = self.ex(init, env)
                    if isinstance(v, V) and not ptr:
                        v = P.as_float(v) if ty == "float" else (P.simp_fn("trunc", [v], "int") if v.ty != "int" else v)
                    if isinstance(v, Ptr) and not ptr:
                        raise Unsupported("pointer to scalar")
                    env.vars[nm] = v
                elif not ptr:
                    env.vars[nm] = sym("uninit:" + nm, ty)
        elif k == "expr":
            self.ex(s[1], env)
        elif k == "for":
            self.loop(s, env)
        elif k == "if":
            c = boolean(self.num(s[1], env))
            if P.isconst(c):
                if c is not ZERO:
                    self.stmt(s[2], env)
                elif s[3] is not None:
                    self.stmt(s[3], env)
                return
            e1, e2 = env.copy(), env.copy()
            n1 = self.ntop
            self.stmt(s[2], e1)
            if s[3] is not None:
                self.stmt(s[3], e2)
            self.merge(c, e1, e2, env)
        elif k in ("empty", "pp"):
            pass
        elif k in ("while", "dowhile"):
            self.havoc(s, env, "while loop")
        elif k in ("break", "continue", "return"):
            raise Unsupported(k)
        else:
            raise Unsupported(k)

    def merge(self, c, e1, e2, env):
        for n in set(e1.vars) | set(e2.vars):
            a, b = e1.vars.get(n), e2.vars.get(n)
            if a is b:
                env.vars[n] = a
            elif a is None or b is None:
                x = a if a is not None else b
                if isinstance(x, Ptr):
                    env.vars[n] = x
                else:
                    u = sym("uninit:" + n, x.ty)
                    env.vars[n] = b_ite(c, a if a is not None else u, b if b is not None else u)
            elif isinstance(a, Ptr) or isinstance(b, Ptr):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.array == b.array:
                    env.vars[n] = Ptr(a.array, b_ite(c, a.off, b.off), a.ty)
                else:
                    raise Unsupported("pointer merge")
            else:
                env.vars[n] = b_ite(c, a, b)
        keys = list(e1.cells) + [x for x in e2.cells if x not in e1.cells]
        cells = {}
        for key in keys:
            a, b = e1.cells.get(key), e2.cells.get(key)
            if a is not None and b is not None:
                cells[key] = (a[0] if a[0] is b[0] else b_ite(c, a[0], b[0]), a[1] or b[1])
            else:
                old = self.cell_init(key)
                cells[key] = (b_ite(c, a[0], old) if a is not None else b_ite(c, old, b[0]), (a or b)[1])
        env.cells = cells
        env.types = e1.types

    def old(self, a, i):
        return read(a + "!" + OLD, i, self.elty(a))

    # ---- loops ----
    def assigned(self, s, out=None, arrays=None):
        out = set() if out is None else out
        arrays = set() if arrays is None else arrays

        def e(t):
            if not isinstance(t, tuple):
                return
            if t and t[0] in ("assign", "pre", "post"):
                l = t[2]
                base = l
                while base[0] in ("cast",):
                    base = base[2]
                if base[0] == "id":
                    out.add(base[1])
                elif base[0] == "field":
                    out.add(base[2])
                elif base[0] in ("idx", "un"):
                    arrays.add(1)
            if t and t[0] == "decl":
                for nm, ptr, dims, init in t[2]:
                    if not dims:
                        out.add(nm)
            for x in t:
                if isinstance(x, tuple):
                    e(x)
                elif isinstance(x, list):
                    for y in x:
                        e(y)
        e(s)
        return out

    def header(self, s, env):
        """(var, lo, hi) of a for loop with unit stride"""
        init, cond, step, body = s[1], s[2], s[3], s[4]
        if init is None or cond is None or step is None:
            raise Unsupported("for header")
        if init[0] == "decl":
            if len(init[2]) != 1:
                raise Unsupported("for init")
            self.stmt(init, env)
            var = init[2][0][0]
        else:
            e = init[1]
            if e[0] == "comma":
                raise Unsupported("for init")
            if e[0] != "assign" or e[1] != "=" or e[2][0] != "id":
                raise Unsupported("for init")
            self.ex(e, env)
            var = e[2][1]
        lo = env.vars[var]
        if isinstance(lo, Ptr):
            raise Unsupported("pointer loop")
        st = None
        if step[0] in ("pre", "post") and step[2] == ("id", var):
            st = 1 if step[1] == "++" else -1
        elif step[0] == "assign" and step[2] == ("id", var):
            e2 = env.copy()
            x = sym(fresh())
            e2.vars[var] = x
            self.do_assign(step, e2)
            d = sub(e2.vars[var], x)
            if P.isconst(d):
                st = int(P.cval(d))
            else:
                st = d
        if st is None:
            raise Unsupported("for step")
        neg_c = False
        if cond[0] != "bin" or cond[1] not in ("<", "<=", ">", ">=", "!="):
            raise Unsupported("for condition")
        op, l, r = cond[1], cond[2], cond[3]
        if r == ("id", var):
            l, r = r, l
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
        if l != ("id", var):
            raise Unsupported("for condition")
        e2 = env.copy()
        e2.vars[var] = sym("#loopvar")
        b = self.num(r, e2)
        if "#loopvar" in b.fv:
            raise Unsupported("for bound")
        if st == 1 and op in ("<", "<=", "!="):
            hi = b if op in ("<", "!=") else add(b, ONE)
            return var, lo, hi, 1
        if st == -1 and op in (">", ">="):
            # from lo down to b: same iteration set as [b, lo]
            nlo = b if op == ">=" else add(b, ONE)
            return var, nlo, add(lo, ONE), -1
        if op == "<" and (isinstance(st, V) or st > 1):
            return var, lo, b, st
        raise Unsupported("for step/condition")

    def loop(self, s, env):
        body = s[4]
        try:
            var, lo, hi, st = self.header(s, env)
        except Unsupported as e:
            self.havoc(s, env, str(e))
            return
        name = fresh("l")
        x = sym(name)
        scale = None
        if st not in (1, -1):
            # strided: var = lo + st*x, x < ceil((hi-lo)/st)
            sv = st if isinstance(st, V) else const(st)
            n = div(sub(hi, lo), sv) if P.isconst(sub(hi, lo)) and P.isconst(sv) and P.cval(sub(hi, lo)) % P.cval(sv) == 0 else fn("cdiv", [sub(hi, lo), sv], "int")
            scale = (lo, sv)
            varv = add(lo, mul(sv, x))
            lo, hi = ZERO, n
        else:
            varv = x
        mod_ = self.assigned(body)
        mod_.discard(var)
        mod_ = [m for m in mod_ if m in env.vars]
        self.loops.append((name, lo, hi))
        try:
            self.run_loop(s, env, var, varv, name, lo, hi, mod_, st)
        finally:
            self.loops.pop()

    def run_loop(self, s, env, var, varv, name, lo, hi, mod_, st):
        x = sym(name)
        body = s[4]
        closed = {}        # induction variables: name -> value at iteration start
        finals = {}
        inner_cells = None
        entry_cells = dict(env.cells)
        base_n = {a: len(v) for a, v in self.stores.items()}
        cellvars = {}      # (array, idx) -> carried symbol
        for rnd in range(4):
            e = env.copy()
            e.cells = {}
            e.vars[var] = varv
            carried = {}
            for m in mod_:
                if m in closed:
                    e.vars[m] = closed[m]
                    continue
                v0 = env.vars[m]
                if isinstance(v0, Ptr):
                    c = sym(f"@{m}{name}")
                    e.vars[m] = Ptr(v0.array, c, v0.ty)
                    carried[m] = (c, v0.off, True, v0)
                else:
                    c = sym(f"@{m}{name}", v0.ty)
                    e.vars[m] = c
                    carried[m] = (c, v0, False, None)
            # memory: cells known before the loop stay readable only when re-read at the same index
            for key in cellvars:
                e.cells[key] = (cellvars[key], 0)
            for key, vl in entry_cells.items():
                if key not in e.cells and key[0] not in self.written(body, e):
                    e.cells[key] = vl
            saved = {a: list(v) for a, v in self.stores.items()}
            na = len(self.accesses)
            outer_lver = dict(self.lver)
            for a in self.written(body, e):
                self.lver[a] = (name, len(self.stores.get(a, ())))
            self.stmt(body, e)
            self.lver = outer_lver
            again = False
            # carried cells: written in the body with an index invariant in this loop
            names = {c.fv and next(iter(c.fv)) for c, *_ in carried.values()}
            for key, (v, ln) in list(e.cells.items()):
                if key in entry_cells and entry_cells[key] == (v, ln):
                    continue
                if key not in cellvars and name not in key[1].fv and not any(n.startswith("@") and n.endswith(name) for n in key[1].fv):
                    cellvars[key] = sym(f"@cell{len(cellvars)}{name}", self.elty(key[0]))
                    again = True
            # induction variables
            if not again:
                for m, (c, v0, isp, p0) in carried.items():
                    v1 = e.vars[m]
                    if isinstance(v1, Ptr):
                        if not isp or v1.array != p0.array:
                            raise Unsupported("pointer changes array in loop")
                        v1 = v1.off
                    elif isp:
                        raise Unsupported("pointer/number mix")
                    d = sub(v1, c)
                    if not d.leaf or name in d.fv or any(n.startswith("@") for n in d.fv) or d is ZERO:
                        continue
                    if v1.ty != "int":
                        continue
                    if st == -1:
                        continue
                    it = sub(x, lo)
                    start = add(v0, mul(d, it))
                    closed[m] = Ptr(p0.array, start, p0.ty) if isp else start
                    end = add(v0, mul(d, sub(hi, lo)))
                    finals[m] = Ptr(p0.array, end, p0.ty) if isp else end
                    again = True
            if again:
                self.stores = saved
                del self.accesses[na:]
                continue
            break
        else:
            raise Unsupported("loop did not stabilise")
        # classify carried variables
        cs = {}
        for m, (c, v0, isp, p0) in carried.items():
            v1 = e.vars[m]
            cs[("v", m)] = (c, v0, v1.off if isp else v1, isp, p0)
        for key, c in cellvars.items():
            v0 = entry_cells[key][0] if key in entry_cells else self.cell_init(key)
            v1, ln = e.cells[key]
            cs[("c", key)] = (c, v0, v1, False, ln)
        csyms = {next(iter(c.fv)): k for k, (c, *_r) in cs.items()}
        res = {}
        wl = {f"{a}@L{name}": (lambda A, i, ty: self.opq(f"{A.split('@')[0]} read and written by the same loop", i)) for a in self.written(body, e)}
        rs = Subst({}, wl)
        for k, (c, v0, v1, isp, extra) in list(cs.items()):
            if "@L" + name in v1.k:
                v1 = rs(v1)
                cs[k] = (c, v0, v1, isp, extra)
            res[k] = self.reduce(c, v0, v1, name, lo, hi, csyms)
        # values escaping through other variables / stores must not see partial reductions
        leaks = set()
        for k, (c, v0, v1, isp, extra) in cs.items():
            if v1 is c:
                continue          # unchanged
            nm = next(iter(c.fv))
            for k2, (c2, _, w1, *_r) in cs.items():
                if k2 != k and nm in w1.fv:
                    leaks.add(k)
            for key, (v, ln) in e.cells.items():
                if ("c", key) != k and (nm in v.fv or nm in key[1].fv):
                    leaks.add(k)
            for a, sts in self.stores.items():
                for q in sts[len(saved.get(a, [])):]:
                    if nm in q.value.fv or nm in q.idx.fv or any(nm in h.fv or nm in l.fv for _, l, h in q.dom):
                        leaks.add(k)
        sub_leak = {}
        for k in leaks:
            c = cs[k][0]
            nm = next(iter(c.fv))
            sub_leak[nm] = self.opq(f"partial value of {k[1] if k[0] == 'v' else k[1][0]} in loop", x) if c.ty == "float" else P.fn("opaque:carried", [x], "int", opaque=True)
        unchanged = {next(iter(c.fv)): v0 for k, (c, v0, v1, isp, extra) in cs.items() if v1 is c}
        sub_all = dict(unchanged)
        sub_all.update(sub_leak)
        sb = Subst(sub_all) if sub_all else (lambda z: z)
        # flush cells depending on the loop variable
        newcells = {}
        for key, (v, ln) in e.cells.items():
            if key in entry_cells and entry_cells[key] == (v, ln):
                continue
            if ("c", key) in cs:
                continue
            self.flush(key[0], [], sb(key[1]), sb(v), ln)
        # stores made in this loop get the loop in their domain
        fin = {}
        for a, sts in self.stores.items():
            n0 = len(saved.get(a, []))
            if len(sts) == n0:
                continue
            new, self.stores[a] = sts[n0:], sts[:n0]
            fin[a] = new
        for a, new in fin.items():
            for q in new:
                if sub_all:
                    q.idx, q.value = sb(q.idx), sb(q.value)
                    q.dom = [(n, sb(l), sb(h)) for n, l, h in q.dom]
                self.close_store(q, name, lo, hi, [b for b in fin])
        for a, new in fin.items():
            self.stores[a] = self.stores[a] + new
        self.accesses[na:] = [(a, k, sb(i), [(n, sb(l), sb(h)) for n, l, h in lp]) for a, k, i, lp in self.accesses[na:]]
        # results after the loop
        for m, v in finals.items():
            env.vars[m] = v
        for k, v in res.items():
            v = sb(v) if isinstance(v, V) else v
            if k[0] == "v":
                c, v0, v1, isp, p0 = cs[k]
                env.vars[k[1]] = Ptr(p0.array, v, p0.ty) if isp else v
            else:
                newcells[k[1]] = (v, cs[k][4])
        env.vars[var] = hi if st == 1 else (sub(lo, ONE) if st == -1 else fn("opaque:final", [x], "int", opaque=True))
        cells = dict(entry_cells)
        wr = self.written(body, e)
        for key in list(cells):
            if key[0] in wr and key not in newcells:
                # flush before the loop's stores to keep order
                a = key[0]
                n0 = len(saved.get(a, []))
                self.stores.setdefault(a, []).insert(n0, Store(a, [], key[1], cells[key][0], cells[key][1]))
                del cells[key]
        cells.update(newcells)
        env.cells = cells

    def close_store(self, q, name, lo, hi, warrays):
        """one iteration's store -> the whole loop's store"""
        a = q.array
        inv = name not in q.idx.fv and not any(name in l.fv or name in h.fv for _, l, h in q.dom)
        tag = f"{a}@L{name}"
        hit = {}

        def me(A, i, ty):
            if i is q.idx:
                if not inv:
                    return self.cell_init((a, i))
                hit["c"] = sym(f"@acc{name}", ty)
                return hit["c"]
            return self.opq(f"{a} read and written by the same loop", i)

        def other(A, i, ty):
            # written by another statement of this loop, read before that statement
            return self.opq(f"{A.split('@')[0]} read before being rewritten in the loop", i)
        arr = {f"{b}@L{name}": other for b in warrays if b != a}
        arr[tag] = me
        v = Subst({}, arr)(q.value)
        if not inv:
            q.value = v
            q.dom = [(name, lo, hi)] + q.dom
            return
        c = hit.get("c")
        if c is None:
            q.value = P.last_(name, lo, hi, v)
            return
        init = self.cell_init((a, q.idx))
        q.value = self.reduce(c, init, v, name, lo, hi, {next(iter(c.fv)): 1})

    def written(self, body, env):
        """arrays possibly written by body"""
        out = set()

        def e(t):
            if not isinstance(t, tuple):
                return
            if t and t[0] in ("assign", "pre", "post") and t[2][0] in ("idx", "un"):
                b = t[2]
                while b[0] in ("idx", "un", "cast"):
                    b = b[2] if b[0] in ("un", "cast") else b[1]
                nm = b[1] if b[0] == "id" else b[2] if b[0] == "field" else "⟨" + show(b[1]) + "⟩" if b[0] == "hole" else None
                v = env.vars.get(nm)
                if isinstance(v, Ptr):
                    out.add(v.array)
                if nm:
                    out.add(self.rename(nm))
            for y in t:
                if isinstance(y, tuple):
                    e(y)
                elif isinstance(y, list):
                    for z in y:
                        e(z)
        e(body)
        return out

    def cell_init(self, key):
        a, i = key
        if a in self.lver:
            return self.memread(a, i)
        if self.stores.get(a):
            r = self.compose(a, i)
            if r is not None:
                return r
            return read(f"{a}@{len(self.stores[a])}", i, self.elty(a))
        return self.old(a, i)

    def flush(self, a, dom, idx, v, ln):
        self.stores.setdefault(a, []).append(Store(a, dom, idx, v, ln))

    def reduce(self, c, v0, v1, name, lo, hi, csyms):
        nm = next(iter(c.fv))
        if v1 is c:
            return v0
        if not any(n in csyms for n in v1.fv):
            # assigned in every iteration: last value
            return P.last_(name, lo, hi, v1)
        others = [n for n in v1.fv if n in csyms and n != nm]
        d = sub(v1, c)
        if not any(n in csyms for n in d.fv):
            return add(v0, reduce_("sum", [(name, lo, hi)], d))
        if not others:
            m = self.minmax(v1, c)
            if m is not None:
                kind, e = m
                r = reduce_(kind, [(name, lo, hi)], e)
                return extremum(kind, v0, r)
            q = self.prodform(v1, c)
            if q is not None:
                return mul(v0, reduce_("prod", [(name, lo, hi)], q))
        return fn("opaque:recurrence", [P.last_(name, lo, hi, Subst({n: ZERO for n in v1.fv if n in csyms})(v1))], v1.ty, opaque=True)

    def minmax(self, v1, c):
        nm = next(iter(c.fv))
        kinds = set()

        def ext(u):
            if u.leaf:
                if u is c:
                    return None            # unchanged
                if nm in u.fv:
                    if len(u.terms) == 1 and u.terms[0][1] == 1 and len(u.terms[0][0]) == 1:
                        at = u.terms[0][0][0]
                        if at.kind == "fn" and at.a[0] in ("max2", "min2") and c in at.a[1:]:
                            o = [z for z in at.a[1:] if z is not c]
                            if len(o) == 1 and nm not in o[0].fv:
                                kinds.add(at.a[0][:3])
                                return o[0]
                    raise Unsupported
                kinds.add("set")
                return u
            p = u.cond.p
            if nm not in u.cond.fv:
                h, l = ext(u.hi), ext(u.lo)
                h = "ID" if h is None else h
                l = "ID" if l is None else l
                if h is l:
                    return h
                return ("ite", u.cond, h, l)
            if u.cond.kind not in ("gt", "ge"):
                raise Unsupported
            # gt: p > 0, p = ±(e - c)
            co = dict(p.terms).get((next(iter(c.terms))[0][0],), 0)
            if co == -1:        # e - c > 0
                e = add(p, c)
                if nm in e.fv:
                    raise Unsupported
                if u.lo is c and u.hi is e:
                    kinds.add("max")
                    return e
                if u.hi is c and u.lo is e:
                    kinds.add("min")
                    return e
            elif co == 1:       # c - e > 0
                e = sub(c, p)
                if nm in e.fv:
                    raise Unsupported
                if u.lo is c and u.hi is e:
                    kinds.add("min")
                    return e
                if u.hi is c and u.lo is e:
                    kinds.add("max")
                    return e
            raise Unsupported
        try:
            r = ext(v1)
        except Unsupported:
            return None
        kinds.discard("set") if False else None
        if "set" in kinds or len(kinds) != 1:
            return None
        kind = next(iter(kinds))
        idv = NEGINF if kind == "max" else POSINF

        def fin(r):
            if r is None or r == "ID":
                return idv
            if isinstance(r, tuple):
                return ite(r[1], fin(r[2]), fin(r[3]))
            return r
        return kind, fin(r)

    def prodform(self, v1, c):
        atom = c.terms[0][0][0]

        def f(u):
            out = {}
            for m, k in u.terms:
                if list(m).count(atom) != 1:
                    raise Unsupported
                l = list(m)
                l.remove(atom)
                out[tuple(l)] = k
            q = P._mk_leaf(out, u.ty)
            if next(iter(c.fv)) in q.fv:
                raise Unsupported
            return q
        try:
            def rec(u):
                if u.leaf:
                    return f(u)
                if next(iter(c.fv)) in u.cond.fv:
                    raise Unsupported
                return ite(u.cond, rec(u.hi), rec(u.lo))
            return rec(v1)
        except Unsupported:
            return None

    def havoc(self, s, env, why):
        self.notes.append(why)
        for m in self.assigned(s):
            v = env.vars.get(m)
            if isinstance(v, Ptr):
                raise Unsupported(why)
            env.vars[m] = fn("opaque:" + why, [], v.ty if isinstance(v, V) else "int", opaque=True)
        for a in self.written(s, env):
            self.stores.setdefault(a, []).append(Store(a, [], fn("opaque:" + why, [], "int", opaque=True), fn("opaque:" + why, [], "float", opaque=True), 0))

    # ---- driver ----
    def run(self, prog, env=None):
        env = env or Env()
        env.types.update({k: v for k, v in self.types.items() if v in ("int", "float") and k not in self.dims})
        for s in prog:
            # flush pending top-level cells lazily: order between statements matters
            self.top(s, env)
        for (a, i), (v, ln) in env.cells.items():
            self.stores.setdefault(a, []).append(Store(a, [], i, v, ln))
        env.cells = {}
        return env

    def top(self, s, env):
        if s[0] == "block":
            for q in s[1]:
                self.top(q, env)
            return
        before = {a: len(v) for a, v in self.stores.items()}
        self.stmt(s, env)


def extremum(kind, u, v):
    if kind == "max":
        if u is NEGINF:
            return v
        if v is NEGINF:
            return u
    elif kind == "min":
        if u is POSINF:
            return v
        if v is POSINF:
            return u
    for x, y in ((u, v), (v, u)):
        # max(body[k := 0], max over k of body) == max over k of body
        if y.leaf and len(y.terms) == 1 and y.terms[0][1] == 1 and len(y.terms[0][0]) == 1:
            a = y.terms[0][0][0]
            if a.kind == "red" and a.a[0] == kind and Subst({n: ZERO for n, _, _ in a.a[1]})(a.a[2]) is x:
                return y
    if not (u.leaf and v.leaf):
        return P.lift(lambda a, b: extremum(kind, a, b), u, v)
    return fn_comm(kind + "2", u, v)


def fn_comm(name, u, v):
    return P.lift(lambda a, b: P.fn_atom(name, sorted([a, b], key=lambda z: z.k), "float" if "float" in (a.ty, b.ty) else "int"), u, v)


def has_old(v):
    return "!" + OLD in v.k


def reads_of(v, array):
    """index values at which `array` is read inside v"""
    out, st, seen = [], [v], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.leaf:
            for m, c in x.terms:
                for a in m:
                    for y in a.a:
                        if isinstance(y, V):
                            st.append(y)
                    if a.kind == "red":
                        for n, lo, hi in a.a[1]:
                            st += [lo, hi]
                    if a.kind == "rd" and a.a[0] == array:
                        out.append(a.a[1])
        else:
            st += [x.hi, x.lo, x.cond.p]
    return out


def arrays_of(v):
    out, st, seen = set(), [v], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.leaf:
            for m, c in x.terms:
                for a in m:
                    for y in a.a:
                        if isinstance(y, V):
                            st.append(y)
                    if a.kind == "red":
                        for n, lo, hi in a.a[1]:
                            st += [lo, hi]
                    if a.kind == "rd":
                        out.add(a.a[0])
        else:
            st += [x.hi, x.lo, x.cond.p]
    return out


def compose_store(inner, outer, array):
    """outer: for k: B[k] = F(array[k], k);  inner: for d: array[I(d)] = v(d)   ->   for d: B[I] = F(v, I)"""
    k = outer.dom[0][0]
    ren = {n: sym(fresh("d")) for n, lo, hi in inner.dom}
    sb = Subst(ren)
    dom = [(next(iter(ren[n].fv)), sb(lo), sb(hi)) for n, lo, hi in inner.dom]
    idx, val = sb(inner.idx), sb(inner.value)
    if has_old(val) and inner.array != outer.array:
        pass
    f = Subst({k: idx}, {array: lambda a, i, ty: val})
    return Store(outer.array, dom, f(outer.idx), f(outer.value), inner.line or outer.line)


class Summary:
    """final effects of a code fragment"""

    def __init__(self, can, hi_facts=None, positive=(), nonneg=()):
        self.can = can
        self.positive, self.nonneg = frozenset(positive), frozenset(nonneg)
        self.memo = {}
        self.notes = can.notes

    def resolve(self, s, depth=0):
        """list of stores equivalent to s with staged reads (A@n) composed away"""
        if depth > 8:
            return [s]
        staged = sorted(a for a in arrays_of(s.value) if "@" in a and "@L" not in a)
        for a in staged:
            base, n = a.rsplit("@", 1)
            idxs = reads_of(s.value, a)
            content = self.content(base, int(n), depth + 1)
            if content is None:
                continue
            if len(s.dom) == 1 and all(i is sym(s.dom[0][0]) for i in idxs) and s.dom[0][1] is ZERO and s.idx is sym(s.dom[0][0]):
                out = []
                for r in content:
                    out += self.resolve(compose_store(r, s, a), depth + 1)
                return out
            if len(content) == 1 and not has_old(content[0].value):
                c = content[0]
                for attempt in range(5):
                    bad = []
                    v = self.inline(s, a, c, bad)
                    if v is not None:
                        return self.resolve(Store(s.array, s.dom, s.idx, v, s.line), depth + 1)
                    s2 = self.split_for(s, bad)
                    if s2 is None:
                        break
                    s = s2
        return [s]

    def inline(self, s, a, c, bad):
        """s.value with every read of staged array `a` replaced by the content store c, or None"""
        ok = [True]

        def rd(A, i, ty, bounds):
            m = unify(c, i)
            if m is None:
                ok[0] = False
                bad.append((None, i))
                return read(A, i, ty)
            for n, lo, hi in c.dom:
                v = m.get(n, ZERO)
                t = single(v)
                if t is not None and t in bounds and bounds[t][0] is ZERO and lo is ZERO and bounds[t][1] is hi:
                    continue
                if n not in m and n not in c.value.fv and n not in c.idx.fv:
                    continue
                ok[0] = False
                if t is not None and t in bounds and bounds[t][0] is ZERO:
                    M = hi
                    if P.exact_div(bounds[t][1], M) is not None:
                        bad.append((t, M))
                else:
                    bad.append((None, v))
            return Subst(m)(c.value)

        class R(Subst):
            def atom(me, at):
                if at.kind == "rd" and at.a[0] == a:
                    return rd(a, me(at.a[1]), at.ty, me.bounds)
                return Subst.atom(me, at)
        sb = R({}, {"!": None})
        sb.bounds = {n: (lo, hi) for n, lo, hi in s.dom}
        v = sb(s.value)
        return v if ok[0] else None

    def split_for(self, s, bad):
        names = {n for n, _, _ in s.dom}
        for t, M in bad:
            if t in names:
                r = P.split_var(list(s.dom), [s.idx, s.value], t, M)
                if r is not None:
                    return Store(s.array, r[0], r[1][0], r[1][1], s.line)
        return None

    def content(self, a, n, depth=0):
        key = (a, n)
        if key in self.memo:
            return self.memo[key]
        out = []
        for j, s in enumerate(self.can.stores.get(a, [])[:n]):
            if has_old(s.value) and all(lo is ZERO for _, lo, _ in s.dom):
                s = Store(s.array, s.dom, s.idx, simplify(s.value, s.dom, self.positive, self.nonneg), s.line)
            me = f"{a}@{j}"
            if j and me in arrays_of(s.value):
                if len(s.dom) == 1 and all(i is sym(s.dom[0][0]) for i in reads_of(s.value, me)) and s.idx is sym(s.dom[0][0]):
                    out = [compose_store(r, s, me) for r in out]
                    continue
                if all(i is s.idx for i in reads_of(s.value, me)) and len(out) == 1:
                    r = out[0]
                    m = unify(r, s.idx)
                    if m is not None and len(r.dom) == len(s.dom):
                        val = Subst(m)(r.value)
                        f = Subst({}, {me: lambda A, i, ty: val})
                        out = [Store(a, s.dom, s.idx, f(s.value), s.line)]
                        continue
            rs = self.resolve(s, depth)
            # a total overwrite of the same positions replaces earlier content
            out = [o for o in out if not self.covers(rs, o)] + rs
        self.memo[key] = out
        return out

    def covers(self, rs, o):
        for r in rs:
            if has_old(r.value) or r.array != o.array:
                continue
            if len(r.dom) == 1 and r.idx is sym(r.dom[0][0]) and len(o.dom) == 1 and o.idx is sym(o.dom[0][0]) and o.dom[0][1:] == r.dom[0][1:]:
                return True
            m = match_dom(r, o)
            if m:
                return True
        return False

    def final(self, a):
        c = self.content(a, len(self.can.stores.get(a, [])))
        return [self.canon(s) for s in c]

    def canon(self, s):
        dom, val, idx = s.dom, s.value, s.idx
        sb = {}
        nd = []
        for n, lo, hi in dom:
            if lo is not ZERO:
                sb[n] = add(sym(n), lo)
            nd.append((n, ZERO, sub(hi, lo)))
        if sb:
            f = Subst(sb)
            idx, val = f(idx), f(val)
            nd = [(n, lo, f(hi)) for n, lo, hi in nd]
        val = simplify(val, nd, self.positive, self.nonneg)
        idx = simplify(idx, nd, self.positive, self.nonneg)
        nd, (idx, val) = P.autosplit(nd, [idx, val])
        nd, (idx, val) = P.collapse(nd, [idx, val])
        return Store(s.array, nd, idx, val, s.line)


def single(v):
    if v.leaf and len(v.terms) == 1 and v.terms[0][1] == 1 and len(v.terms[0][0]) == 1 and v.terms[0][0][0].kind == "sym":
        return v.terms[0][0][0].a[0]
    return None


def match_dom(r, o):
    if len(r.dom) != len(o.dom) or len(r.dom) > 4:
        return None
    for p in itertools.permutations(o.dom):
        m = {r.dom[i][0]: sym(p[i][0]) for i in range(len(p))}
        f = Subst(m)
        if all(f(r.dom[i][1]) is p[i][1] and f(r.dom[i][2]) is p[i][2] for i in range(len(p))) and f(r.idx) is o.idx:
            return m
    return None


# ---- facts -------------------------------------------------------------------------------
def sign_at_least(p, dom, positive, nonneg, want):
    """True if p >= want for all loop positions in dom and all shape symbols (>= 1 / >= 0)"""
    # eliminate loop variables at the extreme that minimises p
    for n, lo, hi in reversed(dom):
        if n not in p.fv:
            continue
        if not p.leaf:
            return False
        co = {}
        for m, c in p.terms:
            k = sum(1 for a in m if a.kind == "sym" and a.a[0] == n)
            if any(n in a.fv and a.kind != "sym" for a in m) or k > 1:
                return False
            if k:
                l = [a for a in m if not (a.kind == "sym" and a.a[0] == n)]
                co[tuple(l)] = c
        if all(c > 0 for c in co.values()):
            ext = lo
        elif all(c < 0 for c in co.values()):
            ext = sub(hi, ONE)
        else:
            return False
        if not ext.leaf:
            return False
        p = Subst({n: ext})(p)
    if not p.leaf:
        return False
    sh = {n: add(sym(n), ONE) for n in p.fv if n in positive}
    q = Subst(sh)(p) if sh else p
    if not q.leaf:
        return False
    k = 0
    for m, c in q.terms:
        if not m:
            k = c
        elif c < 0 or not all(a.kind == "sym" and (a.a[0] in positive or a.a[0] in nonneg or a.a[0] in {d[0] for d in dom} or a.a[0].startswith("%")) for a in m):
            return False
    return k >= want


def simplify(v, dom, positive=frozenset(), nonneg=frozenset()):
    """removes guards decided by the loop domain"""
    memo = {}

    def dec(c, d, facts=()):
        if c.kind != "ge":
            return None
        for q in facts:
            if sign_at_least(sub(c.p, q), d, positive, nonneg, 0):
                return True
            if sign_at_least(sub(neg(c.p), q), d, positive, nonneg, 1):
                return False
        if sign_at_least(c.p, d, positive, nonneg, 0):
            return True
        if sign_at_least(neg(c.p), d, positive, nonneg, 1):
            return False
        return None

    def go(x, d, dk, fs=()):
        key = (x, dk, fs)
        if key in memo:
            return memo[key]
        if not x.leaf:
            t = dec(x.cond, d, fs)
            r = go(x.hi, d, dk, fs) if t is True else go(x.lo, d, dk, fs) if t is False else None
            if r is None:
                ge = x.cond.kind == "ge" and x.cond.p.leaf
                fh = fs + (x.cond.p,) if ge else fs
                fl = fs + (sub(neg(x.cond.p), ONE),) if ge else fs
                cp = go(x.cond.p, d, dk)
                b = {"ge": lambda p: P.lift(P._int_cond, p), "gt": lambda p: P.lift(P._gt, p), "eq": lambda p: P.lift(P._eq0, p)}[x.cond.kind](cp)
                r = b_ite(b, go(x.hi, d, dk, fh), go(x.lo, d, dk, fl))
        else:
            r = x
            if any(a.kind == "red" or (a.kind in ("fn", "rd", "inv") and "?" in a.k) or "{" in a.k for m, c in x.terms for a in m):
                r = const(0) if x.ty == "int" else const(0.0)
                for m, c in x.terms:
                    t = const(int(c)) if c.denominator == 1 and x.ty == "int" else const(c, "float" if x.ty == "float" else "int")
                    for a in m:
                        t = mul(t, atom(a, d, dk, fs))
                    r = add(r, t)
                if x.ty == "float":
                    r = P.as_float(r)
        memo[key] = r
        return r

    def atom(a, d, dk, fs=()):
        if a.kind == "rd":
            return read(a.a[0], go(a.a[1], d, dk, fs), a.ty)
        if a.kind == "inv":
            return P.lift(lambda q: P._inv(P.as_float(q)), go(a.a[0], d, dk, fs))
        if a.kind == "fn":
            if a.a[0] in ("idiv", "mod"):
                return P.lift({"idiv": P._div, "mod": P._mod}[a.a[0]], *[go(y, d, dk, fs) for y in a.a[1:]])
            return P.simp_fn(a.a[0], [go(y, d, dk, fs) if isinstance(y, V) else y for y in a.a[1:]], a.ty) if not a.opaque else P.of_atom(a)
        if a.kind == "red":
            kind, vs, body = a.a
            d2 = list(d) + [(n, lo, hi) for n, lo, hi in vs]
            # reversed elimination handles bounds depending on outer variables
            return reduce_(kind, list(vs), go(body, d2, dk + (a,), fs))
        return P.of_atom(a)
    return go(v, list(dom), ())


# ---- comparison --------------------------------------------------------------------------
def rename(s, names):
    m = {n: sym(x) for (n, lo, hi), x in zip(s.dom, names)}
    f = Subst(m)
    return [(x, f(lo), f(hi)) for (n, lo, hi), x in zip(s.dom, names)], f(s.idx), f(s.value)


def diff_stores(spec, impl):
    """None if equal, else (kind, description); kind in 'index','value','bound','count','opaque'"""
    if len(spec.dom) != len(impl.dom):
        return ("count", f"{len(impl.dom)} loop dimension(s) instead of {len(spec.dom)}")
    n = len(spec.dom)
    if n > 6:
        return ("opaque", "too many loops")
    best = None
    cn = [f"i{k}" for k in range(n)]
    sd, si, sv = rename(spec, cn)
    for p in itertools.permutations(range(n)):
        names = [cn[k] for k in p]
        d, i, v = rename(impl, names)
        dm = {x: (lo, hi) for x, lo, hi in d}
        bad = [x for x, lo, hi in sd if dm[x] != (lo, hi)]
        score = (len(bad) and 1, i is not si, v is not sv, len(bad))
        if best is None or score < best[0]:
            best = (score, dm, bad, i, v)
        if score == (0, False, False, 0):
            return None
    score, dm, bad, i, v = best
    out = []
    kind = None
    if bad:
        x = bad[0]
        exp = next(hi for y, lo, hi in sd if y == x)
        kind, out = "bound", [f"loop bound {dm[x][1]!r} where {exp!r} is required"]
    if i is not si:
        kind = kind or "index"
        out.append(f"writes element {i!r} where {si!r} is required")
    if v is not sv:
        kind = kind or "value"
        out.append("stores " + localdiff(v, sv))
    return kind, "; ".join(out)


def localdiff(v, w, depth=0):
    """shortest description of the difference between two values"""
    if depth < 12:
        if not v.leaf and not w.leaf:
            if v.cond is w.cond:
                if v.hi is w.hi:
                    return localdiff(v.lo, w.lo, depth + 1)
                if v.lo is w.lo:
                    return localdiff(v.hi, w.hi, depth + 1)
            elif v.hi is w.hi and v.lo is w.lo:
                return f"under condition {v.cond!r} where {w.cond!r} is required"
        if v.leaf and w.leaf:
            a, b = dict(v.terms), dict(w.terms)
            x = [m for m in a if a[m] != b.get(m)]
            y = [m for m in b if b[m] != a.get(m)]
            if len(x) == 1 and len(y) == 1 and len(x[0]) == len(y[0]):
                p = [t for t in x[0] if t not in y[0]]
                q = [t for t in y[0] if t not in x[0]]
                if len(p) == 1 and len(q) == 1 and p[0].kind == q[0].kind:
                    s, t = p[0], q[0]
                    if s.kind == "rd" and s.a[0] == t.a[0]:
                        return f"{s.a[0]}[{s.a[1]!r}] where {t.a[0]}[{t.a[1]!r}] is required"
                    if s.kind == "fn" and s.a[0] == t.a[0] and len(s.a) == 2 == len(t.a):
                        return localdiff(s.a[1], t.a[1], depth + 1)
                    if s.kind == "inv":
                        return localdiff(s.a[0], t.a[0], depth + 1)
                    if s.kind == "red" and s.a[0] == t.a[0] and s.a[1] == t.a[1]:
                        return localdiff(s.a[2], t.a[2], depth + 1)
                    return f"{s.k} where {t.k} is required"
    return f"{v.k} where {w.k} is required"


def unify(store, i):
    """substitution dom var -> V such that store.idx == i, or None"""
    names = [n for n, lo, hi in store.dom]
    if not names:
        return {} if store.idx is i else None
    idx = store.idx
    if not idx.leaf or not i.leaf:
        return None
    # single variable with coefficient one and nothing else depending on dom vars
    deps = [n for n in names if n in idx.fv]
    if set(deps) != set(n for n in names if n in store.value.fv) | set(deps):
        pass
    if len(deps) == 1:
        n = deps[0]
        rest = sub(idx, sym(n))
        if n not in rest.fv:
            return {n: sub(i, rest)}
    # structural match of monomials: match each dom var to a factor
    m = {}
    it = dict(i.terms)
    # order dom vars by monomial containing them
    groups = []
    for n in deps:
        ts = [(mo, c) for mo, c in idx.terms if any(a.kind == "sym" and a.a[0] == n for a in mo)]
        if len(ts) != 1:
            return None
        mo, c = ts[0]
        co = [a for a in mo if not (a.kind == "sym" and a.a[0] == n)]
        if len(co) != len(mo) - 1:
            return None
        groups.append((len(co), n, tuple(sorted(co, key=lambda a: a.k)), c))
    groups.sort(key=lambda g: -g[0])
    free = dict(i.terms)
    const_part = dict((mo, c) for mo, c in idx.terms if not any(a.kind == "sym" and a.a[0] in names for a in mo))
    for mo, c in const_part.items():
        free[mo] = free.get(mo, 0) - c
        if not free[mo]:
            del free[mo]
    for _, n, co, c in groups:
        val = {}
        for mo in list(free):
            l = list(mo)
            try:
                for a in co:
                    l.remove(a)
            except ValueError:
                continue
            q = free[mo] / c
            if q.denominator != 1:
                continue
            val[tuple(l)] = q
            del free[mo]
        if not val:
            val = {}
        m[n] = P._mk_leaf(val, "int")
    if free:
        return None
    if Subst(m)(idx) is not i:
        return None
    # every chosen value must plausibly stay in range: require each matched value to be a single symbol
    # with the same bounds -- checked by the caller through the domains
    return m
