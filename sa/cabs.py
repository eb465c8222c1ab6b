"""Abstract run of emitted C: integers constant-propagated through the (constant) loops, data abstracted to what it depends on.

The emitted program is the rendered text of a network with concrete extents, so that every index is a constant once loops are unrolled in
the analysis; values read from tensors and weights are never known, only the set of tensor elements they depend on.  The run reports
accesses outside the declared extent of an array, reads of elements that were never written, and for every layer the dependencies of
each element of its output.
"""
from __future__ import annotations

import math

from . import terms as T
from .cparse import CError

EMPTY = frozenset()
DATA = {frozenset, T.P}


class Unsupported(Exception):
    pass


class Arr:
    __slots__ = ("name", "dims", "n", "dep", "const", "kind", "bad")

    def __init__(self, name, dims, kind, const=False):
        self.name, self.dims, self.kind, self.const = name, tuple(dims), kind, const
        self.n = math.prod(dims)
        self.dep = [None] * self.n if not const else None


class Str(str):
    """string literal, as written"""


class Ptr:
    __slots__ = ("arr", "off", "dims")

    def __init__(self, arr, off, dims):
        self.arr, self.off, self.dims = arr, off, dims


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


INTS = ("int", "long", "short", "char", "unsigned", "size_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t")


def kind_of(ty):
    w = ty.split()
    if "float" in w or "double" in w:
        return "f"
    if any(x in INTS for x in w):
        return "i"
    return "?"


MATH = {"floor": math.floor, "ceil": math.ceil, "fabs": abs, "abs": abs, "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "tanh": math.tanh, "round": lambda x: math.floor(x + .5) if x >= 0 else -math.floor(-x + .5),
        "rint": round, "fmax": max, "fmin": min, "pow": math.pow}


LIMITS = {"INFINITY": math.inf, "HUGE_VAL": math.inf, "HUGE_VALF": math.inf, "FLT_MAX": 3.4028235e38, "FLT_MIN": 1.17549435e-38, "INT_MAX": 2**31 - 1, "INT_MIN": -2**31, "M_PI": math.pi}


def div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Machine:
    def __init__(self, budget=4000000, dom=None):
        self.dom = dom or Deps()
        self.globals = {}       # name -> Arr or scalar
        self.fields = {}        # member of the context -> Arr
        self.funcs = {}
        self.layer = None       # label of the layer being executed
        self.line = 0
        self.issues = {}        # (kind, layer, array) -> text
        self.notes = {}
        self.log = None
        self.budget = budget
        self.on_mark = None
        self.externs = {}       # name -> function of the arguments (strings are given as text)
        self.on_pragma = None
        self.accesses = 0
        self.used = set()
        self.read_log = None    # when set: set of (array name, index) read

    # ------------------------------------------------ reporting
    def issue(self, kind, arr, what):
        self.issues.setdefault((kind, self.layer, arr), what)

    def note(self, what):
        self.notes.setdefault((self.layer, what), None)

    # ------------------------------------------------ memory
    def load(self, p, i, nm="?"):
        a = p.arr
        self.accesses += 1
        if type(i) is not int:
            self.note(f"index of {a.name} not constant")
            return self.dom.unknown()
        j = p.off + i
        if not 0 <= j < a.n:
            self.issue("outside", a.name, f"reads element {j} of {a.name}, which has {a.n}")
            return self.dom.unknown()
        if self.read_log is not None:
            self.read_log.add((a.name, j))
        if a.const:
            return a.dep[j] if a.dep is not None else self.dom.unknown()
        d = a.dep[j]
        if d is None:
            self.issue("unset", a.name, f"reads element {j} of {a.name}, which nothing has written")
            return self.dom.unknown()
        return d

    def store(self, p, i, v):
        a = p.arr
        self.accesses += 1
        if type(i) is not int:
            self.note(f"index of {a.name} not constant")
            return
        j = p.off + i
        if not 0 <= j < a.n:
            self.issue("outside", a.name, f"writes element {j} of {a.name}, which has {a.n}")
            return
        if a.const:
            self.issue("const", a.name, f"writes element {j} of the constant {a.name}")
            return
        if self.log is not None:
            self.log.append((a, j, a.dep[j]))
        a.dep[j] = v

    # ------------------------------------------------ compilation
    def compile(self, program):
        """top level of one file"""
        for s in program:
            if s[0] == "func":
                self.funcs[s[2]] = s
            elif s[0] == "decl" and "extern" not in s[1].split():
                pass

    def run_function(self, name, args):
        f = self.funcs[name]
        c = Compiler(self)
        slots = []
        for p, v in zip(f[3], args):
            slots.append(c.declare(p, "?"))
        body = c.stmt(f[4])
        env = [None] * (c.top + 1)
        for s, v in zip(slots, args):
            env[s] = v
        try:
            body(env)
        except Return as r:
            return r.v
        return None


class Deps:
    """data is the set of what it depends on"""

    def lift(self, v):
        return v if type(v) is frozenset else EMPTY

    def op(self, o, a, b):
        if type(a) is frozenset and type(b) is frozenset:
            return a | b if a is not b else a
        return a if type(a) is frozenset else b

    def un(self, o, a):
        return a

    def ite(self, c, a, b):
        return b_or(c, a, b)

    def call(self, name, vs):
        return b_or(*vs)

    def trunc(self, v):
        return v

    def unknown(self):
        return EMPTY

    def hole(self, e):
        return EMPTY


def b_or(*vs):
    s = EMPTY
    for v in vs:
        if type(v) in DATA:
            s = s | v
    return s


def join(m, a, b, c):
    if a is b or type(a) is type(b) and not isinstance(a, Ptr) and a == b:
        return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        raise Unsupported("pointer chosen by data")
    return m.dom.ite(c, a, b)


class Compiler:
    def __init__(self, m):
        self.m = m
        self.scopes = [{}]
        self.top = 0

    def declare(self, name, kind):
        self.top += 1
        self.scopes[-1][name] = (self.top, kind)
        return self.top

    def find(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    # ------------------------------------------------ statements
    def stmt(self, s):
        k = s[0]
        m = self.m
        if k == "block":
            self.scopes.append({})
            xs = [self.stmt(x) for x in s[1]]
            self.scopes.pop()

            def f(env):
                for x in xs:
                    x(env)
            return f
        if k == "empty":
            return lambda env: None
        if k == "pp":
            t = s[1].split()
            if len(t) > 1 and t[1] == "acetone_mark":
                def f(env, t=tuple(t[2:])):
                    m.on_mark(t)
                return f
            if t[0] == "#pragma" and m.on_pragma is not None:
                return lambda env: m.on_pragma(t[1:])
            if t[0] in ("#pragma", "#include"):
                return lambda env: None
            if t[0] == "#define" and len(t) == 3:
                try:
                    v = int(t[2], 0)
                    self.m.globals[t[1]] = v
                    return lambda env: None
                except ValueError:
                    pass
            raise Unsupported("preprocessor " + s[1][:40])
        if k == "decl":
            return self.decl(s)
        if k == "expr":
            e = self.expr(s[1])
            return lambda env: e(env)
        if k == "return":
            e = self.expr(s[1]) if s[1] is not None else None

            def f(env):
                raise Return(e(env) if e is not None else None)
            return f
        if k in ("break", "continue"):
            ex = Break if k == "break" else Continue

            def f(env):
                if m.log is not None:
                    raise Unsupported("jump under a condition on data")
                raise ex
            return f
        if k == "for":
            self.scopes.append({})
            init = None
            if s[1] is not None:
                init = self.decl(s[1]) if s[1][0] == "decl" else self.expr(s[1][1])
            cond = self.expr(s[2]) if s[2] is not None else None
            step = self.expr(s[3]) if s[3] is not None else None
            body = self.stmt(s[4])
            self.scopes.pop()

            def f(env):
                if init is not None:
                    init(env)
                while True:
                    m.budget -= 1
                    if m.budget < 0:
                        raise Unsupported("too many iterations")
                    if cond is not None:
                        c = cond(env)
                        if type(c) in DATA:
                            raise Unsupported("loop bound depends on data")
                        if not c:
                            break
                    try:
                        body(env)
                    except Break:
                        break
                    except Continue:
                        pass
                    if step is not None:
                        step(env)
            return f
        if k in ("while", "dowhile"):
            cond, body = self.expr(s[1]), self.stmt(s[2])

            def f(env):
                first = k == "dowhile"
                while True:
                    m.budget -= 1
                    if m.budget < 0:
                        raise Unsupported("too many iterations")
                    if not first:
                        c = cond(env)
                        if type(c) in DATA:
                            raise Unsupported("loop condition depends on data")
                        if not c:
                            break
                    first = False
                    try:
                        body(env)
                    except Break:
                        break
                    except Continue:
                        pass
            return f
        if k == "if":
            c, a = self.expr(s[1]), self.stmt(s[2])
            b = self.stmt(s[3]) if s[3] is not None else None

            def f(env):
                v = c(env)
                if type(v) not in DATA:
                    if v:
                        a(env)
                    elif b is not None:
                        b(env)
                    return
                self.both(env, v, a, b)
            return f
        if k in ("proto", "struct"):
            return lambda env: None
        raise Unsupported("statement " + k)

    def both(self, env, v, a, b):
        m = self.m
        env0, out = list(env), m.log
        m.log = []
        a(env)
        env1, log1 = list(env), m.log
        after1 = {}
        for arr, j, old in reversed(log1):
            after1.setdefault((id(arr), j), (arr, j, arr.dep[j]))
            arr.dep[j] = old
        env[:] = env0
        m.log = []
        if b is not None:
            b(env)
        log2 = m.log
        first = {}
        for arr, j, old in log2:
            first.setdefault((id(arr), j), (arr, j, old))
        m.log = out
        keys = dict(after1)
        for k_, (arr, j, old) in first.items():
            keys.setdefault(k_, (arr, j, None))
        for k_, (arr, j, _) in keys.items():
            now2 = arr.dep[j]
            x = after1[k_][2] if k_ in after1 else first[k_][2]
            orig = first[k_][2] if k_ in first else now2
            if m.log is not None:
                m.log.append((arr, j, orig))
            if x is None or now2 is None:
                arr.dep[j] = x if now2 is None else now2
                if arr.dep[j] is not None:
                    arr.dep[j] = m.dom.ite(v, arr.dep[j], arr.dep[j])
            elif x is not now2:
                arr.dep[j] = m.dom.ite(v, x, now2)
        for i, (x, y) in enumerate(zip(env1, env)):
            if x is not y:
                env[i] = (x if y is None else y) if x is None or y is None else join(m, x, y, v)
                if (x is None or y is None) and type(env[i]) in DATA:
                    env[i] = m.dom.ite(v, env[i], env[i])

    def decl(self, s):
        ty, items = s[1], s[2]
        kd = kind_of(ty)
        m = self.m
        fs = []
        for name, ptr, dims, init in items:
            if dims and not ptr:
                ds = [self.expr(d) if d is not None else None for d in dims]
                iv = None
                if init is not None and init[0] == "init":
                    iv = [self.expr(x) if x[0] != "init" else None for x in init[1]]
                slot = self.declare(name, "arr")

                def f(env, slot=slot, ds=ds, iv=iv, name=name, init=init):
                    dd = [d(env) if d is not None else len(iv or ()) for d in ds]
                    if any(type(d) is not int for d in dd):
                        raise Unsupported("extent of " + name)
                    a = Arr(name, dd, "local")
                    env[slot] = Ptr(a, 0, a.dims)
                    if iv is not None:
                        if any(x is None for x in iv):
                            a.dep = [m.dom.lift(0.0)] * a.n
                        else:
                            a.dep = [m.dom.lift(0.0) if kd == "f" else 0] * a.n
                            if len(iv) > a.n:
                                m.issue("outside", name, f"{len(iv)} initial values for the {a.n} elements of {name}")
                            for i, x in enumerate(iv[:a.n]):
                                v = x(env)
                                a.dep[i] = v if kd == "i" or type(v) in DATA else m.dom.lift(v)
                fs.append(f)
                continue
            e = self.expr(init) if init is not None else None
            slot = self.declare(name, "p" if ptr else kd)

            def f(env, slot=slot, e=e, kd="p" if ptr else kd):
                env[slot] = None if e is None else conv(m, e(env), kd)
            fs.append(f)
        if len(fs) == 1:
            return fs[0]

        def g(env):
            for f in fs:
                f(env)
        return g

    # ------------------------------------------------ expressions
    def lval(self, e):
        """(get, set) of an assignable expression"""
        m = self.m
        if e[0] == "id":
            s = self.find(e[1])
            if s is None:
                raise Unsupported("assignment to " + e[1])
            i, kd = s
            nm = e[1]

            def get(env):
                v = env[i]
                if v is None:
                    m.issue("unset", nm, f"reads {nm} before it is given a value")
                    return m.dom.unknown()
                return v

            def put(env, v):
                env[i] = conv(m, v, kd)
            return get, put
        if e[0] == "idx":
            b, i = self.expr(e[1]), self.expr(e[2])

            def ref(env):
                p = b(env)
                if not isinstance(p, Ptr):
                    raise Unsupported("indexing of a value that is no array")
                return p, i(env)

            def get(env):
                p, j = ref(env)
                return m.load(p, j)

            def put(env, v):
                p, j = ref(env)
                if len(p.dims) > 1:
                    raise Unsupported("assignment of a row")
                m.store(p, j, v if type(v) in DATA or p.arr.kind == "local" and type(v) is int else m.dom.lift(v))
            return get, put
        if e[0] == "un" and e[1] == "*":
            return self.lval(("idx", e[2], ("num", 0, "0")))
        raise Unsupported("assignment to " + e[0])

    def expr(self, e):
        k = e[0]
        m = self.m
        if k == "num":
            v = e[1]
            return lambda env: v
        if k == "str":
            return lambda env: EMPTY
        if k == "hole":
            return lambda env: m.dom.hole(e)
        if k == "sizeof":
            return lambda env: 4
        if k == "id":
            s = self.find(e[1])
            if s is None:
                nm = e[1]

                def f(env):
                    v = m.globals.get(nm)
                    if v is None and nm in LIMITS:
                        return LIMITS[nm]
                    if v is None:
                        raise Unsupported("unknown name " + nm)
                    return Ptr(v, 0, v.dims) if isinstance(v, Arr) else v
                return f
            i, kd = s
            nm = e[1]

            def f(env):
                v = env[i]
                if v is None:
                    m.issue("unset", nm, f"reads {nm} before it is given a value")
                    return 0 if kd == "i" else m.dom.unknown()
                return v
            return f
        if k == "field":
            nm = e[2]
            if e[1][0] != "id":
                raise Unsupported("member of an expression")

            def f(env):
                a = m.fields.get(nm)
                if a is None:
                    m.issue("undeclared", nm, f"uses {nm}, which the context does not have")
                    raise Unsupported("no member " + nm)
                return Ptr(a, 0, a.dims)
            return f
        if k == "idx":
            b, i = self.expr(e[1]), self.expr(e[2])

            def f(env):
                p, j = b(env), i(env)
                if not isinstance(p, Ptr):
                    raise Unsupported("indexing of a value that is no array")
                if len(p.dims) > 1:
                    if type(j) is not int:
                        raise Unsupported("row index")
                    if not 0 <= j < p.dims[0]:
                        m.issue("outside", p.arr.name, f"index {j} of {p.arr.name} in a dimension of {p.dims[0]}")
                    return Ptr(p.arr, p.off + j * math.prod(p.dims[1:]), p.dims[1:])
                return m.load(p, j)
            return f
        if k == "comma":
            a, b = self.expr(e[1]), self.expr(e[2])

            def f(env):
                a(env)
                return b(env)
            return f
        if k == "assign":
            get, put = self.lval(e[2])
            r = self.expr(e[3])
            if e[1] == "=":
                def f(env):
                    v = r(env)
                    put(env, v)
                    return v
                return f
            op = binop(m, e[1][:-1])

            def f(env):
                v = op(get(env), r(env))
                put(env, v)
                return v
            return f
        if k in ("pre", "post"):
            get, put = self.lval(e[2])
            d = 1 if e[1] == "++" else -1

            def f(env):
                v = get(env)
                w = Ptr(v.arr, v.off + d, v.dims) if isinstance(v, Ptr) else v + d if type(v) not in DATA else v
                put(env, w)
                return w if k == "pre" else v
            return f
        if k == "bin":
            a, b = self.expr(e[2]), self.expr(e[3])
            if e[1] in ("&&", "||"):
                short = e[1] == "||"

                def f(env):
                    v = a(env)
                    if type(v) not in DATA:
                        if bool(v) == short:
                            return int(short)
                        w = b(env)
                        return int(bool(w)) if type(w) not in DATA else w
                    w = b(env)
                    if type(w) not in DATA and bool(w) == short:
                        return int(short)
                    return m.dom.op(e[1], v, w)
                return f
            op = binop(m, e[1])
            return lambda env: op(a(env), b(env))
        if k == "un":
            if e[1] == "&":
                if e[2][0] == "idx":
                    b, i = self.expr(e[2][1]), self.expr(e[2][2])

                    def f(env):
                        p, j = b(env), i(env)
                        if not isinstance(p, Ptr) or type(j) is not int:
                            raise Unsupported("address")
                        return Ptr(p.arr, p.off + j * math.prod(p.dims[1:]), p.dims[1:] or (p.arr.n,))
                    return f
                if e[2][0] in ("id", "field"):
                    b = self.expr(e[2])

                    def f(env):
                        p = b(env)
                        if not isinstance(p, Ptr):
                            raise Unsupported("address")
                        return p
                    return f
                raise Unsupported("address")
            if e[1] == "*":
                return self.expr(("idx", e[2], ("num", 0, "0")))
            a = self.expr(e[2])
            o = e[1]

            def f(env):
                v = a(env)
                if type(v) in DATA:
                    return m.dom.un(o, v)
                if isinstance(v, Ptr):
                    raise Unsupported("operator on a pointer")
                return -v if o == "-" else v if o == "+" else int(not v) if o == "!" else ~v
            return f
        if k == "cast":
            a = self.expr(e[2])
            kd = "p" if e[1].endswith("*") else kind_of(e[1])
            return lambda env: conv(m, a(env), kd)
        if k == "tern":
            c, a, b = (self.expr(x) for x in e[1:4])

            def f(env):
                v = c(env)
                if type(v) not in DATA:
                    return a(env) if v else b(env)
                return m.dom.ite(v, a(env), b(env))
            return f
        if k == "call":
            return self.call(e)
        if k == "init":
            return lambda env: EMPTY
        raise Unsupported("expression " + k)

    def call(self, e):
        m = self.m
        if e[1][0] != "id":
            raise Unsupported("indirect call")
        nm = e[1][1]
        if nm in m.externs:
            fn, raw = m.externs[nm], [(lambda env, v=Str(a[1]): v) if a[0] == "str" else self.expr(a) for a in e[2]]
            return lambda env: fn(*[a(env) for a in raw])
        args = [self.expr(a) for a in e[2]]
        if nm in ("memcpy", "memmove", "memset"):
            def f(env):
                vs = [a(env) for a in args]
                if not isinstance(vs[0], Ptr) or type(vs[2]) is not int:
                    raise Unsupported(nm)
                n = vs[2] // 4
                src = [m.load(vs[1], i) for i in range(n)] if nm != "memset" else [m.dom.lift(0.0)] * n
                for i in range(n):
                    m.store(vs[0], i, src[i])
                return m.dom.unknown()
            return f
        if nm in m.funcs:
            def f(env):
                return m.run_function(nm, [a(env) for a in args])
            return f
        base = nm[:-1] if nm.endswith("f") and nm[:-1] in MATH else nm
        fn = MATH.get(base)
        known = nm in ("printf", "fprintf", "fopen", "fclose", "omp_get_thread_num")
        if fn is None and not known and not nm.startswith(("erf", "cos", "sin", "sqrt", "exp", "log", "tan", "is", "lround", "lrint", "trunc", "cbrt", "hypot", "fma")):
            raise Unsupported("call of " + nm)

        def f(env):
            vs = [a(env) for a in args]
            if any(isinstance(v, Ptr) for v in vs):
                raise Unsupported("call of " + nm)
            if fn is not None and all(type(v) not in DATA for v in vs):
                try:
                    return float(fn(*vs))
                except (ValueError, OverflowError, ZeroDivisionError):
                    return m.dom.unknown()
            return m.dom.call(base, vs)
        return f


def conv(m, v, kd):
    if type(v) in DATA:
        return m.dom.trunc(v) if kd == "i" else v
    if isinstance(v, Ptr) or v is None:
        return v
    if kd == "f":
        return float(v)
    if kd == "i":
        return int(v) if math.isfinite(v) else m.dom.unknown()
    return v


def binop(m, o):
    cmp = {"==": lambda a, b: int(a == b), "!=": lambda a, b: int(a != b), "<": lambda a, b: int(a < b), ">": lambda a, b: int(a > b),
           "<=": lambda a, b: int(a <= b), ">=": lambda a, b: int(a >= b)}
    ar = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
          "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}
    ar.update(cmp)
    fn = ar.get(o)

    def f(a, b):
        ta, tb = type(a), type(b)
        if ta in DATA or tb in DATA:
            if ta is Ptr or tb is Ptr:
                raise Unsupported("pointer arithmetic")
            return m.dom.op(o, a, b)
        if ta is Ptr or tb is Ptr:
            if o == "+" and tb is int:
                return Ptr(a.arr, a.off + b * math.prod(a.dims[1:]), a.dims)
            if o == "-" and tb is int:
                return Ptr(a.arr, a.off - b * math.prod(a.dims[1:]), a.dims)
            if o == "+" and ta is int:
                return Ptr(b.arr, b.off + a * math.prod(b.dims[1:]), b.dims)
            if ta is Ptr and tb is Ptr and o in cmp and a.arr is b.arr:
                return cmp[o](a.off, b.off)
            raise Unsupported("pointer arithmetic")
        if fn is not None:
            return fn(a, b)
        if o == "/":
            if b == 0:
                if ta is int and tb is int:
                    m.issue("division", "", "divides by zero")
                return m.dom.unknown()
            return div(a, b) if ta is int and tb is int else a / b
        if o == "%":
            if b == 0:
                m.issue("division", "", "divides by zero")
                return m.dom.unknown()
            return a - b * div(a, b)
        raise Unsupported("operator " + o)
    return f
