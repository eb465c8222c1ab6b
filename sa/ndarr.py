"""Exact numpy over arrays of known shape, for the interpreter's precise mode.

An array is a heap object with a known shape whose elements are value-graph scalars: numbers (attributes, axes, indices...) or generic
symbols (weights).  A generic symbol stands for any number that is not a neutral element: comparing it with 0 or 1 for equality is
decided, nothing else about it is.
"""
from __future__ import annotations

import itertools
import math
import struct

from .interp import HObj, Interp, Raised
from .nodes import FALSE, NONE, TRUE, N, bin_, bool_, const, mk, not_, phi, show, sym

DT = {"builtins.int": "i", "builtins.float": "f", "builtins.bool": "b"}
NP_SCALAR = {"i": "numpy.int64", "f": "numpy.float64", "b": "numpy.bool_", "r": "numpy.float32"}


class HNd:
    k = "nd"
    __slots__ = ("shape", "data", "dt", "exact")     # exact: the name of the type its elements were given, when known

    def __init__(self, shape, data, dt="f", exact=None):
        self.shape, self.data, self.dt, self.exact = tuple(shape), tuple(data), dt, exact
        assert len(self.data) == math.prod(self.shape), (shape, len(self.data))


def exact(t):
    """name of an element type"""
    n = t.a[0] if t.op in ("ext", "const") else None
    if not isinstance(n, str):
        return None
    n = n.split(".")[-1]
    return {"float": "float64", "double": "float64", "single": "float32", "int": "int64"}.get(n, n)


class Imprecise(Exception):
    """the analysis cannot follow the code; no verdict"""


def generic(v):
    return v.op == "sym" and v.a[0].startswith("k:")


def dtype_of(x):
    if x.op == "const":
        return "b" if isinstance(x.a[0], bool) else "i" if isinstance(x.a[0], int) else "f"
    return "f"


def strides(shape):
    out, n = [], 1
    for s in reversed(shape):
        out.insert(0, n)
        n *= s
    return out


def bshape(a, b):
    r = []
    for x, y in itertools.zip_longest(reversed(a), reversed(b), fillvalue=1):
        if x != y and 1 not in (x, y):
            return None
        r.insert(0, max(x, y) if 0 not in (x, y) else 0)
    return tuple(r)


def extreme(up, x, y):
    """the larger (smaller) of two numbers"""
    if x.op == y.op == "const":
        return x if (x.a[0] >= y.a[0]) == up else y
    return mk("call", "numpy.maximum" if up else "numpy.minimum", (x, y), ())


def pick(c, x, y):
    return phi(c, x, y) if c.op != "const" else x if c.a[0] else y


def at(h, idx):
    """element of an array broadcast to a larger index"""
    idx = idx[len(idx) - len(h.shape):]
    return h.data[sum((0 if n == 1 else i) * s for i, n, s in zip(idx, h.shape, strides(h.shape)))]


def indices(shape):
    return itertools.product(*[range(n) for n in shape])


def scalar_choice(v):
    """one number or another"""
    while v.op == "phi":
        a, v = v.a[1], v.a[2]
        if not (a.op == "const" and isinstance(a.a[0], (int, float)) or a.op in ("bin", "cmp", "un") or a.op == "phi" and scalar_choice(a)):
            return False
        if v.op != "phi":
            return v.op == "const" and isinstance(v.a[0], (int, float)) or v.op in ("bin", "cmp", "un")
    return False


class NdInterp(Interp):
    """precise-mode interpreter; raise statements reached without a pending condition end the analysis with Raised"""

    unrolled = unrolled_range = 1000

    def __init__(self, repo, **k):
        super().__init__(repo, **k)
        self.precise = True
        self.record = True            # note constructor arguments of layers
        self.raised_where = None

    # ------------------------------------------------ arrays
    def nd(self, st, shape, data, dt="f", exact=None):
        return self.new(st, HNd(shape, data, dt, exact))

    def arr(self, v, st, dt=None):
        """HNd view of a value: array, number or nested list; None when unknown"""
        h = self.h(st, v)
        if h is not None and h.k == "nd":
            return h
        if v.op == "const" and isinstance(v.a[0], (int, float)) or v.op in ("sym", "bin", "cmp", "call", "un") or scalar_choice(v):
            return HNd((), (v,), dtype_of(v))
        s = self.seq(v, st)
        if s is None:
            return None
        if not s:
            return HNd((0,), (), "f")
        hs = [HNd((), (x,), "o") if x is NONE else self.arr(x, st) for x in s]
        if any(x is None for x in hs):
            return None
        if any(x.shape != hs[0].shape for x in hs):
            raise Raised("ValueError", st)
        d = "f" if any(x.dt == "f" for x in hs) else hs[0].dt
        return HNd((len(hs),) + hs[0].shape, [e for x in hs for e in x.data], d)

    def freeze(self, st, v, memo=None, depth=0):
        if isinstance(v, N) and v.op == "ref":
            h = st.heap.get(v.a[0])
            if h is not None and h.k == "nd":
                return mk("ndv", h.shape, tuple(self.freeze(st, x, memo, depth + 1) for x in h.data))
        return super().freeze(st, v, memo, depth)

    def seq(self, v, st):
        h = self.h(st, v)
        if h is not None and h.k == "nd":
            if not h.shape:
                return None
            n = math.prod(h.shape[1:])
            if len(h.shape) == 1:
                return list(h.data)
            return [self.nd(st, h.shape[1:], h.data[i * n:(i + 1) * n], h.dt) for i in range(h.shape[0])]
        if v.op == "ndindex":
            return [mk("tuple", *[const(i) for i in idx]) for idx in indices([x.a[0] for x in v.a])]
        return super().seq(v, st)

    def elementwise(self, f, l, r, st, dt=None):
        a, b = self.arr(l, st), self.arr(r, st)
        if a is None or b is None:
            raise Imprecise("operation on an unknown array")
        sh = bshape(a.shape, b.shape)
        if sh is None:
            raise Raised("ValueError", st)
        data = [f(at(a, i), at(b, i)) for i in indices(sh)]
        return self.nd(st, sh, data, dt or ("f" if "f" in (a.dt, b.dt) else "i"))

    def binop(self, op, l, r, st):
        hl, hr = self.h(st, l), self.h(st, r)
        if (hl is not None and hl.k == "nd") or (hr is not None and hr.k == "nd"):
            return self.elementwise(lambda x, y: bin_(op, x, y), l, r, st, "f" if op == "/" else None)
        return super().binop(op, l, r, st)

    def compare0(self, op, l, r, st):
        hl, hr = self.h(st, l), self.h(st, r)
        if op in ("==", "!=", "<", "<=", ">", ">=") and ((hl is not None and hl.k == "nd") or (hr is not None and hr.k == "nd")):
            return self.elementwise(lambda x, y: self.compare0(op, x, y, st), l, r, st, "b")
        if op in ("in", "not in") and hr is not None and hr.k == "nd":
            return bool_("or", tuple(self.compare0("==", l, x, st) for x in hr.data)) if op == "in" else not_(bool_("or", tuple(self.compare0("==", l, x, st) for x in hr.data)))
        if op in ("==", "!="):
            for x, y in ((l, r), (r, l)):
                if generic(x) and y.op == "const":
                    return const(op == "!=")
            if l.op == r.op == "ext" and (l.a[0].startswith(("builtins.", "numpy.")) and r.a[0].startswith(("builtins.", "numpy."))):
                return const((l.a[0] == r.a[0]) == (op == "=="))
            if l.op == r.op == "tuple" and (len(l.a) != len(r.a) or all(x.op == "const" for x in l.a + r.a)):
                return const((len(l.a) == len(r.a) and all(x.a[0] == y.a[0] for x, y in zip(l.a, r.a))) == (op == "=="))
        if op in ("is", "is not") and l.op == r.op == "ext" and l.a[0].startswith(("builtins.", "numpy.")) and r.a[0].startswith(("builtins.", "numpy.")):
            return const((l.a[0] == r.a[0]) == (op == "is"))
        return super().compare0(op, l, r, st)

    def truthy(self, v, st):
        h = self.h(st, v)
        if h is not None and h.k == "nd":
            if len(h.data) == 1:
                return self.truthy(h.data[0], st)
            if len(h.data) > 1:
                raise Raised("ValueError", st)
            return FALSE
        if generic(v):
            return TRUE
        return super().truthy(v, st)

    # ------------------------------------------------ indexing
    def plan(self, h, k, st):
        """[(per result element) flat position], result shape; None when not modelled"""
        ks = list(k.a) if k.op == "tuple" else [k]
        hk = self.h(st, k)
        if hk is not None and hk.k == "list":
            ks = [k]
        axes, shape, ax = [], [], 0
        if sum(1 for x in ks if x.op not in ("const",) or x.a[0] is not None) > len(h.shape) + sum(1 for x in ks if x is NONE):
            raise Raised("IndexError", st)
        for x in ks:
            if x is NONE or x.op == "const" and x.a[0] is Ellipsis:
                return None
            n = h.shape[ax]
            if x.op == "slice":
                if not all(y.op == "const" for y in x.a):
                    return None
                r = list(range(*slice(*[y.a[0] for y in x.a]).indices(n)))
                axes.append((r, True))
            elif x.op == "const" and isinstance(x.a[0], int):
                if not -n <= x.a[0] < n:
                    raise Raised("IndexError", st)
                axes.append(([x.a[0] % n], False))
            else:
                return None
            ax += 1
        for n in h.shape[ax:]:
            axes.append((list(range(n)), True))
        shape = tuple(len(r) for r, keep in axes if keep)
        sd = strides(h.shape)
        pos = [sum(i * s for i, s in zip(idx, sd)) for idx in itertools.product(*[r for r, _ in axes])]
        return pos, shape

    def item(self, v, k, st, node=None):
        h = self.h(st, v)
        if h is not None and h.k == "nd":
            p = self.plan(h, k, st)
            if p is None:
                raise Imprecise("array index " + show(k)[:60])
            pos, sh = p
            return h.data[pos[0]] if sh == () else self.nd(st, sh, [h.data[i] for i in pos], h.dt)
        if h is not None and h.k == "list" and k.op == "tuple":
            raise Raised("TypeError", st)
        if h is not None and h.k == "list" and k.op == "const" and type(k.a[0]) is int:
            if not -len(h.items) <= k.a[0] < len(h.items):
                raise Raised("IndexError", st)
        if h is not None and h.k == "dict" and k.op == "const" and self.dict_items(h) is not None and k.a[0] not in h.d:
            raise Raised("KeyError", st)
        if v.op == "tuple" and k.op == "const" and type(k.a[0]) is int and not -len(v.a) <= k.a[0] < len(v.a):
            raise Raised("IndexError", st)
        return super().item(v, k, st, node)

    def unop(self, op, v, st):
        h = self.h(st, v)
        if h is not None and h.k == "nd":
            if op == "~":
                if h.dt != "b":
                    raise Imprecise("inverted bits")
                return self.nd(st, h.shape, [not_(x) for x in h.data], "b")
            return self.nd(st, h.shape, [x if op == "+" else const(-x.a[0]) if x.op == "const" else mk("un", op, x) for x in h.data], h.dt)
        return super().unop(op, v, st)

    def mheap(self, c, x, y):
        if x.k == y.k == "nd":
            if x.shape != y.shape:
                raise Imprecise("array of two shapes")
            return HNd(x.shape, [a if a is b else pick(c, a, b) for a, b in zip(x.data, y.data)], x.dt)
        return super().mheap(c, x, y)

    readonly = frozenset()  # arrays that cannot be written

    def setitem(self, v, k, val, st, node):
        h = self.h(st, v)
        if h is not None and h.k == "nd" and v.a[0] in self.readonly:
            raise Raised("ValueError", st)
        if h is not None and h.k == "nd":
            p = self.plan(h, k, st)
            if p is None:
                raise Imprecise("array store")
            pos, sh = p
            hv = self.arr(val, st)
            if hv is None or bshape(hv.shape, sh) != sh:
                raise Imprecise("array store")
            d = list(h.data)
            for i, idx in zip(pos, indices(sh)):
                d[i] = at(hv, idx)
            st.heap[v.a[0]] = HNd(h.shape, d, h.dt)
            return
        if h is not None and h.k == "list" and k.op == "const" and type(k.a[0]) is int and not -len(h.items) <= k.a[0] < len(h.items):
            raise Raised("IndexError", st)
        return super().setitem(v, k, val, st, node)

    # ------------------------------------------------ attributes, methods
    def attr(self, v, name, st, node=None):
        h = self.h(st, v)
        if h is not None and h.k == "nd":
            if name == "shape":
                return mk("tuple", *[const(n) for n in h.shape])
            if name == "size":
                return const(len(h.data))
            if name == "ndim":
                return const(len(h.shape))
            if name == "T":
                return self.transposed(v, None, st)
            if name == "dtype":
                return mk("ext", NP_SCALAR[h.dt])
            return mk("meth", v, name)
        if v.op == "const" and isinstance(v.a[0], bytes):
            return mk("meth", v, name)
        if name == "__name__" and v.op == "ext":
            return const(v.a[0].split(".")[-1])
        if (h is not None and h.k in ("list", "dict") or v.op == "const" and isinstance(v.a[0], (int, float, str))) and name in ("shape", "ndim", "flatten", "size", "astype") and not st.pc:
            raise Raised("AttributeError", st)
        if h is not None and h.k == "obj" and h.cls is None and name not in h.f:
            raise Imprecise("field " + name + " of a model object")
        return super().attr(v, name, st, node)

    def transposed(self, v, perm, st):
        h = self.h(st, v)
        if h is None or h.k != "nd":
            raise Imprecise("transpose")
        p = perm or list(range(len(h.shape)))[::-1]
        if sorted(i % len(h.shape) if h.shape else i for i in p) != list(range(len(h.shape))):
            raise Raised("ValueError", st)
        p = [i % len(p) for i in p]
        sh = [h.shape[i] for i in p]
        sd = strides(h.shape)
        return self.nd(st, sh, [h.data[sum(i * sd[a] for i, a in zip(idx, p))] for idx in indices(sh)], h.dt)

    def ints(self, args, st):
        out = []
        for a in args:
            s = [a] if a.op == "const" else self.seq(a, st)
            if s is None or not all(x.op == "const" and isinstance(x.a[0], int) for x in s):
                raise Imprecise("array shape")
            out.extend(x.a[0] for x in s)
        return out

    def reshape(self, v, shape, st):
        h = self.arr(v, st)
        if h is None:
            raise Imprecise("reshape")
        shape = list(shape)
        if -1 in shape:
            n = math.prod(x for x in shape if x != -1)
            shape[shape.index(-1)] = len(h.data) // max(n, 1)
        if math.prod(shape) != len(h.data):
            raise Raised("ValueError", st)
        return self.nd(st, shape, h.data, h.dt, h.exact)

    def method(self, b, name, args, kwargs, st, node):
        h = self.h(st, b)
        if b.op == "const" and isinstance(b.a[0], bytes) and name == "decode":
            return const(b.a[0].decode())
        if b.op == "const" and isinstance(b.a[0], (int, float)) and name == "item" and not args:
            return b
        if h is not None and h.k == "nd":
            if name in ("all", "any") and not args:
                return bool_("and" if name == "all" else "or", tuple(self.truthy(x, st) for x in h.data)) if h.data else const(name == "all")
            if name == "item" and not args:
                if len(h.data) != 1:
                    raise Raised("ValueError", st)
                return h.data[0]
            if name == "tolist":
                def tl(sh, d):
                    if not sh:
                        return d[0]
                    n = math.prod(sh[1:])
                    return self.new_list(st, [tl(sh[1:], d[i * n:(i + 1) * n]) for i in range(sh[0])])
                return tl(h.shape, h.data)
            if name == "astype" and (args or "dtype" in kwargs):
                t = args[0] if args else kwargs["dtype"]
                return self.nd(st, h.shape, [self.cast(x, t, h.dt) for x in h.data], self.dt_of(t, h.dt), exact(t))
            if name in ("copy", "squeeze") and name == "copy":
                return self.nd(st, h.shape, h.data, h.dt, h.exact)
            if name in ("flatten", "ravel"):
                return self.nd(st, (len(h.data),), h.data, h.dt, h.exact)
            if name == "reshape":
                return self.reshape(b, self.ints(args, st), st)
            if name == "transpose":
                return self.transposed(b, self.ints(args, st) or None, st)
            raise Imprecise("array method " + name)
        return super().method(b, name, args, kwargs, st, node)

    def dt_of(self, t, d):
        n = t.a[0] if t.op in ("ext", "const") else ""
        return "i" if "int" in str(n) else "f" if "float" in str(n) else d

    def cast(self, x, t, was=None):
        if was == "f" and x.op != "const" and self.dt_of(t, "") == "i":
            return mk("call", mk("ext", "math.trunc"), (x,), ())
        if getattr(self, "word", 4) == 8 and exact(t) in ("float32", "float16"):       # a double that loses digits
            if x.op != "const":
                return mk("call", mk("ext", "numpy.float32"), (x,), ())
            if isinstance(x.a[0], float) and math.isfinite(x.a[0]) and abs(x.a[0]) < 3e38:
                return const(struct.unpack("f", struct.pack("f", x.a[0]))[0])
        if x.op == "const" and self.dt_of(t, "") in "if" and self.dt_of(t, ""):
            return const((int if self.dt_of(t, "") == "i" else float)(x.a[0]))
        return x

    def isinst(self, v, c, st):
        h = self.h(st, v)
        if h is not None and h.k == "nd":
            return const("ndarray" in show(c))
        return super().isinst(v, c, st)

    # ------------------------------------------------ calls
    def external(self, name, args, kwargs, st, node, star, starstar):
        b = name[9:] if name.startswith("builtins.") else None
        if b in ("len",) and args:
            h = self.h(st, args[0])
            if h is not None and h.k == "nd":
                if not h.shape:
                    raise Raised("TypeError", st)
                return const(h.shape[0])
        if b in ("int", "float", "bool") and len(args) == 1:
            h = self.h(st, args[0])
            if h is not None and h.k == "nd":
                if len(h.data) != 1:
                    raise Raised("TypeError", st)
                args = [h.data[0]]
            if generic(args[0]) and b == "float":
                return args[0]
        if b in ("list", "tuple", "set", "sorted", "reversed", "zip", "enumerate", "any", "all", "sum", "min", "max", "map"):
            args = [self.new_list(st, self.seq(a, st)) if self.h(st, a) is not None and self.h(st, a).k == "nd" and self.h(st, a).shape else a for a in args]
        if b == "map" and len(args) == 2:
            s = self.seq(args[1], st)
            if s is not None:
                return self.new_list(st, [self.call_value(args[0], [x], {}, st, node=node) for x in s])
        if b == "isinstance" and len(args) == 2 and self.h(st, args[0]) is not None and self.h(st, args[0]).k == "nd":
            return const("ndarray" in show(args[1]))
        if b == "type" and len(args) == 1:
            h = self.h(st, args[0])
            if h is not None and h.k in ("nd", "list", "dict"):
                return mk("ext", "numpy.ndarray" if h.k == "nd" else "builtins." + h.k)
            if args[0].op == "tuple":
                return mk("ext", "builtins.tuple")
            if generic(args[0]):
                return mk("ext", "builtins.float")
        if b == "abs" and len(args) == 1 and args[0].op == "const":
            return const(abs(args[0].a[0]))
        if b == "float" and len(args) == 1 and args[0].op == "const" and isinstance(args[0].a[0], str):
            return const(float(args[0].a[0]))
        if name.startswith("numpy."):
            r = self.numpy(name[6:], list(args), dict(kwargs), st)
            if r is not None:
                return r
        if name == "math.prod" and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None and all(x.op == "const" for x in s):
                return const(math.prod(x.a[0] for x in s))
        return super().external(name, args, kwargs, st, node, star, starstar)

    def numpy(self, f, args, kw, st):
        if f in ("zeros", "ones", "full", "empty"):
            sh = self.ints([args[0] if args else kw["shape"]], st)
            v = {"zeros": const(0.0), "ones": const(1.0), "empty": mk("undef", "uninitialised")}.get(f) or args[1]
            return self.nd(st, sh, [v] * math.prod(sh))
        if f in ("zeros_like", "ones_like"):
            h = self.arr(args[0], st)
            return self.nd(st, h.shape, [const(0.0 if f[0] == "z" else 1.0)] * len(h.data), h.dt)
        if f in ("array", "asarray", "copy", "ascontiguousarray", "atleast_1d") and args:
            h = self.arr(args[0], st)
            if h is None:
                raise Imprecise("np." + f + " of " + show(args[0])[:60])
            if f == "atleast_1d" and not h.shape:
                h = HNd((1,), h.data, h.dt)
            t = kw.get("dtype") or (args[1] if len(args) > 1 else None)
            data = [self.cast(x, t) for x in h.data] if t is not None else h.data
            return self.nd(st, h.shape, data, self.dt_of(t, h.dt) if t is not None else h.dt, exact(t) if t is not None else h.exact)
        if f == "broadcast_to" and len(args) == 2:
            h, sh = self.arr(args[0], st), self.ints([args[1]], st)
            if h is None:
                raise Imprecise("broadcast_to")
            if bshape(h.shape, sh) != tuple(sh):
                raise Raised("ValueError", st)
            return self.nd(st, sh, [at(h, i) for i in indices(sh)], h.dt)
        if f == "expand_dims":
            h = self.arr(args[0], st)
            ax = kw.get("axis") or args[1]
            if h is None or ax.op != "const":
                raise Imprecise("expand_dims")
            sh = list(h.shape)
            sh.insert(ax.a[0] if ax.a[0] >= 0 else len(sh) + 1 + ax.a[0], 1)
            return self.nd(st, sh, h.data, h.dt)
        if f == "reshape":
            return self.reshape(args[0], self.ints(args[1:] or [kw.get("shape") or kw["newshape"]], st), st)
        if f in ("ravel", "atleast_1d") and len(args) == 1 and not kw:
            h = self.arr(args[0], st)
            if h is None:
                raise Imprecise("np." + f)
            return self.nd(st, (len(h.data),) if f == "ravel" or not h.shape else h.shape, h.data, h.dt)
        if f == "transpose":
            return self.transposed(args[0], self.ints(args[1:] or ([kw["axes"]] if "axes" in kw else []), st) or None, st)
        if f == "moveaxis" and all(x.op == "const" for x in args[1:3]):
            h = self.h(st, args[0])
            p = list(range(len(h.shape)))
            p.insert(args[2].a[0] % len(p), p.pop(args[1].a[0] % len(p)))
            return self.transposed(args[0], p, st)
        if f in ("flip",):
            raise Imprecise("np.flip")
        if f == "ndindex":
            return mk("ndindex", *[const(i) for i in self.ints(args, st)])
        if f in ("max", "min", "amax", "amin", "prod", "sum", "multiply.reduce", "add.reduce"):
            a = self.arr(args[0] if args else kw["array"], st)
            if a is None:
                raise Imprecise("np." + f)
            if len(args) > 1 or kw or f in ("max", "min", "amax", "amin"):
                return self.reduction(f, a, args[1:], kw, st)
            op = "*" if f in ("prod", "multiply.reduce") else "+"
            r = const(1 if op == "*" else 0)
            for x in a.data:
                r = bin_(op, r, x)
            return r
        if f in ("all", "any"):
            a = self.arr(args[0], st)
            return bool_("and" if f == "all" else "or", tuple(self.truthy(x, st) for x in a.data)) if a is not None and a.data else const(f == "all")
        if f == "isin" and len(args) == 2:
            s = self.arr(args[1], st)
            a = self.arr(args[0], st)
            if s is None or a is None:
                raise Imprecise("np.isin")
            d = [bool_("or", tuple(self.compare0("==", x, y, st) for y in s.data)) if s.data else FALSE for x in a.data]
            return d[0] if not a.shape else self.nd(st, a.shape, d, "b")
        if f in ("sqrt", "exp", "log", "abs", "isnan"):
            a = self.arr(args[0], st)
            if a is None:
                raise Imprecise("np." + f)
            d = [mk("call", "numpy." + f, (x,), ()) for x in a.data]
            return d[0] if not a.shape else self.nd(st, a.shape, d, "f")
        if f in ("float32", "float64", "int32", "int64", "int8", "int16", "uint8", "float16", "float_", "int_") and len(args) == 1:
            a = self.arr(args[0], st)
            if a is None:
                return None
            d = [self.cast(x, const(f)) for x in a.data]
            return d[0] if not a.shape else self.nd(st, a.shape, d, "i" if "int" in f else "f")
        if f in ("concatenate", "stack", "hstack", "vstack"):
            s = self.seq(args[0], st)
            ax = kw.get("axis") or (args[1] if len(args) > 1 else const(0))
            hs = [self.arr(x, st) for x in s] if s is not None else [None]
            if any(x is None for x in hs) or f != "concatenate" or ax.op != "const":
                raise Imprecise("np." + f)
            a = ax.a[0] % len(hs[0].shape)
            sh = list(hs[0].shape)
            sh[a] = sum(x.shape[a] for x in hs)
            data = []
            for idx in indices(sh):
                i = idx[a]
                for x in hs:
                    if i < x.shape[a]:
                        data.append(at(x, idx[:a] + (i,) + idx[a + 1:]))
                        break
                    i -= x.shape[a]
            return self.nd(st, sh, data, hs[0].dt)
        if f == "arange" and all(x.op == "const" for x in args):
            r = list(range(*[x.a[0] for x in args]))
            return self.nd(st, (len(r),), [const(i) for i in r], "i")
        if f == "issubdtype":
            n, t = show(args[0]), show(args[1])
            return const(("int" in n) == ("integer" in t) if "integer" in t or "floating" in t else False)
        if f == "einsum" and args and args[0].op == "const":
            ins, _, out = args[0].a[0].replace(" ", "").partition("->")
            ins = ins.split(",")
            hs = [self.arr(x, st) for x in args[1:]]
            if not _ or len(hs) != len(ins) or any(x is None or len(x.shape) != len(i) for x, i in zip(hs, ins)):
                raise Imprecise("np.einsum")
            ext = {}
            for x, i in zip(hs, ins):
                for c, n in zip(i, x.shape):
                    if ext.setdefault(c, n) != n:
                        raise Raised("ValueError", st)
            inner = [c for c in ext if c not in out]
            data = []
            for idx in indices([ext[c] for c in out]):
                e = dict(zip(out, idx))
                tot = const(0.0)
                for jdx in indices([ext[c] for c in inner]):
                    e.update(zip(inner, jdx))
                    v = const(1.0)
                    for x, i in zip(hs, ins):
                        y = at(x, tuple(e[c] for c in i))
                        if y.op == "const" and y.a[0] == 0:
                            v = None
                            break
                        v = y if v.op == "const" and v.a[0] == 1 else bin_("*", v, y)
                    if v is not None:
                        tot = v if tot.op == "const" and tot.a[0] == 0 else bin_("+", tot, v)
                data.append(tot)
            return self.nd(st, [ext[c] for c in out], data, hs[0].dt)
        if f in ("mean", "average", "maximum.reduce", "minimum.reduce") and args:
            a = self.arr(args[0], st)
            if a is None or f == "average" and "weights" in kw:
                raise Imprecise("np." + f)
            return self.reduction(f, a, args[1:], kw, st)
        if f in ("maximum", "minimum", "fmax", "fmin") and len(args) == 2:
            return self.scalar(self.elementwise(lambda x, y: extreme("max" in f, x, y), args[0], args[1], st), st)
        if f in ("add", "subtract", "multiply", "divide", "true_divide") and len(args) == 2:
            return self.scalar(self.elementwise(lambda x, y: bin_({"add": "+", "subtract": "-", "multiply": "*"}.get(f, "/"), x, y), args[0], args[1], st), st)
        if f == "clip" and len(args) == 3:
            v = args[0]
            for k, up in ((args[1], True), (args[2], False)):
                if not (k.op == "const" and k.a[0] is None):
                    v = self.elementwise(lambda x, y: extreme(up, x, y), v, k, st)
            return self.scalar(v, st)
        if f == "where" and len(args) == 3:
            c, x, y = (self.arr(q, st) for q in args)
            if c is None or x is None or y is None:
                raise Imprecise("np.where")
            sh = bshape(bshape(c.shape, x.shape) or (), y.shape)
            if sh is None:
                raise Raised("ValueError", st)
            return self.nd(st, sh, [pick(at(c, i), at(x, i), at(y, i)) for i in indices(sh)], "f" if "f" in (x.dt, y.dt) else x.dt)
        if f == "pad" and args:
            return self.pad(args, kw, st)
        if f == "tile" and len(args) == 2:
            h, r = self.arr(args[0], st), self.ints([args[1]], st)
            if h is None:
                raise Imprecise("np.tile")
            sh = (1,) * (len(r) - len(h.shape)) + h.shape
            r = [1] * (len(sh) - len(r)) + r
            h = HNd(sh, h.data, h.dt)
            o = [n * k for n, k in zip(sh, r)]
            return self.nd(st, o, [at(h, tuple(i % n for i, n in zip(idx, sh))) for idx in indices(o)], h.dt)
        if f == "take":
            h, k = self.arr(args[0], st), self.arr(args[1] if len(args) > 1 else kw["indices"], st)
            ax = args[2] if len(args) > 2 else kw.get("axis", NONE)
            if h is None or k is None or ax.op != "const" or not all(x.op == "const" for x in k.data) or set(kw) - {"indices", "axis"}:
                raise Imprecise("np.take")
            if ax.a[0] is None:
                h, a = HNd((len(h.data),), h.data, h.dt), 0
            else:
                a = ax.a[0] % len(h.shape)
            if any(not -h.shape[a] <= x.a[0] < h.shape[a] for x in k.data):
                raise Raised("IndexError", st)
            o = h.shape[:a] + k.shape + h.shape[a + 1:]
            n = len(k.shape)
            return self.nd(st, o, [at(h, idx[:a] + (int(at(k, idx[a:a + n]).a[0]) % h.shape[a],) + idx[a + n:]) for idx in indices(o)], h.dt)
        if f in ("dot", "matmul") and len(args) == 2:
            return self.matmul(f, self.arr(args[0], st), self.arr(args[1], st), st)
        if f == "squeeze" and len(args) == 1 and not kw:
            h = self.arr(args[0], st)
            return self.nd(st, [n for n in h.shape if n != 1], h.data, h.dt)
        return None

    def scalar(self, v, st):
        h = self.h(st, v)
        return h.data[0] if h is not None and h.k == "nd" and not h.shape else v

    def reduction(self, f, a, args, kw, st):
        ax = args[0] if args else kw.get("axis", NONE)
        keep = kw.get("keepdims", FALSE)
        if len(args) > 1 or set(kw) - {"axis", "keepdims", "dtype", "array"} or keep.op != "const":
            raise Imprecise("np." + f)
        n = len(a.shape)
        if ax.op == "const" and ax.a[0] is None:
            axes = set(range(n))
        else:
            axes = self.ints([ax], st)
            if any(not -n <= x < n for x in axes) or len({x % n for x in axes}) != len(axes):
                raise Raised("ValueError", st)
            axes = {x % n for x in axes}
        parts = {}
        for i, x in zip(indices(a.shape), a.data):
            parts.setdefault(tuple(0 if k in axes else e for k, e in enumerate(i)), []).append(x)
        base = f.split(".")[0]
        data = []
        for k in sorted(parts):
            r = parts[k][0]
            for x in parts[k][1:]:
                r = extreme("max" in base, r, x) if "max" in base or "min" in base else bin_("*" if base in ("prod", "multiply") else "+", r, x)
            if base in ("mean", "average"):
                r = bin_("/", r, const(len(parts[k])))
            data.append(r)
        full = [1 if k in axes else m for k, m in enumerate(a.shape)]
        if math.prod(full) != len(data):
            raise Raised("ValueError", st)       # reduction of an empty axis
        sh = full if keep.a[0] else [m for k, m in enumerate(a.shape) if k not in axes]
        dt = "f" if base in ("mean", "average") else a.dt
        return self.scalar(self.nd(st, sh, data, dt), st)

    def pad(self, args, kw, st):
        h = self.arr(args[0], st)
        w = self.arr(args[1] if len(args) > 1 else kw["pad_width"], st)
        mode = args[2] if len(args) > 2 else kw.get("mode", const("constant"))
        if h is None or w is None or mode.op != "const" or not all(x.op == "const" for x in w.data) or set(kw) - {"pad_width", "mode", "constant_values"}:
            raise Imprecise("np.pad")
        if bshape(w.shape, (len(h.shape), 2)) != (len(h.shape), 2):
            raise Raised("ValueError", st)
        w = [[int(at(w, (k, e)).a[0]) for e in (0, 1)] for k in range(len(h.shape))]
        if any(x < 0 for p in w for x in p):
            raise Raised("ValueError", st)
        m, fill = mode.a[0], kw.get("constant_values", const(0.0))
        if m not in ("constant", "edge", "wrap", "reflect") or m == "constant" and self.h(st, fill) is not None:
            raise Imprecise("np.pad " + str(m))
        o = [n + a + b for n, (a, b) in zip(h.shape, w)]
        data = []
        for idx in indices(o):
            z = [i - a for i, (a, b) in zip(idx, w)]
            if m == "constant" and any(not 0 <= i < n for i, n in zip(z, h.shape)):
                data.append(fill)
                continue
            if m == "edge":
                z = [min(max(i, 0), n - 1) for i, n in zip(z, h.shape)]
            elif m == "wrap":
                z = [i % n for i, n in zip(z, h.shape)]
            elif m == "reflect":
                z = [0 if n == 1 else i % (2 * n - 2) if i % (2 * n - 2) < n else 2 * n - 2 - i % (2 * n - 2) for i, n in zip(z, h.shape)]
            data.append(at(h, tuple(z)))
        return self.nd(st, o, data, h.dt)

    def matmul(self, f, a, b, st):
        if a is None or b is None or not a.shape or not b.shape:
            raise Imprecise("np." + f)
        x = HNd((1,) + a.shape, a.data, a.dt) if len(a.shape) == 1 else a
        y = HNd(b.shape + (1,), b.data, b.dt) if len(b.shape) == 1 else b
        if x.shape[-1] != y.shape[-2]:
            raise Raised("ValueError", st)
        if f == "dot" and max(len(x.shape), len(y.shape)) > 2:
            # every row of the one with every column of the other
            rows, cols = x.shape[:-1], y.shape[:-2] + y.shape[-1:]
            data = []
            for idx in indices(rows + cols):
                i, j = idx[:len(rows)], idx[len(rows):]
                r = None
                for k in range(x.shape[-1]):
                    t = bin_("*", at(x, i + (k,)), at(y, j[:-1] + (k,) + j[-1:]))
                    r = t if r is None else bin_("+", r, t)
                data.append(const(0.0) if r is None else r)
            sh = (rows if len(a.shape) > 1 else rows[:-1]) + (cols if len(b.shape) > 1 else cols[:-1])
            return self.scalar(self.nd(st, sh, data, "f" if "f" in (a.dt, b.dt) else "i"), st)
        lead = bshape(x.shape[:-2], y.shape[:-2])
        if lead is None:
            raise Raised("ValueError", st)
        full = lead + (x.shape[-2], y.shape[-1])
        data = []
        for idx in indices(full):
            r = None
            for k in range(x.shape[-1]):
                t = bin_("*", at(x, idx[:-1] + (k,)), at(y, idx[:-2] + (k, idx[-1])))
                r = t if r is None else bin_("+", r, t)
            data.append(const(0.0) if r is None else r)
        sh = lead + (() if len(a.shape) == 1 else (x.shape[-2],)) + (() if len(b.shape) == 1 else (y.shape[-1],))
        return self.scalar(self.nd(st, sh, data, "f" if "f" in (a.dt, b.dt) else "i"), st)

    def event(self, kind, st, loc, **data):
        super().event(kind, st, loc, **data)
        if kind == "badcall" and not st.pc:
            raise Raised("TypeError", st)

    # ------------------------------------------------ exceptions
    def s_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else NONE
        self.event("raise", st, s, value=self.freeze(st, v, None, 1))
        f = v.a[0] if v.op == "call" else v.a[0] if v.op == "ext" else "Exception"
        nm = show(f) if isinstance(f, N) else str(f)
        self.raised_where = f"{self.frames[-1].fi.module.rel}:{s.lineno}" if self.frames else "?"
        if not st.pc:
            e = Raised(nm.split(".")[-1], st)
            e.where = self.raised_where
            raise e
        return super().s_Raise(s, st)

    def instantiate(self, ci, args, kwargs, st, star=None, starstar=None, label=None, node=None):
        o = super().instantiate(ci, args, kwargs, st, star, starstar, label, node)
        if self.record and o.op == "ref":
            init = ci.find("__init__")
            h = st.heap[o.a[0]]
            if init is not None and h.k == "obj":
                env, ok = self.bind(init, [o] + list(args), kwargs, st, star, starstar)
                f = dict(h.f)
                for k, v in env.items():
                    if k != "self":
                        f["__kw_" + k] = v
                        hv = self.h(st, v)
                        if k == init.node.args.kwarg.arg if init.node.args.kwarg else False:
                            for kk, vv in (self.dict_items(hv) or [] if hv is not None and hv.k == "dict" else []):
                                if kk.op == "const":
                                    f["__kw_" + str(kk.a[0])] = vv
                st.heap[o.a[0]] = HObj(h.cls, f, h.base)
        return o
