"""The files emitted for one network, as a C program: declarations, definitions, and its abstract run."""
from __future__ import annotations

import math
import re

from . import cabs
from . import cparse
from . import emit as E
from . import graphs as GR
from .nodes import show

CTX = "inference_t"


class Program:
    def __init__(self, I, st, o, files, outdir="out"):
        self.I, self.st, self.o = I, st, o
        self.texts, self.ast, self.holes = {}, {}, {}
        self.modes = {}
        for p, w in files.items():
            if not p.startswith(outdir + "/"):
                continue
            n = p[len(outdir) + 1:]
            r = E.text(I, st, w)
            self.texts[n], self.holes[n] = r.text, r.holes
            self.modes[n] = [m for m, v, e in w]
        self.layers = GR.items(I, st, I.attr(o, "layers", st))

    def parse(self, n):
        if n not in self.ast:
            self.ast[n] = cparse.parse(self.texts[n], self.holes[n], types=(CTX,))
        return self.ast[n]

    # ------------------------------------------------ declarations
    def macros(self, *names):
        d = {}
        for n in names:
            for s in self.parse(n):
                if s[0] == "pp":
                    t = s[1].split()
                    if t[0] == "#define" and len(t) == 3:
                        d[t[1]] = t[2]
        return d

    def num(self, e, env=()):
        """constant expression"""
        if e is None:
            return None
        if e[0] == "num":
            return e[1]
        if e[0] == "id" and e[1] in env:
            try:
                return int(env[e[1]], 0)
            except ValueError:
                return None
        if e[0] == "bin":
            a, b = self.num(e[2], env), self.num(e[3], env)
            if a is None or b is None:
                return None
            return {"+": a + b, "-": a - b, "*": a * b}.get(e[1])
        return None

    def context(self):
        """member of the context -> (type, extents)"""
        for s in self.parse("inference.h"):
            if s[0] == "struct" and CTX in s[3] + s[1].split():
                out = {}
                for f in s[2]:
                    if f[0] == "decl":
                        for name, ptr, dims, init in f[2]:
                            out[name] = (f[1] + "*" * ptr, [self.num(d) for d in dims])
                return out
        return None

    def globals_of(self, n, extern):
        """[(name, type, extents, initialiser)] declared (extern) or defined in a file"""
        out = []
        env = self.macros(*[x for x in self.texts if x.endswith(".h")], *([n] if not n.endswith(".h") else []))
        for s in self.parse(n):
            if s[0] == "decl" and ("extern" in s[1].split()) == extern:
                for name, ptr, dims, init in s[2]:
                    out.append((name, " ".join(w for w in s[1].split() if w != "extern") + "*" * ptr, [self.num(d, env) for d in dims], init))
        return out

    def functions(self, n):
        return {s[2]: s for s in self.parse(n) if s[0] == "func"}

    def layer_name(self, idx):
        for o in self.layers:
            if GR.field(self.I, self.st, o, "idx").a[0] == idx:
                return self.I.h(self.st, o).cls.name
        return "?"


class Run:
    """one abstract inference of the emitted program"""

    def __init__(self, prog, budget=4000000, dom=None):
        self.p = prog
        I, st = prog.I, prog.st
        m = self.m = cabs.Machine(budget, dom)
        self.out = {}            # layer index -> dependencies of its output, in terms of the tensors it reads
        self.reads = {}
        self.foreign = {}
        ctx = prog.context()
        if ctx is None:
            raise cabs.Unsupported("no context")
        for name, (ty, dims) in ctx.items():
            if None in dims:
                raise cabs.Unsupported("extent of " + name)
            m.fields[name] = cabs.Arr(name, dims, "ctx")
        for name, ty, dims, init in prog.globals_of("inference.h", True):
            if name == "Context":
                continue
            if None in dims or "*" in ty:
                raise cabs.Unsupported("declaration of " + name)
            a = cabs.Arr(name, dims, "weights", const="const" in ty.split())
            a.dep = self.stored(name, a)
            m.globals[name] = a if dims else a.dep[0] if a.dep is not None else m.dom.unknown()
        for k, v in prog.macros("inference.h").items():
            try:
                m.globals[k] = int(v, 0)
            except ValueError:
                pass
        self.info = {}
        for o in prog.layers:
            g = lambda n: GR.field(I, st, o, n).a[0]
            self.info[g("idx")] = (o, [GR.field(I, st, q, "idx").a[0] for q in GR.links(I, st, o, "previous_layer")], g("size"), g("path"))
        m.on_mark = self.mark
        prog_ast = prog.parse("inference.c")
        m.compile(prog_ast)
        for s in prog_ast:
            if s[0] == "pp" and s[1].startswith("#define"):
                t = s[1].split()
                if len(t) == 3 and re.fullmatch(r"\w+", t[2]):
                    try:
                        m.globals[t[1]] = int(t[2], 0)
                    except ValueError:
                        pass
        f = m.funcs.get("inference")
        if f is None or len(f[3]) != 3:
            raise cabs.Unsupported("no inference function")
        first, last = prog.layers[0], prog.layers[-1]
        self.nin, self.nout = (GR.field(I, st, x, "size").a[0] for x in (first, last))
        xin = self.xin = cabs.Arr("nn_input", [self.nin], "in")
        xin.dep = [self.token("x", i) for i in range(self.nin)]
        self.pred = cabs.Arr("prediction", [self.nout], "pred")
        m.layer = "entry"
        m.run_function("inference", [None, cabs.Ptr(self.pred, 0, self.pred.dims), cabs.Ptr(xin, 0, xin.dims)])

    def mark(self, t):
        m = self.m
        k, idx = t[0], int(t[1])
        if k == "begin":
            m.layer = idx
        else:
            # the output of a layer: from here on its elements are themselves
            o, preds, size, path = self.info[idx]
            a = m.fields.get(f"output_{path}")
            m.layer = f"after {idx}"
            if a is None or a.n < size:
                self.out[idx] = None
                return
            self.out[idx] = a.dep[:size]
            a.dep[:size] = [None if d is None else self.token(idx, i) for i, d in enumerate(a.dep[:size])]

    # ------------------------------------------------ what the elements are
    def token(self, tensor, i):
        return frozenset([(tensor, i)])

    def stored(self, name, a):
        return [cabs.EMPTY] * a.n if not a.const else None
