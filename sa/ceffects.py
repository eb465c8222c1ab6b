"""What a C function may do, from its syntax: loops and what bounds them, calls, what it writes, what it opens."""
from __future__ import annotations

PURE = {"exp", "expf", "tanh", "tanhf", "sqrt", "sqrtf", "log", "logf", "pow", "powf", "fabs", "fabsf", "abs", "floor", "floorf", "ceil", "ceilf", "round", "roundf", "rint", "rintf", "fmax", "fmaxf", "fmin", "fminf", "sin", "cos", "erf",
        "erff", "exp2", "exp2f", "expm1", "log1p", "cosh", "sinh", "fma", "fmaf", "trunc", "truncf", "lround", "lroundf", "nearbyint", "nearbyintf", "copysign", "copysignf", "isnan", "isinf", "fmod", "fmodf", "labs"}
COPY = {"memcpy": 0, "memset": 0, "memmove": 0}
HEAP = {"malloc", "calloc", "realloc", "free", "alloca", "aligned_alloc", "posix_memalign", "mmap", "strdup"}
OUTPUT = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "perror", "vprintf", "vfprintf", "fflush"}
INPUT = {"scanf", "fscanf", "getchar", "fgets", "fgetc", "getc", "fread", "read", "gets"}
STATE = {"rand", "srand", "random", "drand48", "time", "clock", "clock_gettime", "gettimeofday", "getenv", "setenv", "exit", "abort", "longjmp", "signal", "system", "sleep", "usleep", "nanosleep", "pthread_create"}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}
STEP = {"++": 1, "--": -1}


def subs(e):
    """expressions inside an expression or statement, itself included"""
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo += [y for y in x if isinstance(y, (tuple, list))]
        elif isinstance(x, list):
            todo += x


def strip(e):
    while e[0] == "cast":
        e = e[2]
    return e


class Function:
    def __init__(self, node, names):
        self.node, self.name, self.params, self.body = node, node[2], node[3], node[4]
        self.names = names          # other functions of the program
        self.locals = {}            # name -> (type, is an array or a scalar)
        self.issues = {}            # key -> text
        self.unknown = []
        self.loops = 0
        for s in subs(self.body):
            if s[0] == "decl":
                for name, ptr, dims, init in s[2]:
                    self.locals[name] = (s[1], ptr, dims)
        self.assigned = {}          # name -> [expressions stored in it; None when one cannot tell]
        for s in subs(self.body):
            if s[0] == "decl":
                for name, ptr, dims, init in s[2]:
                    if init is not None:
                        self.assigned.setdefault(name, []).append(init)
            elif s[0] == "assign" and strip(s[2])[0] == "id":
                self.assigned.setdefault(strip(s[2])[1], []).append(s[3])
            elif s[0] == "assign" and self.arrays(s[2]):
                self.assigned.setdefault(self.arrays(s[2]), []).append(s[3])
        self.calls = [s for s in subs(self.body) if s[0] == "call"]
        self.tainted = self.taint()

    def arrays(self, e):
        """the local array an element of which is assigned"""
        e = strip(e)
        while e[0] == "idx":
            e = strip(e[1])
        return e[1] if e[0] == "id" and e[1] in self.locals and self.locals[e[1]][2] and not self.locals[e[1]][1] else None

    # ---------------------------------------------- where a value comes from
    def data(self, e, bad=()):
        """does an expression depend on tensors, weights or the input?"""
        for x in subs(e):
            if x[0] in ("field",) or x[0] == "un" and x[1] == "*":
                return True
            if x[0] == "idx":
                if self.arrays(x) is None:
                    return True
            elif x[0] == "id" and x[1] in bad:
                return True
        return False

    def taint(self):
        out = set()
        while True:
            more = {n for n, es in self.assigned.items() if n not in out and any(self.data(e, out) for e in es)}
            if not more:
                return out
            out |= more

    # ---------------------------------------------- what is written
    def roots(self, e, seen=frozenset()):
        """what a pointer or an lvalue is part of: ('param', name) | ('local', name) | ('global', name) | ('?', ...)"""
        e = strip(e)
        k = e[0]
        if k == "id":
            n = e[1]
            if n in self.locals:
                ty, ptr, dims = self.locals[n]
                if not ptr or n in seen:
                    if "static" in ty.split() and "const" not in ty.split():
                        return {("static", n)}
                    return {("local", n)}
                out = set()
                for v in self.assigned.get(n, []):
                    out |= self.roots(v, seen | {n})
                return out or {("?", n)}
            if n in self.params:
                out = {("param", n)}
                for v in self.assigned.get(n, []):
                    if n not in seen:
                        out |= self.roots(v, seen | {n})
                return out
            return {("global", n)}
        if k == "idx" or k == "field":
            return self.roots(e[1], seen)
        if k == "un" and e[1] in ("&", "*"):
            return self.roots(e[2], seen)
        if k in ("pre", "post"):
            return self.roots(e[2], seen)
        if k == "bin" and e[1] in ("+", "-"):
            out = set()
            for x in (e[2], e[3]):
                if self.pointer(x):
                    out |= self.roots(x, seen)
            return out or {("?", "")}
        if k == "tern":
            return self.roots(e[2], seen) | self.roots(e[3], seen)
        if k == "assign":
            return self.roots(e[3], seen)
        if k == "num":
            return set()
        return {("?", k)}

    def pointer(self, e):
        e = strip(e)
        if e[0] == "id":
            n = e[1]
            return n in self.params and True or n in self.locals and bool(self.locals[n][1] or self.locals[n][2]) or n not in self.locals and n not in self.params
        if e[0] == "un":
            return e[1] == "&"
        if e[0] == "bin":
            return self.pointer(e[2]) or self.pointer(e[3])
        if e[0] in ("idx", "num", "call", "hole", "sizeof", "post", "pre"):
            return e[0] in ("post", "pre") and self.pointer(e[2])
        return e[0] == "field"

    def scalar(self, e):
        """assignment to a variable itself, not to what it points to"""
        e = strip(e)
        return e[0] == "id" and (e[1] in self.params or e[1] in self.locals)

    def written(self):
        """[(what is written, line)] by the function itself and, through summaries, by what it calls"""
        out = []
        line = 0
        for s in subs(self.body):
            t = s[2] if s[0] == "assign" else s[2] if s[0] in ("pre", "post") else None
            if t is None:
                continue
            if self.scalar(t):
                n = strip(t)[1]
                if n in self.locals and "static" in self.locals[n][0].split():
                    out.append((("static", n), 0))
                continue
            out += [(r, s[4] if s[0] == "assign" else 0) for r in self.roots(t)]
        for c in self.calls:
            f = strip(c[1])
            if f[0] != "id":
                continue
            if f[1] in COPY:
                out += [(r, 0) for r in self.roots(c[2][0])]
            elif f[1] in self.names and f[1] != self.name:
                for r in self.names[f[1]].effects:
                    if r[0] == "param":
                        i = self.names[f[1]].params.index(r[1])
                        if i < len(c[2]):
                            out += [(q, 0) for q in self.roots(c[2][i])]
                    elif r[0] != "local":
                        out.append((r, 0))
        return out

    effects = frozenset()

    # ---------------------------------------------- loops
    def fixed(self, e, body):
        """is the value of an expression the same at every turn of a loop?  True, False, or 'data'"""
        if self.data(e, self.tainted):
            return "data"
        changed = self.changed(body)
        for x in subs(e):
            if x[0] in ("call", "assign", "pre", "post", "hole"):
                return x[0] == "call" and strip(x[1])[0] == "id" and strip(x[1])[1] in PURE and None or False
            if x[0] == "id" and x[1] in changed:
                return False
        return True

    def changed(self, body):
        out = set()
        for s in subs(body):
            if s[0] == "assign" and strip(s[2])[0] == "id":
                out.add(strip(s[2])[1])
            elif s[0] in ("pre", "post") and strip(s[2])[0] == "id":
                out.add(strip(s[2])[1])
            elif s[0] == "decl":
                out.update(n for n, p, d, i in s[2])
        return out

    def steps(self, s, v, always=True):
        """[(+1, -1 or 0, executed at every turn)] of the changes of a variable in a statement"""
        out = []
        if s is None:
            return out
        k = s[0]
        if k == "block":
            for x in s[1]:
                out += self.steps(x, v, always)
            return out
        if k in ("if", "for", "while", "dowhile"):
            for x in s[1:]:
                if isinstance(x, tuple) and x:
                    out += self.steps(x, v, False)
            return out
        if k == "decl":
            return [(0, False) for n, p, d, i in s[2] if n == v]
        for x in subs(s):
            if x[0] in ("pre", "post") and strip(x[2]) == ("id", v):
                out.append((STEP[x[1]], always))
            elif x[0] == "assign" and strip(x[2]) == ("id", v):
                out.append((self.sign(x, v), always))
            elif x[0] == "un" and x[1] == "&" and strip(x[2]) == ("id", v):
                out.append((0, always))
        return out

    def sign(self, x, v):
        n = strip(x[3])
        if x[1] in ("+=", "-=") and n[0] == "num" and n[1] > 0:
            return 1 if x[1] == "+=" else -1
        if x[1] == "=" and n[0] == "bin" and n[1] in ("+", "-"):
            a, b = strip(n[2]), strip(n[3])
            if n[1] == "+" and b == ("id", v):
                a, b = b, a
            if a == ("id", v) and b[0] == "num" and b[1] > 0:
                return 1 if n[1] == "+" else -1
        return 0

    def loop(self, s, line):
        """None when bounded, (key, text) when not, ('?', text) when it cannot be told"""
        if s[0] == "for":
            cond, step, body = s[2], s[3], s[4]
        else:
            cond, step, body = s[1], None, s[2]
        parts = []

        def conj(c):
            if c is not None and c[0] == "bin" and c[1] == "&&":
                conj(c[2])
                conj(c[3])
            elif c is not None:
                parts.append(c)
        conj(cond)
        exits = any(x[0] in ("break", "return") for x in subs(body))
        if not [c for c in parts if not (c[0] == "num" and c[1])]:
            return ("?", f"line {line}: a loop left from inside") if exits else ("endless", f"line {line}: a loop with no end")
        whole = [body] + ([("expr", step)] if step is not None else [])
        why = None
        for c in parts:
            if c[0] != "bin" or c[1] not in FLIP:
                continue
            for op, a, b in ((c[1], c[2], c[3]), (FLIP[c[1]], c[3], c[2])):
                a = strip(a)
                if a[0] != "id":
                    continue
                f = self.fixed(b, whole)
                if f == "data":
                    why = why or ("data", f"line {line}: how often a loop runs depends on the values of tensors")
                if f is not True and f is not None:
                    continue
                st = [x for w in whole for x in self.steps(w, a[1])]
                want = 1 if op in ("<", "<=") else -1 if op in (">", ">=") else None
                if not st:
                    why = why or (("endless", f"line {line}: nothing in the loop changes {a[1]}") if not exits else None)
                    continue
                signs = {x[0] for x in st}
                if want is not None and signs == {want} and any(x[1] for x in st):
                    if any(x[0] == "continue" for x in subs(body)) and s[0] != "for":
                        continue
                    return None
                if want is not None and signs == {-want}:
                    why = why or ("endless", f"line {line}: {a[1]} moves away from the end of the loop")
        if any(self.data(c, self.tainted) for c in parts) and why is None:
            return ("data", f"line {line}: how often a loop runs depends on the values of tensors")
        return why or ("?", f"line {line}: what ends a loop")

    def check_loops(self):
        for s in subs(self.body):
            if s[0] in ("for", "while", "dowhile"):
                self.loops += 1
                r = self.loop(s, s[-1])
                if r is None:
                    continue
                if r[0] == "?":
                    self.unknown.append(r[1])
                else:
                    self.issues.setdefault(r[0] + " loop", r[1])


class Unit:
    """functions of the translation units behind an entry point"""

    def __init__(self, asts, entry):
        self.fns = {}
        for a in asts:
            for s in a:
                if s[0] == "func":
                    self.fns[s[2]] = None
        for a in asts:
            for s in a:
                if s[0] == "func":
                    self.fns[s[2]] = Function(s, self.fns)
        self.globals = {}
        for a in asts:
            for s in a:
                if s[0] == "decl":
                    for name, ptr, dims, init in s[2]:
                        self.globals[name] = s[1]
        self.macros = {}
        for a in asts:
            for s in a:
                if s[0] == "pp" and s[1].startswith("#define"):
                    t = s[1].split()
                    if len(t) > 1:
                        self.macros[t[1].split("(")[0]] = s[1]
        self.entry = entry
        self.reached, todo = set(), [entry]
        self.edges = {}
        while todo:
            f = todo.pop()
            if f in self.reached or f not in self.fns:
                continue
            self.reached.add(f)
            self.edges[f] = {strip(c[1])[1] for c in self.fns[f].calls if strip(c[1])[0] == "id"}
            todo += self.edges[f]
        for _ in range(len(self.reached) + 1):
            for f in self.reached:
                self.fns[f].effects = frozenset(r for r, l in self.fns[f].written())

    def cycle(self):
        done, path = set(), []

        def go(f):
            if f in path:
                return path[path.index(f):] + [f]
            if f in done:
                return None
            path.append(f)
            for g in sorted(self.edges.get(f, ())):
                if g in self.fns:
                    c = go(g)
                    if c:
                        return c
            path.pop()
            done.add(f)
        return go(self.entry)

    def judge(self, allowed, output=False):
        """(issues {key: text}, what cannot be told, loops, calls): parameters in `allowed` may be written"""
        issues, unknown, loops, calls = {}, [], 0, 0
        c = self.cycle()
        if c:
            issues["recursion"] = "recursion: " + " calls ".join(c)
        for name in sorted(self.reached):
            f = self.fns[name]
            f.check_loops()
            loops += f.loops
            for k, t in f.issues.items():
                issues.setdefault(k, f"{name}, {t}")
            unknown += [f"{name}, {t}" for t in f.unknown]
            for n, (ty, ptr, dims) in f.locals.items():
                if "static" in ty.split() and "const" not in ty.split():
                    issues.setdefault("state " + n, f"{name} keeps {n} from one call to the next")
                for d in dims:
                    if d is not None and any(x[0] == "id" and (x[1] in f.locals or x[1] in f.params) for x in subs(d)):
                        issues.setdefault("variable length " + n, f"the extent of {n} in {name} is known at run time only")
            for call in f.calls:
                calls += 1
                g = strip(call[1])
                if g[0] != "id":
                    unknown.append(f"{name}: a call through a pointer")
                elif g[1] in self.fns or g[1] in PURE or g[1] in COPY:
                    pass
                elif g[1] in HEAP:
                    issues.setdefault("memory " + g[1], f"{name} calls {g[1]}")
                elif g[1] in OUTPUT or g[1] in ("fopen", "fclose"):
                    if not output:
                        issues.setdefault("output " + g[1], f"{name} calls {g[1]}")
                elif g[1] in INPUT or g[1] in STATE:
                    issues.setdefault("environment " + g[1], f"{name} calls {g[1]}")
                elif g[1] not in self.macros:
                    unknown.append(f"{name}: what {g[1]} does")
            if output:
                n = {w: sum(strip(x[1]) == ("id", w) for x in f.calls) for w in ("fopen", "fclose")}
                if n["fopen"] > n["fclose"]:
                    issues.setdefault("file left open", f"{name} opens a file at every call and does not close it")
        e = self.fns.get(self.entry)
        for kind, n in sorted(e.effects) if e else ():
            if kind == "param" and n in allowed or kind == "local":
                continue
            if kind == "param":
                issues.setdefault("writes " + n, f"{self.entry} changes what its argument {n} holds")
            elif kind == "static":
                issues.setdefault("state " + n, f"{self.entry} keeps {n} from one call to the next")
            elif kind == "global" and n not in self.globals:
                unknown.append(f"{self.entry}: what {n} is")
            elif kind == "global":
                issues.setdefault("writes " + n, f"{self.entry} changes {n}, which all calls share")
            else:
                unknown.append(f"{self.entry}: what {n or 'an expression'} points to")
        return issues, unknown, loops, calls
