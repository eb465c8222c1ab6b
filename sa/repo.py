"""Loads and resolves the Python sources of /repo (no import, only ast)."""
from __future__ import annotations

import ast
import os
from pathlib import Path

REPO = Path(os.environ.get("ACETONE_REPO", "/repo"))
SRC = REPO / "src"
PKG = "acetone_nnet"


class Module:
    def __init__(self, name, path, tree, text):
        self.name, self.path, self.tree, self.text = name, path, tree, text
        self.is_pkg = path.name == "__init__.py"
        self.earlier = {}        # value of an assignment -> value the name had before
        self.defs = {}       # name -> ('func', FunctionDef)|('class', ClassDef)|('import', mod, attr|None)|('assign', expr)|('star', mod)
        self.stars = []
        self.bound = set()       # names the module's own statements bind, in any way
        self._collect(tree.body)
        self._others(tree.body)

    @property
    def rel(self):
        return str(self.path.relative_to(REPO))

    def _abs(self, node):
        if not node.level:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[: -(node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _others(self, body):
        """names bound at module level in ways that are not followed, or changed by a function (global)"""
        todo = list(body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.bound.add(x.name)
                todo.extend(x.decorator_list)
                continue
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.bound.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.bound.add(x.name)
            elif isinstance(x, ast.alias):
                self.bound.add((x.asname or x.name).split(".")[0])
            todo.extend(ast.iter_child_nodes(x))
        for x in ast.walk(self.tree):
            if isinstance(x, ast.Global):
                for n in x.names:
                    self.bound.add(n)
                    if self.defs.get(n, ("assign",))[0] == "assign":
                        self.defs[n] = ("opaque", n)
        for st in body:
            if isinstance(st, (ast.AugAssign, ast.For, ast.While)):
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.defs[x.id] = ("opaque", x.id)
        for n in self.bound - set(self.defs):
            self.defs[n] = ("opaque", n)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = ("func", st)
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ("class", st)
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.defs[al.asname] = ("import", al.name, None)
                    else:
                        top = al.name.split(".")[0]
                        self.defs[top] = ("import", top, None)
            elif isinstance(st, ast.ImportFrom):
                m = self._abs(st)
                for al in st.names:
                    if al.name == "*":
                        self.stars.append(m)
                    else:
                        self.defs[al.asname or al.name] = ("import", m, al.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
                        for i, x in enumerate(t.elts):
                            v = st.value.elts[i] if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts) and not any(isinstance(y, ast.Starred) for y in st.value.elts) else \
                                ast.copy_location(ast.fix_missing_locations(ast.Subscript(st.value, ast.Constant(i), ast.Load())), st.value)
                            self.defs[x.id] = ("assign", v)
                    if isinstance(t, ast.Name):
                        if self.defs.get(t.id, ("",))[0] == "assign":
                            self.earlier[id(st.value)] = self.defs[t.id][1]
                        self.defs[t.id] = ("assign", st.value)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.defs[st.target.id] = ("assign", st.value)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    self._collect([x for x in h.body])
                self._collect(st.orelse)
            elif isinstance(st, ast.If):
                self._collect(st.orelse)
                self._collect(st.body)
            elif isinstance(st, ast.With):
                self._collect(st.body)


def changed(tree):
    """names of containers changed in a tree"""
    out = []

    def root(x):
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            x = x.value
        return [x.id] if isinstance(x, ast.Name) else []
    for x in ast.walk(tree):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out += root(x)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in CHANGES:
            out += root(x.func)
    return list(dict.fromkeys(out))


CHANGES = {"append", "extend", "update", "add", "insert", "setdefault", "pop", "remove", "discard", "sort", "clear", "reverse", "appendleft"}


class FuncInfo:
    def __init__(self, module, node, cls=None):
        self.module, self.node, self.cls = module, node, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(ast.unparse(d).split(".")[-1].split("(")[0])

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class ClassInfo:
    def __init__(self, repo, module, node):
        self.repo, self.module, self.node = repo, module, node
        self.name = node.name
        self.methods, self.attrs = {}, {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # property setters share the name: keep the getter
                if st.name in self.methods and any(
                        isinstance(d, ast.Attribute) and d.attr == "setter" for d in st.decorator_list):
                    continue
                self.methods[st.name] = FuncInfo(module, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value

    @property
    def qual(self):
        return self.module.name + "." + self.name

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.repo.resolve_expr(self.module, b)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def base_names(self):
        return [ast.unparse(b) for b in self.node.bases]

    def mro(self):
        out, todo = [], [self]
        # linear enough for this code base (single inheritance + mixins)
        def lin(c):
            if c not in out:
                out.append(c)
                for b in c.bases():
                    lin(b)
        lin(self)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro()


class Repo:
    def __init__(self, root=None):
        self.root = Path(root) if root else REPO
        self.src = self.root / "src"
        self.modules, self.errors = {}, []
        self.classes = {}
        self._cls = {}
        self._fn = {}
        for p in sorted((self.src / PKG).rglob("*.py")):
            parts = p.relative_to(self.src).with_suffix("").parts
            if parts[-1] == "__init__":
                parts = parts[:-1]
            name = ".".join(parts)
            text = p.read_text(encoding="utf-8")
            try:
                tree = ast.parse(text)
            except SyntaxError as e:
                self.errors.append(f"{p}: {e}")
                continue
            self.modules[name] = Module(name, p, tree, text)
        for m in self.modules.values():
            for k, d in m.defs.items():
                if d[0] == "class":
                    c = self.cls(m, d[1])
                    self.classes.setdefault(c.name, c)
        self.stats = {"modules": len(self.modules), "classes": len(self.classes)}

    def cls(self, m, node):
        k = id(node)
        if k not in self._cls:
            self._cls[k] = ClassInfo(self, m, node)
        return self._cls[k]

    def fn(self, m, node, cls=None):
        k = id(node)
        if k not in self._fn:
            self._fn[k] = FuncInfo(m, node, cls)
        return self._fn[k]

    def func(self, modname, name):
        m = self.modules.get(modname)
        if m and name in m.defs and m.defs[name][0] == "func":
            return self.fn(m, m.defs[name][1])
        return None

    def find_func(self, name):
        """Unique package-level function of that name, wherever it lives."""
        out = []
        for m in self.modules.values():
            d = m.defs.get(name)
            if d and d[0] == "func":
                out.append(self.fn(m, d[1]))
        return out

    def subclasses(self, base):
        return [c for c in self.classes.values() if c.is_sub(base)]

    def lookup(self, m, name, depth=0):
        """Resolve a global name: ClassInfo|FuncInfo|Module|('ext', dotted)|('assign', module, expr)|None"""
        if depth > 20:
            return None
        d = m.defs.get(name)
        if d is None:
            for s in m.stars:
                sm = self.modules.get(s)
                if sm:
                    r = self.lookup(sm, name, depth + 1)
                    if r is not None:
                        return r
            sub = self.modules.get(m.name + "." + name) if m.is_pkg else None
            return sub
        if d[0] == "func":
            return self.fn(m, d[1])
        if d[0] == "class":
            return self.cls(m, d[1])
        if d[0] in ("assign", "opaque"):
            return (d[0], m, d[1])
        if d[0] == "import":
            mod, attr = d[1], d[2]
            if attr is None:
                return self.modules.get(mod) or ("ext", mod)
            if mod in self.modules:
                r = self.lookup(self.modules[mod], attr, depth + 1)
                if r is None:
                    r = self.modules.get(mod + "." + attr)
                return r
            if mod == PKG or mod.startswith(PKG + "."):
                sub = self.modules.get(mod + "." + attr)
                return sub or ("ext", mod + "." + attr)
            return ("ext", mod + "." + attr)
        return None

    def changes(self):
        """id of the value of a module-level name -> [(module, statement or decorated function that changes it)]"""
        if getattr(self, "_changes", None) is None:
            self._changes = out = {}
            self._by_function = {}

            def add(m, roots, what):
                for n in roots:
                    r = self.lookup(m, n) if isinstance(n, str) else n
                    if isinstance(r, tuple) and r[0] == "assign":
                        if not any(x is what for _, x in out.setdefault(id(r[2]), [])):
                            out[id(r[2])].append((m, what))
                        if isinstance(what, FuncInfo):
                            self._by_function.setdefault(id(what.node), []).append(r)
            for m in sorted(self.modules.values(), key=lambda m: m.name):
                for s in m.tree.body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        for d in s.decorator_list if isinstance(s, ast.FunctionDef) else ():
                            g = self.resolve_expr(m, d.func if isinstance(d, ast.Call) else d)
                            if isinstance(g, FuncInfo):
                                add(m, [self.lookup(g.module, n) for n in changed(g.node)], self.fn(m, s))
                            x = d.func if isinstance(d, ast.Call) else d
                            if isinstance(x, ast.Attribute):
                                while isinstance(x, (ast.Attribute, ast.Subscript)):
                                    x = x.value
                                if isinstance(x, ast.Name):
                                    add(m, [x.id], self.fn(m, s))
                        continue
                    if isinstance(s, (ast.Import, ast.ImportFrom)):
                        continue
                    add(m, changed(s), s)
                    if isinstance(s, ast.If) and "__main__" in ast.unparse(s.test):
                        continue
                    for c in ast.walk(s):
                        if isinstance(c, ast.Call):
                            g = self.resolve_expr(m, c.func)
                            if isinstance(g, FuncInfo):
                                add(m, [self.lookup(g.module, n) for n in changed(g.node)], s)
        return self._changes

    def mentions(self, m, s, names, depth=2):
        """does the statement use one of the names, itself or through the functions it calls"""
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and x.attr in names or isinstance(x, ast.Name) and x.id in names:
                return True
        for x in ast.walk(s) if depth else ():
            if isinstance(x, ast.Call):
                g = self.resolve_expr(m, x.func)
                if isinstance(g, FuncInfo) and self.mentions(g.module, g.node, names, depth - 1):
                    return True
        return False

    def changed_by(self, fi):
        """module-level values which the decorators of the function change"""
        self.changes()
        return self._by_function.get(id(fi.node), [])

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.lookup(b, e.attr) or self.modules.get(b.name + "." + e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None
