"""Mustache templates expanded over an abstract hash (lazy trace partitioning)."""
from __future__ import annotations

import html
import re
from pathlib import Path

from .nodes import ABSENT, FALSE, NONE, TRUE, N, cmp_, const, is_str, mk, not_, phi, show, subst, truth, walk, bool_

HO, HC = "\ue000", "\ue001"


class NeedSplit(Exception):
    def __init__(self, atom):
        self.atom = atom


class Valuation:
    """A partial assignment of condition atoms; keeps x == c atoms consistent."""

    caller = None       # what a callable in the hash returns for the text of its section (concrete emission)
    escape = False      # write the character entities a two-brace tag produces

    def __init__(self, items=()):
        self.items = tuple(items)
        self.d = dict(items)

    def get(self, c):
        if c in self.d:
            return self.d[c]
        n = not_(c)
        if n.op != "not" and n in self.d:
            return not self.d[n]
        if c.op == "truthy":
            x = c.a[0]
            for a, v in self.items:
                if v and a.op == "cmp" and a.a[0] in ("==", "is") and a.a[1] is x and a.a[2].op == "const":
                    return bool(a.a[2].a[0])
                if not v and a.op == "truthy" and a.a[0] is x:
                    return False
                # (0 < x) true => truthy ; x == 0 false (numeric) => truthy
                if v and a.op == "cmp" and a.a[0] == "<" and a.a[2] is x and a.a[1].op == "const" and a.a[1].a[0] is not None and a.a[1].a[0] >= 0:
                    return True
                if not v and a.op == "cmp" and a.a[0] == "==" and a.a[1] is x and a.a[2] is const(0):
                    return True
                if not v and a.op == "cmp" and a.a[0] == "==" and a.a[1] is x and a.a[2] is const(""):
                    return True
        if c.op == "cmp" and c.a[0] in ("==", "is") and c.a[2].op == "const":
            x = c.a[1]
            for a, v in self.items:
                if v and a.op == "cmp" and a.a[0] in ("==", "is") and a.a[1] is x and a.a[2].op == "const":
                    return a.a[2].a[0] == c.a[2].a[0]
                if a.op == "isinst" and a.a[0] is x and a.a[1].op == "ext" and a.a[1].a[0] == "builtins.str" and isinstance(c.a[2].a[0], str) and not v:
                    return False
        if c.op == "isinst" and c.a[1].op == "ext":
            for a, v in self.items:
                if v and a.op == "cmp" and a.a[0] == "==" and a.a[1] is c.a[0] and a.a[2].op == "const":
                    return c.a[1].a[0] == "builtins." + type(a.a[2].a[0]).__name__
        if c.op == "cmp" and c.a[0] in ("<", "<=", "==", "!="):
            # concrete consequences of x == k for numbers
            l, r = self.num(c.a[1]), self.num(c.a[2])
            if l is not None and r is not None:
                return {"<": l < r, "<=": l <= r, "==": l == r, "!=": l != r}[c.a[0]]
        return None

    def num(self, x):
        if x.op == "const" and isinstance(x.a[0], (int, float)):
            return x.a[0]
        for a, v in self.items:
            if v and a.op == "cmp" and a.a[0] == "==" and a.a[1] is x and a.a[2].op == "const" and isinstance(a.a[2].a[0], (int, float)):
                return a.a[2].a[0]
        return None

    def plus(self, c, v):
        return Valuation(self.items + ((c, v),))

    def truth(self, c):
        t = truth(c)
        if t is not None:
            return t
        g = self.get(c)
        if g is not None:
            return g
        if c.op == "not":
            return not self.truth(c.a[0])
        if c.op == "bool":
            un = None
            for x in c.a[1]:
                try:
                    t = self.truth(x)
                except NeedSplit as e:
                    un = un or e
                    if isinstance(e, Contradiction):
                        raise
                    t = None
                    raise
                if c.a[0] == "and" and t is False:
                    return False
                if c.a[0] == "or" and t is True:
                    return True
            return c.a[0] == "and"
        if c.op == "phi":
            return self.truth(c.a[1] if self.truth(c.a[0]) else c.a[2])
        if c.op == "cmp" and c.a[0] in ("!=", "is not", "not in"):
            n = not_(c)
            if n.op == "cmp" and n.a[0] not in ("!=", "is not", "not in"):
                return not self.truth(n)
        if c.op in ("cmp", "isinst", "truthy", "exc", "nonempty"):
            # resolve phis below first
            r = self.resolve(c)
            if r is not c:
                return self.truth(r)
            raise NeedSplit(c)
        r = self.resolve(c)
        t = truth(r)
        if t is not None:
            return t
        a = mk("truthy", r)
        g = self.get(a)
        if g is not None:
            return g
        raise NeedSplit(a)

    def resolve(self, n, memo=None):
        """Remove every phi under this valuation (raises NeedSplit)."""
        def f(x):
            if x.op == "phi":
                return self.resolve(x.a[1] if self.truth(x.a[0]) else x.a[2])
            if x.op == "list" and any(isinstance(y, N) and y.op == "cond" for y in x.a):
                out = []
                for y in x.a:
                    if isinstance(y, N) and y.op == "cond":
                        out.extend(self.resolve(y.a[1]) if self.truth(y.a[0]) else self.resolve(y.a[2]))
                    else:
                        out.append(self.resolve(y))
                return mk("list", *out)
            return None
        return subst(n, f, memo)

    def show(self):
        return ", ".join(("" if v else "not ") + show(c) for c, v in self.items)


class Contradiction(NeedSplit):
    pass


def partitions(f, limit=400, base=None, on_limit=None):
    """Run f(valuation) for every consistent valuation it asks for; yields (valuation, result)."""
    todo = [base or Valuation()]
    out = []
    n = 0
    while todo:
        v = todo.pop()
        n += 1
        if n > limit * 3 or len(out) > limit:
            if on_limit:
                on_limit()
            break
        try:
            r = f(v)
        except NeedSplit as e:
            todo.append(v.plus(e.atom, False))
            todo.append(v.plus(e.atom, True))
            continue
        out.append((v, r))
    return out


TAG = re.compile(r"\{\{\{\s*([^}]+?)\s*\}\}\}|\{\{\s*([#^/!&>]?)\s*([^}]*?)\s*\}\}", re.S)


class Node:
    __slots__ = ("kind", "name", "body", "pos", "raw")

    def __init__(self, kind, name=None, body=None, pos=0, raw=False):
        self.kind, self.name, self.body, self.pos, self.raw = kind, name, body, pos, raw


class TemplateError(Exception):
    pass


def parse(text):
    root = Node("root", body=[])
    stack = [root]
    pos = 0
    for m in TAG.finditer(text):
        if m.start() > pos:
            stack[-1].body.append(Node("text", text[pos:m.start()], pos=pos))
        pos = m.end()
        line = text.count("\n", 0, m.start()) + 1
        if m.group(1) is not None:
            stack[-1].body.append(Node("var", m.group(1).strip(), pos=line, raw=True))
            continue
        k, nm = m.group(2), m.group(3).strip()
        if k in ("#", "^"):
            n = Node("sec" if k == "#" else "inv", nm, [], line)
            stack[-1].body.append(n)
            stack.append(n)
        elif k == "/":
            if len(stack) < 2 or stack[-1].name != nm:
                raise TemplateError(f"line {line}: section close {nm!r} does not match {stack[-1].name!r}")
            stack.pop()
        elif k == "&":
            stack[-1].body.append(Node("var", nm, pos=line, raw=True))
        elif k in ("!", ">"):
            continue
        else:
            stack[-1].body.append(Node("var", nm, pos=line))
    if pos < len(text):
        stack[-1].body.append(Node("text", text[pos:], pos=pos))
    if len(stack) != 1:
        raise TemplateError(f"unclosed section {stack[-1].name!r}")
    return root


_cache = {}


def parse_file(path):
    p = Path(path)
    key = str(p)
    if key not in _cache:
        text = p.read_text()
        _cache[key] = (parse(text), text)
    return _cache[key][0]


class Rendering:
    """One expansion: text with holes, plus obligations seen on the way."""

    def __init__(self, val):
        self.val = val
        self.out = []
        self.holes = []
        self.hidx = {}
        self.missing = []      # (template, tag, line)
        self.escapes = []      # (template, tag, line, chars)
        self.used = set()
        self.templates = []
        self.line_of = []      # provenance: list of (offset, template, line)

    @property
    def text(self):
        return "".join(self.out)

    def hole(self, n):
        if n.op == "call" and isinstance(n.a[0], str) and n.a[0].endswith(".write_activation_str") and len(n.a[1]) >= 2:
            return "__ACT__(" + self.string(n.a[1][1]) + ")"
        if n.op == "fmt" and n.a[1] == "" and n.a[0].op == "call":
            return self.hole(n.a[0])
        if n not in self.hidx:
            self.hidx[n] = len(self.holes)
            self.holes.append(n)
        return f"{HO}{self.hidx[n]}{HC}"

    def string(self, v, esc=None):
        """Text for a resolved value."""
        if v.op == "const":
            s = "" if v.a[0] is None else str(v.a[0])
            if esc and re.search(r"[&<>\"]", s):
                self.escapes.append(esc + (s,))
                if self.val.escape:
                    return html.escape(s)
            return s
        if v.op in ("cat",):
            return "".join(self.string(p, esc) for p in v.a)
        if v.op == "fmt":
            if v.a[1] == "" :
                return self.string(v.a[0], esc) if v.a[0].op in ("cat", "fmt", "const", "rendered") else self.hole(v.a[0])
            return self.hole(v)
        if v.op == "rendered":
            sub = expand(v, self.val)
            self.missing += sub.missing
            self.escapes += sub.escapes
            self.templates += sub.templates
            self.used |= sub.used
            t = re.sub(HO + r"(\d+)" + HC, lambda m: self.hole(sub.holes[int(m.group(1))]), sub.text)
            if esc and re.search(r"[&<>\"]", re.sub(r"//.*|/\*.*?\*/", "", t)):
                self.escapes.append(esc + ("rendered text",))
            return t
        return self.hole(v)


def template_of(v, val):
    """Resolve template node -> (path or None, parsed tree)."""
    if v.op == "template":
        p = v.a[0]
        p = p.a[0] if p.op == "path" else p
        if p.op == "const":
            path = re.sub(r"/+", "/", p.a[0])
            parts = []
            for x in path.split("/"):
                if x == ".." and parts:
                    parts.pop()
                elif x != ".":
                    parts.append(x)
            path = "/".join(parts)
            if not Path(path).exists():
                raise TemplateError(f"template {path} does not exist")
            return path, parse_file(path)
        raise TemplateError("template path not constant: " + show(p))
    if v.op == "const":
        return "<inline>", parse(v.a[0])
    if v.op == "cat":
        # literal template with holes: treat holes as text
        raise TemplateError("template text not constant: " + show(v))
    raise TemplateError("template not constant: " + show(v))


def source(nodes):
    """template text of parsed nodes"""
    out = []
    for n in nodes:
        if n.kind == "text":
            out.append(n.name)
        elif n.kind == "var":
            out.append("{{{" + n.name + "}}}" if n.raw else "{{" + n.name + "}}")
        else:
            out.append("{{" + ("#" if n.kind == "sec" else "^") + n.name + "}}" + source(n.body) + "{{/" + n.name + "}}")
    return "".join(out)


def lookup(ctx, name):
    if name == ".":
        return ctx[-1]
    first, *rest = name.split(".")
    for c in reversed(ctx):
        if isinstance(c, N) and c.op == "dict":
            d = dict(c.a[0])
            if first in d and d[first] is not ABSENT:
                v = d[first]
                for r in rest:
                    if v.op == "dict":
                        v = dict(v.a[0]).get(r, None)
                        if v is None:
                            return None
                    else:
                        v = mk("attr", v, r)
                return v
            for ek, ev, _ in c.a[1]:
                if ek.op == "const" and ek.a[0] == first:
                    return ev
    return None


def expand(v, val):
    """v = rendered<template, dict>, val = Valuation."""
    r = Rendering(val)
    tnode = val.resolve(v.a[0])
    path, tree = template_of(tnode, val)
    r.templates.append(path)
    d = v.a[1]

    def res(x):
        # keep dict entries lazily resolved
        if x.op == "phi":
            return res(x.a[1] if val.truth(x.a[0]) else x.a[2])
        return x

    def get(ctx, name):
        x = lookup(ctx, name)
        if x is None:
            return None
        x = res(x)
        return None if x is ABSENT else x

    def truthy(x):
        if x is None:
            return False
        if x.op == "const":
            return bool(x.a[0])
        if x.op in ("dict",):
            return bool(x.a[0]) or bool(x.a[1])
        if x.op == "list":
            if any(y.op not in ("rep", "cond") for y in x.a):
                return True
            if not x.a:
                return False
            return val.truth(mk("nonempty", x))
        if x.op in ("rendered", "ref", "closure"):
            return True
        if x.op == "cat":
            if any(p.op == "const" for p in x.a):
                return True
        if x.op == "call" and isinstance(x.a[0], str) and (x.a[0].endswith(".as_lambda") or x.a[0].endswith("write_activation_str")):
            return True
        if x.op in ("attr", "item", "sym", "bin", "call", "fmt", "cat", "cmp", "bool", "not", "isinst", "un", "elem"):
            return val.truth(x)
        return val.truth(x)

    def walkn(nodes, ctx):
        for n in nodes:
            if n.kind == "text":
                r.out.append(n.name)
            elif n.kind == "var":
                r.used.add(n.name)
                x = get(ctx, n.name)
                if x is None:
                    r.missing.append((path, n.name, n.pos))
                    continue
                x = val.resolve(x)
                r.out.append(r.string(x, None if n.raw else (path, n.name, n.pos)))
            elif n.kind in ("sec", "inv"):
                r.used.add(n.name)
                x = get(ctx, n.name)
                t = truthy(x)
                if n.kind == "inv":
                    if not t:
                        walkn(n.body, ctx)
                    continue
                if not t:
                    continue
                if x.op == "call" and isinstance(x.a[0], str) and x.a[0].endswith(".as_lambda"):
                    r.out.append("__ACT__(")
                    walkn(n.body, ctx)
                    r.out.append(")")
                    continue
                if x.op == "closure" and val.caller is not None:
                    # the callable gets the text of the section and its result is a template
                    walkn(parse(r.string(val.resolve(val.caller(x, source(n.body))))).body, ctx)
                    continue
                if x.op in ("list", "tuple"):
                    xr = val.resolve(x)
                    for y in flat(xr.a):
                        walkn(n.body, ctx + [y])
                else:
                    xr = x
                    walkn(n.body, ctx + [xr])

    def flat(items):
        out = []
        for y in items:
            if y.op == "rep":
                for z in y.a[1]:
                    out.extend(flat([z]))
            elif y.op == "cond":
                out.extend(flat(y.a[1] if val.truth(y.a[0]) else y.a[2]))
            else:
                out.append(y)
        return out

    walkn(tree.body, [d])
    return r


def all_tags(tree):
    out = []

    def w(ns):
        for n in ns:
            if n.kind in ("var", "sec", "inv"):
                out.append((n.kind, n.name, n.pos))
            if n.body:
                w(n.body)
    w(tree.body)
    return out
