"""Interpreter for the command line programs and the tools that read result files: known argument lists and file contents."""
from __future__ import annotations

import argparse
import math
import struct
import sys

from . import graphs as GR
from .emit import FileInterp, plain
from .interp import HObj, Raised
from .ndarr import HNd, Imprecise, bshape
from .nodes import FALSE, NONE, TRUE, N, const, mk, show, sym

FLOATS = {"epsilon": sys.float_info.epsilon, "max": sys.float_info.max, "min": sys.float_info.min}


def f32(x):
    if x != x or math.isinf(x):
        return x
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


class Shell(FileInterp):
    def __init__(self, repo, **k):
        super().__init__(repo, **k)
        self.contents = {}       # path -> lines
        self.argv = []           # arguments of the program
        self.cursor = {}         # handle -> next line
        self.loose = set()       # handles consumed by a construct that may have stopped early
        self.parsers = {}
        self.made = []           # generators built: {parameter: value}
        self.used = []           # (method, arguments) called on them
        self.calls_seen = {}     # function name -> [bound arguments]
        self.watch = ()
        self.record = False
        self.enter = False       # interpret the generator too

    # ------------------------------------------------ the generator is not entered
    def instantiate(self, ci, args, kwargs, st, star=None, starstar=None, label=None, node=None):
        if ci.name == "CodeGenerator" and not self.enter:
            if star is not None:
                raise Imprecise("arguments of the generator")
            a = self.given(ci.find("__init__"), args, self.unpack(kwargs, starstar, st))
            self.made.append({k: self.freeze(st, v) for k, v in a.items()})
            return self.new(st, HObj(ci, {k: v for k, v in a.items()}, sym("generator")))
        return super().instantiate(ci, args, kwargs, st, star, starstar, label, node)

    def unpack(self, kwargs, starstar, st):
        kw = dict(kwargs)
        if starstar is not None:
            h = self.h(st, starstar)
            if h is None or h.k != "dict" or self.dict_items(h) is None:
                raise Imprecise("** argument")
            kw.update(h.d)
        return kw

    def given(self, fi, args, kw):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if names and names[0] in ("self", "cls"):
            names = names[1:]
        if len(args) > len(names):
            raise Raised("TypeError", None)
        d = dict(zip(names, args))
        for k, v in kw.items():
            if k in d or k not in names + [x.arg for x in a.kwonlyargs] and a.kwarg is None:
                raise Raised("TypeError", None)
            d[k] = v
        return d

    def call_fi(self, fi, args, kwargs, st, star=None, starstar=None, selfv=None, closure_env=None, node=None):
        if fi.cls is not None and not self.enter and fi.cls.name == "CodeGenerator" and selfv is not None and fi.name in ("generate_c_files", "compute_inference"):
            self.used.append((fi.name, {k: self.freeze(st, v) for k, v in self.given(fi, args, self.unpack(kwargs, starstar, st)).items()}))
            return mk("tuple", sym("outputs"), sym("targets"))
        if fi.name in self.watch and fi.cls is None:
            self.calls_seen.setdefault(fi.name, []).append(({k: self.freeze(st, v) for k, v in self.given(fi, args, self.unpack(kwargs, starstar, st)).items()}, node))
        return super().call_fi(fi, args, kwargs, st, star, starstar, selfv, closure_env, node)

    # ------------------------------------------------ argument parser
    def option(self, p, args, kwargs, st):
        names = []
        for a in args:
            if a.op != "const":
                raise Imprecise("name of an option")
            names.append(a.a[0])
        kw, typ = {}, None
        for k, v in kwargs.items():
            if k == "type":
                typ = v
            elif k == "action" and v.op != "const":
                if v.op == "ext" and v.a[0] == "argparse.BooleanOptionalAction":
                    kw[k] = argparse.BooleanOptionalAction
                else:
                    raise Imprecise("action of an option")
            elif k == "default" or k == "const":
                kw[k] = v
            elif k == "choices":
                s = self.seq(v, st)
                if s is None or any(x.op != "const" for x in s):
                    raise Imprecise("choices of an option")
                kw[k] = [x.a[0] for x in s]
            elif k == "metavar":
                continue
            elif v.op == "const":
                kw[k] = v.a[0]
            elif k != "help":
                raise Imprecise("argument of an option")
        if "choices" in kw:
            ch = kw.pop("choices")
            kw["metavar"] = "X"
        else:
            ch = None
        if kw.get("action") in (None, "store", "append"):
            def conv(s, typ=typ, ch=ch):
                v = const(s)
                if typ is not None and typ is not NONE:
                    try:
                        v = self.call_value(typ, [v], {}, st)
                    except Raised as e:
                        raise ValueError(e.name)
                    if v is None:
                        raise Imprecise("type of an option")
                if ch is not None and (v.op != "const" or v.a[0] not in ch):
                    raise ValueError("choice")
                return v
            kw["type"] = conv
            d = kw.get("default")
            if isinstance(d, N) and d.op == "const" and isinstance(d.a[0], str):
                kw["default"] = d.a[0]       # as argparse does, converted like an argument
        kw.pop("help", None)
        p.add_argument(*names, **kw)

    def parse(self, p, args, kwargs, st):
        argv = list(self.argv)
        if args and args[0] is not NONE or kwargs:
            s = self.seq(args[0], st) if args else None
            if s is None or any(x.op != "const" for x in s):
                raise Imprecise("parse_args")
            argv = [x.a[0] for x in s]
        try:
            r = p.parse_args(argv)
        except argparse.ArgumentError:
            raise Raised("SystemExit", st)
        return self.new(st, HObj(None, {k: v if isinstance(v, N) else self.lift(v, st) for k, v in vars(r).items()}, sym("args")))

    def lift(self, v, st):
        if isinstance(v, list):
            return self.new_list(st, [x if isinstance(x, N) else self.lift(x, st) for x in v])
        return NONE if v is None else const(v)

    # ------------------------------------------------ files
    def lines(self, b):
        p = plain(b.a[0])
        if p is None:
            raise Imprecise("file " + show(b)[:60])
        if p not in self.contents:
            raise Raised("FileNotFoundError", None)
        return self.contents[p]

    def readable(self, b):
        return b.op == "file" and (plain(b.a[1]) or "r").startswith("r") and plain(b.a[0]) in self.contents

    def seq(self, v, st):
        if v.op == "file" and self.readable(v):
            if v in self.loose:
                raise Imprecise("file read after a loop over it")
            ls = self.lines(v)
            out = ls[self.cursor.get(v, 0):]
            self.cursor[v] = len(ls)
            self.loose.add(v)
            return [const(x) for x in out]
        return super().seq(v, st)

    def event(self, kind, st, loc, **data):
        if kind == "open" and not set(plain(data["mode"]) or "r") & set("wax"):
            p = plain(data["path"])
            if p in self.contents:
                for k in [k for k in self.cursor if k.op == "file" and plain(k.a[0]) == p]:
                    self.cursor.pop(k)
                for k in [k for k in self.loose if plain(k.a[0]) == p]:
                    self.loose.discard(k)
        super().event(kind, st, loc, **data)

    def method(self, b, name, args, kwargs, st, node):
        if b.op == "argparser":
            p = self.parsers[b.a[0]]
            if name == "add_argument":
                self.option(p, args, kwargs, st)
                return NONE
            if name in ("add_argument_group", "add_mutually_exclusive_group"):
                return b
            if name == "parse_args":
                return self.parse(p, args, kwargs, st)
            if name == "error":
                raise Raised("SystemExit", st)
            raise Imprecise("argparse " + name)
        if b.op == "const" and isinstance(b.a[0], str) and name in ("open", "read_text", "exists") and b.a[0] in self.contents:
            b = mk("path", b)
        if b.op == "path" and plain(b) in self.contents and name in ("read_text", "exists", "is_file"):
            return const("".join(self.contents[plain(b)])) if name == "read_text" else TRUE
        if b.op == "file" and self.readable(b):
            ls, at = self.lines(b), self.cursor.get(b, 0)
            if name in ("readline", "readlines", "read", "__next__"):
                if b in self.loose:
                    raise Imprecise("file read after a loop over it")
                if name == "readline":
                    self.cursor[b] = min(at + 1, len(ls))
                    return const(ls[at] if at < len(ls) else "")
                self.cursor[b] = len(ls)
                return const("".join(ls[at:])) if name == "read" else self.new_list(st, [const(x) for x in ls[at:]])
            if name == "seek" and len(args) == 1 and args[0].op == "const" and args[0].a[0] == 0:
                self.cursor[b] = 0
                self.loose.discard(b)
                return NONE
        if b.op == "const" and isinstance(b.a[0], str) and name in ("split", "rsplit", "splitlines", "strip", "rstrip", "lstrip", "startswith", "endswith", "replace", "lower", "upper", "isdigit", "partition", "index", "find", "rfind", "count") \
                and all(x.op in ("const", "tuple") for x in args) and all(x.op == "const" for x in kwargs.values()):
            try:
                r = getattr(b.a[0], name)(*[x.a[0] if x.op == "const" else tuple(y.a[0] for y in x.a) for x in args], **{k: v.a[0] for k, v in kwargs.items()})
            except ValueError:
                raise Raised("ValueError", st)
            if isinstance(r, list):
                return self.new_list(st, [const(x) for x in r])
            return mk("tuple", *[const(x) for x in r]) if isinstance(r, tuple) else const(r)
        return super().method(b, name, args, kwargs, st, node)

    def attr(self, v, name, st, node=None):
        if v.op == "ext" and v.a[0] == "sys.float_info" and name in FLOATS:
            return const(FLOATS[name])
        if v.op == "ext" and v.a[0] == "sys" and name == "argv":
            return self.new_list(st, [const("prog")] + [const(x) for x in self.argv])
        return super().attr(v, name, st, node)

    def external(self, name, args, kwargs, st, node, star, starstar):
        if name == "argparse.ArgumentParser":
            p = argparse.ArgumentParser(exit_on_error=False, add_help=False)

            def error(message):
                raise Raised("SystemExit", st)
            p.error = error
            p.parse_args_ = p.parse_args
            self.parsers[len(self.parsers)] = p
            return mk("argparser", len(self.parsers) - 1)
        if name == "argparse.ArgumentTypeError":
            return mk("call", name, tuple(args), ())
        if name in ("float.fromhex", "builtins.float.fromhex") and len(args) == 1 and args[0].op == "const":
            try:
                return const(float.fromhex(args[0].a[0]))
            except (ValueError, OverflowError):
                raise Raised("ValueError", st)
        if name in ("builtins.float", "builtins.int") and len(args) == 1 and args[0].op == "const" and isinstance(args[0].a[0], (str, float)):
            try:
                return const((float if name.endswith("float") else int)(args[0].a[0]))
            except (ValueError, OverflowError):
                raise Raised("ValueError", st)
        if name == "builtins.round" and not kwargs and args and all(x.op == "const" and isinstance(x.a[0], (int, float)) for x in args):
            return const(round(*[x.a[0] for x in args]))
        if name in ("numpy.float32", "numpy.float64") and len(args) == 1 and args[0].op == "const":
            try:
                x = float(args[0].a[0])
            except (ValueError, TypeError):
                raise Raised("ValueError", st)
            return const(f32(x) if name.endswith("32") else x)
        if name in ("math.isnan", "math.isinf", "math.isfinite", "numpy.isnan", "numpy.isinf", "numpy.isfinite") and len(args) == 1 and args[0].op == "const":
            return const(getattr(math, name.rsplit(".", 1)[1])(args[0].a[0]))
        if name in ("math.fabs", "numpy.abs", "numpy.absolute", "numpy.fabs") and len(args) == 1 and args[0].op == "const":
            return const(abs(float(args[0].a[0])))
        if name in ("numpy.maximum", "numpy.fmax") and len(args) == 2 and all(x.op == "const" for x in args):
            a, b = (x.a[0] for x in args)
            nan = a != a or b != b
            return const(max(a, b) if not nan else math.nan if name.endswith("maximum") else (b if a != a else a))
        if name in ("numpy.nanmax", "numpy.max", "numpy.amax") and len(args) == 1 and not kwargs:
            h = self.arr(args[0], st)
            if h is not None and h.data and all(x.op == "const" for x in h.data):
                d = [x.a[0] for x in h.data]
                return const(math.nan if any(x != x for x in d) and "nan" not in name else max(x for x in d if x == x))
        if name == "itertools.zip_longest":
            ss = [self.seq(a, st) for a in args]
            if None not in ss and set(kwargs) <= {"fillvalue"}:
                n = max(len(s) for s in ss)
                return self.new_list(st, [mk("tuple", *[s[i] if i < len(s) else kwargs.get("fillvalue", NONE) for s in ss]) for i in range(n)])
        if name == "itertools.islice" and len(args) >= 2:
            s = self.seq(args[0], st)
            if s is not None and all(x.op == "const" for x in args[1:]):
                return self.new_list(st, s[slice(*[x.a[0] for x in args[1:]])])
        if name == "builtins.next" and args:
            if args[0].op == "file" and self.readable(args[0]):
                ls, at = self.lines(args[0]), self.cursor.get(args[0], 0)
                if args[0] in self.loose:
                    raise Imprecise("file read after a loop over it")
                self.cursor[args[0]] = min(at + 1, len(ls))
                if at < len(ls):
                    return const(ls[at])
                if len(args) > 1:
                    return args[1]
                raise Raised("StopIteration", st)
            if args[0].op == "file":
                raise Imprecise("next")
        if name == "builtins.vars" and len(args) == 1:
            h = self.h(st, args[0])
            if h is not None and h.k == "obj":
                return self.new_dict(st, dict(h.f))
        if name in ("numpy.testing.assert_allclose", "numpy.allclose", "numpy.isclose") and len(args) >= 2:
            kw = dict(zip(("rtol", "atol"), args[2:4]))
            kw.update({k: v for k, v in kwargs.items() if k in ("rtol", "atol", "equal_nan")})
            d = {"rtol": 1e-7 if "testing" in name else 1e-5, "atol": 0.0 if "testing" in name else 1e-8, "equal_nan": "testing" in name}
            d.update({k: v.a[0] for k, v in kw.items() if v.op == "const"})
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            if a is None or b is None or any(x.op != "const" for x in a.data + b.data) or any(v.op != "const" for v in kw.values()):
                raise Imprecise(name)
            sh = bshape(a.shape, b.shape)
            if sh is None:
                raise Raised("AssertionError" if "testing" in name else "ValueError", st)
            if "testing" in name and a.shape != b.shape and 1 not in (len(a.data), len(b.data)):
                raise Raised("AssertionError", st)
            n = math.prod(sh)
            x = [e.a[0] for e in (a.data if len(a.data) == n else a.data * n)]
            y = [e.a[0] for e in (b.data if len(b.data) == n else b.data * n)]

            def close(p, q):
                if p != p or q != q:
                    return p != p and q != q and bool(d["equal_nan"])
                if math.isinf(p) or math.isinf(q):
                    return p == q
                return abs(p - q) <= d["atol"] + d["rtol"] * abs(q)
            r = [close(p, q) for p, q in zip(x, y)]
            if name.endswith("isclose"):
                return self.nd(st, sh, [const(v) for v in r], "b") if sh else const(r[0])
            if name.endswith("numpy.allclose"):
                return const(all(r))
            if not all(r):
                raise Raised("AssertionError", st)
            return NONE
        return super().external(name, args, kwargs, st, node, star, starstar)
