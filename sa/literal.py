"""What number the text written for a value denotes: the expression that writes it is folded for sample values."""
from __future__ import annotations

import math
import re
import struct

from .nodes import N, const, show, subst, walk


class Unknown(Exception):
    pass


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


SAMPLES = [f32(v) for v in (0.1, 1.0, -2.5, 1e-30, 123456.789, 3.0e38, 1 / 3, -0.0078125, 16777216.0, 1.0000001, -1e-38)]
DOUBLES = [0.1, -1 / 3, 1.2345678901234567e-5, 4503599627370497.5, 1e300, -2.2250738585072014e-308]
LITERAL = re.compile(r"[-+]?(?:0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?[pP][-+]?\d+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)[fFlL]?$")
NAMES = {"float": float, "str": str, "repr": repr, "int": int, "abs": abs, "round": round, "bool": bool, "format": format}


def number(t):
    """value of a C literal, None when it is not one"""
    t = t.strip()
    if t.startswith("(") and t.endswith(")"):
        return number(t[1:-1])
    if not LITERAL.match(t):
        return None
    t = t.rstrip("lL") if "x" in t.lower() else t.rstrip("fFlL")
    if re.match(r"[-+]?0[xX]", t):
        return float.fromhex(t)
    return float(t)


def fold(n):
    """python value of a closed expression"""
    if not isinstance(n, N):
        return n
    o, a = n.op, n.a
    if o == "const":
        return a[0]
    if o == "fmt":
        x = fold(a[0])
        spec = a[1] if isinstance(a[1], str) else fold(a[1])
        conv = a[2] if len(a) > 2 else None
        if conv in ("r", 114):
            x = repr(x)
        elif conv in ("s", 115):
            x = str(x)
        return format(x, spec)
    if o == "cat":
        return "".join(str(fold(x)) for x in a)
    if o == "un":
        x = fold(a[1])
        return {"-": lambda: -x, "+": lambda: +x, "not": lambda: not x}[a[0]]()
    if o == "not":
        return not fold(a[0])
    if o == "cmp":
        l, r = fold(a[1]), fold(a[2])
        try:
            return {"==": l == r, "!=": l != r, "in": None, "is": l is r}.get(a[0]) if a[0] in ("==", "!=", "is") else {"<": lambda: l < r, "<=": lambda: l <= r, ">": lambda: l > r, ">=": lambda: l >= r, "in": lambda: l in r, "not in": lambda: l not in r}[a[0]]()
        except KeyError:
            raise Unknown(show(n))
    if o == "phi":
        return fold(a[1] if fold(a[0]) else a[2])
    if o == "bin":
        l, r = fold(a[1]), fold(a[2])
        f = {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "/": lambda: l / r, "%": lambda: l % r, "//": lambda: l // r, "**": lambda: l ** r}.get(a[0])
        if f is None:
            raise Unknown(a[0])
        return f()
    if o in ("item", "sub"):
        return fold(a[0])[fold(a[1])]
    if o == "call":
        f = a[0]
        args = [fold(x) for x in a[1]]
        kw = {k: fold(v) for k, v in a[2]} if len(a) > 2 and a[2] else {}
        if isinstance(f, N) and f.op == "attr" and f.a[0].op not in ("ext", "mod", "cls"):
            b, name = fold(f.a[0]), f.a[1]
            return method(b, name, args, kw)
        name = f.a[0] if isinstance(f, N) and f.op == "ext" else f if isinstance(f, str) else None
        if name is None:
            raise Unknown(show(f))
        if name.startswith("builtins."):
            name = name[9:]
            if name in NAMES:
                return NAMES[name](*args, **kw)
            if "." in name:
                t, m = name.split(".", 1)
                if t in ("float", "str", "int") and hasattr(NAMES[t], m):
                    return getattr(NAMES[t], m)(*args, **kw)
        if name in ("numpy.float32", "numpy.single"):
            return f32(float(args[0]))
        if name in ("numpy.float64", "numpy.double"):
            return float(args[0])
        if "." in name and name.split(".")[-1] in STR:
            raise Unknown(name)
        raise Unknown(name)
    raise Unknown(show(n)[:60])


STR = {"replace", "strip", "rstrip", "lstrip", "upper", "lower", "format", "split", "partition", "startswith", "endswith", "join", "zfill", "hex", "item", "removesuffix", "removeprefix", "is_integer"}


def method(b, name, args, kw):
    if name == "item":
        return b
    if name == "astype":
        raise Unknown("astype")
    if name in STR and isinstance(b, (str, float, int)) and hasattr(b, name):
        return getattr(b, name)(*args, **kw)
    raise Unknown(name)


def leaves(n):
    return {x for x in walk(n) if x.op == "sym" and (x.a[0].startswith("k:") or x.a[0].startswith("random:"))}


def contains(n, x):
    if n is x:
        return True
    return any(y is x for y in walk(n))


def denotes(hole, x, single=True):
    """None when the text `hole` denotes the value x for every sample value, otherwise what it denotes"""
    if not contains(hole, x):
        return f"written from {show(hole)[:80]}, not from {show(x)[:60]}"
    for v in SAMPLES if single else SAMPLES + DOUBLES:
        t = fold(subst(hole, lambda y: const(v) if y is x else None))
        g = number(str(t))
        if g is None:
            return f"{v!r} is written {t!r}, which is no number in C"
        if (f32(g) if single else g) != v:
            return f"{v!r} is written {t!r}, which is {f32(g) if single else g!r}"
    return None
