"""Hash-consed value graph used by the abstract interpreter (global value numbering)."""
from __future__ import annotations

_TABLE: dict = {}


class N:
    """Immutable, interned value node.  `op` is the operator, `a` its operands."""

    __slots__ = ("op", "a", "h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    # identity equality: nodes are interned


def mk(op, *a):
    key = (op, tuple((type(x).__name__, x) if not isinstance(x, N) else x for x in a))
    n = _TABLE.get(key)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.h = hash(key)
        _TABLE[key] = n
    return n


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOT = mk("bottom")
ABSENT = mk("absent")
_top = [0]


def sym(name):
    return mk("sym", name)


def top(reason=""):
    _top[0] += 1
    return mk("top", reason, _top[0])


def is_const(n, v=...):
    return n.op == "const" and (v is ... or (type(n.a[0]) is type(v) and n.a[0] == v))


def cval(n):
    return n.a[0]


def show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, d) for x in n) + ")"
        return repr(n)
    if d > 14:
        return "…"
    o, a = n.op, n.a
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "attr":
        return f"{show(a[0], d+1)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d+1)}[{show(a[1], d+1)}]"
    if o in ("bin", "cmp"):
        return f"({show(a[1], d+1)} {a[0]} {show(a[2], d+1)})"
    if o == "un":
        return f"({a[0]}{show(a[1], d+1)})"
    if o == "phi":
        return f"phi({show(a[0], d+1)} ? {show(a[1], d+1)} : {show(a[2], d+1)})"
    if o == "call":
        return (f"{a[0] if isinstance(a[0], str) else show(a[0], d+1)}("
                + ", ".join([show(x, d + 1) for x in a[1]] + [f"{k}={show(v, d+1)}" for k, v in a[2]]) + ")")
    if o == "tuple":
        return "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if o == "list":
        return "[" + ", ".join(show(x, d + 1) for x in a) + "]"
    if o == "top":
        return f"⊤{a[0]}"
    return f"{o}<" + ", ".join(show(x, d + 1) for x in a) + ">"


def walk(n, seen=None):
    """All nodes reachable from n (including in nested tuples)."""
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            stack.extend(x.a)
    return seen


def subst(n, f, memo=None):
    """Rebuild bottom-up, f(node) -> node or None (None: rebuild)."""
    if memo is None:
        memo = {}
    if isinstance(n, tuple):
        return tuple(subst(x, f, memo) for x in n)
    if not isinstance(n, N):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    r = f(n)
    if r is None:
        na = tuple(subst(x, f, memo) for x in n.a)
        r = n if na == n.a else rebuild(n.op, na)
    memo[n] = r
    return r


def rebuild(op, a):
    if op == "phi":
        return phi(*a)
    if op == "cmp":
        return cmp_(*a)
    if op == "bin":
        return bin_(*a)
    if op == "not":
        return not_(a[0])
    if op == "bool":
        return bool_(a[0], a[1])
    if op == "cat":
        return cat(*a)
    if op == "call" and a[0] == "builtins.len" and len(a[1]) == 1:
        x = a[1][0]
        if x.op == "const" and isinstance(x.a[0], (str, tuple, bytes)):
            return const(len(x.a[0]))
        if x.op in ("tuple", "list") and not any(y.op in ("rep", "cond") for y in x.a):
            return const(len(x.a))
    if op == "item" and a[1].op == "const" and isinstance(a[1].a[0], int):
        x, i = a[0], a[1].a[0]
        if x.op in ("tuple", "list") and not any(y.op in ("rep", "cond") for y in x.a) and -len(x.a) <= i < len(x.a):
            return x.a[i]
        if x.op == "const" and isinstance(x.a[0], str) and -len(x.a[0]) <= i < len(x.a[0]):
            return const(x.a[0][i])
    if op == "fmt" and a[1] == "" and (is_str(a[0]) or a[0].op == "const"):
        return a[0] if is_str(a[0]) else const(str(a[0].a[0]))
    return mk(op, *a)


def not_(c):
    if c.op == "const":
        return const(not c.a[0])
    if c.op == "not":
        return c.a[0]
    if c.op == "cmp":
        inv = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">",
               "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
        if c.a[0] in inv:
            return mk("cmp", inv[c.a[0]], c.a[1], c.a[2])
    if c.op == "phi":
        return phi(c.a[0], not_(c.a[1]), not_(c.a[2]))
    return mk("not", c)


def truth(n):
    """Constant truth value of a node or None."""
    if n.op == "const":
        try:
            return bool(n.a[0])
        except Exception:
            return None
    if n.op in ("tuple", "list"):
        if any(isinstance(x, N) and x.op == "rep" for x in n.a):
            return None
        return bool(n.a)
    if n.op in ("func", "cls", "obj", "mod", "bound", "ext"):
        return True
    if n.op == "cat":
        if any(p.op == "const" and p.a[0] for p in n.a):
            return True
    return None


def phi(c, t, f):
    if t is f:
        return t
    if t is BOT:
        return f
    if f is BOT:
        return t
    tv = truth(c)
    if tv is not None:
        return t if tv else f
    if c.op == "not":
        return phi(c.a[0], f, t)
    if c.op == "cmp" and c.a[0] in ("!=", "is not", "not in"):
        return phi(not_(c), f, t)
    if t.op == "phi" and t.a[0] is c:
        t = t.a[1]
    if f.op == "phi" and f.a[0] is c:
        f = f.a[2]
    if t is f:
        return t
    if t is TRUE and f is FALSE:
        return c if c.op in ("cmp", "not", "bool") else mk("phi", c, t, f)
    if t is FALSE and f is TRUE:
        return not_(c) if c.op in ("cmp", "not", "bool") else mk("phi", c, t, f)
    return mk("phi", c, t, f)


_ARITH = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "//": lambda a, b: a // b, "/": lambda a, b: a / b, "%": lambda a, b: a % b,
    "**": lambda a, b: a ** b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
}


def bin_(op, l, r):
    if l.op == "const" and r.op == "const" and op in _ARITH:
        try:
            if op != "**" or abs(r.a[0]) < 64:
                return const(_ARITH[op](l.a[0], r.a[0]))
        except Exception:
            pass
    if op == "+":
        if is_str(l) or is_str(r):
            if l.op in ("const", "cat", "fmt", "phi", "str") or r.op in ("const", "cat", "fmt", "str", "phi"):
                return cat(l, r)
        if l.op in ("tuple",) and r.op == "tuple":
            return mk("tuple", *(l.a + r.a))
        if l.op in ("list",) and r.op == "list":
            return mk("list", *(l.a + r.a))
        if is_const(r, 0):
            return l
        if is_const(l, 0):
            return r
    if op == "-" and is_const(r, 0):
        return l
    if op == "*":
        if is_const(r, 1):
            return l
        if is_const(l, 1):
            return r
        if l.op == "list" and r.op == "const" and isinstance(r.a[0], int) and r.a[0] < 64:
            return mk("list", *(l.a * r.a[0]))
    return mk("bin", op, l, r)


def is_str(n):
    if n.op == "const":
        return isinstance(n.a[0], str)
    if n.op in ("cat", "fmt", "str", "rendered"):
        return True
    if n.op == "phi":
        return is_str(n.a[1]) or is_str(n.a[2])
    return False


def cat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "const" and not isinstance(q.a[0], str):
                q = const(str(q.a[0]))
            if is_const(q, ""):
                continue
            if out and q.op == "const" and out[-1].op == "const":
                out[-1] = const(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and (out[0].op != "sym"):
        return out[0]
    return mk("cat", *out)


_CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
        "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
        "is": lambda a, b: a is b or (a == b and type(a) is type(b)),
        "is not": lambda a, b: not (a is b or (a == b and type(a) is type(b)))}


def seq_const(n):
    """python value of a constant list/tuple node"""
    if n.op == "const" and isinstance(n.a[0], tuple):
        return n.a[0]
    if n.op in ("tuple", "list"):
        if all(isinstance(x, N) and x.op == "const" for x in n.a):
            v = [x.a[0] for x in n.a]
            return tuple(v) if n.op == "tuple" else v
    return None


def cmp_(op, l, r):
    if l.op == "const" and r.op == "const" and op in _CMP:
        try:
            return const(_CMP[op](l.a[0], r.a[0]))
        except Exception:
            pass
    if op in ("in", "not in"):
        if r.op == "list" and not any(x.op in ("rep", "cond", "mut", "popped", "inserted", "store") for x in r.a):
            r = mk("tuple", *r.a)
        if r.op in ("tuple", "list") and all(x.op == "const" for x in r.a):
            if l.op == "const":
                v = l.a[0] in [x.a[0] for x in r.a]
                return const(v if op == "in" else not v)
            # x in (a, b)  ==>  x == a or x == b
            out = FALSE
            for x in reversed(r.a):
                e = cmp_("==", l, x)
                out = e if out is FALSE else bool_("or", (e, out))
            return out if op == "in" else not_(out)
        if r.op in ("tuple", "list") and l.op != "top" and any(x is l for x in r.a):
            return const(op == "in")
        if l.op == "const" and r.op == "const" and isinstance(r.a[0], str) and isinstance(l.a[0], str):
            v = l.a[0] in r.a[0]
            return const(v if op == "in" else not v)
        if l.op == "phi":
            return phi(l.a[0], cmp_(op, l.a[1], r), cmp_(op, l.a[2], r))
        return mk("cmp", op, l, r)
    if op in ("is", "is not", "==", "!="):
        neg = op in ("is not", "!=")
        for x, y in ((l, r), (r, l)):
            if is_const(y) and y.a[0] is None and x.op in ("tuple", "list", "cat", "func", "cls", "obj", "ref", "fmt",
                                                           "bin", "rendered", "mod", "listv", "dictv", "path"):
                return const(neg)
        if l is r and l.op not in ("top",):
            return const(not neg)
        if l.op in ("cls", "func") and r.op in ("cls", "func"):
            return const((l is r) != neg)
        if l.op == "ext" and r.op == "ext" and l.a[0].startswith("builtins.") and r.a[0].startswith("builtins."):
            return const((l is r) != neg)
        if l.op in ("ext",) and r.op in ("cls",) or l.op in ("cls",) and r.op in ("ext",):
            return const(neg)
        if l.op == "phi" and (r.op == "const"):
            return phi(l.a[0], cmp_(op, l.a[1], r), cmp_(op, l.a[2], r))
        if r.op == "phi" and (l.op == "const"):
            return phi(r.a[0], cmp_(op, l, r.a[1]), cmp_(op, l, r.a[2]))
        if op in ("==", "!="):
            a, b = seq_const(l), seq_const(r)
            if a is not None and b is not None:
                return const((a == b) != neg)
            if a is not None and b is None and r.op in ("tuple", "list") and not any(x.op in ("rep", "cond") for x in r.a) and len(r.a) != len(a):
                return const(neg)
            if b is not None and a is None and l.op in ("tuple", "list") and not any(x.op in ("rep", "cond") for x in l.a) and len(l.a) != len(b):
                return const(neg)
        if op in ("==", "!=") and l.op == "const" and r.op != "const":
            l, r = r, l
    if op in (">", ">="):
        return mk("cmp", {">": "<", ">=": "<="}[op], r, l)
    return mk("cmp", op, l, r)


def bool_(op, parts):
    """Short-circuit and/or over *truth*; keeps python value semantics when constant."""
    out = []
    for p in parts:
        t = truth(p)
        if op == "and":
            if t is True and p is not parts[-1]:
                continue
            if t is False:
                if not out:
                    return p
                out.append(p)
                break
        else:
            if t is False and p is not parts[-1]:
                continue
            if t is True:
                if not out:
                    return p
                out.append(p)
                break
        out.append(p)
    if len(out) == 1:
        return out[0]
    flat = []
    for p in out:
        if p.op == "bool" and p.a[0] == op:
            flat.extend(p.a[1])
        else:
            flat.append(p)
    if op == "and":
        flat = [p for p in flat if truth(p) is not True] or [TRUE]
        if any(truth(p) is False for p in flat):
            return FALSE
    if op == "or":
        flat = [p for p in flat if truth(p) is not False] or [FALSE]
        if any(truth(p) is True for p in flat):
            return TRUE
    uniq = []
    for p in flat:
        if p not in uniq:
            uniq.append(p)
    if len(uniq) == 1:
        return uniq[0]
    return mk("bool", op, tuple(uniq))
