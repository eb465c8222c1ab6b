"""Layer graphs as the importers hand them over, and what a list of layers computes.

A graph is a list of (kind, predecessors) in file order.  `build` makes the layer objects the importers make: shared symbolic
parameters, concrete kind, index and links.  `by_links` is the term every layer denotes when its operands are the layers it is linked
to; `by_buffers` is the term it denotes when its operands are whatever the generated code finds in the buffer the operand's
`output_str` names, with the layers executed in list order and the outputs copied to the saved buffers of `dict_cst`.
"""
from __future__ import annotations

from .interp import HObj, Interp, Raised, State
from .nodes import FALSE, NONE, TRUE, N, const, mk, show, sym



class Unknown(Exception):
    pass


class Broken(Exception):
    """a definite violation: (rule, text)"""

    def __init__(self, rule, text):
        self.rule, self.text = rule, text


def act_class(repo, name):
    return repo.classes.get(name)


def mk_act(repo, I, st, name):
    c = repo.classes.get(name)
    if c is None:
        raise Unknown(f"no activation class {name}")
    o = I.instantiate(c, [], {}, st, None, I.new_dict(st, {}, sym("actarg")), label="act:" + name)
    return o


class G:
    """nodes: [(kind, preds[, act[, extra fields]])]; kind "act:ReLu" is a standalone activation layer"""

    def __init__(self, nodes, name=""):
        self.nodes = [tuple(n) + (None,) * (4 - len(n)) for n in nodes]
        self.name = name

    def __str__(self):
        return self.name or " ".join(f"{i}:{k}({','.join(map(str, p))}){'+' + a if a else ''}" for i, (k, p, a, x) in enumerate(self.nodes))


def build(repo, I, st, g):
    objs = []
    for i, (kind, preds, act, extra) in enumerate(g.nodes):
        cn = "ActivationLayer" if kind.startswith("act:") else kind
        cls = repo.classes.get(cn)
        if cls is None:
            raise Unknown(f"no layer class {cn}")
        an = kind[4:] if kind.startswith("act:") else act or "Linear"
        a = mk_act(repo, I, st, an)
        h = None
        if kind.startswith("act:"):
            h = I.h(st, I.instantiate(cls, [], {"original_name": const(f"node{i}"), "idx": const(i), "size": sym(f"size{i}"), "activation_function": a}, st))
        f = dict(h.f) if h is not None else {"name": const(cn)}
        f.update({"idx": const(i), "original_name": const(f"node{i}"), "size": sym(f"size{i}"), "activation_function": a,
             "previous_layer": I.new_list(st), "next_layer": I.new_list(st), "path": NONE, "output_str": const("")})
        f.update(extra or {})
        objs.append(I.new(st, HObj(cls, f, sym(f"node{i}"))))
    for i, (kind, preds, act, extra) in enumerate(g.nodes):
        for p in preds:
            append(I, st, objs[i], "previous_layer", objs[p])
            append(I, st, objs[p], "next_layer", objs[i])
    return objs


def append(I, st, o, field, x):
    from .interp import HList
    r = st.heap[o.a[0]].f[field]
    st.heap[r.a[0]] = HList(st.heap[r.a[0]].items + (x,))


def items(I, st, v):
    h = I.h(st, v) if isinstance(v, N) else None
    if h is None or h.k not in ("list",):
        if isinstance(v, N) and v.op == "tuple":
            return list(v.a)
        raise Unknown("not a list of known length: " + (show(v)[:80] if isinstance(v, N) else str(v)))
    return list(h.items)


def field(I, st, o, name):
    return I.attr(o, name, st)


def cint(I, st, o, name):
    v = field(I, st, o, name)
    if v.op != "const" or isinstance(v.a[0], bool) or not isinstance(v.a[0], int):
        raise Unknown(f"{name} of a layer is {show(v)[:60]}")
    return v.a[0]


def links(I, st, o, name):
    return items(I, st, field(I, st, o, name))


def known_dict(I, st, d):
    h = I.h(st, d)
    its = I.dict_items(h) if h is not None and h.k == "dict" else None
    if its is None:
        raise Unknown("table of saved outputs not known")
    out = {}
    for k, v in its:
        if k.op != "const" or v.op != "const":
            raise Unknown("table of saved outputs not known")
        out[k.a[0]] = v.a[0]
    return out


def layer_kind(I, st, o):
    h = I.h(st, o)
    if h is None or h.k != "obj" or h.cls is None:
        raise Unknown("a layer is " + show(o)[:60])
    return h.cls.name


class Terms:
    """terms of layers, up to the identities the rewrites rely on"""

    def __init__(self, I, st, tokens, same=None, silent=()):
        """silent: kinds of layers whose code never applies an activation"""
        self.I, self.st, self.tokens, self.same, self.silent = I, st, tokens, same, set(silent)

    def act(self, o, t):
        a = field(self.I, self.st, o, "activation_function")
        h = self.I.h(self.st, a)
        if h is None or h.cls is None:
            raise Unknown("activation of a layer is " + show(a)[:60])
        n = h.cls.name
        if n == "Linear":
            return t
        return ("act", n, "" if n in ("Sigmoid", "Silu") else self.I.freeze(self.st, mk("obj", n, tuple(h.f.items()))), t)

    def op(self, o, ins):
        k = layer_kind(self.I, self.st, o)
        cls = self.I.h(self.st, o).cls
        names = [c.name for c in cls.mro()]
        if "ActivationLayer" in names:
            if len(ins) != 1:
                raise Broken("operands", f"an activation layer has {len(ins)} operands")
            return self.act(o, ins[0])
        tok = self.tokens.get(o)
        t = None
        if "Multiply" in names and len(ins) == 2:
            for x, y in (ins, ins[::-1]):
                if x[0] == "act" and x[1] == "Sigmoid" and x[3] == y:
                    t = ("act", "Silu", "", y)
        elif "BatchNormalization" in names and len(ins) == 1 and ins[0][0] == "op" and ins[0][1] == "Conv2D":
            t = ("op", "Conv2D", ("normalised", tok, ins[0][2]), ins[0][3])
        if t is None:
            if "Conv2D" in names and self.same is not None:
                tok = self.same(self.I, self.st, o, tok)
            if tok is None:
                raise Unknown(f"a {k} made by a rewrite")
            t = ("op", next((n for n in names if n in ("Conv2D",)), k), tok, tuple(ins))
        return t if k in self.silent else self.act(o, t)


def by_links(T, layers):
    """term of every layer, following the links"""
    I, st = T.I, T.st
    memo = {}

    def term(o, stack=()):
        if o in memo:
            return memo[o]
        if o in stack:
            raise Broken("cycle", "the layers are linked in a cycle")
        memo[o] = T.op(o, [term(p, stack + (o,)) for p in links(I, st, o, "previous_layer")])
        return memo[o]
    return {o: term(o) for o in layers}


def by_buffers(T, layers, saved, want=None):
    """term of every layer as computed by the generated code (order of the list, buffers); want: term every operand must have"""
    I, st = T.I, T.st
    buf, out = {}, {}
    for o in layers:
        ins = []
        for p in links(I, st, o, "previous_layer"):
            s = field(I, st, p, "output_str")
            if s.op != "const":
                raise Unknown("output name is " + show(s)[:60])
            if s.a[0] not in buf:
                raise Broken("buffer", f"{name(I, st, o)} reads {s.a[0] or 'no buffer'} for {name(I, st, p)}, which nothing has written yet")
            ins.append(buf[s.a[0]][0])
            if buf[s.a[0]][1] is not p:
                raise Broken("buffer", f"{name(I, st, o)} reads {s.a[0]} for the output of {name(I, st, p)}, but it then holds the output of {name(I, st, buf[s.a[0]][1])}")
        out[o] = T.op(o, ins)
        buf[f"output_{cint(I, st, o, 'path')}"] = (out[o], o)
        i = cint(I, st, o, "idx")
        if i in saved:
            buf[f"cst_{saved[i]}"] = (out[o], o)
    return out


def name(I, st, o):
    try:
        n = field(I, st, o, "original_name")
        return f"{layer_kind(I, st, o)} {cint(I, st, o, 'idx')}"
    except (Unknown, KeyError):
        return show(o)


def well_formed(I, st, layers, saved=None, contiguous=False):
    """definite violations of the invariants of a list of layers"""
    out = []
    idx = [cint(I, st, o, "idx") for o in layers]
    if len(set(idx)) != len(idx):
        out.append(("index", f"two layers have the same index: {idx}"))
    elif contiguous and sorted(idx) != list(range(len(idx))):
        out.append(("index", f"layer indices are no longer 0..{len(idx) - 1}: {sorted(idx)}"))
    pos = {o: i for i, o in enumerate(layers)}
    if len(pos) != len(layers):
        out.append(("list", "a layer appears twice in the list"))
    for o in layers:
        for fld, inv in (("previous_layer", "next_layer"), ("next_layer", "previous_layer")):
            ls = links(I, st, o, fld)
            for p in ls:
                if p not in pos:
                    out.append(("removed", f"{fld} of {name(I, st, o)} is a layer that is not in the list: {name(I, st, p)}"))
                elif o not in links(I, st, p, inv):
                    out.append(("links", f"{name(I, st, p)} is in {fld} of {name(I, st, o)} but not the other way round"))
                elif fld == "previous_layer" and pos[p] >= pos[o]:
                    out.append(("order", f"{name(I, st, o)} comes before its operand {name(I, st, p)}"))
    return out
