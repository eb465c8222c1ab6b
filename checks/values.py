"""What the emitted code computes at given extents: value numbers of the unrolled loop nests against the definitions of spec/concrete.py.

Complements the comparison for symbolic extents (C01-C03): it also decides the code that has no normal form there.
"""
from __future__ import annotations

import os
import random

from sa import cabs
from sa import cparse
from sa import emit as E
from sa import emitted as ED
from sa import graphs as GR
from sa import terms as T
from sa import zoo
from sa.interp import Raised
from sa.nodes import N, const, show, sym
from spec import concrete as S
from . import emission as EM
from . import project as PJ


class Layer:
    """parameters of a layer object of the generator"""

    def __init__(self, I, st, o):
        self.I, self.st, self.o = I, st, o
        self.ci = I.h(st, o).cls
        self.cls = self.ci.name
        self.bases = [c.name for c in self.ci.mro()]

    def get(self, k, *default):
        f = self.I.h(self.st, self.o).f
        if k not in f:
            if default:
                return default[0]
            raise S.NoSpec("no " + k)
        return f[k]

    def plain(self, v):
        if not isinstance(v, N):
            return v
        if v.op == "const":
            return v.a[0]
        if v.op == "un" and v.a[0] == "-" and v.a[1].op == "const":
            return -v.a[1].a[0]
        raise S.NoSpec("parameter " + show(v)[:60])

    def n(self, k, *default):
        v = self.get(k)
        while v.op == "ref":
            a = self.I.arr(v, self.st)
            l = list(a.data) if a is not None else self.seq(v)
            if not l and default:
                return default[0]
            if len(l) != 1:
                raise S.NoSpec(k)
            v = l[0]
        v = self.plain(v)
        if not isinstance(v, (int, float)):
            raise S.NoSpec(k)
        return v

    def flag(self, k):
        return bool(self.plain(self.get(k)))

    def s(self, k):
        v = self.plain(self.get(k))
        if not isinstance(v, str):
            raise S.NoSpec(k)
        return v

    def seq(self, v):
        if v.op == "ref":
            a = self.I.arr(v, self.st)
            if a is not None:
                return list(a.data)
        if v.op == "const" and v.a[0] is None:
            return []
        if v.op == "const" and isinstance(v.a[0], (int, float)):
            return [v]
        return GR.items(self.I, self.st, v)

    def l(self, k):
        return [self.plain(x) for x in self.seq(self.get(k))]

    def ints(self, k):
        out = self.l(k)
        if any(x != int(x) for x in out):
            raise S.NoSpec(k)
        return [int(x) for x in out]

    floats = l

    def rows(self, k):
        v = self.get(k)
        a = self.I.arr(v, self.st) if v.op == "ref" else None
        if a is not None:
            if len(a.shape) != 2:
                raise S.NoSpec(k)
            d = [self.plain(x) for x in a.data]
            n = a.shape[1]
            return [d[i * n:(i + 1) * n] for i in range(a.shape[0])]
        return [[self.plain(x) for x in self.seq(r)] for r in self.seq(v)]

    def shape(self, k):
        return list(self.I.arr(self.get(k), self.st).shape)

    def a(self, k, *default):
        v = self.get(k, *default)
        if v is None or v.op == "const" and v.a[0] is None and default:
            return None
        a = self.I.arr(v, self.st) if v.op == "ref" else None
        if a is None:
            raise S.NoSpec(k)
        return [T.number(x) for x in a.data]

    def transposed(self):
        v = self.get("transpo")
        return [bool(self.plain(x)) for x in (v.a if v.op == "tuple" else self.seq(v))]


def activation(I, st, o):
    """the function the activation of a layer is: its C expression as a function of its operand"""
    f = I.h(st, o).f.get("activation_function")
    if f is None:
        return lambda p: p
    fi = I.h(st, f).cls.find("write_activation_str")
    v = I.call_fi(fi, [const("ACT_OPERAND")], {}, st, selfv=f)
    r = E.text(I, st, [("w", v, None)])
    prog = cparse.parse("void f() { ACT_RESULT = " + r.text + "; }", r.holes, types=())
    body = [s for s in prog if s[0] == "func"][0][4]
    m = cabs.Machine(dom=T.Terms())
    c = cabs.Compiler(m)
    i, j = c.declare("ACT_OPERAND", "f"), c.declare("ACT_RESULT", "f")
    run = c.stmt(body)

    def act(p):
        env = [None] * (c.top + 1)
        env[i] = p
        run(env)
        return T.lift(env[j])
    return act


class Run(ED.Run):
    """abstract inference that keeps the value number of each element"""

    def __init__(self, prog, table, budget=4000000):
        self.table = table
        self.results = []
        self.params = {}
        super().__init__(prog, budget, T.Terms())

    def token(self, tensor, i):
        return T.leaf(str(tensor), i)

    def stored(self, name, a):
        m = PJ.SYMBOL.match(name)
        o = next((o for o in self.p.layers if m and GR.field(self.p.I, self.p.st, o, "idx").a[0] == int(m.group(3))), None)
        want = PJ.leaf(self.p.I, self.p.st, o, m.group(1)) if o is not None else None
        if want is None or len(want) != a.n:
            return [T.leaf(name, i) for i in range(a.n)]
        return [T.number(x) for x in want]

    def mark(self, t):
        super().mark(t)
        if t[0] == "end":
            self.results.append((int(t[1]), self.judge(int(t[1]))))

    def judge(self, idx):
        o, preds, size, path = self.info[idx]
        I, st = self.p.I, self.p.st
        L = Layer(I, st, o)
        d = S.definition(L.bases, self.table)
        if d is None:
            return None
        got = self.out.get(idx)
        if got is None:
            return None
        try:
            if I.plain_format == "channels_last" and any(b in ("Conv2D", "Pooling2D") for b in L.bases):
                return self.hwc(L, d, idx, preds, got)
            ins = [[self.token(q, i) for i in range(self.info[q][2])] for q in preds] if preds else [[self.token("x", i) for i in range(self.nin)]]
            want = d(L, ins, activation(I, st, o))
            return compare(idx, L, got, want, self.issues(idx))
        except S.NoSpec as e:
            return "skip", L.cls, str(e)

    def issues(self, idx):
        return [t for (k, l, a), t in self.m.issues.items() if l == idx]

    def hwc(self, L, d, idx, preds, got):
        C, H, W = S.chw(L)
        OC, OH, OW = S.chw(L, "output")
        x = [self.token(preds[0], (h * W + w) * C + c) for c in range(C) for h in range(H) for w in range(W)]
        want = d(L, [x], activation(self.p.I, self.p.st, L.o))
        return compare(idx, L, got, [want[(c * OH + h) * OW + w] for h in range(OH) for w in range(OW) for c in range(OC)], self.issues(idx))


def positive(key):
    return "var" in str(key[0])


def compare(idx, L, got, want, issues=()):
    if len(got) != len(want):
        return "bad", L.cls, "size", f"layer {idx} ({L.cls}) has {len(got)} outputs, its definition {len(want)}"
    unproved = 0
    for k, (g, w) in enumerate(zip(got, want)):
        if g is None:
            return "bad", L.cls, "unset", f"element {k} of the output of layer {idx} ({L.cls}) is never computed"
        g = T.lift(g)
        if g == w:
            continue
        try:
            d = T.differs(g, w, positive=positive)
        except ValueError as e:
            if issues:
                return "bad", L.cls, "undefined", f"element {k} of the output of layer {idx} ({L.cls}) has no defined value: the layer {issues[0]}"
            return "skip", L.cls, f"operation {e}"
        if d is not None:
            return "bad", L.cls, "value", f"element {k} of the output of layer {idx} ({L.cls}) is {T.show(g)} and not {T.show(w)} (e.g. {d[1]:.6g} and {d[2]:.6g})"
        unproved += 1
    if unproved:
        return "skip", L.cls, f"{unproved} of {len(got)} values agree at the sample points, in another form"
    return "ok", L.cls, len(got)


# ------------------------------------------------------------------ the Python reference

def reference(case, table):
    return EM.guarded(_reference, case, table)


def forward_site(I, st, o):
    f = I.h(st, o).cls.find("forward_path_layer")
    return f"{f.loc} {f.qual}" if f else ""


def _reference(case, table):
    try:
        I, st, gen = case.generator(EM.REPO)
    except Raised as e:
        return "refused" if not e.name.startswith(("imprecise", "endless")) else "skip", e.name
    I.bare = True
    out = []
    for o in GR.items(I, st, GR.field(I, st, gen, "layers")):
        L = Layer(I, st, o)
        d = S.definition(L.bases, table)
        if d is None:
            continue
        try:
            out.append(forwarded(I, st, o, L, d))
        except S.NoSpec as e:
            out.append(("skip", L.cls, str(e)))
        except EM.UNKNOWN as e:
            if os.environ.get("SA_DEBUG"):
                raise
            out.append(("skip", L.cls, f"{type(e).__name__} {e}"[:120]))
    return "ok", out


def forwarded(I, st, o, L, d):
    preds = GR.items(I, st, GR.field(I, st, o, "previous_layer"))
    sizes = [GR.field(I, st, q, "size").a[0] for q in preds] or [L.n("size")]
    ins = [I.nd(st, (n,), [sym(f"t{k}[{i}]") for i in range(n)]) for k, n in enumerate(sizes)]
    try:
        r = I.call_fi(I.h(st, o).cls.find("forward_path_layer"), [ins[0] if len(ins) == 1 else I.new_list(st, ins)], {}, st, selfv=o)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", L.cls, e.name
        return "bad", L.cls + "/raises", f"the reference of layer {L.n('idx')} ({L.cls}) raises {e.name}", forward_site(I, st, o)
    a = I.arr(r, st)
    if a is None:
        return "skip", L.cls, "result " + show(r)[:60]
    want = d(L, [[T.leaf(f"t{k}[{i}]") for i in range(n)] for k, n in enumerate(sizes)], lambda p: T.fn("ACT", p))
    got = [T.number(x) for x in a.data]
    v = compare(L.n("idx"), L, got, want)
    return ("bad", v[1] + "/" + v[2], "in the reference, " + v[3], forward_site(I, st, o)) if v[0] == "bad" else v


# ------------------------------------------------------------------ networks

def judge(case, table):
    return EM.guarded(_judge, case, table)


def _judge(case, table):
    p, why = EM.program(EM.REPO, case)
    if p is None:
        return why
    p.I.plain_format = case.gen.get("gen_data_format", "channels_first")
    r = Run(p, table)
    out = []
    for idx, v in r.results:
        if v is None:
            continue
        if v[0] == "bad":
            out.append(("bad", v[1] + "/" + v[2], v[3], EM.where(p, idx)))
        else:
            out.append(v)
    return "ok", out

def nets(kind, tier):
    if kind == "windows":
        out = []
        for n, v, lay in zoo.conv_nets(tier):
            out.append(EM.Case("net", n, versions={"Conv2D": v}, **({"gen_data_format": lay} if lay else {})))
        return out + [EM.Case("net", n) for n in zoo.pool_nets(tier)]
    return [EM.Case("net", n) for n in getattr(zoo, kind + "_nets")(tier)]


RULE = ("at given extents, the loop nest emitted for a layer is unrolled in the analysis and every value gets a value number over the leaves \"element i of tensor t\" (polynomials with opaque functions, "
        "real arithmetic); the value number of each output element is that of the operator's definition; unequal numbers are reported only if they denote clearly different values")
RULE_PY = "the same for forward_path_layer, interpreted on arrays of leaves"

TABLE = {}


def _judge_job(case):
    return judge(case, TABLE)


def _reference_job(case):
    return reference(case, TABLE)


def extend(chk, table, kinds, job, every, count, general=True, must=False):
    """adds the obligations of the networks to a check"""
    global TABLE
    TABLE = table
    tier = EM.start(chk)
    cs = (EM.cases(tier, every, count) if general else []) + [c for k in kinds for c in nets(k, tier)]
    groups, done, skipped = {}, {}, {}
    for c, (k, v) in zip(cs, EM.run_jobs(job, cs)):
        chk.count("networks at given extents")
        if k == "ok":
            for x in v:
                if x[0] == "ok":
                    chk.count("layers at given extents")
                    chk.count("output elements with their defined value number", x[2])
                    done[x[1]] = done.get(x[1], 0) + 1
                elif x[0] == "skip":
                    skipped.setdefault((x[1], x[2]), []).append(str(c))
                else:
                    groups.setdefault(x[1], []).append((str(c), x[2], x[3]))
        elif k == "refused" and not (must and c.kind == "net"):
            chk.count("networks refused by the generator")
        elif k == "refused":
            groups.setdefault("refused", []).append((str(c), f"no code is generated: {v}", E.LAST.refused_at or ""))
        else:
            skipped.setdefault(("network", v), []).append(str(c))
    for n, k in sorted(done.items()):
        chk.ok(f"{n} at {k} sets of extents")
    for (n, why), l in sorted(skipped.items()):
        chk.skip(f"{n} at {len(l)} sets of extents, e.g. {min(l, key=len)[:200]}", why)
    EM.report(chk, groups)


def resizing(chk):
    chk.rule = RULE + "; " + RULE_PY
    chk.assumptions = ["float arithmetic is taken over the reals", "coordinates are those of the ONNX definition of each transformation mode"]
    extend(chk, S.RESIZE, ["resize"], _judge_job, 12, 24, must=True)
    extend(chk, S.RESIZE, ["resize"], _reference_job, 12, 24, must=True)


CHECKS = {"C26": resizing}
