"""C23: NNET files, their normalisation; C15: the other model descriptions."""
from __future__ import annotations

import os
import random

from sa import cabs
from sa import emit as E
from sa import emitted as ED
from sa import graphs as GR
from sa import onnxmodel as OM
from sa import terms as T
from sa.interp import Raised
from sa.ndarr import Imprecise
from sa.nodes import FALSE, TRUE, const, mk, show, sym
from sa.report import load_known
from sa.shell import Shell

from . import emission as EM


class Loader(Shell, E.Emitter):
    """files of known content, and the emission of what they describe"""
    printed = None

    def call_fi(self, fi, args, kwargs, st, *a, **k):
        if self.printed is not None and fi.name == "data2c" and len(args) == 1:
            self.printed.append(args[0])
            return const(f"value{len(self.printed) - 1}")
        return super().call_fi(fi, args, kwargs, st, *a, **k)


def loader(repo, make=None):
    I0, st = E.fresh(repo)
    I = E.LAST = (make or Loader)(repo)
    I.ids, I.gcache, I.closures = I0.ids, dict(I0.gcache), dict(I0.closures)
    I.word, I.enter = 4, True
    return I, st


def constructed(cls):
    return f"{cls}"


# -------------------------------------------------- networks of layers: what an importer has to make

class Want:
    """a layer that has to be made"""

    def __init__(self, name, cls, ops, size, act=("Linear", {}), kw=None, fields=None):
        self.name, self.cls, self.ops, self.size, self.act, self.kw, self.fields = name, cls, ops, size, act, kw or {}, fields or {}


def compare(I, st, layers, wants, inputs, ordered=()):
    """[(construct, what)] definite differences between the layers made and the ones wanted, number of values compared.

    Layers are found from the inputs on by what they compute on, not by their names."""
    out, n = [], 0
    ins = [o for o in layers if any(c.name == "InputLayer" for c in I.h(st, o).cls.mro())]
    if len(ins) != len(inputs):
        return [("input", f"there are {len(ins)} inputs instead of {len(inputs)}")], n
    out.extend(("model", w) for r, w in GR.well_formed(I, st, layers))
    by = {}
    for o in layers:
        by.setdefault(name_of(I, st, o), []).append(o)
    known = set(inputs) | {w.name for w in wants}
    if len(layers) != len(known):
        got = [f"{I.h(st, o).cls.name}" for o in layers]
        return out + [("model", f"the layers are {got} instead of {['InputLayer'] * len(inputs) + [w.cls for w in wants]}")], n
    # correspondence: by operands, in the order of the description
    at = {}
    for i, o in zip(inputs, sorted(ins, key=lambda o: GR.cint(I, st, o, "idx"))):
        at[i] = o
        size = GR.field(I, st, o, "size")
        n += 1
        if not OM.agree(I, st, size, inputs[i]):
            out.append(("input", f"the size of the input is {show(size)} instead of {inputs[i]}"))
    free = [o for o in layers if o not in ins]
    key = lambda o: GR.cint(I, st, o, "idx")
    for w in wants:
        want_ops = [key(at[p]) for p in w.ops if p in at]
        if len(want_ops) != len(w.ops):
            return out, n
        swap = w.cls in ("Add", "Multiply", "Maximum", "Minimum", "Average")
        fits = []
        for o in free:
            got = [key(p) for p in GR.links(I, st, o, "previous_layer")]
            if (sorted(got) == sorted(want_ops) if swap else got == want_ops) and any(c.name == w.cls for c in I.h(st, o).cls.mro()):
                fits.append(o)
        if not fits:
            named = [o for o in free if name_of(I, st, o) == w.name]
            what = [f"{I.h(st, o).cls.name} of {[label(I, st, at, p) for p in GR.links(I, st, o, 'previous_layer')]}" for o in named or free]
            return out + [(w.cls, f"{w.name} is not a {w.cls} of {w.ops}: there is {' and '.join(what[:3])}")], n
        fits.sort(key=lambda o: name_of(I, st, o) != w.name)
        o = fits[0]
        free.remove(o)
        at[w.name] = o
        o_out, k = one(I, st, o, w)
        out += o_out
        n += k
    return out, n


def name_of(I, st, o):
    v = GR.field(I, st, o, "original_name")
    return v.a[0] if v.op == "const" else show(v)


def label(I, st, at, o):
    i = GR.cint(I, st, o, "idx")
    return next((k for k, v in at.items() if GR.cint(I, st, v, "idx") == i), f"layer {i}")


def one(I, st, o, w):
    """differences of one layer"""
    out, n = [], 0
    h = I.h(st, o)
    for src, d in (("__kw_", w.kw), ("", w.fields)):
        for k, x in d.items():
            g = h.f.get(src + k)
            if g is None:
                raise GR.Unknown(f"{k} of {w.cls}")
            n += 1
            if not OM.agree(I, st, g, x):
                out.append((w.cls, f"{k} of {w.name} is {show(I.freeze(st, g))[:120]} instead of {OM.show_want(x)[:120]}"))
    if w.size is not None:
        n += 1
        if not OM.agree(I, st, GR.field(I, st, o, "size"), w.size):
            out.append((w.cls, f"size of {w.name} is {show(GR.field(I, st, o, 'size'))} instead of {w.size}"))
    a = h.f.get("activation_function")
    an, ak = w.act
    ha = I.h(st, a) if a is not None else None
    got = ha.cls.name if ha is not None and ha.cls is not None else "Linear" if a is None else None
    if got is None:
        raise GR.Unknown("activation of " + w.name)
    n += 1
    if got != an:
        out.append((w.cls, f"{w.name} applies {got} instead of {an}"))
    else:
        for k, x in ak.items():
            g = ha.f.get("__kw_" + k)
            if g is None:
                raise GR.Unknown(f"{k} of {an}")
            n += 1
            if not OM.agree(I, st, g, x):
                out.append((w.cls, f"{k} of {an} of {w.name} is {show(I.freeze(st, g))[:60]} instead of {x}"))
    return out, n


# -------------------------------------------------- NNET

class Nnet:
    """the network of an NNET file and its text"""

    def __init__(self, sizes, seed=0, comments=2, style="plain"):
        self.sizes, self.style = sizes, style
        r = random.Random(f"nnet{sizes}{seed}")
        num = lambda: round(r.uniform(-2, 2), 3)
        n = sizes[0]
        self.mins = [round(-.5 - i / 8, 3) for i in range(n)]
        self.maxes = [round(.75 + i / 16, 3) for i in range(n)]
        self.means = [round(.25 + i / 4, 3) for i in range(n + 1)]
        self.ranges = [round(1.5 + i / 2, 3) for i in range(n + 1)]
        self.w = [[[num() for _ in range(a)] for _ in range(b)] for a, b in zip(sizes, sizes[1:])]      # rows are outputs
        self.b = [[num() for _ in range(b)] for b in sizes[1:]]
        f = {"plain": repr, "scientific": lambda v: f"{v:.8e}", "spaced": lambda v: f" {v!r}"}[style]
        i = str if style != "spaced" else lambda v: f" {v}"
        row = lambda l, f=f: ",".join(f(v) for v in l) + ",\n"
        t = "".join(f"// a comment, {k}, of the file\n" for k in range(comments))
        t += row([len(sizes) - 1, sizes[0], sizes[-1], max(sizes)], i) + row(sizes, i) + "0,\n" + row(self.mins) + row(self.maxes) + row(self.means) + row(self.ranges)
        for w, b in zip(self.w, self.b):
            t += "".join(row(l) for l in w) + "".join(row([v]) for v in b)
        self.text = t
        self.title = f"NNET {'-'.join(map(str, sizes))} {style}, {comments} comments"

    def wants(self):
        out = []
        for k, (w, b) in enumerate(zip(self.w, self.b)):
            n, m = len(w), len(w[0])
            out.append(Want(f"layer {k + 1}", "Dense", [f"layer {k}"], n, ("ReLu" if k + 2 < len(self.sizes) else "Linear", {}), {},
                            {"weights": OM.T((1, 1, m, n), [w[j][i] for i in range(m) for j in range(n)]), "biases": OM.T((n,), b)}))
            out[-1].fields = {k: ("w", t) for k, t in out[-1].fields.items()}
        return out


def nnets(tier):
    shapes = [[3, 4, 2], [2, 2], [3, 3, 3], [1, 4, 1], [4, 1, 3], [5, 6, 7, 8, 3], [1, 1], [2, 2, 2, 2]]
    r = random.Random(3)
    for _ in range(12 if tier != "thorough" else 80):
        shapes.append([r.randint(1, 6) for _ in range(r.randint(2, 6))])
    for k, s in enumerate(shapes):
        yield Nnet(s, k, comments=(2, 0, 1, 3)[k % 4], style=("plain", "scientific", "spaced")[k % 3])


PATHS = [("data/net.nnet", "str"), ("data/net.nnet", "path")]


def near(a, b):
    return abs(a - b) <= 1e-12 * (1 + abs(a) + abs(b))


def same_values(g, w):
    """what is definitely different between two lists of value numbers: index, or None"""
    for k, (a, b) in enumerate(zip(g, w)):
        if a is None:
            return k, None
        a = T.lift(a)
        if a != b:
            d = T.differs(a, b, 48)
            if d is not None:
                return k, d
            try:
                if T.same_lines(a, b):
                    continue
                return k, None
            except T.NotLines:
                pass
            raise GR.Unknown(f"{T.show(a)} and {T.show(b)} agree at the sample points")
    return None


def nnet(a):
    return EM.guarded(_nnet, *a)


def opened(I, st, path, kind):
    return const(path) if kind == "str" else mk("path", const(path))


def _nnet(m, k):
    path, kind = PATHS[k % 2]
    out, n = [], 0
    I, st = loader(EM.REPO)
    I.record = True
    I.contents, I.existing = {path: m.text.splitlines(True)}, {path}
    fi = I.repo.func("acetone_nnet.importers.parser", "parser")
    res = {}
    for norm in (False, True):
        try:
            v = I.call_fi(fi, [opened(I, st, path, kind)], {"normalize": const(norm)} if norm or k % 3 else {}, st)
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                return "skip", e.name
            return "bad", [("refused", f"the file is refused ({e.name})", I.raised_where or "")]
        want = 7 if norm else 6
        if v.op != "tuple":
            return "skip", "result " + show(v)[:60]
        if len(v.a) != want:
            return "bad", [("result", f"with normalize={norm}, the result has {len(v.a)} parts instead of {want}", fi.loc)]
        layers = GR.items(I, st, v.a[0])
        d, c = compare(I, st, layers, m.wants(), {"layer 0": m.sizes[0]})
        n += c
        out += [(x, w, fi.loc) for x, w in d]
        for i, (what, w) in enumerate((("type", "float"), ("layout", "channels_first"))):
            g = v.a[1 if i == 0 else 3]
            n += 1
            if g.op == "const" and g.a[0] != w:
                out.append((what, f"the {what} is announced as {g.a[0]}", fi.loc))
        res[norm] = v
    if out:
        return "bad", out
    # the computation around the network
    N = res[True].a[6]
    hN = I.h(st, N)
    if hN is None or hN.cls is None:
        return "skip", "normaliser"
    xs = [T.leaf(f"x[{i}]") for i in range(m.sizes[0])]
    pre = affine(m)(xs)
    post = lambda ys: [T.add(T.mul(y, T.lift(m.ranges[-1])), T.lift(m.means[-1])) for y in ys]
    for name, shape, ins, want in (("pre_processing", (m.sizes[0],), "x", pre), ("pre_processing", (1, 1, 1, m.sizes[0]), "x", pre), ("post_processing", (m.sizes[-1],), "y", post([T.leaf(f"y[{i}]") for i in range(m.sizes[-1])]))):
        f = hN.cls.find(name)
        if f is None:
            return "skip", "no " + name
        x = I.nd(st, shape, [sym(f"{ins}[{i}]") for i in range(len(want))])
        before = I.arr(x, st).data
        r = I.call_fi(f, [x], {}, st, selfv=N)
        g = I.arr(r, st)
        if g is None:
            return "skip", "result of " + name
        n += len(want)
        if len(g.data) != len(want):
            out.append((name, f"{name} of {len(want)} values gives {len(g.data)}", f.loc))
            continue
        d = same_values([T.number(e) for e in g.data], want)
        if d is not None:
            out.append((name, f"{name} makes of element {d[0]} {T.show(T.number(g.data[d[0]]))} instead of {T.show(want[d[0]])}", f.loc))
        elif name == "pre_processing" and I.arr(x, st).data != before:
            out.append((name, "pre_processing changes the array it is given", f.loc))
    if out:
        return "bad", out
    # the reference run
    for norm in (False, True):
        for ext in (False, True):
            r = reference(m, path, norm, affine(m), post, ext)
            if r[0] != "ok":
                return r
            n += r[1]
    # the generated program
    for norm in (False, True):
        r = emitted(m, path, norm, post)
        if r[0] != "ok":
            return r
        n += r[1]
    return "ok", n


def built(m, path, norm, **gen):
    I, st = loader(EM.REPO)
    I.contents, I.existing = {path: m.text.splitlines(True)}, {path}
    g = {k: E.value(I, st, v, k) for k, v in dict(dict(file=path, nb_tests=1, normalize=norm), **gen).items()}
    o = I.instantiate(I.repo.classes["CodeGenerator"], [], g, st)
    return I, st, o


def affine(m):
    """normalisation of the inputs of a network"""
    def pre(xs):
        clip = [T.DOM.call("fmax", [T.DOM.call("fmin", [x, T.lift(hi)]), T.lift(lo)]) for x, lo, hi in zip(xs, m.mins, m.maxes)]
        return [T.mul(T.add(c, T.lift(mu), -1.0), T.lift(1.0 / ra)) for c, mu, ra in zip(clip, m.means, m.ranges)]
    return pre


def reference(m, path, norm, pre, post, ext=False):
    """compute_inference: what the first layer is given, and the values written; the inputs are those of the generator, or given to the run"""
    I, st, o = built(m, path, norm, nb_tests=2, **({"external_input": True} if ext else {}))
    fi = I.h(st, o).cls.find("compute_inference")
    if fi is None:
        return "skip", "no compute_inference"
    seen, I.printed = [], []
    layers = GR.items(I, st, I.attr(o, "layers", st))
    first, last = (GR.cint(I, st, layers[k], "idx") for k in (0, -1))
    runs = [0]

    def forward(l, x, st):
        i = GR.cint(I, st, l, "idx")
        a = I.arr(x, st)
        if a is None:
            raise GR.Unknown("operand of a layer")
        if i == first:
            seen.append(list(a.data))
            runs[0] += 1
        k = GR.cint(I, st, l, "size")
        return I.nd(st, (k,), [sym(f"y{runs[0] - 1}:{i}[{e}]") for e in range(k)], "f")
    I.forward = forward
    try:
        given = {"dataset_or_path": I.nd(st, (2, m.sizes[0]), [sym(f"d[{k}]") for k in range(2 * m.sizes[0])], "f")} if ext else {}
        I.call_fi(fi, [const("out")], given, st, selfv=o)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        return "bad", [("reference", f"with normalize={norm}, the reference run raises {e.name}", I.raised_where or fi.loc)]
    ds = I.arr(given.get("dataset_or_path") or I.attr(o, "test_dataset", st), st)
    if ds is None:
        return "skip", "test set"
    n, w = m.sizes[0], m.sizes[-1]
    if len(seen) * n != len(ds.data) or len(I.printed) != w * len(seen):
        return "skip", "the values written cannot be told"
    for r, got in enumerate(seen):
        xs = [T.number(e) for e in ds.data[r * n:(r + 1) * n]]
        ys = [T.leaf(f"y{r}:{last}[{e}]") for e in range(w)]
        for what, g, want in (("input of the first layer", got, pre(xs) if norm else xs), ("output", I.printed[r * w:(r + 1) * w], post(ys) if norm else ys)):
            if len(g) != len(want):
                return "skip", what
            g = [T.number(e) for e in g]
            d = same_values(g, want)
            if d is not None:
                return "bad", [("reference " + what, f"with normalize={norm}, in the reference run, element {d[0]} of the {what} is {T.show(g[d[0]])} instead of {T.show(want[d[0]])}", fi.loc)]
    return "ok", (n + w) * len(seen)


def initial(prog):
    """values of the variables with an initialiser made of numbers only"""
    out = {}
    for n in prog.texts:
        if n.endswith(".c"):
            for extern in (False, True):
                for name, ty, dims, init in prog.globals_of(n, extern):
                    v = numbers(init)
                    if v is not None:
                        out[name] = v
    return out


def numbers(e):
    if e is None:
        return None
    if e[0] == "num":
        return [e[1]]
    if e[0] == "un" and e[1] == "-":
        v = numbers(e[2])
        return None if v is None or len(v) != 1 else [-v[0]]
    if e[0] == "init":
        l = [numbers(x) for x in e[1]]
        return None if None in l else [x for v in l for x in v]
    return None


class Run(ED.Run):
    """an abstract inference that notes what the first layer passes on"""
    entry = None

    def __init__(self, prog):
        self.defined = initial(prog)
        super().__init__(prog, dom=T.Terms())

    def token(self, tensor, i):
        return T.leaf(str(tensor), i)

    def stored(self, name, a):
        v = self.defined.get(name)
        if v is None or len(v) != a.n:
            return [T.leaf(name, i) for i in range(a.n)]
        return [T.lift(x) for x in v]

    def mark(self, t):
        super().mark(t)
        if t[0] != "begin" and int(t[1]) == next(iter(self.info)):
            self.entry = self.out[int(t[1])]


def emitted(m, path, norm, post):
    try:
        I, st, o = built(m, path, norm)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        return "bad", [("generator", f"with normalize={norm}, no generator is made ({e.name})", I.raised_where if False else "")]
    I.mark = True
    try:
        files = E.generate(I, st, o)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        return "bad", [("generator", f"with normalize={norm}, no code is generated ({e.name})", "")]
    p = ED.Program(I, st, o, files)
    r = Run(p)
    if r.m.notes:
        return "skip", "; ".join(b for a, b in r.m.notes)[:200]
    last = next(reversed(r.info))
    x = [T.leaf("x", i) for i in range(m.sizes[0])]
    y = [T.leaf(str(last), i) for i in range(m.sizes[-1])]
    if norm:
        x = affine(m)(x)
        y = post(y)
    for what, got, want in (("input of the first layer", r.entry, x), ("prediction", r.pred.dep, y)):
        if got is None or len(got) != len(want):
            return "skip", what
        d = same_values(got, want)
        if d is not None:
            g = got[d[0]]
            return "bad", [("generated " + what, f"with normalize={norm}, in the generated program, element {d[0]} of the {what} is {'not set' if g is None else T.show(T.lift(g))} instead of {T.show(want[d[0]])}", "src/acetone_nnet/templates/normalization")]
    return "ok", len(x) + len(y)


def c23(chk):
    chk.rule = ("parser interpreted on NNET files of enumerated layer sizes and notations: one Dense layer for each row block with its weights, biases and ReLU (none on the last), chained in order; pre_processing and post_processing "
                "interpreted on symbols, and the inference function generated for the file with and without normalisation evaluated to value numbers: clipping, centring and scaling of every input and output as the header of the file says")
    chk.assumptions += ["float arithmetic is taken over the reals", "a file has the header of the NNET format, its lines end in a comma"]
    tier = EM.start(chk)
    ms = list(nnets(tier))
    groups = {}
    for m, (k, v) in zip(ms, EM.run_jobs(nnet, [(m, k) for k, m in enumerate(ms)])):
        chk.count("files")
        if k == "ok":
            chk.ok(m.title)
            chk.count("values compared", v)
        elif k == "skip":
            chk.skip(m.title, v)
        else:
            for c, w, wh in v:
                groups.setdefault(c, []).append((m.title, w, wh))
    EM.report(chk, groups)


CHECKS = {"C23": c23}
