"""C27: JSON descriptions of Keras models are imported as networks that compute what they compute."""
from __future__ import annotations

import math
import random

from sa import emit as E
from sa import graphs as GR
from sa import kerasmodel as KM
from sa import terms as T
from sa.interp import Raised
from sa.kerasmodel import Model
from sa.nodes import NONE, const, show

from . import emission as EM
from . import endtoend as EE
from . import formats as F

PATH = "data/net.json"
FIRST, LAST = "channels_first", "channels_last"


class Loader(F.Loader):
    """the file holds the description"""
    description = None

    def lifted(self, st, v):
        if isinstance(v, dict):
            return self.new_dict(st, {k: self.lifted(st, x) for k, x in v.items()})
        if isinstance(v, (list, tuple)):
            return self.new_list(st, [self.lifted(st, x) for x in v])
        return NONE if v is None else const(v)

    def external(self, name, args, kwargs, st, node, star, starstar):
        if name in ("json.load", "json.loads") and len(args) == 1:
            return self.lifted(st, self.description)
        return super().external(name, args, kwargs, st, node, star, starstar)


def loader(repo, m):
    I0, st = E.fresh(repo)
    I = E.LAST = Loader(repo)
    I.ids, I.gcache, I.closures = I0.ids, dict(I0.gcache), dict(I0.closures)
    I.word, I.enter = 4, True
    I.description = m.json
    I.contents, I.existing = {PATH: ["{...}"]}, {PATH}
    return I, st


# -------------------------------------------------- models

def models(tier):
    out = []

    def add(title, f, must=True, **kw):
        m = Model(title, must=must, **kw)
        out.append(m.out(f(m)))
    for act in ("linear", "relu", "sigmoid", "tanh", "leaky_relu", "softmax"):
        add(f"dense with {act}", lambda m: m.dense(m.input(3), 2, act))
        add(f"dense with {act}, then dense", lambda m: m.dense(m.dense(m.input(3), 2, act), 2))
        for df in (FIRST, LAST):
            add(f"{df} convolution with {act}", lambda m: m.conv(m.input(2, 3, 3), 3, act=act), df=df)
            add(f"{df} convolution with {act} read twice", lambda m: (lambda y: m.merge("Add", m.conv(y, 2, (1, 1)), m.conv(y, 2, (1, 1), act="relu")))(m.conv(m.input(2, 2, 3), 2, act=act)), df=df)
            add(f"{df} convolution with {act}, flattened", lambda m: m.dense(m.flatten(m.conv(m.input(1, 3, 3), 2, act=act)), 2), df=df)
    for act in ("elu", "softplus", "exponential"):
        add(f"dense with {act}", lambda m: m.dense(m.input(3), 2, act), False)
        add(f"convolution with {act}", lambda m: m.conv(m.input(1, 3, 3), 2, act=act), False, df=LAST)
    add("one dense, weights of two axes", lambda m: m.dense(m.input(3), 2, four=False), False)
    add("dense of one feature", lambda m: m.dense(m.input(1), 1))
    add("four dense", lambda m: m.dense(m.dense(m.dense(m.dense(m.input(2), 3, "relu"), 1, "relu"), 3, "relu"), 2))
    add("dense without bias", lambda m: m.dense(m.input(3), 2, bias=False), False)
    add("double precision", lambda m: m.dense(m.dense(m.input(2), 3, "sigmoid"), 2, "softmax"), dtype="float64")
    add("half precision", lambda m: m.dense(m.input(2), 3), False, dtype="float16")
    for df in (FIRST, LAST):
        def img(title, f, must=True, **kw):
            add(f"{df} {title}", f, must, df=df, **kw)
        img("double precision", lambda m: m.dense(m.flatten(m.conv(m.input(1, 3, 3), 2, act="relu")), 2), dtype="float64")
        for k in ((2, 2), (3, 2), (1, 3), (1, 1)):
            for p in ("valid", "same"):
                img(f"convolution by {k}, {p}", lambda m: m.conv(m.input(2, 4, 3), 2, k, padding=p))
                img(f"strided convolution by {k}, {p}", lambda m: m.conv(m.input(2, 5, 4), 3, k, (2, 2), p))
                img(f"dilated convolution by {k}, {p}", lambda m: m.conv(m.input(1, 5, 6), 2, k, padding=p, d=(2, 2)))
        img("convolution without bias", lambda m: m.conv(m.input(1, 3, 3), 2, bias=False), False)
        img("strides that differ", lambda m: m.conv(m.input(1, 5, 5), 2, s=(2, 1)), False)
        img("strides that differ, narrow", lambda m: m.conv(m.input(1, 5, 2), 2, s=(1, 2)), False)
        img("dilations that differ", lambda m: m.conv(m.input(1, 5, 5), 2, d=(2, 1)), False)
        img("dilations that differ, same", lambda m: m.conv(m.input(1, 5, 5), 2, padding="same", d=(1, 2)), False)
        for kind in ("Max", "Average"):
            for k, s in (((2, 2), None), ((3, 3), (1, 1)), ((2, 2), (1, 1)), ((3, 3), (2, 2))):
                for p in ("valid", "same"):
                    img(f"{kind} pooling by {k} {s}, {p}", lambda m: m.pool(kind, m.input(2, 4, 5), k, s, p))
            img(f"{kind} pooling that differs", lambda m: m.pool(kind, m.input(1, 4, 4), (2, 1)), False)
            img(f"{kind} pooling that differs, narrow", lambda m: m.pool(kind, m.input(1, 4, 1), (2, 1)), False)
            img(f"{kind} pooling, strides that differ", lambda m: m.pool(kind, m.input(1, 4, 4), (2, 2), (2, 1)), False)
            img(f"{kind} pooling, strides that differ, same", lambda m: m.pool(kind, m.input(1, 4, 4), (2, 2), (1, 2), "same"), False)
            img(f"convolution, {kind} pooling, dense", lambda m: m.dense(m.flatten(m.pool(kind, m.conv(m.input(1, 5, 5), 2, act="relu"), (2, 2))), 3, "softmax"))
        img("image of one pixel", lambda m: m.conv(m.input(3, 1, 1), 2, (1, 1)))
        for act in ("softmax", "relu"):
            for sh in ((3, 1, 1), (1, 3, 1), (1, 1, 3), (1, 1, 1), (2, 3, 1), (2, 1, 3)):
                img(f"{act} of {sh}", lambda m: m.conv(m.input(*sh), sh[0], (1, 1), act=act))
                img(f"{act} of {sh}, then pooling", lambda m: m.pool("Average", m.conv(m.input(*sh), sh[0], (1, 1), act=act), (1, 1)))
        img("image of one channel", lambda m: m.dense(m.flatten(m.conv(m.input(1, 3, 2), 1)), 2))
        img("dense of an image", lambda m: m.dense(m.input(2, 2, 3), 2), False)
        img("dense of an image of one pixel", lambda m: m.dense(m.conv(m.input(2, 2, 2), 3), 2), False)
        img("flattened input", lambda m: m.dense(m.flatten(m.input(2, 2, 3)), 3))
        img("flattened last", lambda m: m.flatten(m.conv(m.input(2, 3, 3), 2)))
        img("flattened vector", lambda m: m.dense(m.flatten(m.input(3)), 2), False)
        img("flattened twice", lambda m: m.dense(m.flatten(m.flatten(m.conv(m.input(1, 3, 3), 2))), 2), False)
        img("flattened in the other layout", lambda m: m.dense(m.flatten(m.conv(m.input(2, 3, 3), 2), other=True), 2), False)
        for p in (0, 1, 2, (1, 2), (0, 1), ((1, 2), (3, 4)), ((0, 1), (1, 0)), ((1, 0), (0, 2))):
            img(f"zero padding {p}", lambda m: m.pad(m.input(2, 2, 3), p))
            img(f"zero padding {p} and convolution", lambda m: m.conv(m.pad(m.conv(m.input(1, 3, 3), 2, act="relu"), p), 2))
        for what, f in (("input", lambda m: m.input(2, 3, 3)), ("convolution", lambda m: m.conv(m.input(1, 3, 3), 2)), ("activated convolution", lambda m: m.conv(m.input(1, 3, 3), 2, act="relu")),
                        ("pooling", lambda m: m.pool("Max", m.input(2, 4, 4))), ("softmax", lambda m: m.conv(m.input(1, 3, 3), 2, act="softmax")), ("sum", lambda m: (lambda x: m.merge("Add", m.conv(x, 2), m.conv(x, 2)))(m.input(1, 3, 3)))):
            img(f"batch normalisation of {what}", lambda m: m.bn(f(m)))
            img(f"batch normalisation of {what}, then convolution", lambda m: m.conv(m.bn(f(m)), 1))
            img(f"batch normalisation of {what} and its operand", lambda m: (lambda y: m.merge("Add", m.bn(y), y))(f(m)))
            img(f"padding of {what} and its operand", lambda m: (lambda y: m.merge("Maximum", m.conv(m.pad(y, 1), 2, (3, 3)), y))(f(m)))
            img(f"pooling of {what} and its operand", lambda m: (lambda y: m.merge("Multiply", m.pool("Average", y, (3, 3), (1, 1), "same"), y))(f(m)))
            img(f"dropout of {what} and its operand", lambda m: (lambda y: m.merge("Subtract", m.dropout(y), m.conv(y, 2, (1, 1))))(f(m)))
            if what != "input":
                img(f"dropout of {what}, last", lambda m: m.dropout(f(m)))
            img(f"convolution of dropout of dropout of {what}", lambda m: m.conv(m.dropout(m.dropout(f(m)), "SpatialDropout2D"), 1))
            for a in (1, 2, 3, -1, -2, -3):
                img(f"concatenation of {what} along {a}", lambda m: (lambda y: m.cat([y, m.conv(y, 2, (1, 1))], a))(f(m)))
            img(f"concatenation of three, {what}", lambda m: (lambda y: m.cat([m.conv(y, 3, (1, 1)), y, m.dropout(m.conv(y, 1, (1, 1), act="relu"))], -1 if df == LAST else 1))(f(m)))
        img("normalisation along an index", lambda m: m.bn(m.conv(m.input(1, 3, 3), 2), listed=False))
        img("normalisation with the usual margin", lambda m: m.bn(m.conv(m.input(1, 3, 3), 2), eps=1e-3))
        for a in (1, 2, 3, -1, -2, -3):
            img(f"normalisation along {a} of a square", lambda m: m.bn(m.conv(m.input(1, 3, 3), 2), axis=a), False)
        img("normalisation of a vector", lambda m: m.bn(m.dense(m.input(3), 2)), False)
        img("normalisation of a vector, then dense", lambda m: m.dense(m.bn(m.dense(m.input(3), 4)), 2), False)
        for cls in ("Add", "Subtract", "Multiply", "Maximum", "Minimum", "Average"):
            img(f"{cls} of convolutions", lambda m: (lambda x: m.merge(cls, m.conv(x, 2), m.conv(x, 2)))(m.input(1, 3, 3)))
            img(f"{cls} of a later and an earlier value", lambda m: (lambda y: m.merge(cls, m.conv(y, 2, (1, 1)), y))(m.conv(m.input(1, 3, 3), 2)))
            img(f"{cls} of an earlier and a later value", lambda m: (lambda y: m.merge(cls, y, m.conv(y, 2, (1, 1), act="softmax")))(m.conv(m.input(1, 3, 3), 2, act="softmax")))
            img(f"{cls} of an image and a channel vector", lambda m: (lambda x: m.merge(cls, m.conv(x, 2), m.conv(x, 2, (3, 3))))(m.input(1, 3, 3)), False)
            if cls != "Subtract":
                img(f"{cls} of three", lambda m: (lambda x: m.merge(cls, m.conv(x, 2), m.conv(x, 2), m.conv(x, 2)))(m.input(1, 3, 3)))
            img(f"{cls} of a value with itself", lambda m: (lambda y: m.merge(cls, y, y))(m.conv(m.input(1, 3, 3), 2)), False)
            img(f"{cls} of vectors", lambda m: (lambda x: m.merge(cls, m.dense(x, 2), m.dense(x, 2, "sigmoid")))(m.input(2)), False)
        for a in (1, -1):
            img(f"concatenation of vectors along {a}", lambda m: (lambda x: m.dense(m.cat([m.dense(x, 2), m.dense(x, 3, "relu")], a), 2))(m.input(2)), False)
        img("concatenation with itself", lambda m: (lambda y: m.cat([y, y], 3))(m.conv(m.input(1, 3, 3), 2)), False)
        # views
        img("vector as an image", lambda m: m.conv(m.reshape(m.dense(m.input(3), 8), *m.shape(2, 2, 2)), 2), False)
        img("vector as an image of one channel", lambda m: m.conv(m.reshape(m.dense(m.input(3), 8), *m.shape(1, 2, 4)), 2), False)
        img("image as a vector", lambda m: m.dense(m.reshape(m.conv(m.input(1, 3, 3), 2), 8), 2), False)
        img("image as another image", lambda m: m.conv(m.reshape(m.conv(m.input(1, 3, 4), 2), *m.shape(2, 3, 2)), 2), False)
        for sh, other in (((2, 1, 3), (3, 1, 2)), ((2, 3, 1), (3, 2, 1)), ((1, 2, 3), (1, 3, 2)), ((2, 1, 1), (1, 2, 1)), ((2, 1, 3), (1, 2, 3)), ((1, 2, 3), (2, 1, 3))):
            img(f"{sh} as {other}", lambda m: m.conv(m.reshape(m.conv(m.input(*sh), sh[0], (1, 1)), *m.shape(*other)), 2, (1, 1)), False)
        img("pixels as a vector", lambda m: m.dense(m.reshape(m.conv(m.input(1, 2, 2), 3), 3), 2), False)
        # what is not supported, last and before a supported layer
        relu = lambda x: [KM.ACTS["relu"](v) for v in x.vals]
        for cls, cfg, g in (("ReLU", {"max_value": None}, relu), ("Activation", {"activation": "relu"}, relu), ("Activation", {"activation": "softmax"}, lambda x: KM.activate("softmax", x.shape, x.vals)),
                            ("Activation", {"activation": "linear"}, lambda x: x.vals), ("LeakyReLU", {"alpha": .3}, lambda x: [T.ite(T.cmp(">", v, T.lift(0.0)), v, T.mul(T.lift(.3), v)) for v in x.vals]),
                            ("Rescaling", {"scale": 2.0}, lambda x: [T.mul(v, T.lift(2.0)) for v in x.vals]), ("Lambda", {}, lambda x: [T.mul(v, v) for v in x.vals]), ("UnitNormalization", {"axis": -1}, lambda x: [T.mul(v, v) for v in x.vals]),
                            ("Normalization", {"axis": -1}, lambda x: [T.add(v, T.lift(1.0)) for v in x.vals]), ("LayerNormalization", {"axis": -1}, lambda x: [T.add(v, T.lift(1.0)) for v in x.vals]), ("Softmax", {"axis": -1}, lambda x: KM.activate("softmax", x.shape, x.vals))):
            img(f"{cls} {cfg}", lambda m: (lambda y: m.other(cls, y, y.shape, g(y), **cfg))(m.conv(m.input(1, 3, 3), 2)), False)
            img(f"{cls} {cfg} then convolution", lambda m: (lambda y: m.conv(m.other(cls, y, y.shape, g(y), **cfg), 2))(m.conv(m.input(1, 3, 3), 2)), False)
            img(f"{cls} {cfg} of a vector", lambda m: (lambda y: m.dense(m.other(cls, y, y.shape, g(y), **cfg), 2))(m.dense(m.input(2), 3)), False)
        # layers that move the values or change how many there are
        def moved(perm):
            return lambda m, y: (lambda z: (z.shape, z.vals))(KM.permuted(y, perm))

        def picked(f):
            """f: the elements (channel, row, column) of each element, channels first, averaged, and the extents"""
            def g(m, y):
                y = m.first(y)
                sh, of = f(*y.shape)
                z = m.native(KM.Val(None, sh, [T.div(KM.total(KM.at(y, *e) for e in of(*i)), T.lift(float(len(of(*i))))) for i in KM.cells(sh)]))
                return z.shape, z.vals
            return g
        for cls, cfg, g in (("Permute", {"dims": [2, 1, 3]}, moved([1, 0, 2])), ("Permute", {"dims": [3, 1, 2]}, moved([2, 0, 1])), ("Permute", {"dims": [1, 3, 2]}, moved([0, 2, 1])),
                            ("Cropping2D", {"cropping": [[1, 0], [0, 1]]}, picked(lambda C, H, W: ((C, H - 1, W - 1), lambda c, i, j: [(c, i + 1, j)]))),
                            ("UpSampling2D", {"size": [2, 2], "interpolation": "nearest"}, picked(lambda C, H, W: ((C, 2 * H, 2 * W), lambda c, i, j: [(c, i // 2, j // 2)]))),
                            ("GlobalAveragePooling2D", {"keepdims": True}, picked(lambda C, H, W: ((C, 1, 1), lambda c, i, j: [(c, p, q) for p in range(H) for q in range(W)])))):
            for sh in ((1, 4, 4), (2, 4, 4), (1, 3, 4)):
                def shaped(m):
                    y = m.conv(m.input(*sh), 2)
                    return m.other(cls, y, *g(m, y), data_format=df, **cfg)
                img(f"{cls} {cfg} of {sh}", shaped, False)
                img(f"{cls} {cfg} of {sh}, then convolution", lambda m: m.conv(shaped(m), 2, (1, 1)), False)
                img(f"{cls} {cfg} of {sh}, flattened", lambda m: m.dense(m.flatten(shaped(m)), 2), False)
    r = random.Random(27)
    for k in range(40 if tier != "thorough" else 260):
        out.append(randomly(k, random.Random(r.random())))
    return out


def randomly(k, r):
    m = Model(f"random model {k}", r.choice((FIRST, LAST)))
    vals = [m.input(r.choice((1, 2)), 4, 3)]
    read = set()

    def use(f, *xs):
        read.update(x.pos for x in xs)
        vals.append(f(*xs))
    for _ in range(r.randint(2, 6)):
        x = vals[-1] if r.random() < .7 else r.choice(vals)
        kind = r.choice(["conv", "conv", "bn", "merge", "cat", "pool", "drop", "act"])
        C = m.first(x).shape[0]
        same = [v for v in vals if v.shape == x.shape and v.pos != x.pos]
        if kind == "merge" and same:
            z = r.choice(same)
            xs = [x, z] if r.random() < .5 else [z, x]
            use(lambda *a: m.merge(r.choice(["Add", "Subtract", "Multiply", "Maximum", "Average"]), *a), *xs)
        elif kind == "cat" and [v for v in vals if v.pos != x.pos]:
            z = r.choice([v for v in vals if v.pos != x.pos])
            xs = [x, z] if r.random() < .5 else [z, x]
            use(lambda *a: m.cat(a, -1 if m.last else r.choice((1, -3))), *xs)
        elif kind == "bn":
            use(m.bn, x)
        elif kind == "drop":
            use(m.dropout, x)
        elif kind == "pool":
            use(lambda a: m.pool(r.choice(["Max", "Average"]), a, (3, 3), (1, 1), "same"), x)
        else:
            use(lambda a: m.conv(a, C if r.random() < .5 else r.choice((1, 2)), (2, 2) if kind == "conv" else (1, 1), padding="same", act=r.choice(["linear", "relu", "softmax", "tanh"] if kind == "act" else ["linear", "relu"])), x)
    loose = [v for v in vals[1:] if v.pos not in read]
    if len(loose) > 1:
        vals.append(m.cat(loose, -1 if m.last else 1))
    x = vals[-1]
    if r.random() < .5:
        x = m.dense(m.flatten(x), 2, r.choice(["linear", "softmax"]))
    m.title += ": " + " ".join(l["class_name"] for l in m.layers[1:])
    return m.out(x)


# -------------------------------------------------- the network imported

def judged(m):
    return EM.guarded(_judged, m)


def _judged(m):
    I, st = loader(EM.REPO, m)
    fi = I.repo.func("acetone_nnet.importers.parser", "parser")
    try:
        v = I.call_fi(fi, [const(PATH)], {}, st)
    except Raised as e:
        return refused(m, e, I, "the model is refused", fi)
    if v.op != "tuple" or len(v.a) < 4:
        return "skip", "result " + show(v)[:60]
    out, n = [], 0
    if any(e is None for e in m.result.vals):
        return "bad", [("accepted", "the model is accepted, though it has no meaning a network could have", fi.loc)]
    for what, g, w in (("type", v.a[1], {"float64": "double", "float32": "float"}.get(m.dtype)), ("layout", v.a[3], m.df)):
        n += 1
        if g.op != "const":
            return "skip", what
        if g.a[0] != w:
            out.append((what, f"the {what} of the network is {g.a[0]} instead of {w}", fi.loc))
    t, n = show(v.a[2]).rsplit(".", 1)[-1].strip(")'>"), n + 1
    if t not in ("float64", "float32", "float16", "int32", "int64"):
        return "skip", "number type " + t
    if t != m.dtype:
        out.append(("type", f"the numbers of the network are {t} instead of {m.dtype}", fi.loc))
    layers = GR.items(I, st, v.a[0])
    out.extend(("model", w, fi.loc) for r, w in GR.well_formed(I, st, layers))
    if out:
        return "bad", out
    r = reference(m)
    if r[0] != "ok" or r[1] == "refused":
        return r if r[0] != "ok" else ("ok", ("refused", 1))
    n += r[1]
    r = emitted(m)
    if r[0] != "ok":
        return r
    return "ok", ("imported", n + r[1])


def refused(m, e, I, what, fi):
    if e.name.startswith(("imprecise", "endless")):
        return "skip", e.name
    if m.must:
        return "bad", [("refused", f"{what} ({e.name})", I.raised_where or (fi.loc if fi else ""))]
    return "ok", ("refused", 1)


def built(m):
    I, st = loader(EM.REPO, m)
    n = math.prod(m.layers[0]["config"]["input_shape"][1:])
    g = {k: E.value(I, st, v, k) for k, v in dict(file=PATH, nb_tests=1).items()}
    o = I.instantiate(I.repo.classes["CodeGenerator"], [], g, st)
    return I, st, o, n


def reference(m):
    """the values the reference run writes"""
    I, st, o, n = None, None, None, 0
    try:
        I, st, o, n = built(m)
    except Raised as e:
        r = refused(m, e, E.LAST, "the network imported is refused", None)
        return r if r[0] != "ok" else ("ok", "refused")
    return EE.reference(I, st, o, n, m.result.vals, I.repo.func("acetone_nnet.importers.JSON_importer.parser_JSON", "load_json").loc)


def emitted(m):
    """the values the generated program computes"""
    try:
        I, st, o, n = built(m)
    except Raised as e:
        return "skip", e.name
    return EE.emitted(I, st, o, m.result.vals, "src/acetone_nnet/importers/JSON_importer/parser_JSON.py", m.must)


def c27(chk):
    chk.rule = ("parser interpreted on the descriptions the JSON exporter writes, for enumerated layers, attributes, layouts, contexts and random models: the values the reference run writes and the values the generated program predicts, as value numbers of the elements of the "
                "input and the weights, are those of the definitions of Keras; a model outside what is supported is refused and never imported as something else")
    chk.assumptions += ["float arithmetic is taken over the reals", "a description has the form the JSON exporter gives it"]
    tier = EM.start(chk)
    ms = models(tier)
    groups = {}
    for m, (k, v) in zip(ms, EM.run_jobs(judged, ms)):
        chk.count("models")
        if k == "ok":
            chk.ok(m.title)
            chk.count("models " + v[0])
            chk.count("values compared", v[1])
        elif k == "skip":
            chk.skip(m.title, v)
        else:
            for c, w, wh in v:
                groups.setdefault(c, []).append((m.title, w, wh))
    EM.report(chk, groups)


CHECKS = {"C27": c27}
