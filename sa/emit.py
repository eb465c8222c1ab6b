"""The generator run abstractly on a network: which text it writes to which file.

A network is a list of layers with known geometry and generic weights (every element its own symbol).  The importers' last steps (sort,
buffer allocation, output names), the constructor of the code generator and its file generation are interpreted exactly; the file
system is a table of the texts written.  Nothing of the analysed program is run.
"""
from __future__ import annotations

import ast
import math
import pathlib
import posixpath
import re

from . import graphs as GR
from .interp import Frame, HList, HObj, Raised, State
from .mustache import NeedSplit, Rendering, TemplateError, Valuation
from .ndarr import HNd, Imprecise, NdInterp, exact, generic
from .onnxmodel import Onnx
from .repo import FuncInfo
from .nodes import FALSE, NONE, TRUE, N, cat, const, mk, show, sym, walk

GEN = "acetone_nnet.generator.neural_network"




class A:
    """array argument: shape and values (None: generic)"""

    def __init__(self, *shape, v=None, dt="f"):
        self.shape, self.v, self.dt = shape, v, dt


class Act:
    def __init__(self, name="ReLu", *args):
        self.name, self.args = name, args


def value(I, st, x, name=""):
    if isinstance(x, A):
        n = math.prod(x.shape)
        return I.nd(st, x.shape, [const(e) for e in x.v] if x.v is not None else [sym(f"k:{name}[{i}]") for i in range(n)], x.dt)
    if isinstance(x, Act):
        return I.instantiate(I.repo.classes[x.name], [const(a) for a in x.args], {}, st)
    if isinstance(x, tuple):
        return mk("tuple", *[value(I, st, e, f"{name}.{i}") for i, e in enumerate(x)])
    if isinstance(x, list):
        return I.new_list(st, [value(I, st, e, f"{name}.{i}") for i, e in enumerate(x)])
    if isinstance(x, dict):
        return I.new_dict(st, {k: value(I, st, e, f"{name}.{k}") for k, e in x.items()})
    if isinstance(x, N):
        return x
    if callable(x):
        return x(I, st)
    return NONE if x is None else const(x)


class FileInterp(NdInterp):
    def __init__(self, repo, **k):
        super().__init__(repo, **k)
        self.typed = True
        self.record = False
        self.budget = 3000000
        self.parsed = None       # value returned by the model file parser
        self.files = []          # (name, mode, value) in order
        self.dirs = {}
        self.existing = set()    # names of files already there
        self.handles = {}
        self.forward = None      # replaces the reference computation of a layer
        self.bare = False        # activations are one unknown function
        self.mark = False        # delimit the code of every layer in the emitted text
        self.in_layer = 0
        self.place = {}          # file -> position
        self.n_rng, self.draws = 0, {}  # random generators made; draws from each

    def call_fi(self, fi, args, kwargs, st, star=None, starstar=None, selfv=None, closure_env=None, node=None):
        if self.forward is not None and fi.name == "forward_path_layer" and selfv is not None and len(args) == 1 and not kwargs and star is None and starstar is None:
            return self.forward(selfv, args[0], st)
        if self.bare and fi.name == "compute" and selfv is not None and len(args) == 1 and any(c.name == "ActivationFunctions" for c in self.h(st, selfv).cls.mro()):
            a = self.arr(args[0], st)
            if a is None:
                raise Imprecise("operand of an activation")
            d = [mk("call", "ACT", (x,), ()) for x in a.data]
            return self.nd(st, a.shape, d, a.dt) if a.shape else d[0]
        if self.mark and fi.name == "generate_inference_code_layer" and selfv is not None and not self.in_layer:
            self.in_layer += 1
            try:
                v = super().call_fi(fi, args, kwargs, st, star, starstar, selfv, closure_env, node)
            finally:
                self.in_layer -= 1
            i = self.attr(selfv, "idx", st)
            if i.op != "const":
                raise GR.Unknown("index of a layer")
            return cat(const(f"\n#pragma acetone_mark begin {i.a[0]}\n"), v, const(f"\n#pragma acetone_mark end {i.a[0]}\n"))
        if self.parsed is not None and fi.name == "parser" and fi.cls is None:
            self.event("parser", st, node, args=tuple(args), kwargs=dict(kwargs))
            return self.parsed
        return super().call_fi(fi, args, kwargs, st, star, starstar, selfv, closure_env, node)

    def instantiate(self, ci, args, kwargs, st, star=None, starstar=None, label=None, node=None):
        if ci.find("__init__") is None and starstar is None and star is None and any("dataclass" in ast.unparse(d) for d in ci.node.decorator_list):
            return self.dataclass(ci, args, kwargs, st)
        return super().instantiate(ci, args, kwargs, st, star, starstar, label, node)

    def dataclass(self, ci, args, kwargs, st):
        f, names = {}, []
        for c in reversed(ci.mro()):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                    names.append((c, s))
        given = dict(zip([s.target.id for c, s in names], args))
        given.update(kwargs)
        for c, s in names:
            n = s.target.id
            if n in given:
                f[n] = given.pop(n)
                continue
            if s.value is None:
                raise Raised("TypeError", st)
            self.frames.append(Frame(FuncInfo(c.module, ast.parse("def _c(): pass").body[0]), c))
            try:
                if isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] == "field":
                    k = {x.arg: x.value for x in s.value.keywords}
                    f[n] = self.eval(k["default"], st) if "default" in k else self.call_value(self.eval(k["default_factory"], st), [], {}, st)
                else:
                    f[n] = self.eval(s.value, st)
            finally:
                self.frames.pop()
        if given:
            raise Raised("TypeError", st)
        return self.new(st, HObj(ci, f, sym("new:" + ci.name)))

    def event(self, kind, st, loc, **data):
        if kind == "open" and "w" in (plain(data["mode"]) or "w"):
            self.place[data["path"]] = 0
        if kind == "open" and "x" in (plain(data["mode"]) or ""):
            self.place[data["path"]] = 0
            if self.present(data["path"]):
                raise Raised("FileExistsError", st)
        super().event(kind, st, loc, **data)

    def present(self, v):
        """is there a file or directory of that name?"""
        p = plain(v)
        if p is None:
            raise GR.Unknown("file name " + show(v)[:60])
        p = posixpath.normpath(p)
        return p in self.existing or any(x.startswith(p + "/") for x in self.existing)

    def isinst(self, v, c, st):
        if v.op == "path":
            return const(any(x.op == "ext" and x.a[0] in ("pathlib.Path", "pathlib.PurePath", "os.PathLike") for x in walk(c)))
        return super().isinst(v, c, st)

    def attr(self, v, name, st, node=None):
        if v.op == "path" and name in ("suffix", "name", "stem") and plain(v) is not None:
            return const(getattr(posixpath_of(v), name))
        return super().attr(v, name, st, node)

    def method(self, b, name, args, kwargs, st, node):
        if name in ("exists", "is_file", "is_dir") and not args and (b.op in ("path", "cat", "fmt") or b.op == "const" and isinstance(b.a[0], str)):
            r = self.present(b)
            return const(r and ((posixpath.normpath(plain(b)) in self.existing) == (name == "is_file") or name == "exists"))
        if name == "mkdir" and (b.op in ("path", "cat", "fmt") or b.op == "const" and isinstance(b.a[0], str)):
            k = dict(kwargs)
            self.event("mkdir", st, node, path=b, options={x: v for x, v in k.items()})
            if self.present(b) and not (k.get("exist_ok") is not None and k["exist_ok"].op == "const" and k["exist_ok"].a[0]):
                raise Raised("FileExistsError", st)
            return NONE
        if name in ("iterdir", "glob", "rglob") and (b.op in ("path", "cat", "fmt") or b.op == "const" and isinstance(b.a[0], str)):
            if name != "iterdir" and not (len(args) == 1 and args[0] == const("*")):
                raise GR.Unknown(name)
            d = posixpath.normpath(plain(b))
            return self.new_list(st, [mk("path", const(x)) for x in sorted(self.existing, reverse=self.other_order) if posixpath.dirname(x) == d])
        if b.op == "file" and name in ("seek", "tell", "flush"):
            if name == "seek":
                if len(args) > 1 and not (args[1].op == "const" and args[1].a[0] == 0) or kwargs or args[0].op != "const":
                    raise Imprecise("seek")
                self.place[b.a[0]] = args[0].a[0]
                return args[0]
            return const(self.place.get(b.a[0], 0)) if name == "tell" else NONE
        if name == "tofile" and len(args) == 1 and args[0].op == "file":
            h = self.arr(b, st)
            if h is None:
                raise Imprecise("tofile")
            at = self.place.get(args[0].a[0], 0)
            self.event("tofile", st, node, file=args[0], at=at, data=h.data, exact=h.exact)
            self.place[args[0].a[0]] = at + self.word * len(h.data)
            return NONE
        if name in ("random", "uniform", "normal", "integers", "standard_normal") and b.op == "rng" and "size" in kwargs:
            self.event("random", st, node, rng=b)
            shape = self.ints([kwargs["size"]], st)
            # the values of a seeded generator are those of its seed; of another, of this generator alone
            n, *seed = b.a
            k = self.draws[n.a[0]] = self.draws.get(n.a[0], 0) + 1
            name_of = show(seed[0]) if seed and seed[0].op == "const" and seed[0].a[0] is not None else f"unseeded {n.a[0]}"
            return self.nd(st, shape, [sym(f"random:{name_of}:{k}[{i}]") for i in range(math.prod(shape))], "i" if name == "integers" else "f", exact(kwargs["dtype"]) if "dtype" in kwargs else None)
        return super().method(b, name, args, kwargs, st, node)

    def external(self, name, args, kwargs, st, node, star, starstar):
        if name in ("os.path.exists", "os.path.isfile", "os.path.isdir") and len(args) == 1:
            return self.method(args[0] if args[0].op == "path" else mk("path", args[0]), {"exists": "exists", "isfile": "is_file", "isdir": "is_dir"}[name.rsplit(".", 1)[1]], [], {}, st, node)
        if name == "os.listdir" and len(args) == 1:
            d = posixpath.normpath(plain(args[0]) or ".")
            return self.new_list(st, [const(posixpath.basename(x)) for x in sorted(self.existing, reverse=self.other_order) if posixpath.dirname(x) == d])
        if name in ("os.makedirs", "os.mkdir") and args:
            return self.method(mk("path", args[0]), "mkdir", [], dict(kwargs, **({"parents": const(True)} if name == "os.makedirs" else {})), st, node)
        if name == "numpy.random.default_rng":
            self.n_rng += 1
            return mk("rng", const(self.n_rng), *args, *kwargs.values())
        if name == "pystache.render" and args:
            h = self.h(st, args[0])
            if h is not None and h.k == "obj" and h.cls is not None:
                # a template specification: the template is the file named after the class, its fields the context
                fn = re.sub(r"(?<!^)(?=[A-Z])", "_", h.cls.name).lower()
                ext = self.attr(args[0], "template_extension", st)
                v = mk("rendered", mk("template", const(str(h.cls.module.path.parent / f"{fn}.{ext.a[0]}"))), self.freeze(st, self.new_dict(st, dict(h.f))))
                self.event("render", st, node, template=v.a[0], hash=v.a[1], value=v)
                return v
        return super().external(name, args, kwargs, st, node, star, starstar)


def posixpath_of(v):
    return pathlib.PurePosixPath(plain(v))


def plain(v):
    """text of a constant path"""
    while v.op == "path":
        v = v.a[0]
    if v.op == "const" and isinstance(v.a[0], str):
        return v.a[0]
    if v.op == "cat":
        ps = [plain(x) for x in v.a]
        return "".join(ps) if None not in ps else None
    if v.op == "fmt" and v.a[1] == "":
        return plain(v.a[0])
    return None


REG = ("register_implementation", "register_pattern", "register_factory")


def boot(repo):
    """state after the import of the package: implementations and rewriting patterns registered"""
    from .versions import top_level
    I = FileInterp(repo)
    st = State()
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        body = [s for s in top_level(m) if not isinstance(s, (ast.Assign, ast.AnnAssign)) and repo.mentions(m, s, REG) or any(isinstance(x, ast.Attribute) and x.attr in REG or isinstance(x, ast.Name) and x.id in REG for x in ast.walk(s))]
        if not body:
            continue
        I.frames.append(Frame(FuncInfo(m, ast.parse("def _module(): pass").body[0])))
        try:
            for e in I.block(body, State({}, st.heap, st.over, ())):
                if e.kind == "next":
                    st.heap, st.over = e.st.heap, e.st.over
        finally:
            I.frames.pop()
    return I, st


class Emitter(FileInterp, Onnx):
    """files and ONNX models"""


_boot = {}


SIZE = {"float": 4, "double": 8}
PYTYPE = {"float": "numpy.float32", "double": "numpy.float64"}


def fresh(repo):
    if repo not in _boot:
        _boot[repo] = boot(repo)
    I0, st0 = _boot[repo]
    global LAST
    I = LAST = Emitter(repo)
    I.ids = I0.ids
    I.gcache, I.closures = dict(I0.gcache), dict(I0.closures)
    return I, st0.copy()


class Net:
    """layers: [(class name, constructor arguments, operands)]"""

    def __init__(self, name, layers, data_format="channels_first", dtype="float"):
        self.name, self.layers, self.data_format, self.dtype = name, layers, data_format, dtype

    def __str__(self):
        return self.name


def load(repo, net, private=False, **gen):
    """CodeGenerator object for the network: (interp, state, object)"""
    I, st = fresh(repo)
    I.word = SIZE[net.dtype]
    objs = []
    for i, (cls, kw, preds) in enumerate(net.layers):
        kw = dict(kw)
        kw.setdefault("original_name", f"node{i}")
        kw.setdefault("idx", i)
        args = {k: value(I, st, v, f"{i}.{k}") for k, v in kw.items()}
        c = repo.classes.get(cls)
        if c is None:
            raise GR.Unknown("no layer class " + cls)
        o = I.instantiate(c, [], args, st)
        h = st.heap[o.a[0]]
        f = dict(h.f)
        for k in ("previous_layer", "next_layer"):
            f[k] = I.new_list(st)
        st.heap[o.a[0]] = HObj(h.cls, f, h.base)
        objs.append(o)
    for i, (cls, kw, preds) in enumerate(net.layers):
        for p in preds:
            GR.append(I, st, objs[i], "previous_layer", objs[p])
            if objs[i] not in st.heap[st.heap[objs[p].a[0]].f["next_layer"].a[0]].items:
                GR.append(I, st, objs[p], "next_layer", objs[i])
    tt = repo.func("acetone_nnet.graph.graph_interpretor", "tri_topo")
    r = I.call_fi(tt, [I.new_list(st, objs)], {}, st)
    lst, maxpath, cst = r.a if r.op == "tuple" else (None, None, None)
    if lst is None:
        raise GR.Unknown("tri_topo result " + show(r)[:60])
    # as at the end of every importer
    for o in GR.items(I, st, lst):
        I.call_fi(I.h(st, o).cls.find("find_output_str"), [cst], {}, st, selfv=o)
    return generator(I, st, mk("tuple", lst, const(net.dtype), mk("ext", PYTYPE[net.dtype]), const(net.data_format), maxpath, cst), private, gen)


def load_onnx(repo, m, private=False, make=fresh, **gen):
    """CodeGenerator object for an ONNX model"""
    I, st = make(repo)
    I.the_model = I.model(st, m)
    I.word = 8 if m.elem == 11 else 4
    v = I.call_fi(repo.func("acetone_nnet.importers.ONNX_importer.parser_ONNX", "load_onnx"), [I.the_model], {}, st)
    if v.op != "tuple" or len(v.a) != 6:
        raise GR.Unknown("importer result " + show(v)[:60])
    return generator(I, st, v, private, gen)


def generator(I, st, parsed, private, gen):
    I.parsed = parsed
    g = {k: value(I, st, v, k) for k, v in gen.items()}
    g.setdefault("file", const("net.onnx"))
    I.events.clear()
    o = I.instantiate(I.repo.classes["CodeGenerator"], [], g, st)
    if o.op != "ref":
        raise GR.Unknown("generator object " + show(o)[:60])
    if private:
        privatise(I, st, o)
    return I, st, o


def privatise(I, st, o):
    """give every layer a buffer of its own: nothing is shared, nothing is saved"""
    layers = GR.items(I, st, I.attr(o, "layers", st))
    cst = I.new_dict(st, {})

    def put(r, **kw):
        h = st.heap[r.a[0]]
        st.heap[r.a[0]] = HObj(h.cls, dict(h.f, **kw), h.base)
    put(o, maxpath=const(len(layers)), dict_cst=cst)
    place = {GR.cint(I, st, l, "idx"): i for i, l in enumerate(layers)}
    # links may lead to other objects that stand for the same layers
    todo, seen = list(layers), {}
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen[l] = None
        for k in ("previous_layer", "next_layer"):
            todo.extend(GR.links(I, st, l, k))
    for l in seen:
        i = place.get(GR.cint(I, st, l, "idx"))
        if i is not None:
            put(l, path=const(i))
            I.call_fi(I.h(st, l).cls.find("find_output_str"), [cst], {}, st, selfv=l)


def generate(I, st, o, outdir="out"):
    """file name -> [(mode, value)]"""
    n0 = len(I.events)
    I.call_fi(I.h(st, o).cls.find("generate_c_files"), [const(outdir)], {}, st, selfv=o)
    files = {}
    I.binary = {}            # file -> [(offset, values)]
    for e in I.events[n0:]:
        if e.kind == "open":
            p = plain(e.path)
            if p is None:
                raise GR.Unknown("file name " + show(e.path)[:80])
            files.setdefault(p, [])
        elif e.kind == "tofile":
            I.binary.setdefault(plain(e.file.a[0]), []).append((e.data["at"], e.data["data"], e.data["exact"]))
        elif e.kind == "write":
            p = plain(e.file.a[0])
            if p is None:
                raise GR.Unknown("file name " + show(e.file)[:80])
            files.setdefault(p, []).append((e.file.a[1], e.value, e))
    return files


def text(I, st, writes):
    """text of one file with holes for what is not constant"""
    val = Valuation()
    val.escape = True
    val.caller = lambda f, t: I.freeze(st, I.call_value(f, [const(t)], {}, st))
    r = Rendering(val)
    for mode, v, e in writes:
        r.out.append(r.string(val.resolve(v)))
    return r
