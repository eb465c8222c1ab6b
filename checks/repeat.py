"""C16: generation and reference run are repeatable and leave nothing behind."""
from __future__ import annotations

from sa import emit as E
from sa import graphs as GR
from sa.interp import Raised
from sa.nodes import N, const, show, sym

from . import emission as EM
from . import formats as F

AMBIENT = ("time.", "datetime.", "random.", "uuid.", "secrets.", "os.environ", "os.getenv", "os.getpid", "os.urandom", "numpy.random.rand", "numpy.random.random", "numpy.random.uniform", "numpy.random.normal", "platform.", "socket.",
           "getpass.", "tempfile.")
BARE = {"id", "hash", "perf_counter", "monotonic", "time", "uuid4", "urandom", "getpid"}


def texts(I, st, files):
    """file -> (text, holes)"""
    out = {}
    for p, w in files.items():
        r = E.text(I, st, w)
        out[p] = (r.text, holes(r.holes))
    for p, w in (getattr(I, "binary", None) or {}).items():
        out[p] = out.get(p, ()) + (tuple((a, tuple(I.freeze(st, x) if isinstance(x, N) else x for x in d), k) for a, d, k in w),)
    return out


def holes(h):
    return tuple(h) if isinstance(h, (list, tuple)) else tuple(sorted(h.items(), key=lambda x: str(x[0]))) if isinstance(h, dict) else h


def differ(a, b):
    """(file, what) of a difference between two sets of files"""
    for p in sorted(set(a) | set(b)):
        if p not in a or p not in b:
            return p, "is written only once"
        if a[p] == b[p]:
            continue
        la, lb = a[p][0].splitlines(), b[p][0].splitlines()
        for k, (x, y) in enumerate(zip(la, lb)):
            if x != y:
                return p, f"has line {k + 1} '{y.strip()[:80]}' instead of '{x.strip()[:80]}'"
        if len(la) != len(lb):
            return p, f"has {len(lb)} lines instead of {len(la)}"
        return p, "has other values"
    return None


def ambient(x, seen):
    """a call to something outside the model and the options, in a value"""
    todo = [x]
    while todo:
        n = todo.pop()
        if isinstance(n, (tuple, list)):
            todo += n
            continue
        if not isinstance(n, N) or n in seen:
            continue
        seen.add(n)
        if n.op in ("call", "attr", "sym", "global", "ext"):
            t = n.a[0]
            t = t if isinstance(t, str) else show(t) if isinstance(t, N) else ""
            if t.startswith(AMBIENT) or n.op == "call" and t in BARE or t.endswith("default_rng") and len(n.a) == 1:
                return t
        todo += list(n.a)
    return None


def judged(a):
    return EM.guarded(_judged, a)


class Again:
    """gives the same interpreter and heap again"""

    def __init__(self):
        self.pair = None

    def __call__(self, repo):
        if self.pair is None:
            self.pair = F.loader(repo)
        I, st = self.pair
        E.LAST = I
        return I, st


def make(case, loader):
    m = case.model()
    gen = dict(dict(nb_tests=1), **case.gen)
    if isinstance(m, E.Net):
        raise GR.Unknown("not a model file")
    return E.load_onnx(EM.REPO, m, make=loader, **gen)


def generated(I, st, o):
    return texts(I, st, E.generate(I, st, o))


def run(I, st, o, rows="x"):
    """what the reference run writes for a set of inputs"""
    fi = I.h(st, o).cls.find("compute_inference")
    if fi is None:
        raise GR.Unknown("no compute_inference")
    I.printed = []
    before = st.heap[o.a[0]].f.get("test_dataset")
    n = GR.cint(I, st, GR.items(I, st, I.attr(o, "layers", st))[0], "size")
    st.heap[o.a[0]].f["test_dataset"] = I.nd(st, (len(rows), n), [sym(f"{r}[{k}]") for r in rows for k in range(n)], "f")
    I.call_fi(fi, [const("out")], {}, st, selfv=o)
    out = tuple(I.freeze(st, v) for v in I.printed)
    I.printed = None
    if before is not None:
        st.heap[o.a[0]].f["test_dataset"] = before
    return out


def where(I, st, o, name):
    f = I.h(st, o).cls.find(name)
    return f"{f.loc} {f.qual}" if f else ""


def _judged(case):
    n, out = 0, []
    try:
        again = Again()
        I, st, o = make(case, again)
        base = generated(I, st, o)
    except Raised as e:
        return ("skip", e.name) if e.name.startswith(("imprecise", "endless")) else ("refused", e.name)
    seen = set()
    for p, v in base.items():
        for x in v[1:]:
            a = ambient(x, seen)
            if a is not None:
                out.append(("ambient " + p.rsplit("/", 1)[-1], f"what is written to {p} depends on {a}", where(I, st, o, "generate_c_files")))
    n += len(base)

    def texts_same(key, what, f, at):
        nonlocal n
        try:
            t = f()
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                raise GR.Unknown(e.name)
            out.append((key, f"{what}, generation fails ({e.name})", I.raised_where or at))
            return
        n += len(t)
        d = differ(base, t)
        if d is not None:
            out.append((key, f"{what}, {d[0]} {d[1]}", at))
    texts_same("generated again", "generated again from the same object", lambda: generated(I, st, o), where(I, st, o, "generate_c_files"))

    def second():
        I2, st2, o2 = make(case, again)
        return generated(I2, st2, o2)

    def elsewhere():
        def loader(repo):
            I, st = F.loader(repo)
            I.other_order = True
            return I, st
        I2, st2, o2 = make(case, loader)
        return generated(I2, st2, o2)
    texts_same("another process", "in another process, whose sets of strings and directories are listed in another order", elsewhere, where(I, st, o, "generate_c_files"))
    texts_same("second network", "for a second network made from the same model", second, where(I, st, o, "__init__"))

    def after_run():
        I2, st2, o2 = make(case, F.loader)
        run(I2, st2, o2)
        return generated(I2, st2, o2)
    texts_same("after a run", "after a reference run", after_run, where(I, st, o, "compute_inference"))
    # the reference run
    I, st, o = make(case, F.loader)
    try:
        r0 = run(I, st, o)
    except Raised as e:
        return ("skip" if e.name.startswith(("imprecise", "endless")) else "refused"), e.name

    def run_same(key, what, f):
        try:
            r = f()
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                raise GR.Unknown(e.name)
            out.append((key, f"the reference run raises {e.name} {what}", I.raised_where or where(I, st, o, "compute_inference")))
            return
        if r != r0:
            out.append((key, f"the reference run gives other values {what}", where(I, st, o, "compute_inference")))
    run_same("run again", "when it is run again", lambda: run(I, st, o))
    I, st, o = make(case, F.loader)
    generated(I, st, o)
    run_same("run after generation", "after the code has been generated", lambda: run(I, st, o))
    I, st, o = make(case, F.loader)
    run_same("run on a second input", "for an input that is not the first", lambda: run(I, st, o, "yx")[len(r0):])
    n += 3 * len(r0)
    if out:
        return "bad", out
    return "ok", n


def cases(tier):
    q = tier != "thorough"
    out = [EM.Case("single", i) for i in range(0, len(EM.single()), 30 if q else 6)]
    for s in range(24 if q else 150):
        out.append(EM.Case("random", 8000 + s, **({"optimization": True} if s % 2 else {}), **({"versions": {"Conv2D": "std_gemm_nn"}} if s % 3 == 1 else {})))
        out.append(EM.Case("rich", 8000 + s, **({"optimization": True} if s % 2 else {}), **({"debug_mode": "onnx"} if s % 4 == 1 else {})))
    for s in range(4 if q else 20):
        out.append(EM.Case("hwc", 50 + s, gen_data_format="channels_last", versions={"Conv2D": "direct_block"}))
        out.append(EM.Case("double", 8100 + s, optimization=True))
    return out


def c16(chk):
    chk.rule = ("importer, generator and reference run interpreted in one heap in several orders (generate twice; a second network from the same model; a run before, a run after, a run twice, a run on two inputs; another process, where sets of strings and directories have another order): the texts of all the files, their binary parts and the values "
                "written are the same terms; no term of a file has a call to a clock, an unseeded random source or the environment in it")
    chk.assumptions += ["the interpreter's dictionaries are in insertion order, as Python's are"]
    tier = EM.start(chk)
    cs = cases(tier)
    groups = {}
    for c, (k, v) in zip(cs, EM.run_jobs(judged, cs)):
        chk.count("models")
        if k == "ok":
            chk.ok(str(c))
            chk.count("files and values compared", v)
        elif k in ("skip", "refused"):
            chk.skip(str(c), v)
        else:
            for key, w, wh in v:
                groups.setdefault(key, []).append((str(c), w, wh))
    EM.report(chk, groups)


CHECKS = {"C16": c16}
