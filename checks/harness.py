"""C25: what runs the network: the generated main program and batch loop, and the Python reference run."""
from __future__ import annotations

import json
import math
import re

from sa import cabs
from sa import emit as E
from sa import emitted as ED
from sa import graphs as GR
from sa import literal as L
from sa import zoo
from sa.interp import Raised
from sa.nodes import cat, const, show, sym

from . import emission as EM
from . import formats as F
from . import project as PR


def assigned(x, out):
    """names assigned by a statement"""
    if isinstance(x, tuple):
        if x[:1] == ("assign",) or x[:1] in (("pre",), ("post",)):
            if x[2][0] == "id":
                out.add(x[2][1])
        for y in x:
            assigned(y, out)
    elif isinstance(x, list):
        for y in x:
            assigned(y, out)
    return out


def declared(x, out):
    if isinstance(x, tuple):
        if x[:1] == ("decl",):
            out.update(i[0] for i in x[2])
        for y in x:
            declared(y, out)
    elif isinstance(x, list):
        for y in x:
            declared(y, out)
    return out


def races(x, out):
    """variables shared by the iterations of a parallel loop that each of them assigns"""
    if isinstance(x, tuple) and x[:1] == ("block",):
        b = x[1]
        for s, t in zip(b, b[1:]):
            if s[0] == "pp" and re.match(r"#\s*pragma\s+omp\s+parallel\s+for\b", s[1]) and t[0] == "for":
                own = declared(t, set()) | assigned(t[1] if t[1] is not None else (), set())
                for c in re.findall(r"(?:first|last)?private\(([^)]*)\)|reduction\([^:]*:([^)]*)\)", s[1]):
                    own |= {v.strip() for p in c for v in p.split(",")}
                out |= assigned((t[2], t[3], t[4]), set()) - own
    if isinstance(x, (tuple, list)):
        for y in x:
            races(y, out)
    return out


class Driver:
    """abstract run of a program that calls inference: who gets which context, inputs and outputs, what is read and printed"""

    def __init__(self, p, files, nb, nin, nout, real):
        self.p, self.nin, self.nout, self.nb, self.real = p, nin, nout, nb, real
        m = self.m = cabs.Machine()
        m.layer = "harness"
        self.bad, self.calls, self.group, self.read, self.files, self.out, self.times, self.printed = [], [], 0, {}, {}, {}, [], []
        for h in ("inference.h", "test_dataset.h"):
            for k, v in p.macros(h).items():
                try:
                    m.globals[k] = int(v, 0)
                except ValueError:
                    pass
        m.globals.update(NULL=0, CLOCKS_PER_SEC=1000000)
        for f in files:
            m.compile(p.parse(f))
        self.clock = 0
        m.on_pragma = self.pragma
        m.externs = {"inference": self.inference, "fopen": self.fopen, "fclose": lambda f: 0, "fscanf": self.fscanf, "fprintf": self.fprintf,
                     "printf": lambda f, *a: self.fprintf("stdout", f, *a), "clock": self.tick, "omp_get_thread_num": self.unknown, "time": self.unknown}

    def unknown(self, *a):
        raise cabs.Unsupported("call")

    def wrong(self, key, text):
        if not any(k == key for k, t in self.bad):
            self.bad.append((key, text))

    def tick(self, *a):
        self.clock += 1
        return {1: 0}.get(self.clock, 7000000 * (self.clock - 1))

    def pragma(self, t):
        if "parallel" in t:
            self.group += 1

    def sample(self, s):
        return [frozenset([("in", s * self.nin + k)]) for k in range(self.nin)]

    def inference(self, ctx, pred, x):
        if not all(isinstance(v, cabs.Ptr) for v in (ctx, pred, x)):
            raise cabs.Unsupported("arguments of inference")
        n = ctx.arr.n
        if ctx.arr.name != "Context" or not 0 <= ctx.off < n:
            self.wrong("context", f"inference is given element {ctx.off} of {ctx.arr.name}, which has {n}")
        got = [self.m.load(x, k) for k in range(self.nin)]
        s = next((s for s in range(self.nb) if got == self.sample(s)), None)
        if s is None:
            self.wrong("inputs", f"call {len(self.calls)} of inference is given something else than one of the {self.nb} samples")
        self.calls.append((self.group, ctx.off, (id(pred.arr), pred.off), s))
        for k in range(self.nout):
            self.m.store(pred, k, frozenset([("y", s, k)]))
        return 0

    # ------------------------------------------------ files
    def fopen(self, path, mode):
        t = frozenset([("file", str(sorted(path)) if type(path) is frozenset else str(path), str(mode).strip('"'))])
        self.files[t] = 0
        return t

    def fscanf(self, f, fmt, *ps):
        c = re.findall(r"%(?:\*)?(l|L|h)?([a-zA-Z])", fmt)
        if len(c) != len(ps) or f not in self.files:
            raise cabs.Unsupported("fscanf " + fmt)
        mode = next(iter(f))[2]
        if not mode.startswith("r"):
            self.wrong("read", f"inputs are read from a file opened with mode {mode}")
        for (l, k), p in zip(c, ps):
            if k not in "aefgAEFG":
                raise cabs.Unsupported("fscanf " + fmt)
            if (l == "l") != (self.real == "double"):
                self.wrong("read", f"a number of type {self.real} is read with {fmt}")
            self.m.store(p, 0, frozenset([("in", self.files[f])]))
            self.files[f] += 1
        return len(ps)

    def fprintf(self, f, fmt, *vs):
        out = self.out.setdefault(f, [])
        parts = re.split(r"(%[-+ #0]*\d*(?:\.\d+)?(?:l|h|ll|L)?[a-zA-Z]|%%)", str(fmt)[1:-1].replace("\\n", "\n").replace("\\t", "\t"))
        vs = list(vs)
        for t in parts:
            if t.startswith("%") and t != "%%":
                if not vs:
                    raise cabs.Unsupported("printf " + fmt)
                out.append((t, vs.pop(0)))
            elif t:
                out.append(t)
        return 0


def rows(out):
    """lines of a printed file: [[(conversion, value)…]…], values separated by white space"""
    lines, cur, gap = [], [], True
    for t in out:
        if isinstance(t, tuple):
            if not gap:
                return None
            cur.append(t)
            gap = False
        else:
            for i, piece in enumerate(t.split("\n")):
                if i:
                    lines.append(cur)
                    cur, gap = [], True
                if piece.strip():
                    cur.append(piece.strip())
                if piece and piece[-1].isspace():
                    gap = True
                elif piece:
                    gap = False
    if cur:
        lines.append(cur)
    return lines


def _main(case):
    return EM.guarded(main, case)


def main(case):
    p, why = EM.program(EM.REPO, case, mark=False)
    if p is None:
        return why
    I, st = p.I, p.st
    gen = I.h(st, p.o).cls
    loc = lambda n: (lambda f: f"{f.loc} {f.qual}" if f else "")(gen.find(n))
    nb = case.gen.get("nb_tests", 1)
    nin, nout = (GR.field(I, st, p.layers[k], "size").a[0] for k in (0, -1))
    real = "double" if I.word == 8 else "float"
    bad, n = [], 0

    def done(d, key, where):
        for k, t in d.bad:
            bad.append((f"{key}/{k}", t, where))
        for (kind, layer, arr), t in d.m.issues.items():
            bad.append((f"{key}/{kind}/{arr}", t, where))
        if d.m.notes:
            raise cabs.Unsupported("; ".join(b for a, b in d.m.notes))
        seen = {}
        for g, c, pr, s in d.calls:
            for what, v in (("context", c), ("output", pr)):
                if (g, what, v) in seen and g:
                    bad.append((f"{key}/shared-{what}", f"samples {seen[g, what, v]} and {s} are evaluated in parallel with the same {what}", where))
                seen.setdefault((g, what, v), s)
    mw, hw = loc("generate_main_file"), loc("generate_train_hook_file")
    # ---- main
    if "main.c" in p.texts:
        d = Driver(p, ["main.c"], nb, nin, nout, real)
        m = d.m
        ctx = [x for x in p.globals_of("inference.h", True) if x[0] == "Context"]
        size = ctx[0][2] if ctx else [None]
        if None in size:
            return "skip", "extent of Context"
        m.globals["Context"] = cabs.Arr("Context", size, "ctx")
        x = cabs.Arr("nn_test_inputs", [nb, nin], "in")
        if not case.gen.get("external_input"):
            x.dep = [t for s in range(nb) for t in d.sample(s)]
        m.globals["nn_test_inputs"] = x
        argv = cabs.Arr("argv", [3 if case.gen.get("external_input") else 2], "argv")
        argv.dep = [frozenset([("argv", i)]) for i in range(argv.n)]
        r = m.run_function("main", [argv.n, cabs.Ptr(argv, 0, argv.dims)])
        if r != 0:
            d.wrong("status", f"main returns {r}")
        done(d, "main.c", mw)
        order = [s for g, c, pr, s in d.calls]
        if sorted(s for s in order if s is not None) != list(range(nb)) and None not in order:
            bad.append(("main.c/samples", f"the samples evaluated are {order[:20]} instead of each of the {nb} once", mw))
        res = [f for f in d.out if f != "stdout"]
        conv = "aA" if case.gen.get("to_hex", True) else "eEfFgG"
        if len(res) != 1 or type(res[0]) is not frozenset:
            bad.append(("main.c/result", f"results are written to {len(res)} files", mw))
        else:
            (_, path, mode), = res[0]
            if path != "[('argv', 1)]" or not mode.startswith("w"):
                bad.append(("main.c/result", f"the result file is {path}, opened with mode {mode}", mw))
        for f in d.out:
            lines = rows(d.out[f])
            if lines is None:
                bad.append(("main.c/separator", "two numbers are printed without a separator", mw))
                continue
            if f == "stdout":
                for l in lines:
                    for t in l:
                        if isinstance(t, tuple) and type(t[1]) is float and abs(t[1] - 7.0 / nb) > 1e-9:
                            bad.append(("main.c/time", f"for {nb} samples evaluated in 7 s the average time printed is {t[1]:g} s", mw))
                lines = [l for l in lines if l and all(isinstance(t, tuple) and type(t[1]) is frozenset for t in l)]
            want = [[frozenset([("y", s, k)]) for k in range(nout)] for s in range(nb)]
            got = [[t[1] if isinstance(t, tuple) else t for t in l] for l in lines]
            n += nb * nout
            if got != want and (f != "stdout" or lines):
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                what = f"line {i} holds {[next(iter(t))[1:] if type(t) is frozenset and t else t for t in got[i]][:6]}" if i < len(got) else f"{len(got)} lines are printed"
                bad.append((f"main.c/{'stdout' if f == 'stdout' else 'result'}/lines", f"{what} instead of the {nout} outputs of each of the {nb} samples in order", mw))
            elif any(t[0][-1] not in conv for l in lines for t in l if isinstance(t, tuple)):
                bad.append((f"main.c/{'stdout' if f == 'stdout' else 'result'}/format", f"numbers are printed with {lines[0][0][0]}", mw))
        if case.gen.get("external_input"):
            rd = [(f, k) for f, k in d.files.items() if k]
            if [k for f, k in rd] != [nb * nin]:
                bad.append(("main.c/read", f"{[k for f, k in rd]} numbers are read instead of {nb * nin}", mw))
            elif next(iter(rd[0][0]))[1] != "[('argv', 2)]":
                bad.append(("main.c/read", "the inputs are not read from the second argument", mw))
    # ---- batch loop
    fs = p.functions("train_hook.c") if "train_hook.c" in p.texts else {}
    if "batch_loop" in fs:
        for b in (1, 2, 31, 32, 33, 64, 70):
            d = Driver(p, ["train_hook.c"], b, nin, nout, real)
            m = d.m
            m.globals["Context"] = cabs.Arr("Context", size, "ctx")
            x = cabs.Arr("nn_input", [b * nin], "in")
            x.dep = [t for s in range(b) for t in d.sample(s)]
            y = cabs.Arr("predictions", [b * nout], "pred")
            m.run_function("batch_loop", [cabs.Ptr(y, 0, y.dims), cabs.Ptr(x, 0, x.dims), b])
            done(d, "batch_loop", hw)
            n += b * nout
            if y.dep != [frozenset([("y", s, k)]) for s in range(b) for k in range(nout)]:
                i = next(i for i, (t, u) in enumerate(zip(y.dep, [frozenset([("y", s, k)]) for s in range(b) for k in range(nout)])) if t != u)
                bad.append(("batch_loop/outputs", f"of a batch of {b}, output {i % nout} of sample {i // nout} is {'not written' if y.dep[i] is None else 'that of another sample'}", hw))
            if bad:
                break
    for f in sorted(p.texts):
        if f.endswith(".c") and f not in ("parameters.c", "test_dataset.c"):
            for v in races(p.parse(f), set()):
                bad.append((f"{f}/race", f"the iterations of a parallel loop share the variable {v}, which each of them assigns", mw))
    if bad:
        return "bad", bad
    return "ok", (n, len(p.layers))


# ------------------------------------------------------------------ the reference run

def _reference(case):
    return EM.guarded(reference, case)


def reference(case):
    """the Python run: every sample, every layer once, after and with the outputs of its predecessors; the outputs of the last one are written"""
    repo = EM.REPO
    try:
        I, st, o = case.generator(repo)
    except Raised as e:
        return "refused", e.name
    cls = I.h(st, o).cls
    fi = cls.find("compute_inference")
    if fi is None:
        return "skip", "no compute_inference"
    where = f"{fi.loc} {fi.qual}"
    layers = GR.items(I, st, I.attr(o, "layers", st))
    idx = {l: GR.field(I, st, l, "idx").a[0] for l in layers}
    by = {i: l for l, i in idx.items()}
    bad, runs, cur = [], [], {}

    def wrong(key, text):
        if not any(k == key for k, t, w in bad):
            bad.append((f"reference/{key}", text, where))

    def forward(l, x, st):
        i = GR.field(I, st, l, "idx").a[0]
        if not cur or i in cur:
            if i in cur and len(cur) < len(layers):
                wrong("twice", f"layer {i} is evaluated twice for one sample")
            cur.clear()
            runs.append([])
        xs = GR.items(I, st, x) if x.op == "ref" and st.heap[x.a[0]].k == "list" else [x]
        got = [I.arr(v, st) for v in xs]
        runs[-1].append((i, [g.data if g is not None else None for g in got], [g.shape if g is not None else None for g in got]))
        n = GR.field(I, st, l, "size").a[0]
        f = I.h(st, l).f
        dims = [f[k].a[0] for k in ("output_channels", "output_height", "output_width") if k in f and f[k].op == "const"]
        shape = dims if len(dims) == 3 and math.prod(dims) == n else [n]
        cur[i] = [sym(f"y:{len(runs) - 1}:{i}[{k}]") for k in range(n)]
        return I.nd(st, shape, cur[i], "f")
    I.forward = forward
    n0 = len(I.events)
    given = {}
    if case.gen.get("external_input"):
        given = {"dataset_or_path": I.nd(st, (case.gen.get("nb_tests", 1), GR.field(I, st, layers[0], "size").a[0]), [sym(f"d:{k}") for k in range(case.gen.get("nb_tests", 1) * GR.field(I, st, layers[0], "size").a[0])], "f")}
    try:
        I.call_fi(fi, [const("out")], given, st, selfv=o)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        return "bad", [(f"reference/raises/{e.name}", f"the reference run raises {e.name}", getattr(e, "where", None) or where)]
    ds = I.arr(given["dataset_or_path"] if given else I.attr(o, "test_dataset", st), st)
    if ds is None:
        return "skip", "test set"
    nin = GR.field(I, st, layers[0], "size").a[0]
    nb = len(ds.data) // nin
    if len(runs) != nb:
        wrong("samples", f"{len(runs)} samples are evaluated instead of {nb}")
    last = None
    hwc = I.attr(o, "data_format", st) == const("channels_last")
    for r, run in enumerate(runs[:nb]):
        order = [i for i, *_ in run]
        if sorted(order) != sorted(by):
            wrong("layers", f"the layers evaluated are {order} instead of each of {sorted(by)} once")
            break
        row = list(ds.data[r * nin:(r + 1) * nin])
        if hwc:
            sh = [e.a[0] for e in GR.items(I, st, I.attr(layers[0], "input_shape", st))] if I.attr(layers[0], "input_shape", st).op == "ref" else []
            if len(sh) == 4:
                c, h, w = sh[1:]
                row = [row[(y * w + x) * c + k] for k in range(c) for y in range(h) for x in range(w)]
        for i, got, shapes in run:
            preds = [GR.field(I, st, q, "idx").a[0] for q in GR.links(I, st, by[i], "previous_layer")]
            want = [[sym(f"y:{r}:{p}[{k}]") for k in range(len(row0))] for p in preds for row0 in [range(GR.field(I, st, by[p], "size").a[0])]] or [row]
            if any(g is None for g in got):
                raise GR.Unknown("operand of a layer")
            if [list(g) for g in got] != want:
                def name(g):
                    return show(g[0])[:40] if g else "nothing"
                wrong("operands", f"layer {i} is evaluated on {[name(g) for g in got]} instead of {[name(g) for g in want]}" + ("" if r == 0 else f" for sample {r}"))
                break
    # ---- what is written
    lines, cur_line, opened, gap = [], [], 0, True
    for e in I.events[n0:]:
        if e.kind == "open":
            opened += 1
        v = None
        if e.kind == "print" and "file" in e.kwargs:
            sep = e.kwargs.get("sep", const(" "))
            parts = []
            for k, a in enumerate(e.data["args"]):
                parts += ([sep] if k else []) + [a]
            v = cat(*parts, e.kwargs.get("end", const("\n"))) if parts else e.kwargs.get("end", const("\n"))
        elif e.kind == "write":
            v = e.value
        if v is None:
            continue
        for t in flat(v):
            if isinstance(t, str):
                for k, piece in enumerate(t.split("\n")):
                    if k:
                        lines.append(cur_line)
                        cur_line = []
                    if piece.strip():
                        cur_line.append(piece.strip())
                if t:
                    gap = t[-1].isspace()
            else:
                if not gap:
                    wrong("separator", "two numbers are written without a separator")
                cur_line.append(t)
                gap = False
    if cur_line:
        lines.append(cur_line)
    n = 0
    if not bad:
        end = idx[layers[-1]]
        size = GR.field(I, st, layers[-1], "size").a[0]
        if len(lines) != nb:
            wrong("output", f"{len(lines)} lines are written for {nb} samples")
        for r, l in enumerate(lines[:nb]):
            want = [sym(f"y:{r}:{end}[{k}]") for k in range(size)]
            f = I.h(st, layers[-1]).f
            if hwc and "output_channels" in f:
                c, h, w = (f[k].a[0] for k in ("output_channels", "output_height", "output_width"))
                want = [want[(k * h + y) * w + x] for y in range(h) for x in range(w) for k in range(c)]
            if len(l) != len(want):
                wrong("output", f"line {r} holds {len(l)} numbers instead of {len(want)}")
                break
            for k, (t, x) in enumerate(zip(l, want)):
                if isinstance(t, str):
                    wrong("output", f"number {k} of line {r} is the text {t!r}")
                    break
                why = PR.denotes(t, x, I.word == 4)
                n += 1
                if why:
                    wrong("output", f"number {k} of line {r}: {why}")
                    break
    if bad:
        return "bad", bad
    return "ok", (n, len(layers))


# ------------------------------------------------------------------ test sets of the user

def tests(tier):
    """(rows available, samples asked for, how they are given, hexadecimal, values of one row)"""
    out = [(3, 3, "str", True, 2), (5, 3, "path", True, 3), (4, 1, "str", False, 2), (6, 4, "path", False, 1), (3, 3, "array", True, 2), (5, 2, "array", False, 3), (7, 7, "path", True, 4), (2, 1, "str", True, 1), (2, 5, "str", True, 2), (1, 3, "path", False, 2)]
    if tier == "thorough":
        out += [(a, b, k, h, w) for a in (1, 2, 9) for b in range(1, a + 1) for k in ("str", "path", "array") for h in (True, False) for w in (1, 3)]
    return out


class Inputs:
    """a network of one layer, and a test set given by the user"""

    def __init__(self, rows, nb, kind, to_hex, width):
        self.rows, self.nb, self.kind, self.to_hex = rows, nb, kind, to_hex
        self.net = F.Nnet([width, 2], seed=rows)
        self.values = [[(i + 1) / 4 - (k + 1) * 1.5 for k in range(width)] for i in range(rows)]
        self.title = f"a test set of {rows} rows of {width} {'hexadecimal' if to_hex else 'decimal'} numbers given as {kind}, of which {nb} are asked for"

    def __str__(self):
        return self.title


def _inputs(case):
    return EM.guarded(inputs, case)


def number(e):
    """an initialiser as a number"""
    if e[0] == "hole":
        return L.number(str(L.fold(e[1])))
    return PR.value(e)


def inputs(case):
    """the numbers of the test set are the inputs of the generated program and of the reference run, in order, and their number is the one announced"""
    I, st = F.loader(EM.REPO, Files)
    I.contents = {"data/net.nnet": case.net.text.splitlines(True)}
    flat_ = [v for r in case.values for v in r]
    nb = min(case.nb, case.rows)
    if case.kind == "array":
        given, nb = I.nd(st, (case.rows, 1, len(case.values[0])), [const(v) for v in flat_], "f"), case.rows
    else:
        I.contents["data/inputs.txt"] = [json.dumps([v.hex() if case.to_hex else v for v in r]) + "\n" for r in case.values]
        given = F.opened(I, st, "data/inputs.txt", case.kind)
    I.existing = set(I.contents)
    g = {k: E.value(I, st, v, k) for k, v in {"file": "data/net.nnet", "nb_tests": case.nb, "to_hex": case.to_hex}.items()}
    gen = I.repo.classes["CodeGenerator"]
    where = next((f"{f.loc} {f.qual}" for n in ("_initialise_dataset", "__init__") for f in [gen.find(n)] if f), "")
    try:
        o = I.instantiate(gen, [], dict(g, test_dataset=given), st)
        files = E.generate(I, st, o)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        return "bad", [("inputs/refused", f"the test set is refused ({e.name})", I.raised_where or where)]
    want = flat_[:nb * len(case.values[0])]
    p = ED.Program(I, st, o, files)
    mac = p.macros("test_dataset.h")
    bad = []
    if "nb_samples" in mac and mac["nb_samples"] != str(nb):
        bad.append(("inputs/announced", f"{mac['nb_samples']} samples are announced instead of {nb}", where))
    a = I.arr(I.attr(o, "test_dataset", st), st)
    if a is None:
        raise GR.Unknown("test set")
    sets = [("reference run", [x.a[0] if x.op == "const" else None for x in a.data])]
    for name, ty, dims, init in p.globals_of("test_dataset.c", False) if "test_dataset.c" in p.texts else ():
        if name == "nn_test_inputs" and init is not None:
            sets.append(("generated program", [number(e) for r in init[1] for e in (r[1] if r[0] == "init" else [r])]))
    for what, got in sets:
        if None in got:
            raise GR.Unknown("numbers of the test set")
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            bad.append((f"inputs/{what}", f"the {what} has {len(got)} inputs instead of {len(want)}" if len(got) != len(want) else f"number {i} of the inputs of the {what} is {got[i]} instead of {want[i]}", where))
    if bad:
        return "bad", bad
    return "ok", (len(want) * len(sets), 1)


class Files(F.Loader):
    """lines of JSON"""

    def external(self, name, args, kwargs, st, node, star, starstar):
        if name == "json.loads" and len(args) == 1 and args[0].op == "const" and isinstance(args[0].a[0], str):
            try:
                return self.lifted(st, json.loads(args[0].a[0]))
            except ValueError:
                raise Raised("ValueError", st)
        return super().external(name, args, kwargs, st, node, star, starstar)

    def lifted(self, st, v):
        if isinstance(v, list):
            return self.new_list(st, [self.lifted(st, x) for x in v])
        if isinstance(v, dict):
            return self.new_dict(st, {k: self.lifted(st, x) for k, x in v.items()})
        return const(v)


def flat(v):
    """pieces of a text"""
    if v.op == "cat":
        return [p for x in v.a for p in flat(x)]
    if v.op == "const":
        return [str(v.a[0])]
    if v.op == "fmt" and v.a[1] == "":
        return flat(v.a[0])
    return [v]


def c25(chk):
    chk.rule = ("abstract run of the generated main program and batch loop, with inference, the clock and the files replaced by summaries: each sample is evaluated once, from its own row, in its own context and into its own row; "
                "the inputs read and the results printed are in order; parallel iterations share no variable they assign")
    tier = EM.start(chk)
    more = 6 if tier == "thorough" else 1
    cs = []
    for s in range(3 * more):
        for k, g in enumerate(({"nb_tests": 1}, {"nb_tests": 33}, {"nb_tests": 64}, {"nb_tests": 5, "external_input": True}, {"nb_tests": 70, "verbose": True}, {"nb_tests": 40, "to_hex": False}, {"nb_tests": 3, "bin_dataset": True}, {"nb_tests": 34, "verbose": True, "to_hex": False, "external_input": True})):
            cs.append(EM.Case("double" if s % 3 == 2 else "random", 11 * s + k, **g))
    PR.run(chk, tier, _main, cs, ("outputs followed", "layers"))
    rs = []
    for s in range(24 * more):
        rs.append(EM.Case("double" if s % 8 == 7 else "random", 5 * s + 2, **({"nb_tests": 2}, {"nb_tests": 3, "to_hex": False}, {"nb_tests": 1, "optimization": True}, {"nb_tests": 2, "external_input": True})[s % 4]))
    rs += [EM.Case("layers", k, nb_tests=2) for k in zoo.LAYERED]
    PR.run(chk, tier, _inputs, [Inputs(*t) for t in tests(tier)], ("numbers of given test sets", "networks"))
    PR.run(chk, tier, _reference, rs, ("numbers written by the reference run", "layers"))


CHECKS = {"C25": c25}
