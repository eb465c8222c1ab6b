"""The emitted files as one project: it builds (C10), and its data is the network's (C11)."""
from __future__ import annotations

import os
import re
import shutil
import subprocess
import tempfile

from sa import emit as E
from sa import graphs as GR
from sa import literal as L
from sa import zoo
from sa.nodes import mk, show, sym

from . import emission as EM

CONFIGS = [
    {}, {"optimization": True}, {"bin_dataset": True, "nb_tests": 3}, {"external_input": True}, {"debug_mode": "onnx"}, {"debug_mode": "keras"}, {"verbose": True, "nb_tests": 40},
    {"to_hex": False}, {"gen_data_format": "channels_last", "versions": {"Conv2D": "direct_block"}}, {"versions": {"Conv2D": "std_gemm_nn"}, "function_name": "net"},
    {"makefile_properties": {"compiler": "clang", "compiler_flags": ["-O2", "-fopenmp"], "linker_flags": ["-lm", "-lc"]}}, {"bin_dataset": True, "target_page_size": 64, "verbose": True},
    {"versions": {"Conv2D": "std_gemm_nt"}}, {"versions": {"Conv2D": "std_gemm_tn"}}, {"versions": {"Conv2D": "std_gemm_tt"}},
]


def project_cases(tier, nets, every, stride=1, drop=lambda g: False):
    """every configuration on a few networks, the default one on all operators"""
    more = 8 if tier == "thorough" else 1
    out = []
    for i in range(0, len(EM.single()), max(1, every // more)):
        out.append(EM.Case("single", i))
    for ci, g in enumerate(CONFIGS):
        if drop(g):
            continue
        kind = "hwc" if g.get("gen_data_format") == "channels_last" else "random"
        for s in range(nets * more):
            out.append(EM.Case(kind, s * stride + (ci if kind == "random" else 0), **g))
        if not g.get("gen_data_format") and not g.get("optimization"):
            out.append(EM.Case("random", zoo_conv(ci), **g))
    for k in zoo.LAYERED:
        for g in CONFIGS[:4]:
            out.append(EM.Case("layers", k, **g))
    for ci, g in enumerate(CONFIGS[:nets * 2]):
        if not drop(g) and not g.get("gen_data_format"):
            out.append(EM.Case("double", 5 * ci, **g))
    return out


_conv = []


def zoo_conv(i):
    """seed of a random network with a convolution and a broadcast constant"""
    if not _conv:
        _conv.extend([s for s in range(400) if re.search(r"=Conv\(", zoo.random_net(s).title) and re.search(r"=(Add|Mul|Sub)\(t?\w+,k", zoo.random_net(s).title)][:16] or [0])
    return _conv[i % len(_conv)]


# ------------------------------------------------------------------ C10

FLAGS = ["-std=gnu17", "-O0", "-Wformat", "-Werror=format", "-Werror=implicit-function-declaration", "-Werror=implicit-int", "-Werror=int-conversion", "-Werror=incompatible-pointer-types",
         "-Werror=return-type", "-Werror=stringop-overflow", "-Werror=overflow"]


class Make:
    """variables and rules of a makefile (the subset the generator writes)"""

    def __init__(self, text):
        self.v, self.rules, cur = {}, [], None
        for line in text.replace("\\\n", " ").split("\n"):
            if line.startswith("\t"):
                if cur is not None:
                    cur[2].append(line.strip())
                continue
            line = line.split("#")[0].strip()
            m = re.match(r"(\w+)\s*(\+=|[:?]?=)\s*(.*)$", line)
            if m:
                n, op, t = m.groups()
                self.v[n] = (self.v[n] + " " + t).strip() if op == "+=" and n in self.v else t
                cur = None
                continue
            m = re.match(r"([^:=]+):([^=].*|)$", line)
            if m:
                cur = [self.expand(m.group(1)).split(), self.expand(m.group(2)).split(), []]
                self.rules.append(cur)

    def expand(self, t, depth=0):
        if depth > 10:
            return t

        def f(m):
            n, a, b = m.group(1), m.group(2), m.group(3)
            x = self.expand(self.v.get(n, ""), depth + 1)
            if a is not None:
                x = " ".join(w[:-len(a)] + b if w.endswith(a) else w for w in x.split())
            return x
        return re.sub(r"\$[({](\w+)(?::([^=)}]*)=([^)}]*))?[)}]", f, t)

    def rule(self, target):
        return next((r for r in self.rules if target in r[0]), None)

    def symbols(self, target):
        """[(symbol, offset)] that the recipe of a target adds to an object"""
        r = self.rule(target)
        return [(a, int(b)) for a, b in re.findall(r"--add-symbol[ =]([\w.$]+)=[.\w]*:?(\d+)", " ".join(self.expand(x) for x in r[2]))] if r else []


def refusal(case, why):
    """single-operator models may be refused (which of them is C14's); the other networks are made of what the framework accepts"""
    if why[0] != "refused" or case.kind == "single":
        return why
    at = getattr(E.LAST, "refused_at", None)
    if not at:
        return "skip", f"refused without a place: {why[1]}"
    f = at.split(":")[0].rsplit("/", 1)[-1]
    return "bad", [(f"refused/{f}/{why[1].split()[-1]}", f"no code is generated: {why[1]} is raised", at)]


def _build(case):
    return EM.guarded(build, case)


def build(case):
    p, why = EM.program(EM.REPO, case)
    if p is None:
        return refusal(case, why)
    gen = p.I.h(p.st, p.o).cls
    loc = lambda n: (lambda f: f"{f.loc} {f.qual}" if f else "")(gen.find(n))
    files = set(p.texts)
    bad = []
    if "Makefile" not in files:
        return "skip", "no Makefile"
    mk = Make(p.texts["Makefile"])
    exe = case.gen.get("function_name", "inference")
    mw = loc("generate_makefile")
    # what is built, and from what
    goals = mk.rule("all")
    if goals is None:
        bad.append(("Makefile/all", "the Makefile has no goal all", mw))
        return "bad", bad
    links = []
    for g in goals[1]:
        r = mk.rule(g)
        if r is None:
            bad.append((f"Makefile/goal", f"no rule makes {g}", mw))
            continue
        src, stubs = [], []
        for d in r[1]:
            x = mk.rule(d)
            if d.endswith(".o") and x is not None and x[2]:
                for e in x[1]:
                    if e not in files:
                        bad.append(("Makefile/missing", f"{d} is made from {e}, which is not generated", mw))
                stubs.append((d, mk.symbols(d)))
            elif d.endswith(".o") and d[:-2] + ".c" in files:
                src.append(d[:-2] + ".c")
            elif d in files:
                if d.endswith(".c"):
                    src.append(d)
            else:
                bad.append(("Makefile/missing", f"{g} is made from {d}, which is neither generated nor made", mw))
        cmd = " ".join(mk.expand(x) for x in r[2])
        libs = re.findall(r"(?<!\S)-l\S+", cmd)
        if not r[2] or mk.v.get("CC", "").split()[:1] != cmd.split()[:1]:
            bad.append(("Makefile/recipe", f"{g} is not linked by the compiler", mw))
        if not re.search(r"-o (\$@|%s)(\s|$)" % re.escape(g), cmd):
            bad.append(("Makefile/recipe", f"the recipe of {g} does not write {g}", mw))
        links.append((g, src, stubs, libs, "-shared" in cmd.split()))
    if exe not in goals[1]:
        bad.append(("Makefile/goal", f"the executable {exe} is not made by default", mw))
    for n in sorted(files):
        for inc in re.findall(r'^\s*#\s*include\s*"([^"]+)"', p.texts[n], re.M):
            if inc not in files:
                bad.append((f"include/{n}", f"{n} includes {inc}, which is not generated", loc("generate_c_files")))
    want = case.gen.get("makefile_properties")
    if want:
        for k, v in (("CC", [want["compiler"]]), ("CFLAGS", want["compiler_flags"]), ("LDFLAGS", want["linker_flags"])):
            if mk.expand(mk.v.get(k, "")).split() != v:
                bad.append((f"Makefile/{k}", f"{k} is {mk.v.get(k)} instead of {v}", mw))
    if bad:
        return "bad", bad
    d = tempfile.mkdtemp(prefix="acetone_c10_")
    try:
        for n, t in p.texts.items():
            with open(os.path.join(d, os.path.basename(n)), "w") as f:
                f.write(re.sub("\ue000\\d+\ue001", "1.5f", t))
        n = 0
        for g, src, stubs, libs, shared in links:
            extra = []
            for o, syms in stubs:
                with open(os.path.join(d, f"stub_{n}.c"), "w") as f:
                    f.write("".join(f"const float {s}[1] = {{0}};\n" for s, _ in syms))
                extra.append(f"stub_{n}.c")
                n += 1
            cmd = ["gcc", *FLAGS, *(["-fPIC", "-shared", "-Wl,-z,defs"] if shared else []), "-o", "linked_" + str(n), *src, *extra, *libs, *(["-lm"] if shared and not libs else [])]
            n += 1
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=120)
            if r.returncode:
                bad += diagnose(p, r.stderr, loc)
                break
        if bad:
            return "bad", bad
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "ok", (len(files), sum(len(s) for _, s, *_ in links))


def rejected(p, name="inference.c"):
    """what a C compiler finds wrong with an emitted file"""
    d = tempfile.mkdtemp(prefix="acetone_c10_")
    try:
        for n, t in p.texts.items():
            with open(os.path.join(d, os.path.basename(n)), "w") as f:
                f.write(re.sub("\ue000\\d+\ue001", "1.5f", t))
        r = subprocess.run(["gcc", *FLAGS, "-fsyntax-only", name], cwd=d, capture_output=True, text=True, timeout=120)
        if not r.returncode:
            return []
        gen = p.I.h(p.st, p.o).cls
        return diagnose(p, r.stderr, lambda n: (lambda f: f"{f.loc} {f.qual}" if f else "")(gen.find(n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def algorithm(p, idx):
    """the implementation, for the layers that stand for several"""
    for o in p.layers:
        if GR.field(p.I, p.st, o, "idx").a[0] == idx:
            f = p.I.h(p.st, o).f
            return f"[{f['conv_algorithm'].a[0]}]" if "conv_algorithm" in f and f["conv_algorithm"].op == "const" else ""
    return ""


def diagnose(p, err, loc):
    out, seen = [], set()
    fn = {"inference.c": "generate_function_source_file", "inference.h": "generate_function_header_file", "main.c": "generate_main_file", "parameters.c": "generate_parameter_file",
          "global_vars.c": "generate_globalvars_file", "train_hook.c": "generate_train_hook_file", "test_dataset.c": "generate_test_dataset_value_file", "test_dataset.h": "generate_test_dataset_header_file"}
    for l in err.splitlines():
        m = re.match(r"(?:.*/)?([\w.]+):(\d+):\d+: (?:fatal )?error: (.*)$", l)
        what = None
        if m:
            f, n, what = m.group(1), int(m.group(2)), m.group(3)
            layer = None
            if f == "inference.c":
                for k, t in enumerate(p.texts[f].split("\n")[:n], 1):
                    q = re.match(r"\s*#pragma acetone_mark (begin|end) (\d+)", t)
                    if q:
                        layer = int(q.group(2)) if q.group(1) == "begin" else None
            where = EM.where(p, layer) if layer is not None else loc(fn.get(f, "generate_c_files"))
            site = p.layer_name(layer) + algorithm(p, layer) if layer is not None else f
        else:
            q = re.search(r"(multiple definition of|undefined reference to) [`'](\w+)'", l)
            if not q:
                continue
            what, site, where = f"{q.group(1)} {q.group(2)}", "link", loc("generate_c_files")
            n = 0
        what = re.sub(r"[‘’`]", "'", what)
        k = (site, re.sub(r"\[-W.*", "", re.sub(r"_?\d+|; did you mean.*", "", what)).strip())
        if k not in seen:
            seen.add(k)
            out.append((f"{site}/{k[1]}", f"{what} ({site})", where))
    return out[:3] or [("build", err.strip()[-300:], loc("generate_c_files"))]


def c10(chk):
    chk.rule = ("the files emitted for a network and a configuration are a complete project: the prerequisites of every goal of the Makefile are emitted or made, included files are emitted, and a C compiler accepts and links the texts "
                "(compile-time witness: the texts are compiled, never run; numbers that depend on the weights are replaced by a literal)")
    chk.assumptions += ["the debug_mode 'time' and named targets need headers of their platform and are excluded"]
    tier = EM.start(chk)
    run(chk, tier, _build, project_cases(tier, 6, 20), ("files emitted", "sources linked"))


# ------------------------------------------------------------------ C11

def _data(case):
    return EM.guarded(data, case)


FIELDS = {"weights": ("layout", "weights", "constant"), "biases": ("biases",), "mean": ("mean",), "var": ("var",), "scale": ("scale",), "constant": ("constant",)}
SYMBOL = re.compile(r"(weights|biases|mean|var|scale|constant)_(\w+?)_0*(\d+)$")
_forms = {}


def denotes(hole, x, single):
    """as literal.denotes, remembered by the shape of the expression"""
    slot = sym("?value")

    def put(n):
        if n is x:
            return slot
        if isinstance(n, tuple):
            return tuple(put(y) for y in n)
        if not hasattr(n, "op"):
            return n
        a = tuple(put(y) for y in n.a)
        return n if all(p is q for p, q in zip(a, n.a)) else mk(n.op, *a)
    k = (put(hole), single)
    if k not in _forms:
        _forms[k] = L.denotes(k[0], slot, single)
    r = _forms[k]
    return r and r.replace(show(slot), show(x)[:60])


def value(e):
    """value of an initialiser that is a number"""
    if e[0] == "num":
        return e[1]
    if e[0] == "un" and e[2][0] == "num":
        return -e[2][1] if e[1] == "-" else e[2][1] if e[1] == "+" else None
    return None


def compare(name, init, want, single):
    """None, or how the initialisers differ from the values"""
    if init is None or init[0] != "init":
        return f"{name} has no initialiser"
    if len(init[1]) != len(want):
        return f"{name} is initialised with {len(init[1])} elements, the layer has {len(want)}"
    for i, (e, x) in enumerate(zip(init[1], want)):
        if e[0] == "hole":
            r = denotes(e[1], x, single)
            if r:
                return f"element {i} of {name}: {r}"
        else:
            v = value(e)
            if v is None:
                raise L.Unknown("initialiser " + str(e)[:40])
            if x.op != "const":
                return f"element {i} of {name} is the number {v} instead of {show(x)[:60]}"
            if (L.f32(v) if single else v) != (L.f32(x.a[0]) if single else x.a[0]):
                return f"element {i} of {name} is {v} instead of {x.a[0]}"
    return None


def leaf(I, st, o, kind):
    f = I.h(st, o).f
    for k in FIELDS[kind]:
        if k in f and f[k].op == "ref":
            a = I.arr(f[k], st)
            if a is not None:
                return a.data
    return None


def times(e):
    """n of the expression n * sizeof(type)"""
    if e[0] == "bin" and e[1] == "*":
        a, b = e[2], e[3]
        if a[0] == "sizeof":
            a, b = b, a
        if a[0] == "num" and b[0] == "sizeof":
            return a[1]
    return None


def calls(x, name, out):
    if isinstance(x, tuple) and x[:1] == ("call",) and x[1] == ("id", name):
        out.append(x[2])
    if isinstance(x, (tuple, list)):
        for y in x:
            calls(y, name, out)
    return out


def data(case):
    p, why = EM.program(EM.REPO, case, mark=False)
    if p is None:
        return why
    try:
        return _compare(case, p)
    except L.Unknown as e:
        return "skip", f"text of a number: {e}"


def _compare(case, p):
    I, st = p.I, p.st
    gen = I.h(st, p.o).cls
    loc = lambda n: (lambda f: f"{f.loc} {f.qual}" if f else "")(gen.find(n))
    real = "double" if I.word == 8 else "float"
    single = real == "float"
    width = "float32" if single else "float64"
    bad, n, sizes = [], 0, {}
    at = {GR.field(I, st, o, "idx").a[0]: o for o in p.layers}

    def wrong(key, text, where):
        bad.append((key, text, where))
    # ---- stored values: declared, defined and filled
    decl = {}
    for name, ty, dims, init in p.globals_of("inference.h", True):
        m = SYMBOL.match(name)
        if not m:
            continue
        o = at.get(int(m.group(3)))
        want = leaf(I, st, o, m.group(1)) if o is not None else None
        if want is None:
            return "skip", f"what {name} stands for"
        cls = I.h(st, o).cls.name
        decl[name] = (ty, dims, want, cls)
        if dims != [len(want)]:
            wrong(f"{cls}/{m.group(1)}/declared", f"{name} is declared with {dims} elements, the layer has {len(want)}", loc("generate_function_header_file"))
        if real not in ty.split():
            wrong(f"type/{m.group(1)}", f"{name} is declared {ty} in a network of {real}", loc("generate_function_header_file"))
    text = {}
    if "parameters.c" in p.texts:
        pw = loc("generate_parameter_file")
        for name, ty, dims, init in p.globals_of("parameters.c", False):
            if name not in decl:
                continue
            dt, _, want, cls = decl[name]
            k = SYMBOL.match(name).group(1)
            text[name] = True
            if dims != [len(want)]:
                wrong(f"{cls}/{k}/defined", f"{name} is defined with {dims} elements, the layer has {len(want)}", pw)
            if ty.split() != dt.split():
                wrong(f"type/{k}", f"{name} is declared {dt} and defined {ty}", pw)
            r = compare(name, init, want, single)
            n += len(want)
            if r:
                wrong(f"{cls}/{k}/values", r, pw)
    # ---- or stored in a binary file
    for f, blocks in I.binary.items():
        if not f.endswith("parameters.dat"):
            continue
        bw = loc("generate_bin_parameter_file")
        syms = dict(Make(p.texts["Makefile"]).symbols("parameters.o"))
        page = case.gen.get("target_page_size", 4096)
        end = 0
        for a, d, t in blocks:
            if d and t != width:
                wrong("parameters.dat/type", f"the data at offset {a} is written as {t or 'whatever the layer holds'}, the network computes in {width}", bw)
            if a < end:
                wrong("parameters.dat/overlap", f"the data at offset {a} overwrites what is stored before {end}", bw)
            end = max(end, a + I.word * len(d))
        for name, (ty, dims, want, cls) in decl.items():
            k = SYMBOL.match(name).group(1)
            if name not in syms:
                wrong(f"parameters.dat/{k}/missing", f"{name} has no symbol in parameters.o", bw)
                continue
            text[name] = True
            a = syms[name]
            if a % page:
                wrong(f"parameters.dat/{k}/alignment", f"{name} is at offset {a}, which is not a multiple of {page}", bw)
            d = next((d for b, d, _ in blocks if b == a), None)
            n += len(want)
            if d is None or tuple(d) != tuple(want):
                wrong(f"parameters.dat/{k}/values", f"{name} is at offset {a}, where " + ("nothing starts" if d is None else f"{len(d)} other values are stored"), bw)
    for name in decl:
        if name not in text:
            wrong(f"{decl[name][3]}/{SYMBOL.match(name).group(1)}/undefined", f"{name} is declared but its values are not generated", loc("generate_parameter_file"))
    # ---- test inputs
    tw = loc("generate_test_dataset_header_file")
    mac = p.macros("test_dataset.h")
    nb = int(str(case.gen.get("nb_tests", 1)))
    first, last = p.layers[0], p.layers[-1]
    want = {"nb_samples": nb, "nn_input_size": GR.field(I, st, first, "size").a[0], "nn_output_size": GR.field(I, st, last, "size").a[0]}
    for k, v in want.items():
        if mac.get(k) != str(v):
            wrong(f"test_dataset.h/{k}", f"{k} is {mac.get(k)} instead of {v}", tw)
    ds = I.attr(p.o, "test_dataset", st)
    arr = I.arr(ds, st) if ds.op == "ref" else None
    vw = loc("generate_test_dataset_value_file")
    if arr is not None and not case.gen.get("external_input"):
        rows = [arr.data[i * want["nn_input_size"]:(i + 1) * want["nn_input_size"]] for i in range(nb)]
        if len(arr.data) != nb * want["nn_input_size"]:
            wrong("test_dataset/size", f"the test set has {len(arr.data)} numbers instead of {nb} x {want['nn_input_size']}", vw)
        elif "test_dataset.c" in p.texts:
            g = [x for x in p.globals_of("test_dataset.c", False) if x[0] == "nn_test_inputs"]
            if g:
                name, ty, dims, init = g[0]
                if ty != real:
                    wrong("type/nn_test_inputs", f"nn_test_inputs is of type {ty} in a network of {real}", vw)
                got = init[1] if init and init[0] == "init" else []
                if len(got) != nb:
                    wrong("test_dataset.c/rows", f"{len(got)} test inputs are stored instead of {nb}", vw)
                for i, (e, r) in enumerate(zip(got, rows)):
                    t = compare(f"nn_test_inputs[{i}]", e, r, single)
                    n += len(r)
                    if t:
                        wrong("test_dataset.c/values", t, vw)
                        break
        for f, blocks in I.binary.items():
            if f.endswith("test_dataset.dat"):
                sy = dict(Make(p.texts["Makefile"]).symbols("test_dataset.o"))
                if [(sy.get("nn_test_inputs"), tuple(arr.data))] != [(a, tuple(d)) for a, d, _ in blocks]:
                    wrong("test_dataset.dat/values", "nn_test_inputs is not the test set, in order", vw)
                if any(t != width for _, _, t in blocks):
                    wrong("test_dataset.dat/type", f"the test set is written in the element type it was given in, the network computes in {width}", vw)
                n += len(arr.data)
    # ---- what a training program exchanges
    if "train_hook.c" in p.texts:
        hw = loc("generate_train_hook_file")
        fs = p.functions("train_hook.c")
        order = {}
        for fn, callee, i, j, size in (("copy_weights", "memcpy", 0, 1, 2), ("save_weights", "fwrite", 0, None, 2)):
            if fn not in fs:
                continue
            cs = calls(fs[fn], callee, [])
            order[fn] = []
            for c in cs:
                name = c[i][1] if c[i][0] == "id" else None
                order[fn].append(name)
                if name not in decl:
                    wrong(f"train_hook/{fn}/name", f"{fn} exchanges {name}, which is no parameter", hw)
                    continue
                k = times(c[size])
                if k is None and c[size][0] != "bin":
                    return "skip", "size in " + fn
                if fn == "save_weights" and c[1] != ("num", 1, "1"):
                    return "skip", "size in " + fn
                n += 1
                if k != len(decl[name][2]):
                    wrong(f"train_hook/{decl[name][3]}", f"{fn} exchanges {k} elements of {name}, which has {len(decl[name][2])}", hw)
                if j is not None and c[j] != ("id", "model_" + name):
                    wrong(f"train_hook/{fn}/pairs", f"{name} is filled with {c[j][-1]}", hw)
            if j is not None:
                if fs[fn][3] != ["model_" + x for x in order[fn] if x]:
                    wrong(f"train_hook/{fn}/order", "the arguments and the parameters are not in the same order", hw)
                if any("const" in decl[x][0].split() for x in order[fn] if x in decl):
                    wrong(f"train_hook/{fn}/const", f"{fn} writes {next(x for x in order[fn] if x in decl)}, which is defined const", hw)
        if len({tuple(v) for v in order.values()}) > 1:
            wrong("train_hook/order", "copy_weights and save_weights do not exchange the same parameters in the same order", hw)
        have = set(next(iter(order.values()), ()))
        for name, (ty, dims, want, cls) in decl.items():
            if want and SYMBOL.match(name).group(1) in ("weights", "biases") and name not in have:
                wrong(f"train_hook/{cls}/missing", f"{name} is not exchanged", hw)
    if bad:
        return "bad", bad
    return "ok", (len(decl), n)


def c11(chk):
    chk.rule = ("for every network and configuration: each stored parameter is declared, defined and filled with as many elements as the layer holds, element i denoting element i (C order) of the layer's array; the expression that writes a "
                "number is folded for sample values and has to read back as that value; offsets, symbols and alignment of the binary files; rows and sizes of the test set; names, sizes and order of the training hook")
    chk.assumptions += [f"the text of a number is folded for {len(L.SAMPLES)} sample values of each sign and magnitude", "the array a parameter holds is the attribute of the layer with the name of the symbol"]
    tier = EM.start(chk)
    cs = project_cases(tier, 6, 20, drop=lambda g: g.get("debug_mode") or g.get("verbose"))
    for ci, g in enumerate(({}, {"bin_dataset": True, "nb_tests": 3}, {"to_hex": False}, {"optimization": True})):
        cs += [EM.Case("double", 7 * s + ci, **g) for s in range(4)]
    for s in range(10):
        cs.append(EM.Case("hwc", s, gen_data_format="channels_last", versions={"Conv2D": "direct_block"}, bin_dataset=True))
    run(chk, tier, _data, cs, ("arrays", "elements compared"))


def run(chk, tier, fn, cs, names, title=str):
    groups = {}
    for c, (k, v) in zip(cs, EM.run_jobs(fn, cs)):
        chk.count("networks")
        if k == "ok":
            chk.ok(title(c))
            for n, x in zip(names, v):
                chk.count(n, x)
        elif k == "refused":
            chk.count("networks refused by the generator")
        elif k == "skip":
            chk.skip(title(c), v)
        else:
            for key, text, wh in v:
                groups.setdefault(key, []).append((title(c), text, wh))
    EM.report(chk, groups)


CHECKS = {"C10": c10, "C11": c11}
