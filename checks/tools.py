"""C18: the command line programs; C24: the debugging tools."""
from __future__ import annotations

import itertools
import math
import re

from sa import graphs as GR
from sa.emit import plain
from sa.interp import Raised, State
from sa.ndarr import Imprecise
from sa.nodes import NONE, const, show, walk
from sa.shell import Shell, f32

from . import emission as EM

CLI = "acetone_nnet.cli."


def text(v):
    """constant text or path, number, boolean"""
    if v.op == "const":
        return v.a[0]
    return plain(v)


def out_lines(I):
    """lines printed: [[pieces]]"""
    out = []
    for e in I.events:
        if e.kind == "print":
            ps = []
            for a in e.data["args"]:
                ps += pieces(a)
            out.append(ps)
        elif e.kind == "call" and str(e.data.get("name", "")).startswith("logging."):
            continue
    return out


def pieces(v):
    if v.op == "cat":
        return [p for x in v.a for p in pieces(x)]
    if v.op == "fmt":
        return pieces(v.a[0])
    if v.op == "tuple":
        return [p for x in v.a for p in pieces(x)]
    return [v]


# ------------------------------------------------------------------ acetone_generate

BASE = ["--model", "nets/m.onnx", "--function", "fn", "--output", "out/dir", "--dataset-size", "7"]
#: what the generator is given when an option is absent
DEFAULT = {"test_dataset": None, "normalize": False, "optimization": False, "target": "generic", "target_page_size": 4096, "bin_dataset": False, "verbose": False, "to_hex": True, "versions": {"Conv2D": "std_gemm_nn"},
           "gen_data_format": "channels_first", "external_input": False, "debug_mode": None}
OPTIONS = [([], {}), (["--dataset", "data/x.txt"], {"test_dataset": "data/x.txt"}), (["--normalize"], {"normalize": True}), (["--conv", "6loops"], {"versions": {"Conv2D": "6loops"}}), (["--target", "orin"], {"target": "orin"}),
           (["--target_page_size", "256"], {"target_page_size": 256}), (["--bin_dataset", "True"], {"bin_dataset": True}), (["--bin_dataset", "False"], {"bin_dataset": False}), (["--verbose", "True"], {"verbose": True}),
           (["--verbose", "False"], {"verbose": False}), (["--optimization", "True"], {"optimization": True}), (["--optimization", "False"], {"optimization": False})]


def value(I, v):
    if v.op == "dict" and not v.a[1]:
        return {k if isinstance(k, str) else text(k): value(I, x) for k, x in v.a[0]}
    return text(v)


DIRECT = [("test_dataset_file", "d.txt", {"test_dataset": "d.txt"}), ("conv_algorithm", "6loops", {"versions": {"Conv2D": "6loops"}}), ("target", "orin", {"target": "orin"}), ("target_page_size", 64, {"target_page_size": 64}),
          ("verbose", True, {"verbose": True}), ("to_hex", False, {"to_hex": False}), ("bin_dataset", True, {"bin_dataset": True}), ("normalize", True, {"normalize": True}), ("optimization", True, {"optimization": True}),
          ("gen_data_format", "channels_last", {"gen_data_format": "channels_last"})]


def run_program(chk, mod, fn, argv, repo, watch=()):
    I = Shell(repo)
    I.argv, I.watch = argv, watch
    st = State()
    f = repo.func(CLI + mod, fn)
    if f is None:
        raise GR.Unknown(f"no {fn}")
    I.call_fi(f, [], {}, st)
    return I, st, f


def generate_cli(chk, repo):
    cls = repo.classes.get("CodeGenerator")
    f = repo.func(CLI + "generate", "acetone_generate")
    if cls is None or f is None:
        chk.skip("acetone_generate", "not found")
        return
    where = f"{f.loc} {f.qual}"
    params = cls.find("__init__").node.args
    names = [a.arg for a in params.args]
    own = dict(zip(names[len(names) - len(params.defaults):], params.defaults))
    jobs, groups = [(a, w) for a, w in OPTIONS], {}
    for (a, w), (b, x) in itertools.combinations(OPTIONS[1:], 2):
        if a[0] != b[0]:
            jobs.append((a + b, dict(w, **x)))
    jobs.append((sum((a for a, w in OPTIONS[1:6]), []) + ["--bin_dataset", "True", "--verbose", "True", "--optimization", "True"],
                 {"test_dataset": "data/x.txt", "normalize": True, "versions": {"Conv2D": "6loops"}, "target": "orin", "target_page_size": 256, "bin_dataset": True, "verbose": True, "optimization": True}))
    direct = repo.func(CLI + "generate", "cli_acetone")
    if direct is not None:
        for n in range(3):
            for c in itertools.combinations(DIRECT, n):
                jobs.append(({k: v for k, v, w in c}, {k: v for _, _, w in c for k, v in w.items()}))
        jobs.append(({k: v for k, v, w in DIRECT}, {k: v for _, _, w in DIRECT for k, v in w.items()}))
    for argv, want in jobs:
        name = f"cli_acetone with {argv}" if isinstance(argv, dict) else "acetone_generate " + " ".join(argv)
        try:
            if isinstance(argv, dict):
                I = Shell(repo)
                I.call_fi(direct, [], {k: const(v) for k, v in dict(argv, model_file="nets/m.onnx", function_name="fn", nb_tests=7, output_dir="out/dir").items()}, State())
            else:
                I, st, _ = run_program(chk, "generate", "acetone_generate", BASE + argv, repo)
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                chk.skip(name, e.name)
            else:
                groups.setdefault(f"generate/raises/{e.name}", []).append((name, f"{e.name} is raised", getattr(e, "where", None) or where))
            continue
        except EM.UNKNOWN as e:
            chk.skip(name, f"{type(e).__name__} {e}"[:120])
            continue
        chk.count("command lines")
        bad = []
        if len(I.made) != 1:
            bad.append(("generator", f"{len(I.made)} generators are built"))
        else:
            g = I.made[0]
            exp = {**DEFAULT, "file": "nets/m.onnx", "function_name": "fn", "nb_tests": 7, **want}
            for k, x in exp.items():
                if k in g:
                    got = value(I, g[k])
                    if g[k].op not in ("const", "path", "dict", "cat") and got is None:
                        chk.skip(name, f"{k} is {show(g[k])[:60]}")
                        continue
                elif k in own:
                    try:
                        import ast
                        got = ast.literal_eval(own[k])
                    except ValueError:
                        continue
                else:
                    got = None
                same = bool(got) == x if isinstance(x, bool) and k not in ("verbose", "to_hex") and not isinstance(got, str) else got == x and type(got) is type(x)
                if not same:
                    bad.append((k, f"the generator is given {k}={got!r} instead of {x!r}"))
            for k in g:
                if k not in exp and k not in names:
                    bad.append((k, f"the generator has no parameter {k}"))
        calls = [(n, [text(v) for v in a.values()][:1]) for n, a in I.used]
        if calls != [("generate_c_files", ["out/dir"]), ("compute_inference", ["out/dir"])] and not any(k == "generator" for k, t in bad):
            bad.append(("calls", f"the generator runs {calls} instead of generate_c_files and compute_inference on the output directory"))
        for k, t in bad:
            groups.setdefault(f"generate/{k}", []).append((name, t, where))
        if not bad:
            chk.ok(name)
    EM.report(chk, groups, "command lines")
    for drop in range(0, len(BASE), 2):
        argv = BASE[:drop] + BASE[drop + 2:]
        name = f"acetone_generate without {BASE[drop]}"
        try:
            I, st, _ = run_program(chk, "generate", "acetone_generate", argv, repo)
        except Raised as e:
            if e.name == "SystemExit":
                chk.ok(name)
            else:
                chk.skip(name, e.name)
            continue
        except EM.UNKNOWN as e:
            chk.skip(name, f"{type(e).__name__} {e}"[:120])
            continue
        chk.bad(f"generate/required/{BASE[drop]}", f"{name} is accepted", where)
    for argv in (["--dataset-size", "many"], ["--target_page_size", "4k"], ["--unknown-option", "1"]):
        name = "acetone_generate " + " ".join(argv)
        try:
            run_program(chk, "generate", "acetone_generate", BASE + argv, repo)
        except Raised as e:
            chk.ok(name) if e.name == "SystemExit" else chk.skip(name, e.name)
            continue
        except EM.UNKNOWN as e:
            chk.skip(name, f"{type(e).__name__} {e}"[:120])
            continue
        chk.bad(f"generate/refused/{argv[0]}", f"{name} is accepted", where)


# ------------------------------------------------------------------ acetone_compare

def table(rows):
    return [" ".join(float.hex(float(x)) for x in r) + " \n" for r in rows]


def expected(ref, c, nb, precision):
    cast = f32 if precision == "float" else float
    if len(ref) < nb or len(c) < nb:
        return False, None, None
    ok, ma, mr = True, 0.0, 0.0
    for r, s in zip(ref[:nb], c[:nb]):
        if len(r) != len(s):
            return False, None, None
        for a, b in zip(r, s):
            a, b = cast(a), cast(b)
            if a == b:
                continue
            d = abs(a - b)
            if not (math.isfinite(a) and math.isfinite(b)):
                ok, ma, mr = False, None, None
                return ok, ma, mr
            n = abs(a) + abs(b)
            ok = ok and d < max(2.2250738585072014e-308, 128 * 2.0 ** -52 * n)
            ma, mr = max(ma, d), max(mr, d / (n / 2))
    return ok, ma, mr


def tables():
    base = [[1.0, -2.5, 0.75], [3.0, 0.0, -0.125], [8.0, 100.0, -6.5], [0.5, 0.25, 2.0]]
    inf, nan = math.inf, math.nan
    for nb in (1, 2, 3, 4):
        for w in (1, 2, 3):
            b = [r[:w] for r in base]
            yield "same", b[:nb], b[:nb], nb
            for i in range(nb):
                for j in range(w):
                    for what, d in (("differs", 0.5), ("differs a little", 2.0 ** -20)):
                        c = [list(r) for r in b]
                        c[i][j] += d
                        yield f"{what} at {i},{j}", b[:nb], c[:nb], nb
                    c = [list(r) for r in b]
                    c[i][j] = nan
                    yield f"not a number at {i},{j}", b[:nb], c[:nb], nb
                    yield f"not a number in the reference at {i},{j}", c[:nb], b[:nb], nb
            c = [list(r) for r in b]
            for i in range(nb):
                for j in range(w):
                    c[i][j] += 2.0 ** -(i + 2 * j)
            yield "differs everywhere", b[:nb], c[:nb], nb
            yield "differs everywhere, exchanged", c[:nb], b[:nb], nb
    b = base
    for nb in (1, 2, 3):
        c = [list(r) for r in b]
        c[nb][0] += 1
        yield f"differs after the {nb} lines compared", b, c, nb
        yield f"fewer lines than the {nb} to compare", b[:nb], b[:nb - 1], nb
        yield f"fewer lines in the reference than the {nb} to compare", b[:nb - 1], b[:nb], nb
    yield "empty files", [], [], 2
    for nb in (1, 2):
        for i in range(nb):
            c = [list(r) for r in b]
            c[i] = c[i][:-1]
            yield f"a value less in line {i}", b[:nb], c[:nb], nb
            yield f"a value less in line {i} of the reference", c[:nb], b[:nb], nb
    for x, y in ((0.0, 0.0), (0.0, -0.0), (0.0, 2.0 ** -100), (0.0, 1.0), (-1.0, 1.0), (inf, inf), (inf, 1.0), (1.0, inf), (-inf, inf), (nan, nan), (1e30, 1.0000001e30), (2.0 ** -60, 2.0 ** -61), (1.0, 1 + 2.0 ** -23), (-3.0, -3.5)):
        yield f"{x} and {y}", [[x]], [[y]], 1
        yield f"{x} and {y} among others", [[1.0, x, 4.0]], [[1.0, y, 4.0]], 1
    for e in (40, 43, 45, 50):
        yield f"1 and 1+2**-{e}", [[1.0]], [[1 + 2.0 ** -e]], 1
        yield f"-8 and -8-2**-{e - 3}", [[-8.0]], [[-8 - 2.0 ** -(e - 3)]], 1


def compare_tool(chk, repo):
    f = repo.func(CLI + "compare", "compare_files")
    g = repo.func(CLI + "compare", "cli_compare")
    main = repo.func(CLI + "compare", "acetone_compare")
    if f is None and g is None:
        chk.skip("compare_files", "not found")
        return
    groups = {}
    for precision in ("float", "double"):
        for name, a, b, nb in tables():
            if precision == "float" and "2**-" in name:
                continue
            want = expected(a, b, nb, precision)
            title = f"comparing {precision} files of {nb} lines: {name}"
            fn = f or g
            where = f"{fn.loc} {fn.qual}"
            for which in ("compare_files", "cli_compare"):
                fi = f if which == "compare_files" else g
                if fi is None:
                    continue
                I = Shell(repo)
                I.contents = {"ref.txt": table(a), "c.txt": table(b)}
                st = State()
                kind = re.sub(r" at \d.*| \d.*|(?<=line) \d", "", name)
                try:
                    r = I.call_fi(fi, [const("ref.txt"), const("c.txt"), const(nb), const(precision)], {}, st)
                except Raised as e:
                    if e.name.startswith(("imprecise", "endless")):
                        chk.skip(title, e.name)
                    elif want[1] is None and e.name in ("ValueError", "SystemExit"):
                        chk.ok(title)
                    else:
                        groups.setdefault(f"compare/raises/{e.name}", []).append((title, f"{e.name} is raised", getattr(e, "where", None) or where))
                    continue
                except EM.UNKNOWN as e:
                    chk.skip(title, f"{type(e).__name__} {e}"[:120])
                    continue
                chk.count("comparisons followed")
                if which == "compare_files":
                    v = [x.a[0] if x.op == "const" else None for x in (r.a if r.op == "tuple" else ())]
                    if len(v) != 3 or None in v:
                        chk.skip(title, "result " + show(r)[:60])
                        continue
                    if bool(v[0]) != want[0]:
                        groups.setdefault(f"compare/verdict/{'equal' if v[0] else 'different'}", []).append((title, f"the files are reported {'equal' if v[0] else 'different'}", where))
                        continue
                    got = v[1:]
                else:
                    got = reported(I)
                    if got is None:
                        chk.skip(title, "printed report")
                        continue
                bad = False
                for k, x, y in zip(("absolute", "relative"), got, want[1:]):
                    if y is None:
                        # a number that is not there or not finite has to show in what is printed
                        if which == "cli_compare" and x is not None and math.isfinite(x):
                            bad = True
                            groups.setdefault(f"compare/{k}/hidden", []).append((title, f"the maximum {k} error printed is {x:g}", f"{fi.loc} {fi.qual}"))
                    elif x is None or abs(x - y) > 1e-9 * max(abs(y), 1e-300):
                        bad = True
                        groups.setdefault(f"compare/{k}", []).append((title, f"the maximum {k} error {'reported' if which == 'compare_files' else 'printed'} is {x} instead of {y}", f"{fi.loc} {fi.qual}"))
                if not bad:
                    chk.ok(title)
    # ---- arguments of the program
    for argv, want in ((["a.txt", "b.txt", "3"], ("a.txt", "b.txt", 3, "float")), (["a.txt", "b.txt", "12", "--precision", "double"], ("a.txt", "b.txt", 12, "double")), (["--precision", "float", "x", "y", "1"], ("x", "y", 1, "float"))):
        title = "acetone_compare " + " ".join(argv)
        I = Shell(repo)
        I.argv, I.watch = argv, ("cli_compare", "compare_files")
        I.contents = {argv[-3] if argv[0].startswith("--") else argv[0]: table([[1.0]] * 12), argv[-2] if argv[0].startswith("--") else argv[1]: table([[1.0]] * 12)}
        st = State()
        where = f"{main.loc} {main.qual}" if main else ""
        try:
            I.call_fi(main, [], {}, st)
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                chk.skip(title, e.name)
            else:
                chk.bad(f"compare/main/{e.name}", f"{title}: {e.name} is raised", getattr(e, "where", None) or where)
            continue
        except EM.UNKNOWN as e:
            chk.skip(title, f"{type(e).__name__} {e}"[:120])
            continue
        seen = I.calls_seen.get("compare_files")
        if not seen or len(seen) != 1:
            chk.skip(title, "no call of compare_files")
            continue
        a = seen[0][0]
        got = tuple(text(v) for v in a.values())
        if got != want:
            chk.bad("compare/main/arguments", f"{title}: the files are compared with {got} instead of {want}", where)
        else:
            chk.ok(title)
    EM.report(chk, groups, "cases")


def reported(I):
    """(absolute, relative) errors printed"""
    got = {}
    for ps in out_lines(I):
        s = " ".join(str(p.a[0]) if p.op == "const" else "?" for p in ps)
        for k in ("absolute", "relative"):
            m = re.search(rf"{k}.*:\s*(\S+)", s)
            if m:
                try:
                    got[k] = float(m.group(1))
                except ValueError:
                    return None
    return (got["absolute"], got["relative"]) if len(got) == 2 else None


def c18(chk):
    chk.rule = ("abstract run of the command line programs on enumerated argument lists and result files: the generator is built with exactly what the arguments say and run on the output directory; the comparison is successful exactly when "
                "both files hold the requested lines and every pair of numbers agrees, and the maxima reported are those of all pairs")
    EM.start(chk)
    generate_cli(chk, EM.REPO)
    compare_tool(chk, EM.REPO)


CHECKS = {"C18": c18}
