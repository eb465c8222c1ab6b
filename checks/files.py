"""C19: which files a generation writes."""
from __future__ import annotations

import ast
import posixpath
import re

from sa import emit as E
from sa import graphs as GR
from sa import zoo
from sa.interp import Frame, Raised
from sa.nodes import const, mk, show
from sa.repo import FuncInfo

from . import emission as EM
from . import project as PR

OUT = "out/gen"
WRITES = ("open", "write", "tofile", "remove")
#: files of each category of generation functions
CATEGORY = {"Main": {"main.c", "test_dataset.h"}, "Makefile": {"Makefile"}, "Inference": {"inference.c", "inference.h", "global_vars.c", "parameters.c", "parameters.dat", "train_hook.c"},
            "TestValues": {"test_dataset.c", "test_dataset.dat"}}


class Run:
    """one call of generate_c_files on a copy of the state"""

    def __init__(self, I, st, o, existing=()):
        st = st.copy()
        self.I, self.st = I, st
        I.existing = {posixpath.normpath(posixpath.join(OUT, x)) for x in existing}
        n0 = len(I.events)
        self.raised = self.where = None
        try:
            I.call_fi(I.h(st, o).cls.find("generate_c_files"), [const(OUT)], {}, st, selfv=o)
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                raise GR.Unknown(e.name)
            self.raised, self.where = e.name, getattr(e, "where", None)
        self.events = I.events[n0:]
        del I.events[n0:]
        self.opened, self.outside = [], []
        self.writes, self.dirs = {}, []
        for e in self.events:
            if e.kind == "open":
                p, m = E.plain(e.data["path"]), E.plain(e.data["mode"]) or "r"
                if p is None:
                    raise GR.Unknown("file name " + show(e.data["path"])[:60])
                if not set(m) & set("wax+"):
                    continue
                p = posixpath.normpath(p)
                self.opened.append((p, m))
                self.writes.setdefault(p, [])
            elif e.kind == "write":
                self.writes.setdefault(posixpath.normpath(E.plain(e.file.a[0])), []).append(e.value)
            elif e.kind == "tofile":
                self.writes.setdefault(posixpath.normpath(E.plain(e.file.a[0])), []).append(e.data["data"])
            elif e.kind == "mkdir":
                self.dirs.append(posixpath.normpath(E.plain(e.data["path"])))
        I.existing = set()

    def names(self):
        return {p[len(OUT) + 1:] if p.startswith(OUT + "/") else "../" + p for p in self.writes}


def custom(spec):
    """dictionary of custom generation functions: {key: [(file name, text)]}"""
    def make(I, st):
        m = I.repo.modules[E.GEN]
        d = {}
        I.frames.append(Frame(FuncInfo(m, ast.parse("def _m(): pass").body[0])))
        try:
            for k, lst in spec.items():
                d[k] = I.new_list(st, [mk("tuple", const(n), I.eval(ast.parse(f"lambda s, path: (Path(path) / {n!r}).open('a+').write('/* {t} */' + s.function_name)", mode="eval").body, st)) for n, t in lst])
        finally:
            I.frames.pop()
        return I.new_dict(st, d)
    return make


def announced(I, st, o):
    v = I.attr(o, "files_to_gen", st)
    r = GR.items(I, st, v)
    if any(x.op != "const" for x in r):
        raise GR.Unknown("files_to_gen")
    return [x.a[0] for x in r]


def _files(case):
    return EM.guarded(files, case)


def files(case):
    try:
        I, st, o = case.generator(EM.REPO)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        E.LAST.refused_at = getattr(e, "where", None)
        return PR.refusal(case, ("refused", e.name))
    cls = I.h(st, o).cls
    loc = lambda n: (lambda f: f"{f.loc} {f.qual}" if f else "")(cls.find(n))
    gw, sw = loc("generate_c_files"), loc("select_generation_functions")
    bad, n = [], 0

    def wrong(key, text, where):
        if not any(k == key for k, *_ in bad):
            bad.append((key, text, where))
    base = Run(I, st, o)
    n += 1
    if base.raised:
        E.LAST.refused_at = base.where
        return PR.refusal(case, ("refused", base.raised))
    if OUT not in base.dirs:
        wrong("directory", "the output directory is not made", gw)
    for p, m in base.opened:
        if not p.startswith(OUT + "/"):
            wrong(f"outside/{posixpath.basename(p)}", f"{p} is written, outside the output directory {OUT}", gw)
    names = base.names()
    for x in sorted(names):
        if not base.writes[posixpath.join(OUT, x)] and not x.endswith(".dat"):
            wrong(f"empty/{x}", f"nothing is written to {x}", gw)
    want = announced(I, st, o)
    for x in sorted(names - set(want)):
        wrong(f"announced/{x}", f"{x} is written but not in files_to_gen ({', '.join(want)})", sw)
    binary = {"parameters.c", "test_dataset.c"} if case.gen.get("bin_dataset") else set()
    for x in want:
        if x not in names and x not in binary:
            wrong(f"written/{x}", f"{x} is in files_to_gen but not written", sw)
    # ---- a file that is already there
    for x in sorted(names):
        r = Run(I, st, o, [x, "notes.txt"])
        n += 1
        if r.raised is None:
            wrong(f"existing/{x}", f"{x} exists in the output directory and is written over", gw)
        elif not r.raised.startswith("FileExistsError"):
            wrong(f"existing/{x}", f"{x} exists in the output directory: {r.raised} is raised", gw)
        elif r.opened:
            wrong(f"existing/{x}", f"{x} exists in the output directory: the generation is refused after {posixpath.basename(r.opened[0][0])} was opened for writing", gw)
    r = Run(I, st, o, sorted(names))
    n += 1
    if r.raised is None or r.opened:
        wrong("existing/all", "a second generation into the same directory is not refused", gw)
    r = Run(I, st, o, ["notes.txt", "previous/" + min(names), "output_python.txt", "output_acetone.txt"])
    n += 1
    if r.raised is not None:
        wrong("unrelated", f"{r.raised} is raised when the output directory holds unrelated files", gw)
    elif {k: len(v) for k, v in r.writes.items()} != {k: len(v) for k, v in base.writes.items()}:
        wrong("unrelated", "files are written differently when the output directory holds unrelated files", gw)
    if bad:
        return "bad", bad
    return "ok", (n, len(names))


SPECS = [
    {"Main": []}, {"Makefile": []}, {"TestValues": []}, {"Main": [], "Makefile": [], "TestValues": []},
    {"Main": [("my_main.c", "A"), ("my_main.h", "B")]}, {"Makefile": [("build.mk", "A")]}, {"Extra": [("extra.c", "A")]}, {"Extra": [("e1.c", "A"), ("e2.c", "B"), ("e3.h", "C")], "Other": [("o.txt", "D")]},
    {"TestValues": [("values.c", "A")], "Extra": [("extra.c", "B")], "Main": []}, {"Extra": []}, {"Inference": [("inference.c", "A"), ("inference.h", "B")], "Makefile": []},
]


def _custom(job):
    return EM.guarded(with_custom, *job)


def with_custom(case, k):
    spec = SPECS[k]
    try:
        I, st, o = case.generator(EM.REPO)
        base = Run(I, st, o)
        if base.raised:
            return "skip", base.raised
        bn, bw = base.names(), base.writes
    except Raised as e:
        return "skip", e.name
    fi = EM.REPO.classes["CodeGenerator"].find("select_generation_functions")
    where = f"{fi.loc} {fi.qual}" if fi else ""
    what = "custom functions {" + ", ".join(f"{a}: {[n for n, t in l]}" for a, l in spec.items()) + "}"
    try:
        I, st, o = case.generator(EM.REPO, custom_generation_functions=custom(spec))
        r = Run(I, st, o)
        if r.raised:
            raise Raised(r.raised, st)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return "skip", e.name
        return "bad", [(f"custom/raises/{e.name}", f"{what}: {e.name} is raised", getattr(e, "where", None) or where)]
    bad = []
    off = set().union(*[CATEGORY.get(a, set()) for a in spec])
    want = {x for x in bn if x not in off} | {n for l in spec.values() for n, t in l}
    got = r.names()
    for x in sorted(want - got):
        bad.append((f"custom/missing/{x}", f"{what}: {x} is not written", where))
    for x in sorted(got - want):
        bad.append((f"custom/extra/{x}", f"{what}: {x} is written though its category was replaced", where))
    for l in spec.values():
        for n, t in l:
            v = r.writes.get(posixpath.join(OUT, n))
            if v is not None and ["".join(str(p) for p in [E.plain(x) for x in v])] != [f"/* {t} */inference"]:
                bad.append(("custom/calls", f"{what}: the function of {n} is called {len(v)} times or with something else than the generator and the directory", where))
    lst = announced(I, st, o)
    for x in sorted(got - set(lst)):
        bad.append((f"custom/announced", f"{what}: {x} is written but not in files_to_gen", where))
    for x in lst:
        if x not in got and not (case.gen.get("bin_dataset") and x in ("parameters.c", "test_dataset.c")):
            bad.append((f"custom/announced", f"{what}: {x} is in files_to_gen but not written", where))
    if len(set(lst)) != len(lst):
        bad.append((f"custom/announced", f"{what}: files_to_gen names a file twice", where))
    for x in sorted(n for l in spec.values() for n, t in l):
        q = Run(I, st, o, [x])
        if q.raised is None or not q.raised.startswith("FileExistsError") or q.opened:
            bad.append((f"custom/existing", f"{what}: {x} exists in the output directory and the generation is not refused before writing", where))
    if "Makefile" in got:
        mk = PR.Make(str_of(I, r.st, r))
        obj = " ".join(mk.expand(x) for v in mk.v.values() for x in [v]) + " ".join(" ".join(r_[1]) for r_ in mk.rules)
        for x in sorted(got):
            if x.endswith(".c") and x not in obj and x[:-2] + ".o" not in obj:
                bad.append(("custom/makefile", f"{what}: the Makefile does not build {x}", where))
        for x in sorted(off - got):
            if x.endswith(".c") and not case.gen.get("bin_dataset") and re.search(r"(?<![\w.])%s\.[co](?!\w)" % re.escape(x[:-2]), obj):
                bad.append(("custom/makefile", f"{what}: the Makefile builds {x}, which is not generated", where))
    if bad:
        return "bad", bad
    return "ok", (len(got), len(spec))


def str_of(I, st, r):
    ws = [("a", v, None) for v in r.writes[posixpath.join(OUT, "Makefile")]]
    t = E.text(I, st, ws)
    return t.text


def c19(chk):
    chk.rule = ("abstract run of the generation on a table of the files present: every file opened for writing lies in the output directory, is announced, and, when it is already there, the generation raises FileExistsError before it "
                "opens any file; unrelated files change nothing; a category of custom functions replaces the default one, an empty one disables it, a new one adds to it")
    tier = EM.start(chk)
    PR.run(chk, tier, _files, PR.project_cases(tier, 3, 60), ("generations followed", "files"))
    jobs = []
    for k in range(len(SPECS)):
        for s, g in enumerate(({}, {"bin_dataset": True}, {"external_input": True}, {"nb_tests": 4, "verbose": True})):
            if g.get("bin_dataset") and "Inference" in SPECS[k]:
                continue
            jobs.append((EM.Case("random", 3 * k + s, **g), k))
    PR.run(chk, tier, _custom, jobs, ("files", "categories"), lambda j: str(j[0]))


CHECKS = {"C19": c19}
