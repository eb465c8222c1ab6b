"""C09: evaluation order and buffer allocation; C06: graph rewrites."""
import itertools
import multiprocessing
import os
import random
import sys

from sa import fwdcheck as FC
from sa import graphs as GR
from sa import layers as LY
from sa import mustache as M
from sa import pyarr as PA
from sa import versions as V
from sa.interp import HArr, HObj, Interp, Raised, State
from sa.nodes import BOT, NONE, const, mk, show, sym, walk
from sa.repo import Repo


def fresh(repo):
    I = Interp(repo)
    I.precise = I.typed = True
    I.budget = 4000000
    return I, State()


def place(repo, I, st, objs):
    """sorted list, number of paths and table of saved outputs, as every importer computes them"""
    tri = repo.func("acetone_nnet.graph.graph_interpretor", "tri_topo")
    if tri is None:
        raise GR.Unknown("sorting function not found")
    v = I.call_fi(tri, [I.new_list(st, objs)], {}, st)
    if v is BOT:
        raise GR.Broken("fails", "sorting always fails")
    if v.op != "tuple" or len(v.a) != 3:
        raise GR.Unknown("result of the sort: " + show(v)[:80])
    ls = GR.items(I, st, v.a[0])
    for o in ls:
        f = I.h(st, o).cls.find("find_output_str")
        if f is None:
            raise GR.Unknown("output naming not found")
        I.call_fi(f, [v.a[2]], {}, st, selfv=o)
    return tri, ls, v.a[1], v.a[2]


def dags(n):
    """graphs of one input and n computing layers with one or two operands each, with one final layer"""
    opts = []
    for k in range(1, n + 1):
        opts.append([(p,) for p in range(k)] + list(itertools.combinations_with_replacement(range(k), 2)))
    for ch in itertools.product(*opts):
        used = {p for c in ch for p in c}
        if all(p in used for p in range(n)) :
            yield ch


def c09_family(tier):
    """the schemas: every shape up to 4 computing layers (thorough: 5), with a constant in the smaller ones"""
    for n in range(1, 7 if tier == "thorough" else 6):
        for ch in dags(n):
            yield GR.G([("InputLayer", ())] + [("MatMul" if len(c) == 2 else "Dense", c) for c in ch])
    for n in range(1, 4):
        for ch in dags(n):
            for k in range(n):
                # operand k also takes a stored constant; the constant comes last in the file, as the importer appends it
                nodes = [("InputLayer", ())] + [("MatMul" if len(c) == 2 else "Dense", c) for c in ch]
                if len(ch[k]) == 1:
                    for cc in ((ch[k][0], n + 1), (n + 1, ch[k][0])):
                        m = list(nodes)
                        m[k + 1] = ("MatMul", cc)
                        yield GR.G(m + [("ConstantLayer", ())])


def c09(chk):
    repo = Repo()
    tier = os.environ.get("VERIF_TIER", "quick")
    chk.rule = ("abstract interpretation of the sort and of the buffer allocation over every graph schema of the family: operands come before their consumers, every layer is kept once, indices stay distinct, and in "
                "execution order every operand is found in the buffer its reader is told to read (last writer of that buffer), within the declared number of buffers; the last layer is the final one")
    seen = {}
    for g in c09_family(tier):
        chk.count("graph schemas")
        I, st = fresh(repo)
        try:
            objs = GR.build(repo, I, st, g)
            tri, ls, npath, saved = place(repo, I, st, objs)
            bad = []
            if sorted(map(str, ls)) != sorted(map(str, objs)):
                bad.append(("list", f"{len(objs)} layers become {len(ls)}"))
            bad += GR.well_formed(I, st, ls)
            if not bad:
                sv = GR.known_dict(I, st, saved)
                T = GR.Terms(I, st, {o: i for i, o in enumerate(objs)})
                GR.by_buffers(T, ls, sv)
                fin = next(o for o in objs if not GR.links(I, st, o, "next_layer"))
                if ls[-1] is not fin:
                    bad.append(("last", f"the last layer of the list is {GR.name(I, st, ls[-1])}, the output of the network is {GR.name(I, st, fin)}"))
                if not all(0 <= GR.cint(I, st, o, "path") < (npath.a[0] if npath.op == "const" else 10 ** 9) for o in ls):
                    bad.append(("paths", f"a layer writes a buffer beyond the {show(npath)} declared ones"))
                if not set(sv) <= {GR.cint(I, st, o, "idx") for o in ls}:
                    bad.append(("saved", "an output is saved for a layer that does not exist"))
        except GR.Unknown as e:
            chk.skip(str(g), str(e))
            continue
        except Raised as e:
            if e.name.startswith(("imprecise", "endless")):
                chk.skip(str(g), e.name)
                continue
            bad = [("fails", f"sorting fails with {e.name}")]
        except GR.Broken as e:
            bad = [(e.rule, e.text)]
        if not bad:
            chk.ok(str(g))
        for r, t in bad[:1]:
            seen.setdefault(r, []).append((g, t))
    fi = repo.func("acetone_nnet.graph.graph_interpretor", "tri_topo")
    for r, lst in seen.items():
        g, t = min(lst, key=lambda x: len(x[0].nodes))
        chk.bad(f"placement/{r}", f"network {g}: {t} ({len(lst)} schemas)", f"{fi.loc} {fi.qual}" if fi else "")



BN = ("scale", "mean", "var", "biases")


def silent_kinds(repo):
    """base kinds of layers whose generated code never contains the activation"""
    said = {}
    for m in LY.all_models(repo):
        b = V.base_scenarios(repo)
        break
    base = {}
    for lst in V.base_scenarios(repo).values():
        for cls, _, _ in lst:
            base[cls.name] = cls
    for m in LY.all_models(repo):
        k = next((c.name for c in m.cls.mro() if c.name in base), m.cls.name)
        if said.get(k):
            continue
        for val, x in m.renderings(limit=20):
            if isinstance(x, M.Rendering):
                said[k] = said.get(k, False) or "__ACT__" in x.text
    return base, {k for k, v in said.items() if not v}


COEF = {}


def coefficients(objs, orig, tokens):
    """`same` hook: which normalisation, if any, has been folded into the weights of a convolution"""
    def f(I, st, o, tok):
        h = I.h(st, o)
        w, b = (I.freeze(st, h.f.get(k, NONE)) for k in ("weights", "biases"))
        if o in orig and (w, b) == orig[o]:
            return tok
        if tok is None:
            return None
        res = []
        bns = [tokens[q] for q in objs if q in tokens and I.h(st, q).cls.name == "BatchNormalization"]
        used = [n for n in bns if any(x.op == "sym" and x.a[0] in {f"{k}{n}" for k in BN} for v in (w, b) for x in walk(v))]
        if not used:
            raise GR.Unknown("changed weights: " + show(w)[:100])
        if len(used) > 2:
            raise GR.Unknown("more than two folded normalisations")
        for seq in itertools.permutations(used):
            r = folded(w, b, seq, tok)
            if r[0] == "holds":
                for n in seq:
                    tok = ("normalised", n, tok)
                return tok
            res.append(r)
        if all(r[0] == "differs" for r in res):
            raise GR.Broken("coefficients", f"the weights of {GR.name(I, st, o)} are not those of the convolution followed by its normalisation: {res[0][1]}")
        raise GR.Unknown("changed weights: " + res[0][1])
    return f


def folded(w, b, seq, m):
    """do the weights and biases equal those of convolution m followed by the normalisations seq"""
    from sa.nodes import subst
    # names independent of the positions in the graph
    ren = {f"w{m}": "weights", f"b{m}": "biases"}
    for q, n in enumerate(seq):
        ren[f"eps{n}"] = f"eps{q}_"
        for k in BN:
            ren[f"{k}{n}"] = f"bn_{k}{q}"
    f = lambda x: subst(x, lambda y: sym(ren[y.a[0]]) if y.op == "sym" and y.a[0] in ren else None)
    w, b = f(w), f(b)
    key = (w, b, len(seq))
    if key in COEF:
        return COEF[key]
    arr = lambda a, *s: PA.base(a, FC.shape(*s))
    env = {"weights": arr("weights", "OC", "IC", "KH", "KW"), "biases": arr("biases", "OC")}
    wt, bt = "weights[((f*IC+i)*KH+j)*KW+k]", "biases[f]"
    for q in range(len(seq)):
        for k in BN:
            env[f"bn_{k}{q}"] = arr(f"bn_{k}{q}", "OC")
        one = f"bn_scale{q}[f]/sqrt(bn_var{q}[f]+eps{q}_)"
        wt, bt = f"{wt}*{one}", f"(({bt}-bn_mean{q}[f])*{one}+bn_biases{q}[f])"
    r = FC.same_array(b, env, None, f"for (f=0;f<OC;f++) out[f] = {bt};")
    r = (r[0], "bias " + r[1])
    if r[0] == "holds":
        r = FC.same_array(w, env, None, f"for (f=0;f<OC;f++) for(i=0;i<IC;i++) for(j=0;j<KH;j++) for(k=0;k<KW;k++) out[((f*IC+i)*KH+j)*KW+k] = {wt};")
        r = (r[0], "weight " + r[1])
    COEF[key] = r
    return r


class Rewriter:
    def __init__(self, repo):
        self.repo = repo
        regs, self.I, self.st0 = V.registrations(repo, "register_pattern")
        self.names = [r.name for r in regs]
        self.I.precise = True
        self.I.opaque = set()
        self.PM = repo.classes.get("PatternMatcher")
        if self.PM is None or self.PM.find("match") is None:
            raise GR.Unknown("pattern matcher not found")
        self.base, self.silent = silent_kinds(repo)

    def start(self):
        I, st = self.I, self.st0.copy()
        I.events, I.steps = [], 0
        del I.frames[:], I.loops[:]
        I.depth = 0
        pm = I.instantiate(self.PM, [], {}, st)
        for n in self.names:
            I.call_fi(self.PM.find("register_pattern"), [n], {}, st, selfv=pm)
        return I, st, pm

    def run(self, g):
        """[] or [(rule, text)]; raises Unknown / Raised / Broken"""
        I, st, pm = self.start()
        objs = GR.build(self.repo, I, st, g)
        tokens = {o: i for i, o in enumerate(objs)}
        orig = {}
        for i, o in enumerate(objs):
            h = st.heap[o.a[0]]
            if h.cls.name == "Conv2D":
                w, b = sym(f"w{i}"), sym(f"b{i}")
                st.heap[o.a[0]] = HObj(h.cls, dict(h.f, weights=I.new(st, HArr(w)), biases=I.new(st, HArr(b))), h.base)
                orig[o] = (w, b)
            elif h.cls.name == "BatchNormalization":
                st.heap[o.a[0]] = HObj(h.cls, dict(h.f, epsilon=sym(f"eps{i}"), **{k: sym(f"{k}{i}") for k in BN}), h.base)
        tri, ls, npath, saved = place(self.repo, I, st, objs)
        GR.by_buffers(GR.Terms(I, st, tokens, coefficients(objs, orig, tokens), self.silent), ls, GR.known_dict(I, st, saved))
        final = ls[-1]
        want = GR.by_links(GR.Terms(I, st, tokens, coefficients(objs, orig, tokens), self.silent), ls)[final]
        v = I.call_fi(self.PM.find("match"), [I.new_list(st, ls), saved], {}, st, selfv=pm)
        if v.op != "tuple":
            raise GR.Unknown("result of the matcher: " + show(v)[:80])
        after = GR.items(I, st, v.a[0])
        bad = GR.well_formed(I, st, after)
        if bad:
            return len(ls) - len(after), bad
        sv = GR.known_dict(I, st, saved)
        T = GR.Terms(I, st, tokens, coefficients(objs, orig, tokens), self.silent)
        a = GR.by_links(T, after)
        if a[after[-1]] != want:
            return len(ls) - len(after), [("meaning", f"the network computed {term(want)}, the rewritten one computes {term(a[after[-1]])}")]
        b = GR.by_buffers(T, after, sv)
        if b[after[-1]] != want:
            return len(ls) - len(after), [("meaning", f"the generated code computes {term(b[after[-1]])} instead of {term(want)}")]
        ids = {GR.cint(I, st, o, "idx") for o in after}
        if not set(sv) <= ids:
            return len(ls) - len(after), [("saved", f"outputs are saved for layers {sorted(sv)} of the layers {sorted(ids)}")]
        for o in after:
            s = GR.field(I, st, o, "output_str")
            i = GR.cint(I, st, o, "idx")
            w = {f"output_{GR.cint(I, st, o, 'path')}"} | ({f"cst_{sv[i]}"} if i in sv else set())
            if s.op == "const" and s.a[0] not in w:
                return len(ls) - len(after), [("names", f"the readers of {GR.name(I, st, o)} look for it in {s.a[0]}, it is stored in {' and '.join(sorted(w))}")]
        return len(ls) - len(after), []


def term(t):
    if t[0] == "act":
        return f"{t[1]}({term(t[3])})"
    if t[0] == "op":
        tok = t[2]
        k = t[1]
        while isinstance(tok, tuple):
            k, tok = k + "*norm", tok[2]
        return f"{k}{tok}({', '.join(map(term, t[3]))})"
    return f"{t[0]}"


def c06_family(base, silent, tier):
    two = ("Add", "Subtract", "Multiply", "Divide", "Average", "Maximum", "Minimum", "Concatenate", "MatMul")
    G = GR.G
    kinds = [k for k in base if k not in ("InputLayer", "ActivationLayer", "Layer", "ConstantLayer")]
    for k in kinds:
        for a in (None, "ReLu"):
            p = (0, 1) if k in two else (1,)
            P = (k, p, a) if k not in silent else (k, p)
            pre = [("InputLayer", ()), ("Dense", (0,))]
            yield G(pre + [P, ("act:Sigmoid", (2,)), ("Dense", (3,))])
            yield G(pre + [P, ("act:TanH", (2,))])
            yield G(pre + [P, ("act:LeakyReLu", (2,)), ("Dense", (2,)), ("Subtract", (3, 4))])
            yield G(pre + [P, ("act:ReLu", (2,)), ("Dense", (3,)), ("Dense", (3,)), ("Subtract", (4, 5))])
            yield G(pre + [P, ("act:Sigmoid", (2,)), ("Multiply", (2, 3)), ("Dense", (4,))])
            yield G(pre + [P, ("act:Sigmoid", (2,)), ("Multiply", (3, 2), "ReLu"), ("Dense", (4,))])
            yield G(pre + [P, ("BatchNormalization", (2,), "TanH"), ("act:ReLu", (3,)), ("Dense", (4,))])
    yield G([("InputLayer", ()), ("act:ReLu", (0,)), ("Dense", (1,))])
    yield G([("InputLayer", ()), ("Dense", (0,)), ("MatMul", (1, 4)), ("act:ReLu", (2,)), ("ConstantLayer", ())])
    yield G([("InputLayer", ()), ("Conv2D", (0,)), ("Conv2D", (0,)), ("act:ReLu", (1,)), ("act:TanH", (2,)), ("Subtract", (3, 4))])
    yield G([("InputLayer", ()), ("Conv2D", (0,)), ("act:Sigmoid", (1,)), ("Conv2D", (0,)), ("Multiply", (1, 2)), ("Subtract", (3, 4))])
    yield G([("InputLayer", ()), ("Conv2D", (0,)), ("act:Sigmoid", (1,)), ("Conv2D", (1,)), ("Multiply", (1, 2)), ("Subtract", (3, 4))])
    # every small graph over the kinds the rewrites look at
    un = (("Conv2D", None), ("act:ReLu", None), ("act:Sigmoid", None), ("BatchNormalization", None), ("Conv2D", "TanH"))
    bi = (("Subtract", None), ("Multiply", None), ("Multiply", "TanH"))

    def decorate(ch):
        return itertools.product(*[un if len(c) == 1 else bi for c in ch])
    for n in (1, 2, 3):
        for ch in dags(n):
            for d in decorate(ch):
                yield G([("InputLayer", ())] + [(k, c, a) for (k, a), c in zip(d, ch)])
    rng = random.Random(1)
    for n, count in ((4, 500), (5, 1000), (6, 1000)) if tier != "thorough" else ((4, 4000), (5, 8000), (6, 12000), (7, 12000)):
        for _ in range(count):
            while True:
                ch = []
                for k in range(1, n + 1):
                    c = (rng.randrange(max(0, k - 3), k),) if rng.random() < .6 else tuple(rng.sample(range(k), 2)) if k > 1 and rng.random() < .9 else (k - 1, k - 1)
                    ch.append(c)
                if all(any(p in c for c in ch) for p in range(n)):
                    break
            d = [rng.choice(un if len(c) == 1 else bi) for c in ch]
            yield G([("InputLayer", ())] + [(k, c, a) for (k, a), c in zip(d, ch)])


RW = None


def one(g):
    try:
        n, bad = RW.run(g)
        return g, "done", n, bad
    except GR.Unknown as e:
        return g, "skip", 0, str(e)
    except Raised as e:
        if e.name.startswith(("imprecise", "endless")):
            return g, "skip", 0, e.name
        return g, "done", 0, [("fails", f"rewriting fails with {e.name}")]
    except GR.Broken as e:
        return g, "done", 0, [(e.rule, e.text)]


def c06(chk):
    global RW
    repo = Repo()
    tier = os.environ.get("VERIF_TIER", "quick")
    chk.rule = ("abstract interpretation of sorting, allocation and of every registered rewrite over the graph schemas: the last layer of the rewritten list denotes the same term as before (activations, folded "
                "normalisations and silu expanded), both by links and by the buffers the generated code uses; removed layers are unreferenced, indices distinct, operands first, saved outputs and names follow their tensors")
    try:
        RW = Rewriter(repo)
    except GR.Unknown as e:
        chk.skip("rewrites", str(e))
        return
    chk.count("registered rewrites", len(RW.names))
    family = list(c06_family(RW.base, RW.silent, tier))
    seen = {}
    sys.setrecursionlimit(20000)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for g, how, n, bad in pool.imap(one, family, chunksize=16):
            chk.count("graph schemas")
            if how == "skip":
                chk.skip(str(g), bad)
                continue
            chk.count("layers removed", n)
            if not bad:
                chk.ok(str(g))
            for r, t in bad[:1]:
                seen.setdefault(r, []).append((g, t))
    fi = RW.PM.find("match")
    for r, lst in seen.items():
        g, t = min(lst, key=lambda x: len(x[0].nodes))
        chk.bad(f"rewrite/{r}", f"network {g}: {t} ({len(lst)} schemas)", f"{fi.loc} {fi.qual}")


CHECKS = {"C06": c06, "C09": c09}
