"""C12: selecting an implementation never changes the layer."""
from sa import layers as LY
from sa import vcompare as VC
from sa import versions as V
from sa.interp import HDict, HObj, Interp, State
from sa.nodes import NONE, N, const, mk, show, subst, sym
from sa.repo import Repo

RULE = ("for every registered implementation and every scenario of its layer: each field of the layer object it builds denotes the same value as the field of the layer it is given (value graphs of both, "
        "compared case by case); the registry, dispatch and link-copying functions have the value graph of their definition")


def scen(V, repo):
    """scenario table with values that reach the factories distinguishable"""
    for bname, lst in V.base_scenarios(repo).items():
        for cls, scen, kw in lst:
            kw = dict(kw)
            if bname == "Gemm":
                kw["input_shape"], kw["output_shape"] = ["1", "1", "IH", "IW"], ["1", "1", "OH", "OW"]
            if bname == "Softmax":
                kw["output_shape"] = ["1", "size"] if scen == "flat" else ["1", "OC", "OH", "OW"]
            if bname == "Conv2D":
                kw["group"] = sym("group")
            yield bname, cls, scen, kw


def check(chk):
    repo = Repo()
    chk.rule = RULE
    regs, I, st0 = V.registrations(repo)
    by = {}
    for r in regs:
        h = I.h(st0, r.factory)
        n = h.f.get("layer_name") if h else None
        by.setdefault(n.a[0] if n is not None and n.op == "const" else "?", []).append(r)
        chk.count("registered implementations")
    base_of = {}
    done = set()
    for bname, cls, sc, kw in scen(V, repo):
        try:
            obj, st = V.instance(I, st0, cls, kw, "old")
        except Exception as e:
            chk.skip(f"{bname} [{sc}]", repr(e))
            continue
        ho = I.h(st, obj)
        nm = ho.f.get("name")
        key = nm.a[0] if nm is not None and nm.op == "const" else bname
        base_of[key] = cls
        for r in by.get(key, []):
            what = f"{key} [{sc}] as {show(r.name)}"
            if r.func.op != "func":
                chk.skip(what, "registered value is not a function")
                continue
            fi = r.func.a[0]
            s2 = st.copy()
            n0 = len(I.events)
            v = I.call_fi(fi, [obj, r.name], {}, s2)
            broken = False
            for e in I.events[n0:]:
                if e.kind == "badcall":
                    chk.bad(f"{fi.name}/call", f"{fi.name} calls {e.fi.qual} with arguments it does not accept", f"{e.fn} line {getattr(e, 'loc', '')}")
                    broken = True
            h = I.h(s2, v)
            if broken:
                continue
            if h is None:
                chk.skip(what, "result is not one object: " + show(v)[:80])
                continue
            if not h.cls.is_sub(cls):
                chk.bad(f"{fi.name}/class", f"{fi.name} is registered for {key} but builds a {h.cls.name}", fi.loc)
                continue
            done.add((key, show(r.name)))
            stored, read = V.own_attrs(h.cls, cls)
            for k, o in ho.f.items():
                a = unset(V.self_refs(I.freeze(s2, o), obj), ho.base)
                if k in ("version", "conv_algorithm") or k not in h.f:
                    continue
                c = unset(V.self_refs(I.freeze(s2, h.f[k]), v), h.base)
                chk.count("fields compared")
                w = f"{what} field {k}"
                if a is c:
                    chk.ok(w)
                    continue
                if k == "group" and "group" not in read:
                    chk.ok(w)  # an implementation without grouped code: its constructor rejects grouped weights
                    continue
                if not VC.leaves(a) and k in stored:
                    chk.ok(w)  # design parameter of the implementation, not of the layer
                    continue
                s, det = VC.decide(a, c)
                if s == "holds":
                    chk.ok(w)
                elif s == "differs":
                    chk.bad(f"{fi.name}/{k}", f"the layer built by {fi.name} has another {k} than the layer it replaces [{sc}]: {det}", f"{fi.loc} {fi.qual}")
                else:
                    chk.skip(w, det)
    chk.count("implementations analysed", len(done))
    registry(chk, repo, I, st0, by, base_of)
    dispatch(chk, repo)
    selection(chk, repo)


def unset(n, base):
    """attributes never assigned to the object"""
    return subst(n, lambda x: mk("unset") if x.op == "attr" and x.a[0] is base else None)


def registry(chk, repo, I, st0, by, base_of):
    """every layer kind reaches the factory its implementations are registered in, with a default"""
    m = repo.modules.get("acetone_nnet.versioning.layer_factories")
    st = st0.copy()
    r = repo.lookup(m, "implemented") if m else None
    d = I.glob(r, st) if r else None
    h = I.h(st, d) if d is not None else None
    if h is None or h.k != "dict" or I.dict_items(h) is None:
        chk.skip("registry", "table of factories not derived")
        return
    facts = {k.a[0]: v for k, v in I.dict_items(h)}
    regs = {}
    for n, lst in by.items():
        for x in lst:
            regs.setdefault(x.factory, []).append(x)
    # activation layers are named after their function
    acts = []
    A = repo.classes.get("ActivationFunctions")
    for key, cls in base_of.items():
        names = [key]
        for n in names:
            chk.count("layer kinds")
            f = facts.get(n)
            if cls.name == "ActivationLayer":
                continue
            if f is None:
                chk.bad(f"registry/{n}", f"layers named {n!r} have no factory", m.rel)
                continue
            lst = regs.get(f, [])
            if not lst:
                chk.bad(f"registry/{n}", f"no implementation is registered in the factory of {n!r}", m.rel)
                continue
            names_ = [show(x.name) for x in lst]
            if "None" not in names_:
                chk.bad(f"registry/{n}/default", f"{n!r} has no default implementation", m.rel)
            elif len(set(names_)) != len(names_):
                chk.bad(f"registry/{n}/duplicate", f"{n!r} registers an implementation twice: {names_}", m.rel)
            else:
                chk.ok(f"factory of {n}")


def post(I, st, v):
    return I.freeze(st, v)


def exits(I, fi, args, st, kwargs=None, selfv=None):
    """value graph of the call: the returned value, or ("raises", exception class), per case"""
    from sa.interp import Exit, Frame
    a2 = ([selfv] if selfv is not None else []) + list(args)
    env, ok = I.bind(fi, a2, kwargs or {}, st, None, None)
    I.frames.append(Frame(fi, fi.cls))
    n0 = len(st.pc)
    try:
        ex = I.block(fi.node.body, State(env, st.heap, st.over, st.pc))
    finally:
        I.frames.pop()
    outs = []
    for e in ex:
        if e.kind == "raise":
            val = mk("raises", exc_name(I, e.st, e.val))
            outs.append((e.st.pc[n0:], Exit("return", e.st, val)))
        else:
            outs.append((e.st.pc[n0:], Exit("return", e.st, e.val if e.kind == "return" else NONE)))
    r = I.fold(outs, st.pc)
    st.heap, st.over = r.st.heap, r.st.over
    return r.val if r.val is not None else NONE


def exc_name(I, st, v):
    h = I.h(st, v) if isinstance(v, N) else None
    if h is not None and h.k == "obj" and h.cls:
        return h.cls.name
    if isinstance(v, N) and v.op == "call":
        return v.a[0] if isinstance(v.a[0], str) else show(v.a[0])
    return show(v) if isinstance(v, N) else str(v)


def dispatch(chk, repo):
    fac = repo.classes.get("LayerFactory")
    vm = repo.modules.get("acetone_nnet.versioning.versioning")
    if fac is None or vm is None:
        chk.skip("dispatch", "factory class not found")
        return
    # registering and calling a factory
    I = Interp(repo)
    I.typed = True
    for n_known in (0, 1, 2):
        st = State()
        f = I.instantiate(fac, [const("Kind")], {}, st, label="factory")
        names = [NONE, const("a")][:n_known]
        reg, call = fac.find("register_implementation"), fac.find("__call__")
        if reg is None or call is None:
            chk.skip("dispatch", "factory methods not found")
            return
        for k, n in enumerate(names):
            I.call_fi(reg, [n, sym(f"impl{k}")], {}, st, selfv=f)
        # lookups
        for q in [NONE, const("a"), const("b")]:
            s2 = st.copy()
            v = exits(I, call, [sym("layer"), q], s2, selfv=f)
            v = I.freeze(s2, v)
            chk.count("factory lookups")
            w = f"lookup of {show(q)} among {[show(x) for x in names]}"
            if q in names:
                want = mk("call", sym(f"impl{names.index(q)}"), (sym("layer"), q), ())
            else:
                want = mk("raises", "builtins.KeyError")
            s, det = VC.decide(want, v)
            if s == "holds":
                chk.ok(w)
            elif v.op == "raises" and want.op == "raises":
                chk.ok(w)
            elif want.op == "raises" and v.op == "call" and v.a[0].op == "sym":       # an implementation of another name
                chk.bad("dispatch/unknown", f"{w}: {show(v)[:120]} instead of {show(want)[:120]}", f"{call.loc} {call.qual}")
            elif s == "differs" and (v.op in ("raises", "call", "const") and not (v.op == "call" and want.op == "call" and v.a[0] is want.a[0] and v.a[1] == want.a[1])):
                chk.bad("dispatch/" + ("unknown" if q not in names else "known"), f"{w}: {show(v)[:120]} instead of {show(want)[:120]}", f"{call.loc} {call.qual}")
            else:
                chk.skip(w, det)
        for q in names:
            s2 = st.copy()
            v = exits(I, reg, [q, sym("other")], s2, selfv=f)
            chk.count("duplicate registrations")
            w = f"second registration of {show(q)}"
            if v.op == "raises":
                chk.ok(w)
            elif v.op == "const":
                chk.bad("dispatch/duplicate", f"{w} is accepted", f"{reg.loc} {reg.qual}")
            else:
                chk.skip(w, show(v)[:100])
    # versioning(): every layer is replaced by its selected implementation and keeps its links
    fi = repo.lookup(vm, "versioning")
    def same_index(c, st):
        """the replacing layer has the index of the replaced one (first part of this check)"""
        if c.op == "cmp" and c.a[0] == "==":
            for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                if x.op == "attr" and x.a[1] == "idx" and x.a[0].op == "call" and isinstance(x.a[0].a[0], N) and x.a[0].a[0].op == "sym" and y.op == "const":
                    return int(x.a[0].a[0].a[0][len("factory"):]) + 5 == y.a[0]
        return None
    I = Interp(repo, opaque={"__call__"}, assume=same_index)
    I.typed = True
    L = repo.classes["Layer"]
    for sel in ([0, 1, 2], [2, 0], []):
        st = State()
        objs, news = [], []
        for k in range(3):
            objs.append(I.new(st, HObj(L, {"idx": const(k + 5), "name": const(f"Kind{k}"), **{a: sym(f"old{k}.{a}") for a in LINKS}}, sym(f"old{k}"))))
        lst = I.new_list(st, objs)
        vers = I.new_dict(st, {k + 5: sym(f"v{k}") for k in sel})
        table = I.new_dict(st, {f"Kind{k}": sym(f"factory{k}") for k in range(3)})
        I2 = I
        r = repo.lookup(vm, "implemented")
        key = ("g", r[1].name, id(r[2])) if isinstance(r, tuple) and r[0] not in ("ext",) else None
        if key is None:
            chk.skip("versioning", "table of factories not found")
            return
        I.gcache[key] = table
        I.gcache[("h",) + key] = st.heap[table.a[0]]
        v = I.call_fi(fi, [lst, vers], {}, st)
        for k in range(3):
            chk.count("layer replacements")
            new = I.item(v, const(k), st)
            w = f"layer {k} when implementations are chosen for {sel}"
            if k not in sel:
                if new is objs[k]:
                    chk.ok(w)
                elif new.op in ("call", "ref"):
                    chk.bad("versioning/kept", f"{w} is replaced by {show(I.freeze_small(st, new))[:100]}", f"{fi.loc} {fi.qual}")
                else:
                    chk.skip(w, show(new)[:100])
                continue
            want = I.freeze(st, mk("call", sym(f"factory{k}"), (objs[k], sym(f"v{k}")), ()), None, 1)
            raw, new = new, I.freeze(st, new, None, 1) if new not in objs else new
            if new is objs[k] or new in objs:
                chk.bad("versioning/replaced", f"{w} is not replaced by the selected implementation", f"{fi.loc} {fi.qual}")
                continue
            if new is not want:
                if new.op == "call" and new.a[0] in [sym(f"factory{j}") for j in range(3)]:
                    chk.bad("versioning/replaced", f"{w} becomes {show(new)[:120]}", f"{fi.loc} {fi.qual}")
                else:
                    chk.skip(w, show(new)[:120])
                continue
            for a in LINKS:
                x = I.freeze(st, I.attr(raw, a, st))
                s, det = VC.decide(sym(f"old{k}.{a}"), x)
                if s == "holds":
                    chk.ok(w + " keeps " + a)
                elif s == "differs" or x.op == "attr" and x.a[0] is new:
                    chk.bad(f"versioning/{a}", f"{w} does not keep the {a} of the layer it replaces: {show(x)[:100]}", f"{fi.loc} {fi.qual}")
                else:
                    chk.skip(w + " keeps " + a, det)


LINKS = ("path", "next_layer", "previous_layer", "output_str", "activation_function")


def selection(chk, repo):
    """choice by layer index first, then by kind, then the kind's default, then the registered default"""
    cls = repo.classes.get("CodeGenerator")
    fi = cls.find("select_layers_implementation") if cls else None
    if fi is None:
        chk.skip("selection", "not found")
        return
    L = repo.classes["Layer"]
    given = {"none": None, "empty": {}, "index": {3: sym("byidx")}, "kind": {"Kind": sym("bykind")}, "both": {3: sym("byidx"), "Kind": sym("bykind")}, "both, kind first": {"Kind": sym("bykind"), 3: sym("byidx")},
             "zero": {0: sym("byidx0")}, "other": {"Other": sym("o"), 17: sym("p")}}
    for dn, default in (("kind default", {"Kind": sym("default")}), ("no default", {"Else": sym("z")})):
        for gname, g in given.items():
            I = Interp(repo)
            I.typed = True
            st = State()
            objs = [I.new(st, HObj(L, {"idx": const(i), "name": const(n)}, sym(f"l{i}"))) for i, n in ((0, "Kind"), (3, "Kind"), (4, "Last"))]
            me = I.new(st, HObj(cls, {"layers": I.new_list(st, objs), "default_implementations": I.new_dict(st, dict(default))}, sym("gen")))
            v = I.call_fi(fi, [NONE if g is None else I.new_dict(st, dict(g))], {}, st, selfv=me)
            for i, n in ((0, "Kind"), (3, "Kind"), (4, "Last")):
                gg = g or {}
                want = gg[i] if i in gg else gg[n] if n in gg else default.get(n, NONE)
                x = I.freeze(st, I.item(v, const(i), st))
                chk.count("selections")
                w = f"choice for layer {i} ({n}) given {gname}, {dn}"
                s, det = VC.decide(want, x)
                if s == "holds":
                    chk.ok(w)
                elif s == "differs":
                    chk.bad(f"selection/{gname.replace(',', '')}", f"{w}: {det}", f"{fi.loc} {fi.qual}")
                else:
                    chk.skip(w, det)


CHECKS = {"C12": check}
