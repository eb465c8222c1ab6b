"""C05: activation functions - one meaning in Python, in C and in every place the C text is put."""
from sa import actcheck as K
from sa import cparse as C
from sa import identity, opcheck as OC
from sa.repo import Repo

RULE = ("for every activation class: the normal form of the C text written for an operand, the normal form of the Python computation and the definition of the function are equal; exponentials of a saturating "
        "function are only taken of arguments its guard keeps non-positive; and in every emitted layer the parse tree with the text put in place of the operand equals the tree with text and operand parenthesised "
        "(or both trees have the same effect)")


NAMES = {"fmax", "fmin", "fmaxf", "fminf", "fabs", "fabsf", "exp", "expf", "log", "logf", "tanh", "tanhf", "pow", "powf", "sqrt", "sqrtf", *K.FLOATS, "x"}


def identifiers(t):
    out = set()

    def w(n):
        if isinstance(n, tuple) and n and n[0] == "id" and len(n) == 2:
            out.add(n[1])
        elif isinstance(n, (tuple, list)):
            for y in n:
                w(y)
    w(C.parse("y = " + t.replace(K.X, "x") + ";", {}))
    return out - {"y"}


def activations(chk):
    repo = Repo()
    chk.rule = RULE
    chk.assumptions = ["float arithmetic is taken over the reals", "constructor parameters are finite numbers"]
    from spec import activations as SP
    acts = []
    cases = [(cls, given, f) for cls in K.classes(repo) for given, f in [(None, None)] + SP.INFINITE.get(cls.name, [])]
    for cls, given, formula in cases:
        name = cls.name + ("".join(f" {k}={v}" for k, v in (given or {}).items()))
        fi = cls.find("write_activation_str")
        fp = cls.find("compute")
        try:
            texts = K.texts(repo, cls, given)
        except C.CError as e:
            chk.skip(name, f"text not derived: {e}"[:200])
            continue
        spec = K.spec_effect(cls, formula)
        ref = None
        for val, t in texts:
            what = f"C text of {name} {val.show()}".strip()
            chk.count("activation texts")
            try:
                e = K.c_effect(t)
            except Exception as x:
                chk.skip(what, repr(x)[:200])
                continue
            ref = e
            undeclared = identifiers(t) - {"INFINITY", "HUGE_VAL", "HUGE_VALF", *NAMES}
            if undeclared and given:
                chk.bad(f"{cls.name}/C", f"{what} names {sorted(undeclared)}, which C does not define", f"{fi.loc} {fi.qual}")
                continue
            if len(texts) == 1 and not given:
                acts.append((cls.name, t))
            if spec is None:
                chk.skip(what, "no definition")
            else:
                st, kind, det = OC.compare(spec[1], e[1], spec[0].stores, e[0].stores)
                if st == "holds":
                    chk.ok(what)
                elif st == "differs":
                    chk.bad(f"{cls.name}/C", f"{what} is not the function: {det}", f"{fi.loc} {fi.qual}", fp=[round(x, 6) for x in (identity.fingerprint(e[0].stores, "out", OC.POSITIVE, OC.NONNEG, K.FLOATS) or [])])
                else:
                    chk.skip(what, det)
            if cls.name in SP.SATURATING:
                tree = C.parse("y = " + t.replace(K.X, "x") + ";", {})
                bad = K.unsafe_exponentials(("blk", tree))
                if bad:
                    chk.bad(f"{cls.name}/overflow", f"C text of {cls.name} takes the exponential of an unbounded multiple ({bad[0][0]:g}) of its operand, which overflows for large operands", f"{fi.loc} {fi.qual}")
                else:
                    chk.ok(f"guarded exponentials of {cls.name}")
        target = spec or ref
        for val, e in K.py_effects(repo, cls, given):
            what = f"Python computation of {name} {val.show()}".strip()
            chk.count("activation computations")
            if target is None or isinstance(e, Exception):
                chk.skip(what, repr(e)[:200])
                continue
            st, kind, det = OC.compare(target[1], [e], target[0].stores, {"out": [e]})
            if st == "holds":
                chk.ok(what)
            elif st == "differs":
                chk.bad(f"{cls.name}/python", f"{what} is not the function: {det}", f"{fp.loc} {fp.qual}")
            else:
                chk.skip(what, det)
    for m, val, name, st, det in K.in_place(repo, acts):
        chk.count("activation texts in place")
        what = f"{name} in {m.cls.name} [{m.scenario}] {val.show()}".strip()
        if st == "holds":
            chk.ok(what)
        elif st == "differs":
            g = m.cls.find("generate_inference_code_layer")
            chk.bad(f"{m.cls.name}[{m.scenario}]/{name}", f"the text of {name} does not bind as one operand where {m.cls.name} [{m.scenario}] puts it: {det}", f"{g.loc} {g.qual}")
        else:
            chk.skip(what, det)


CHECKS = {"C05": activations}
