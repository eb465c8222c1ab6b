"""Small recursive-descent parser for the C subset found in the templates (with holes)."""
from __future__ import annotations

import re

from .mustache import HC, HO
from .nodes import show


class CError(Exception):
    pass


TYPES = {"int", "float", "double", "long", "short", "char", "unsigned", "signed", "void", "size_t", "static", "const",
         "struct", "extern", "inline", "bool", "register", "volatile", "restrict", "__restrict", "FILE", "clock_t",
         "inference_ctx_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t",
         "__m512i", "__m256i", "typedef", "enum", "union"}
TOK = re.compile(
    r"(?P<ws>\s+)|(?P<com>//[^\n]*|/\*.*?\*/)|(?P<pp>\#(?:[^\n\\]|\\.|\\\n)*)|(?P<str>\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*')"
    r"|(?P<id>(?:[A-Za-z_]|" + HO + r"\d+" + HC + r")(?:[A-Za-z0-9_]|" + HO + r"\d+" + HC + r")*)"
    r"|(?P<num>(?:0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?(?:[pP][-+]?\d+)?|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)[fFlLuU]*)"
    r"|(?P<op><<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[-+*/%&|^!~<>=?:;,.(){}\[\]])", re.S | re.M)
HOLE = re.compile(HO + r"(\d+)" + HC)


def lex(text, holes):
    toks = []
    pos, line = 0, 1
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise CError(f"line {line}: cannot lex {text[pos:pos+20]!r}")
        k, s = m.lastgroup, m.group()
        if k == "id":
            if HOLE.fullmatch(s):
                toks.append(("hole", holes[int(HOLE.fullmatch(s).group(1))], line))
            else:
                toks.append(("id", HOLE.sub(lambda h: "⟨" + show(holes[int(h.group(1))]) + "⟩", s), line))
        elif k not in ("ws", "com"):
            toks.append((k, s, line))
        line += s.count("\n")
        pos = m.end()
    toks.append(("eof", "", line))
    return toks


class P:
    def __init__(self, toks, types=()):
        self.t, self.i = toks, 0
        self.types = TYPES | set(types)
        self.pp = []

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def at(self, s):
        t = self.peek()
        return t[0] in ("op", "id") and t[1] == s

    def eat(self, s):
        if not self.at(s):
            t = self.peek()
            raise CError(f"line {t[2]}: expected {s!r}, found {t[1] if t[0] != 'hole' else show(t[1])!r}")
        self.i += 1

    def opt(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    # ---- statements
    def program(self):
        out = []
        while self.peek()[0] != "eof":
            out.append(self.stmt())
        return out

    def block(self):
        self.eat("{")
        out = []
        while not self.at("}"):
            if self.peek()[0] == "eof":
                raise CError("unclosed block")
            out.append(self.stmt())
        self.eat("}")
        return ("block", out, self.peek()[2])

    def is_type(self):
        t = self.peek()
        if t[0] == "id" and t[1] in self.types:
            return True
        # "<hole> ident" : a data type hole
        n = self.peek(1)
        if t[0] in ("hole", "id") and n[0] == "id" and n[1] not in ("else",) and (t[0] == "hole" or t[1] not in ("return", "goto", "else", "sizeof", "case")):
            return True
        if t[0] in ("hole",) and n[0] == "op" and n[1] == "*" and self.peek(2)[0] == "id" and self.peek(3)[1] in ("=", ";", ","):
            return True
        if t[0] == "id" and n[1] == "*" and self.peek(2)[0] == "id" and self.peek(3)[1] in ("=",) and t[1].endswith("_t"):
            return True
        return False

    def stmt(self):
        t = self.peek()
        ln = t[2]
        if t[0] == "pp":
            self.i += 1
            self.pp.append((t[1], ln))
            return ("pp", t[1], ln)
        if self.at("{"):
            return self.block()
        if self.opt(";"):
            return ("empty", ln)
        if t[0] == "id":
            if t[1] == "for":
                self.i += 1
                self.eat("(")
                init = None
                if not self.at(";"):
                    init = self.decl() if self.is_type() else ("expr", self.comma(), ln)
                    if init[0] == "expr":
                        self.eat(";")
                else:
                    self.eat(";")
                cond = None if self.at(";") else self.comma()
                self.eat(";")
                step = None if self.at(")") else self.comma()
                self.eat(")")
                return ("for", init, cond, step, self.stmt(), ln)
            if t[1] == "while":
                self.i += 1
                self.eat("(")
                c = self.comma()
                self.eat(")")
                return ("while", c, self.stmt(), ln)
            if t[1] == "do":
                self.i += 1
                b = self.stmt()
                self.eat("while")
                self.eat("(")
                c = self.comma()
                self.eat(")")
                self.opt(";")
                return ("dowhile", c, b, ln)
            if t[1] == "if":
                self.i += 1
                self.eat("(")
                c = self.comma()
                self.eat(")")
                a = self.stmt()
                b = self.stmt() if self.opt("else") else None
                return ("if", c, a, b, ln)
            if t[1] == "return":
                self.i += 1
                v = None if self.at(";") else self.comma()
                self.eat(";")
                return ("return", v, ln)
            if t[1] in ("break", "continue"):
                self.i += 1
                self.eat(";")
                return (t[1], ln)
        if self.is_type():
            return self.decl()
        e = self.comma()
        self.eat(";")
        return ("expr", e, ln)

    def typename(self):
        ty = []
        while True:
            t = self.peek()
            if t[0] == "id" and t[1] in self.types:
                ty.append(t[1])
                self.i += 1
                if t[1] in ("struct", "enum", "union"):
                    ty.append(self.peek()[1])
                    self.i += 1
            elif not [x for x in ty if x not in ("static", "const", "extern", "inline", "volatile", "register")] and t[0] in ("hole", "id"):
                ty.append(t[1] if t[0] == "id" else "⟨" + show(t[1]) + "⟩")
                self.i += 1
            else:
                return " ".join(ty)

    def decl(self):
        ln = self.peek()[2]
        ty = self.typename()
        if self.at("{"):      # struct definition
            depth = 0
            fields = []
            self.eat("{")
            while not self.at("}"):
                fields.append(self.stmt())
            self.eat("}")
            names = []
            while not self.at(";"):
                names.append(self.peek()[1]); self.i += 1
            self.eat(";")
            return ("struct", ty, fields, names, ln)
        items = []
        while True:
            ptr = 0
            while self.opt("*"):
                ptr += 1
                while self.peek()[1] in ("restrict", "const", "__restrict"):
                    self.i += 1
            t = self.peek()
            name = t[1] if t[0] == "id" else ("⟨" + show(t[1]) + "⟩" if t[0] == "hole" else None)
            if name is None:
                if self.at("("):
                    raise CError(f"line {ln}: function pointer declarator")
                raise CError(f"line {ln}: declarator expected, found {t[1]!r}")
            self.i += 1
            if self.at("("):        # function prototype / definition
                self.eat("(")
                params = []
                depth = 1
                cur = []
                while depth:
                    x = self.peek()
                    if x[0] == "eof":
                        raise CError("eof in parameters")
                    self.i += 1
                    if x[1] == "(":
                        depth += 1
                    elif x[1] == ")":
                        depth -= 1
                        if not depth:
                            break
                    if x[1] == "," and depth == 1:
                        params.append(cur); cur = []
                    else:
                        cur.append(x)
                if cur:
                    params.append(cur)
                pn = [p[-1][1] if p[-1][0] == "id" else next((y[1] for y in reversed(p) if y[0] == "id"), "") for p in params]
                while self.peek()[0] == "id" and self.peek()[1].startswith("__"):
                    self.i += 1
                    if self.at("("):
                        self.skip_parens()
                if self.at("{"):
                    b = self.block()
                    return ("func", ty, name, pn, b, ln)
                self.eat(";")
                return ("proto", ty, name, pn, ln)
            dims = []
            while self.opt("["):
                dims.append(None if self.at("]") else self.comma())
                self.eat("]")
            while self.peek()[0] == "id" and self.peek()[1].startswith("__"):
                self.i += 1
                if self.at("("):
                    self.skip_parens()
            init = None
            if self.opt("="):
                init = self.initlist() if self.at("{") else self.assign()
            items.append((name, ptr, dims, init))
            if not self.opt(","):
                break
        self.eat(";")
        return ("decl", ty, items, ln)

    def skip_parens(self):
        self.eat("(")
        d = 1
        while d:
            x = self.peek()
            self.i += 1
            if x[1] == "(":
                d += 1
            elif x[1] == ")":
                d -= 1
            elif x[0] == "eof":
                raise CError("eof")

    def initlist(self):
        self.eat("{")
        out = []
        while not self.at("}"):
            if self.at("."):
                self.eat(".")
                self.i += 1
                self.eat("=")
            out.append(self.initlist() if self.at("{") else self.assign())
            if not self.opt(","):
                break
        self.eat("}")
        return ("init", out)

    # ---- expressions
    def comma(self):
        e = self.assign()
        while self.at(","):
            self.eat(",")
            e = ("comma", e, self.assign())
        return e

    def assign(self):
        l = self.ternary()
        t = self.peek()
        if t[0] == "op" and t[1] in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="):
            self.i += 1
            return ("assign", t[1], l, self.assign(), t[2])
        return l

    def ternary(self):
        c = self.binary(0)
        if self.opt("?"):
            a = self.assign()
            self.eat(":")
            b = self.assign()
            return ("tern", c, a, b)
        return c

    LV = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]

    def binary(self, lv):
        if lv == len(self.LV):
            return self.unary()
        l = self.binary(lv + 1)
        while self.peek()[0] == "op" and self.peek()[1] in self.LV[lv]:
            o = self.peek()[1]
            self.i += 1
            l = ("bin", o, l, self.binary(lv + 1))
        return l

    def unary(self):
        t = self.peek()
        if t[0] == "op" and t[1] in ("-", "+", "!", "~", "*", "&"):
            self.i += 1
            return ("un", t[1], self.unary())
        if t[0] == "op" and t[1] in ("++", "--"):
            self.i += 1
            return ("pre", t[1], self.unary())
        if t[0] == "id" and t[1] == "sizeof":
            self.i += 1
            self.skip_parens()
            return ("sizeof",)
        if t[0] == "op" and t[1] == "(":
            # cast?
            n = self.peek(1)
            if (n[0] == "id" and n[1] in self.types):
                j = self.i
                self.i += 1
                ty = self.typename()
                while self.opt("*"):
                    ty += "*"
                    while self.peek()[1] in ("restrict", "const", "__restrict"):
                        self.i += 1
                if self.opt(")"):
                    return ("cast", ty, self.unary())
                self.i = j
            elif n[0] in ("hole", "id") and self.peek(2)[1] in ("*", "restrict") and self._ptrcast():
                j = self.i
                self.i += 1
                ty = n[1] if n[0] == "id" else "⟨" + show(n[1]) + "⟩"
                self.i += 1
                while self.peek()[1] in ("*", "restrict", "const", "__restrict"):
                    ty += "*" if self.peek()[1] == "*" else ""
                    self.i += 1
                self.eat(")")
                return ("cast", ty, self.unary())
            elif n[0] in ("hole", "id") and self.peek(2)[1] == ")" and self.peek(3)[0] in ("id", "num", "hole") or \
                    (n[0] in ("hole", "id") and self.peek(2)[1] == ")" and self.peek(3)[1] == "(" and n[0] == "hole"):
                ty = n[1] if n[0] == "id" else "⟨" + show(n[1]) + "⟩"
                self.i += 3
                return ("cast", ty, self.unary())
        return self.postfix()

    def _ptrcast(self):
        j = 2
        while self.peek(j)[1] in ("*", "restrict", "const", "__restrict"):
            j += 1
        return self.peek(j)[1] == ")"

    def postfix(self):
        e = self.primary()
        while True:
            if self.opt("["):
                i = self.comma()
                self.eat("]")
                e = ("idx", e, i)
            elif self.opt("("):
                a = []
                while not self.at(")"):
                    a.append(self.assign())
                    if not self.opt(","):
                        break
                self.eat(")")
                e = ("call", e, a)
            elif self.at("->") or self.at("."):
                self.i += 1
                t = self.peek()
                self.i += 1
                e = ("field", e, t[1] if t[0] == "id" else "⟨" + show(t[1]) + "⟩")
            elif self.at("++") or self.at("--"):
                o = self.peek()[1]
                self.i += 1
                e = ("post", o, e)
            else:
                return e

    def primary(self):
        t = self.peek()
        self.i += 1
        if t[0] == "num":
            if t[1].lower().startswith("0x") and "p" in t[1].lower():
                return ("num", float.fromhex(t[1].rstrip("fFlL") if t[1].lower().count("f", t[1].lower().index("p")) else t[1]), t[1])
            s = t[1].rstrip("fFlLuU") if not t[1].lower().startswith("0x") else t[1].rstrip("lLuU")
            try:
                v = int(s, 0)
            except ValueError:
                v = float(s)
            if "." in t[1] and isinstance(v, float) is False:
                v = float(s)
            return ("num", v, t[1])
        if t[0] == "id":
            return ("id", t[1])
        if t[0] == "hole":
            return ("hole", t[1])
        if t[0] == "str":
            return ("str", t[1])
        if t[0] == "op" and t[1] == "(":
            e = self.comma()
            self.eat(")")
            return e
        raise CError(f"line {t[2]}: unexpected {t[1]!r}")


def parse(text, holes, types=()):
    return P(lex(text, holes), types).program()


def parse_expr(text, holes):
    p = P(lex(text, holes))
    e = p.comma()
    if p.peek()[0] != "eof":
        raise CError("trailing text in expression")
    return e
