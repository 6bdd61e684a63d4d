"""Reference parser for check expressions, written from the grammar."""
import re
from fractions import Fraction

TOK = re.compile(r'\s*(?:(?P<dec>\d+\.\d+)|(?P<int>\d+)|'
                 r'(?P<str>"(?:[^"\\]|\\.)*")|'
                 r'(?P<id>[A-Za-z][A-Za-z0-9_]*)|'
                 r'(?P<op>\.\.|=>|==|!=|<=|>=|\*\*|[-+*/%<>()\[\],.]))')
KW = {"abs", "and", "or", "xor", "implies", "not", "in", "if", "then",
      "elsif", "else", "forall", "exists", "true", "false", "null"}
FUNCS = {"len", "startswith", "endswith", "matches", "oneof", "Integer",
         "Decimal"}


class Bad(Exception):
    pass


def tokens(text):
    out = []
    pos = 0
    text = text.rstrip()
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise Bad("lex")
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


class P:
    def __init__(self, toks, enums):
        self.t = toks
        self.i = 0
        self.enums = enums

    def nx(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", "")

    def isw(self, *ws):
        k, v = self.nx()
        return k in ("op", "id") and v in ws and (k == "op" or v in KW)

    def eat(self, w=None):
        k, v = self.nx()
        if w is not None and not self.isw(w):
            raise Bad("expected %s" % w)
        if k == "end":
            raise Bad("end")
        self.i += 1
        return v

    def ident(self):
        k, v = self.nx()
        if k != "id" or v in KW:
            raise Bad("identifier")
        self.i += 1
        return v

    def expr(self):
        a = self.rel()
        if self.isw("and", "or"):
            op = self.nx()[1]
            while self.isw(op):
                self.eat()
                a = ("bin", op, a, self.rel())
        elif self.isw("xor", "implies"):
            op = self.eat()
            a = ("bin", op, a, self.rel())
        return a

    def rel(self):
        a = self.simple()
        if self.isw("==", "!=", "<", "<=", ">", ">="):
            op = self.eat()
            return ("bin", op, a, self.simple())
        if self.isw("not", "in"):
            neg = self.isw("not")
            if neg:
                self.eat()
            self.eat("in")
            b = self.simple()
            if self.isw(".."):
                self.eat()
                return ("range", not neg, a, b, self.simple())
            return ("notin", a, b) if neg else ("bin", "in", a, b)
        return a

    def simple(self):
        sign = self.eat() if self.isw("+", "-") else None
        a = self.term()
        if sign:
            a = ("un", sign, a)
        while self.isw("+", "-"):
            op = self.eat()
            a = ("bin", op, a, self.term())
        return a

    def term(self):
        a = self.factor()
        while self.isw("*", "/", "%"):
            op = self.eat()
            a = ("bin", op, a, self.factor())
        return a

    def factor(self):
        if self.isw("not", "abs"):
            op = self.eat()
            return ("un", op, self.primary())
        a = self.primary()
        if self.isw("**"):
            self.eat()
            a = ("bin", "**", a, self.primary())
        return a

    def primary(self):
        k, v = self.nx()
        if k == "int":
            self.i += 1
            return ("int", int(v))
        if k == "dec":
            self.i += 1
            return ("dec", Fraction(v))
        if k == "str":
            self.i += 1
            return ("str", v[1:-1].replace('\\"', '"'))
        if self.isw("true", "false"):
            return ("bool", self.eat() == "true")
        if self.isw("null"):
            self.eat()
            return ("null",)
        if self.isw("("):
            self.eat()
            if self.isw("forall", "exists"):
                a = self.quant()
            elif self.isw("if"):
                a = self.cond()
            else:
                a = self.expr()
            self.eat(")")
            return a
        return self.name()

    def quant(self):
        univ = self.eat() == "forall"
        var = self.ident()
        self.eat("in")
        src = self.ident()
        self.eat("=>")
        return ("quant", univ, var, src, self.expr())

    def cond(self):
        acts = []
        self.eat("if")
        while True:
            c = self.expr()
            self.eat("then")
            acts.append((c, self.expr()))
            if self.isw("elsif"):
                self.eat()
                continue
            self.eat("else")
            return ("if", acts, self.expr())

    def name(self):
        n = self.ident()
        if self.isw("("):
            if n not in FUNCS:
                raise Bad("function")
            self.eat()
            args = []
            while True:
                args.append(self.expr())
                if self.isw(","):
                    self.eat()
                    continue
                break
            self.eat(")")
            return ("call", n, args)
        if n in self.enums:
            self.eat(".")
            return ("enum", n, self.ident())
        a = ("name", n)
        while self.isw(".", "["):
            if self.eat() == ".":
                a = ("field", a, self.ident())
            else:
                x = self.expr()
                self.eat("]")
                a = ("index", a, x)
        return a


def parse(text, enums):
    p = P(tokens(text), enums)
    e = p.expr()
    if p.i != len(p.t):
        raise Bad("trailing")
    return e
