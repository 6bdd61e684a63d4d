"""Reference semantics of the check language, independent of the code.

Written from the language reference manual: types, typing rules,
evaluation, and rendering of expressions with minimal brackets.
Expressions are tuples ("kind", ...).
"""
import random
import re
from fractions import Fraction

INT, DEC, BOOL, STR, MU = ("Integer", "Decimal", "Boolean", "String",
                           "Markup_String")
NUM = (INT, DEC)
STRS = (STR, MU)


class Reject(Exception):
    """Expression is not accepted by the static rules"""


class RunErr(Exception):
    """Evaluation reports an error; kind: null|div|index|static"""

    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


# ------------------------------------------------------------------ schema
class Comp:
    def __init__(self, name, typ, optional=False, text=None):
        self.name = name
        self.typ = typ
        self.optional = optional
        self.text = text


class Schema:
    """Types of the test package"""

    def __init__(self):
        self.enums = {"Ea": ["e1", "e2", "e3"], "Fa": ["f1", "e1"]}
        self.tuples = {
            "G": ([Comp("gx", INT), Comp("gy", DEC)], None),
            "S": ([Comp("sx", INT), Comp("sy", INT, True),
                   Comp("sz", STR, True)], ["@", ":"]),
            "H": ([Comp("hg", ("tuple", "G")), Comp("hb", BOOL),
                   Comp("he", ("enum", "Ea"))], None),
        }
        self.records = {}     # name -> (parent, [Comp])
        self.records["B"] = (None, [
            Comp("x", INT), Comp("o", INT, True),
            Comp("nx", ("rec", "B"), True), Comp("bg", ("tuple", "G"), True)])
        self.records["C"] = ("B", [Comp("z", DEC), Comp("cs", STR, True)])
        self.records["D"] = ("C", [Comp("w", STR)])
        self.records["W"] = (None, [
            Comp("w", INT), Comp("x", INT), Comp("k", BOOL, True)])
        self.records["V"] = (None, [Comp("y", BOOL)])
        arr = lambda c, e, lo, hi: ("array", c, e, lo, hi)
        uni = lambda c, *m: ("union", c, m)
        self.uni_au = uni("au", "B", "W")
        T = [
            Comp("i", INT), Comp("j", INT, True), Comp("k", INT),
            Comp("d", DEC), Comp("e", DEC, True),
            Comp("b", BOOL), Comp("c", BOOL, True),
            Comp("s", STR), Comp("t", STR, True), Comp("m", MU, True),
            Comp("en", ("enum", "Ea")), Comp("em", ("enum", "Ea"), True),
            Comp("ef", ("enum", "Fa")),
            Comp("ai", arr("ai", INT, 0, None)),
            Comp("aj", arr("aj", INT, 1, 3), True),
            Comp("ad", arr("ad", DEC, 0, 4)),
            Comp("ab", arr("ab", BOOL, 0, 3)),
            Comp("ax", arr("ax", STR, 0, 3)),
            Comp("ae", arr("ae", ("enum", "Ea"), 0, 3)),
            Comp("ag", arr("ag", ("tuple", "G"), 0, 3)),
            Comp("as_", arr("as_", ("tuple", "S"), 0, 3)),
            Comp("ar", arr("ar", ("rec", "B"), 0, 3)),
            Comp("au", arr("au", self.uni_au, 0, 3)),
            Comp("a0", arr("a0", INT, 0, 0)),
            Comp("r", ("rec", "B")), Comp("q", ("rec", "C"), True),
            Comp("p", ("rec", "W")), Comp("vv", ("rec", "V"), True),
            Comp("u", uni("u", "B", "W")),
            Comp("v", uni("v", "C", "W"), True),
            Comp("g", ("tuple", "G")), Comp("h", ("tuple", "H"), True),
            Comp("sp", ("tuple", "S"), True),
        ]
        self.records["T"] = (None, T)
        self.init()

    def init(self):
        self.tcomp = {c.name: c for c in self.all_comps("T")}

    def all_comps(self, rec):
        parent, cs = self.records[rec]
        return (self.all_comps(parent) if parent else []) + cs

    def is_sub(self, a, b):
        while a is not None:
            if a == b:
                return True
            a = self.records[a][0]
        return False

    def tname(self, t):
        if isinstance(t, str):
            return t
        if t[0] in ("enum", "tuple", "rec"):
            return t[1]
        if t[0] == "union":
            return "[%s]" % ", ".join(t[2])
        raise KeyError(t)

    def comp_text(self, c):
        t = c.typ
        s = "  %s %s" % (c.name, "optional " if c.optional else "")
        if t[0] == "array":
            return s + "%s [%d .. %s]" % (
                self.tname(t[2]), t[3], "*" if t[4] is None else t[4])
        return s + self.tname(t)

    def text(self, pkg="Pkg"):
        out = ["package %s" % pkg]
        for n, ls in self.enums.items():
            out.append("enum %s { %s }" % (n, " ".join(ls)))
        for n, (fs, seps) in self.tuples.items():
            out.append("tuple %s {" % n)
            for k, f in enumerate(fs):
                if k and seps:
                    out.append("  separator %s" % seps[k - 1])
                out.append(self.comp_text(f))
            out.append("}")
        for n, (parent, cs) in self.records.items():
            out.append("type %s %s{" % (n, "extends %s " % parent
                                        if parent else ""))
            for c in cs:
                out.append(self.comp_text(c))
            out.append("}")
        return "\n".join(out) + "\n"

    def union_fields(self, t):
        """field -> (type or None if conflicting, #members having it)"""
        out = {}
        for mname in t[2]:
            for c in self.all_comps(mname):
                if c.name in out:
                    ty, n = out[c.name]
                    out[c.name] = (ty if ty == c.typ else None, n + 1)
                else:
                    out[c.name] = (c.typ, 1)
        return out


# ------------------------------------------------------------------- typing
def fields_of(sch, t):
    if t[0] == "tuple":
        return {c.name: c.typ for c in sch.tuples[t[1]][0]}
    if t[0] == "rec":
        return {c.name: c.typ for c in sch.all_comps(t[1])}
    return None


def members(t):
    return t[2] if t[0] == "union" else (t[1],)


def related(sch, a, b):
    return any(sch.is_sub(x, y) or sch.is_sub(y, x)
               for x in members(a) for y in members(b))


def is_rec(t):
    return t is not None and t[0] in ("rec", "union")


def need(cond):
    if not cond:
        raise Reject()


class Typer:
    def __init__(self, sch):
        self.sch = sch

    def typ(self, e, env):
        """env: quantified variables -> type.  Returns type, None = null"""
        return getattr(self, "t_" + e[0])(e, env)

    def t_int(self, e, env):
        return INT

    def t_dec(self, e, env):
        return DEC

    def t_str(self, e, env):
        return STR

    def t_bool(self, e, env):
        return BOOL

    def t_null(self, e, env):
        return None

    def t_enum(self, e, env):
        need(e[1] in self.sch.enums and e[2] in self.sch.enums[e[1]])
        return ("enum", e[1])

    def t_name(self, e, env):
        if e[1] in env:
            return env[e[1]]
        need(e[1] in self.sch.tcomp)
        return self.sch.tcomp[e[1]].typ

    def t_field(self, e, env):
        t = self.typ(e[1], env)
        need(t is not None and t[0] in ("tuple", "rec", "union"))
        if t[0] == "union":
            fm = self.sch.union_fields(t)
            need(e[2] in fm and fm[e[2]][0] is not None)
            return fm[e[2]][0]
        fs = fields_of(self.sch, t)
        need(e[2] in fs)
        return fs[e[2]]

    def t_index(self, e, env):
        t = self.typ(e[1], env)
        need(t is not None and t[0] == "array")
        need(self.typ(e[2], env) == INT)
        return t[2]

    def t_un(self, e, env):
        t = self.typ(e[2], env)
        if e[1] == "not":
            need(t == BOOL)
            return BOOL
        need(t in NUM)
        return t

    def t_call(self, e, env):
        fn, args = e[1], e[2]
        ts = [self.typ(a, env) for a in args]
        if fn == "len":
            need(len(ts) == 1)
            need(ts[0] in STRS or (ts[0] is not None and
                                   ts[0][0] == "array"))
            return INT
        if fn in ("startswith", "endswith"):
            need(len(ts) == 2 and all(t in STRS for t in ts))
            return BOOL
        if fn == "matches":
            need(len(ts) == 2 and all(t in STRS for t in ts))
            v = self.static(args[1])
            try:
                re.compile(v)
            except re.error as err:
                raise Reject() from err
            return BOOL
        if fn == "oneof":
            need(len(ts) >= 1 and all(t == BOOL for t in ts))
            return BOOL
        if fn in (INT, DEC):
            need(len(ts) == 1 and ts[0] in NUM)
            return fn
        raise Reject()

    def static(self, e):
        try:
            return Evaluator(self.sch, None, None).ev(e, None)
        except RunErr as err:
            raise Reject() from err

    def t_bin(self, e, env):
        op = e[1]
        if op == "**":
            a = self.typ(e[2], env)
            b = self.typ(e[3], env)
            need(a in NUM and b == INT)
            v = self.static(e[3])
            need(v is not None and v >= 0)
            return a
        a, b = self.typ(e[2], env), self.typ(e[3], env)
        if op in ("and", "or", "xor", "implies"):
            need(a == BOOL and b == BOOL)
            return BOOL
        if op in ("==", "!="):
            if a is None or b is None:
                return BOOL
            if is_rec(a) or is_rec(b):
                need(is_rec(a) and is_rec(b) and related(self.sch, a, b))
                return BOOL
            need(a == b)
            return BOOL
        if op in ("<", "<=", ">", ">="):
            need(a in NUM and a == b)
            return BOOL
        if op == "in":
            need(b is not None)
            if b in STRS:
                need(a in STRS)
                return BOOL
            need(b[0] == "array")
            et = b[2]
            need(a is not None)
            if et in STRS:
                need(a in STRS if et == STR else a == MU)
            elif et[0] == "rec":
                need(a[0] == "rec" and related(self.sch, a, et))
            elif et[0] == "union":
                need(a[0] == "union" and related(self.sch, a, et))
            else:
                need(a == et)
            return BOOL
        if op == "+":
            if a in NUM:
                need(a == b)
                return a
            need(a in STRS and b in STRS)
            return STR
        if op in ("-", "*", "/"):
            need(a in NUM and a == b)
            return a
        if op == "%":
            need(a == INT and b == INT)
            return INT
        raise Reject()

    def t_range(self, e, env):
        ts = [self.typ(x, env) for x in e[2:]]
        need(ts[0] in NUM and ts[0] == ts[1] == ts[2])
        return BOOL

    def t_notin(self, e, env):
        return self.t_bin(("bin", "in", e[1], e[2]), env)

    def t_if(self, e, env):
        rt = None
        for k, (c, x) in enumerate(e[1]):
            need(self.typ(c, env) == BOOL)
            t = self.typ(x, env)
            need(t is not None)
            if k == 0:
                rt = t
            need(t == rt)
        t = self.typ(e[2], env)
        need(t is not None and t == rt)
        return rt

    def t_quant(self, e, env):
        _, _, var, src, body = e
        need(var not in env and var not in self.sch.tcomp)
        need(src in self.sch.tcomp and src not in env)
        t = self.sch.tcomp[src].typ
        need(t[0] == "array")
        env = dict(env)
        env[var] = t[2]
        need(self.typ(body, env) == BOOL)
        return BOOL


# --------------------------------------------------------------- evaluation
def rem(x, y):
    r = abs(x) % abs(y)
    return -r if x < 0 else r


def away(x):
    n, d = abs(x).numerator, abs(x).denominator
    q, r = divmod(n, d)
    if 2 * r >= d:
        q += 1
    return -q if x < 0 else q


class Evaluator:
    """objs: object name -> (type, {comp: value}); fields of the object"""

    def __init__(self, sch, objs, fields):
        self.sch = sch
        self.objs = objs
        self.fields = fields
        self.tenv = {}
        self.typer = Typer(sch)

    def nn(self, v):
        if v is None:
            raise RunErr("null")
        return v

    def ev(self, e, env):
        return getattr(self, "e_" + e[0])(e, env)

    def e_int(self, e, env):
        return e[1]

    e_dec = e_str = e_bool = e_int

    def e_null(self, e, env):
        return None

    def e_enum(self, e, env):
        return ("enum", e[1], e[2])

    def e_name(self, e, env):
        if env is None:
            raise RunErr("static")
        if e[1] in env:
            return env[e[1]]
        return self.fields[e[1]]

    def e_field(self, e, env):
        v = self.nn(self.ev(e[1], env))
        if v[0] == "tup":
            return v[2][e[2]]
        typ, fs = self.objs[v[1]]
        if e[2] not in fs:
            return None
        st = self.typer.typ(e[1], self.tenv)
        if st[0] == "union":
            # an unrelated component of an extension is not meant
            have = {c.name: c.typ for c in self.sch.all_comps(typ)}
            if have[e[2]] != self.sch.union_fields(st)[e[2]][0]:
                return None
        return fs[e[2]]

    def e_index(self, e, env):
        a = self.nn(self.ev(e[1], env))
        i = self.nn(self.ev(e[2], env))
        if i < 0 or i >= len(a[1]):
            raise RunErr("index")
        return a[1][i]

    def e_un(self, e, env):
        v = self.nn(self.ev(e[2], env))
        if e[1] == "not":
            return not v
        if e[1] == "-":
            return -v
        if e[1] == "abs":
            return v if v >= 0 else -v
        return v

    def e_call(self, e, env):
        fn, args = e[1], e[2]
        vs = []
        for a in args:
            vs.append(self.nn(self.ev(a, env)))
        if fn == "len":
            return len(vs[0]) if isinstance(vs[0], str) else len(vs[0][1])
        if fn == "startswith":
            return vs[0][:len(vs[1])] == vs[1]
        if fn == "endswith":
            return vs[1] == "" or vs[0][-len(vs[1]):] == vs[1]
        if fn == "matches":
            return re.match(vs[1], vs[0]) is not None
        if fn == "oneof":
            return sum(1 for v in vs if v) == 1
        if fn == INT:
            return away(vs[0]) if isinstance(vs[0], Fraction) else vs[0]
        return Fraction(vs[0])

    def eq(self, a, b):
        """values; arrays and tuples by content, references by identity"""
        if a is None or b is None:
            return a is None and b is None
        return a == b

    def e_bin(self, e, env):
        op = e[1]
        a = self.ev(e[2], env)
        if op in ("==", "!="):
            r = self.eq(a, self.ev(e[3], env))
            return r if op == "==" else not r
        self.nn(a)
        if op in ("and", "or", "implies"):
            if op == "and" and not a:
                return False
            if op == "or" and a:
                return True
            if op == "implies" and not a:
                return True
            return self.nn(self.ev(e[3], env))
        b = self.nn(self.ev(e[3], env))
        if op == "xor":
            return a != b
        if op == "<":
            return a < b
        if op == "<=":
            return a <= b
        if op == ">":
            return a > b
        if op == ">=":
            return a >= b
        if op == "in":
            if isinstance(b, str):
                return b.find(a) >= 0
            return any(self.eq(a, x) for x in b[1])
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise RunErr("div")
            if isinstance(a, Fraction):
                return Fraction(a.numerator * b.denominator,
                                a.denominator * b.numerator)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0) and q * abs(b) != abs(a):
                return -q - 1
            return q if (a < 0) == (b < 0) else -q
        if op == "%":
            if b == 0:
                raise RunErr("div")
            return rem(a, b)
        if op == "**":
            r = a if b else (Fraction(1) if isinstance(a, Fraction) else 1)
            for _ in range(b - 1):
                r = r * a
            return r
        raise KeyError(op)

    def e_range(self, e, env):
        x, lo, hi = [self.nn(self.ev(k, env)) for k in e[2:]]
        r = x >= lo and x <= hi
        return r if e[1] else not r

    def e_notin(self, e, env):
        return not self.e_bin(("bin", "in", e[1], e[2]), env)

    def e_if(self, e, env):
        for c, x in e[1]:
            if self.nn(self.ev(c, env)):
                return self.ev(x, env)
        return self.ev(e[2], env)

    def e_quant(self, e, env):
        _, univ, var, src, body = e
        if env is None:
            raise RunErr("static")
        a = self.nn(self.fields[src])
        self.tenv[var] = self.sch.tcomp[src].typ[2]
        for x in a[1]:
            env2 = dict(env)
            env2[var] = x
            r = self.nn(self.ev(body, env2))
            if r != univ:
                return not univ
        return univ


# ---------------------------------------------------------------- rendering
# levels: 0 expression, 1 relation, 2 simple, 3 term, 4 factor, 5 primary
def dec_text(fr):
    """decimal literal text of a non-negative fraction with 2^a5^b denom"""
    n, d = fr.numerator, fr.denominator
    k = 0
    while d != 1:
        n *= 10
        k += 1
        from math import gcd
        g = gcd(n, d)
        n //= g
        d //= g
        if k > 40:
            raise ValueError(fr)
    s = str(n)
    if k == 0:
        return s + ".0"
    s = s.rjust(k + 1, "0")
    return s[:-k] + "." + s[-k:]


def str_text(s):
    return '"%s"' % s.replace('"', '\\"')


def render(e, lvl=0, spec=None):
    """text with exactly the brackets the grammar requires"""
    t, l = _render(e)
    if l < lvl:
        return "(%s)" % t
    return t


def _render(e):
    k = e[0]
    if k == "int":
        return str(e[1]), 5
    if k == "dec":
        return dec_text(e[1]), 5
    if k == "str":
        return str_text(e[1]), 5
    if k == "bool":
        return ("true" if e[1] else "false"), 5
    if k == "null":
        return "null", 5
    if k == "enum":
        return "%s.%s" % (e[1], e[2]), 5
    if k == "name":
        return e[1], 5
    if k == "field":
        return "%s.%s" % (render(e[1], 5), e[2]), 5
    if k == "index":
        return "%s[%s]" % (render(e[1], 5), render(e[2], 0)), 5
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(render(a, 0) for a in e[2])), 5
    if k == "un":
        if e[1] in ("not", "abs"):
            return "%s %s" % (e[1], render(e[2], 5)), 4
        # a sign applies to a whole term and starts a simple expression
        return "%s%s" % (e[1], render(e[2], 3)), 2
    if k == "bin":
        op = e[1]
        if op == "**":
            return "%s ** %s" % (render(e[2], 5), render(e[3], 5)), 4
        if op in ("*", "/", "%"):
            return "%s %s %s" % (render(e[2], 3), op, render(e[3], 4)), 3
        if op in ("+", "-"):
            return "%s %s %s" % (render(e[2], 2), op, render(e[3], 3)), 2
        if op in ("==", "!=", "<", "<=", ">", ">=", "in"):
            return "%s %s %s" % (render(e[2], 2), op, render(e[3], 2)), 1
        if op in ("and", "or"):
            if e[2][0] == "bin" and e[2][1] == op:
                lhs = render(e[2], 0)
            else:
                lhs = render(e[2], 1)
            return "%s %s %s" % (lhs, op, render(e[3], 1)), 0
        return "%s %s %s" % (render(e[2], 1), op, render(e[3], 1)), 0
    if k == "range":
        return "%s %s %s .. %s" % (render(e[2], 2),
                                   "in" if e[1] else "not in",
                                   render(e[3], 2), render(e[4], 2)), 1
    if k == "notin":
        return "%s not in %s" % (render(e[1], 2), render(e[2], 2)), 1
    if k == "if":
        return "(%s else %s)" % (" ".join(
            "%s %s then %s" % ("elsif" if n else "if", render(c, 0),
                               render(x, 0))
            for n, (c, x) in enumerate(e[1])), render(e[2], 0)), 5
    if k == "quant":
        return "(%s %s in %s => %s)" % ("forall" if e[1] else "exists",
                                        e[2], e[3], render(e[4], 0)), 5
    raise KeyError(k)


# --------------------------------------------------------------- generation
INTS = [0, 1, 2, 3, 5, 7, 10, 100, 2 ** 31, 2 ** 53 + 1, 10 ** 20]
DECS = [Fraction(x) for x in ("0", "1/2", "1", "3/2", "5/2", "1/10", "7/4",
                              "10", "100000000000000000001/10",
                              "1/8", "49/100", "51/100")]
STRINGS = ["", "a", "ab", "ba", "abc", "xaby", "A", "[[r]]", "a.c", "\u00e9",
           "aa"]
REGEX = ["a", "^a", "a$", ".*b", "[ab]+$", "", "a.c", "b", "A|b", "(a)(b)?$"]


class Gen:
    """Random well-typed (or slightly broken) expressions"""

    def __init__(self, sch, rng, wild=0.0, focus=None):
        self.sch = sch
        self.focus = focus
        self.rng = rng
        self.wild = wild
        self.nq = 0
        self.typer = Typer(sch)
        self.index = {}
        self.build_index()

    def build_index(self):
        """type -> expressions naming a component of that type"""
        for c in self.sch.tcomp.values():
            self.index.setdefault(c.typ, []).append(("name", c.name))
        # one and two levels of field access
        todo = [(("name", c.name), c.typ, 0)
                for c in self.sch.tcomp.values()]
        while todo:
            e, t, d = todo.pop()
            if d >= 2 or isinstance(t, str):
                continue
            if t[0] == "union":
                fs = {k: v[0] for k, v in self.sch.union_fields(t).items()
                      if v[0] is not None}
            elif t[0] in ("rec", "tuple"):
                fs = fields_of(self.sch, t)
            else:
                continue
            for f, ft in fs.items():
                x = ("field", e, f)
                self.index.setdefault(ft, []).append(x)
                todo.append((x, ft, d + 1))
        self.arrays = [c for c in self.sch.tcomp.values()
                       if c.typ[0] == "array"]

    def pick(self, xs):
        return xs[self.rng.randrange(len(xs))]

    def leaf(self, t, env):
        r = self.rng
        cands = list(self.index.get(t, ()))
        qv = [("name", v) for v, vt in env.items() if vt == t]
        for v, vt in env.items():
            if vt is not None and vt[0] in ("tuple", "rec"):
                for f, ft in fields_of(self.sch, vt).items():
                    if ft == t:
                        qv.append(("field", ("name", v), f))
            elif vt is not None and vt[0] == "union":
                for f, (ft, _) in self.sch.union_fields(vt).items():
                    if ft == t:
                        qv.append(("field", ("name", v), f))
        if qv and r.random() < 0.6:
            return self.pick(qv)
        if t in (INT, DEC, BOOL, STR) and (not cands or r.random() < 0.5):
            if t == INT:
                return ("int", self.pick(INTS))
            if t == DEC:
                return ("dec", self.pick(DECS))
            if t == BOOL:
                return ("bool", r.random() < 0.5)
            return ("str", self.pick(STRINGS))
        if t[0] == "enum" and (not cands or r.random() < 0.5):
            return ("enum", t[1], self.pick(self.sch.enums[t[1]]))
        if not cands:
            arrs = [c for c in self.arrays if c.typ[2] == t]
            if arrs:
                return ("index", ("name", self.pick(arrs).name),
                        ("int", r.randrange(3)))
            return ("null",)
        return self.pick(cands)

    def any_type(self):
        return self.pick(list(self.index))

    def expr(self, t, depth, env=None):
        env = {} if env is None else env
        r = self.rng
        if self.wild and r.random() < self.wild:
            if r.random() < 0.3:
                return ("null",)
            t = self.any_type()
        if depth <= 0:
            return self.leaf(t, env)
        opts = ["leaf"]
        if t in NUM:
            opts += ["arith"] * 6 + ["un"] * 2 + ["conv", "pow"]
            if t == INT:
                opts += ["rem", "rem", "len"]
        if t == BOOL:
            opts += ["logic"] * 5 + ["cmp"] * 3 + ["eq"] * 3 + \
                ["range", "in", "in", "quant", "quant", "quant", "not",
                 "strfn", "oneof", "nulleq", "nulleq", "matches"]
        if t == STR:
            opts += ["cat", "cat"]
        opts += ["if", "index"]
        if self.focus is not None:
            opts = [x for x in opts if x in self.focus] or ["leaf"]
            if t == BOOL and "lurk" in self.focus:
                opts += ["lurk", "lurk"]
        o = self.pick(opts)
        g = lambda tt: self.expr(tt, depth - 1, env)
        if o == "arith":
            return ("bin", self.pick(["+", "-", "*", "/"]), g(t), g(t))
        if o == "un":
            return ("un", self.pick(["-", "+", "abs", "-"]), g(t))
        if o == "conv":
            return ("call", t, [g(self.pick(NUM))])
        if o == "pow":
            return ("bin", "**", g(t), self.static_int())
        if o == "rem":
            return ("bin", "%", g(INT), g(INT))
        if o == "len":
            if r.random() < 0.5:
                return ("call", "len", [g(self.pick(STRS))])
            return ("call", "len", [g(self.pick(self.arrays).typ)])
        if o == "logic":
            return ("bin", self.pick(["and", "or", "xor", "implies"]),
                    g(BOOL), g(BOOL))
        if o == "cmp":
            n = self.pick(NUM)
            return ("bin", self.pick(["<", "<=", ">", ">="]), g(n), g(n))
        if o == "eq":
            n = self.any_type()
            m = n
            if is_rec(n):
                m = self.pick([x for x in self.index if is_rec(x)])
            return ("bin", self.pick(["==", "!="]), g(n), g(m))
        if o == "nulleq":
            n = self.any_type()
            a, b = g(n), ("null",)
            if r.random() < 0.2:
                a, b = b, a
            return ("bin", self.pick(["==", "!="]), a, b)
        if o == "range":
            n = self.pick(NUM)
            return ("range", r.random() < 0.6, g(n), g(n), g(n))
        if o == "in":
            if r.random() < 0.4:
                a, b = g(self.pick(STRS)), g(self.pick(STRS))
            else:
                c = self.pick(self.arrays)
                a, b = g(c.typ[2]), ("name", c.name)
            if r.random() < 0.3:
                return ("notin", a, b)
            return ("bin", "in", a, b)
        if o == "quant":
            self.nq += 1
            var = "qv_%d" % self.nq
            c = self.pick(self.arrays)
            env2 = dict(env)
            env2[var] = c.typ[2]
            body = self.expr(BOOL, depth - 1, env2)
            return ("quant", r.random() < 0.5, var, c.name, body)
        if o == "not":
            return ("un", "not", g(BOOL))
        if o == "strfn":
            return ("call", self.pick(["startswith", "endswith"]),
                    [g(self.pick(STRS)), g(self.pick(STRS))])
        if o == "matches":
            return ("call", "matches", [g(self.pick(STRS)),
                                        ("str", self.pick(REGEX))])
        if o == "oneof":
            return ("call", "oneof", [g(BOOL)
                                      for _ in range(r.randint(1, 4))])
        if o == "cat":
            return ("bin", "+", g(self.pick(STRS)), g(self.pick(STRS)))
        if o == "lurk":
            return self.pick([
                ("bin", "==", ("bin", "/", ("int", 1), ("bin", "-",
                                                        ("name", "i"),
                                                        ("name", "i"))),
                 ("int", 1)),
                ("name", "c"), ("name", "c"),
                ("index", ("name", "ab"), ("int", r.randrange(4))),
                ("bin", "==", ("field", ("name", "q"), "x"), ("int", 1))])
        if o == "if":
            return ("if", [(g(BOOL), g(t))
                           for _ in range(r.randint(1, 3))], g(t))
        if o == "index":
            arrs = [c for c in self.arrays if c.typ[2] == t]
            if arrs:
                return ("index", ("name", self.pick(arrs).name),
                        self.pick([("int", r.randrange(4)), g(INT),
                                   ("bin", "-", ("call", "len", [
                                       ("name", self.pick(arrs).name)]),
                                    ("int", 1))]))
        return self.leaf(t, env)

    def static_int(self):
        r = self.rng
        x = r.random()
        if x < 0.8:
            return ("int", r.randrange(5))
        if x < 0.9:
            return ("bin", "+", ("int", 1), ("int", 1))
        if x < 0.95:
            return ("un", "-", ("int", r.randrange(3)))
        return ("bin", "-", ("int", 3), ("int", r.randrange(5)))


# ------------------------------------------------------------------ objects
class ObjGen:
    def __init__(self, sch, rng):
        self.sch = sch
        self.rng = rng
        self.objs = {}        # name -> (type, fields)
        self.order = []

    def pick(self, xs):
        return xs[self.rng.randrange(len(xs))]

    def basics(self, n=2):
        """some objects to refer to"""
        names = []
        for t in ("B", "C", "D", "W", "V"):
            for k in range(n):
                names.append(("o%s%d" % (t, k), t))
        for nm, t in names:
            self.objs[nm] = (t, None)
            self.order.append(nm)
        for nm, t in names:
            self.objs[nm] = (t, self.fields(t))

    def refs(self, t):
        ms = members(t)
        return [n for n, (ot, _) in self.objs.items()
                if any(self.sch.is_sub(ot, m) for m in ms)]

    def value(self, t):
        r = self.rng
        if t == INT:
            return self.pick(INTS) * self.pick([1, 1, -1])
        if t == DEC:
            return self.pick(DECS) * self.pick([1, 1, -1])
        if t == BOOL:
            return r.random() < 0.5
        if t == STR:
            return self.pick(STRINGS)
        if t == MU:
            return self.pick([s for s in STRINGS if "[" not in s])
        if t[0] == "enum":
            return ("enum", t[1], self.pick(self.sch.enums[t[1]]))
        if t[0] == "tuple":
            fs, seps = self.sch.tuples[t[1]]
            cut = len(fs)
            while cut > 0 and fs[cut - 1].optional and r.random() < 0.4:
                cut -= 1
            return ("tup", t[1], {f.name: self.value(f.typ)
                                  if k < cut else None
                                  for k, f in enumerate(fs)})
        if t[0] in ("rec", "union"):
            return ("ref", self.pick(self.refs(t)))
        if t[0] == "array":
            lo, hi = t[3], t[4]
            n = r.randint(lo, hi if hi is not None else lo + 4)
            return ("arr", [self.value(t[2]) for _ in range(n)])
        raise KeyError(t)

    def fields(self, typ, p_null=0.4):
        out = {}
        for c in self.sch.all_comps(typ):
            if c.optional and self.rng.random() < p_null:
                out[c.name] = None
            else:
                out[c.name] = self.value(c.typ)
        return out

    def add(self, name, typ, p_null=0.4):
        self.objs[name] = (typ, self.fields(typ, p_null))
        self.order.append(name)

    def vtext(self, v, t=None):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Fraction):
            return ("-" if v < 0 else "") + dec_text(abs(v))
        if isinstance(v, str):
            return str_text(v)
        if v[0] == "enum":
            return "%s.%s" % (v[1], v[2])
        if v[0] == "ref":
            return v[1]
        if v[0] == "arr":
            return "[%s]" % ", ".join(self.vtext(x) for x in v[1])
        if v[0] == "tup":
            fs, seps = self.sch.tuples[v[1]]
            vals = [self.vtext(v[2][f.name]) for f in fs
                    if v[2][f.name] is not None]
            if seps:
                out = vals[0]
                for s, x in zip(seps, vals[1:]):
                    out += " %s %s" % (s, x)
                return out
            return "(%s)" % ", ".join(vals)
        raise KeyError(v)

    def text(self, pkg="Pkg"):
        out = ["package %s" % pkg]
        for n in self.order:
            t, fs = self.objs[n]
            out.append("%s %s {" % (t, n))
            for f, v in fs.items():
                if v is not None:
                    out.append("  %s = %s" % (f, self.vtext(v)))
            out.append("}")
        return "\n".join(out) + "\n"
