"""Lexical structure (C01, C02, C03): the lexer's cursor, white space and
every class of token, against the token grammar of the language.

The text of a lexer is an array of characters.  Where a token ends is
defined by recursive functions over positions, one per class of token; the
loops of the lexer keep the value of that function unchanged."""
from fractions import Fraction

import z3

from pyvc.core import (NO_BOUND, STRCAT, STRCH, STRSUB, TEXTSUB, V, AnyV, CharV, Conc,
                       IntV, NONE, ObjV, PyRaise, RealV, SliceV, StrV, TextV,
                       ch_isalnum, ch_isalpha, ch_isascii, ch_isdigit,
                       ch_isspace, mkstr)
from pyvc.execpy import REPLACE, STRIPS
from .base import Contract
from .dataspec import bind, h0
from .evalspec import isnone
from .kit import B, F, I, T, And, If, Implies, Not, Or, target

C1, C2, C3 = "C01", "C02", "C03"
ALL = "C01,C02,C03"
STR = z3.StringSort()

TEXT = z3.Function("text_of", I, z3.ArraySort(I, I))
LEN = z3.Function("text_length", I, I)
LINE = z3.Function("line_at", I, I, I)
COL = z3.Function("column_at", I, I, I)
# ends (exclusive) of: white space, line comment, block comment, identifier,
# string, triple quoted string (quote, quotes seen), number (base, digit
# required, point allowed); -1: malformed
SKIP = z3.Function("white_space_end", I, I, I)
LC = z3.Function("line_comment_end", I, I, I)
BC = z3.Function("block_comment_end", I, I, I)
ID = z3.Function("identifier_end", I, I, I)
DQ = z3.Function("string_end", I, I, I)
TQ = z3.Function("triple_quoted_end", I, I, I, I, I)
NE = z3.Function("number_end", I, I, I, B, B, I)
NK = z3.Function("number_has_point", I, I, I, B, B, B)
TQV = z3.Function("triple_quoted_value", STR, STR)
INTOF = z3.Function("python_int_of_text", STR, I, I)
FRACOF = z3.Function("python_fraction_of_text", STR, z3.RealSort())

KEYWORDS = """abs abstract and checks else elsif enum error exists extends
false fatal final forall freeze if implies import in not null optional or
package section separator then true tuple type warning xor""".split()
SINGLE = {"(": "BRA", ")": "KET", "{": "C_BRA", "}": "C_KET", "[": "S_BRA",
          "]": "S_KET", ",": "COMMA", "@": "AT", ":": "COLON",
          ";": "SEMICOLON", "/": "OPERATOR", "%": "OPERATOR",
          "+": "OPERATOR", "-": "OPERATOR"}


def inn(p, j):
    return And(j >= 0, j < LEN(p))


def ch(p, j):
    return z3.Select(TEXT(p), j)


def at(p, j, c):
    """the character c stands at j"""
    return And(inn(p, j), ch(p, j) == ord(c))


def one_of(p, j, cs):
    return And(inn(p, j), Or(*[ch(p, j) == ord(c) for c in cs]))


def chv(p, j):
    return If(inn(p, j), V.VChar(ch(p, j)), V.VNone)


# --------------------------------------------------------- definitions
def d_skip(p, j):
    return SKIP(p, j) == If(And(inn(p, j), ch_isspace(ch(p, j))),
                            SKIP(p, j + 1), j)


def d_lc(p, j):
    return LC(p, j) == If(Not(inn(p, j)), LEN(p), If(
        at(p, j, "\n"), j, LC(p, j + 1)))


def d_bc(p, j):
    return BC(p, j) == If(Not(inn(p, j + 1)), LEN(p), If(
        And(at(p, j, "*"), at(p, j + 1, "/")), j + 2, BC(p, j + 1)))


def d_id(p, j):
    c = ch(p, j)
    return ID(p, j) == If(And(inn(p, j), Or(And(
        ch_isascii(c), ch_isalnum(c)), c == ord("_"))), ID(p, j + 1), j)


def d_dq(p, j):
    return DQ(p, j) == If(Or(Not(inn(p, j)), at(p, j, "\n")), -1, If(
        at(p, j, '"'), j + 1, If(
            And(at(p, j, "\\"), at(p, j + 1, '"')), DQ(p, j + 2),
            DQ(p, j + 1))))


def d_tq(p, q, j, n):
    return TQ(p, q, j, n) == If(n >= 3, j, If(Not(inn(p, j)), -1, TQ(
        p, q, j + 1, If(ch(p, j) == q, n + 1, 0))))


DIGITS = {2: "01", 10: "0123456789", 16: "0123456789abcdefABCDEF"}
WRONG = {2: "23456789abcdefABCDEF", 10: "abcdefABCDEF", 16: ""}


def d_num(p, b, j, r, d):
    bb = z3.IntVal(b)

    def both(stop, fail, go):
        return [If(Not(inn(p, j)), If(r, fail, stop), If(
            one_of(p, j, DIGITS[b]), go(F, d), If(
                one_of(p, j, WRONG[b]) if WRONG[b] else F, fail, If(
                    r, fail, If(at(p, j, "_"), go(T, d), If(
                        And(at(p, j, "."), at(p, j + 1, ".")), stop, If(
                            at(p, j, "."), If(d, go(T, F), fail),
                            stop)))))))][0]
    return And(
        NE(p, bb, j, r, d) == both(j, z3.IntVal(-1), lambda x, y: NE(
            p, bb, j + 1, x, y)),
        NK(p, bb, j, r, d) == If(And(
            inn(p, j), Not(one_of(p, j, DIGITS[b])), Not(r), Not(at(
                p, j, "_")), at(p, j, "."), Not(at(p, j + 1, ".")), d), T,
            both(F, F, lambda x, y: NK(p, bb, j + 1, x, y))))


# ---------------------------------------------------------------- state
def lexpos(i, p):
    return V.vi(i.hread("lexpos", p))


def line_facts(p, n):
    """proved of every position by the contract of advance"""
    return And(LINE(p, n) >= 0, COL(p, n) >= 0, Implies(n >= 0, LINE(
        p, n) >= 1), Implies(inn(p, n), COL(p, n) >= 1))


def ghosts(S):
    B_ = S.L.Lexer_Base

    def line(F_):
        def g(i, o):
            n = lexpos(i, o.t)
            i.assume(line_facts(o.t, n))
            return IntV(F_(o.t, n))
        return g

    def char(d):
        return lambda i, o: AnyV(chv(o.t, lexpos(i, o.t) + d),
                                 ("opt", "char"))
    return {
        (B_, "cc"): char(0), (B_, "nc"): char(1), (B_, "nnc"): char(2),
        (B_, "line_no"): line(LINE),
        (B_, "col_no"): line(COL),
        (B_, "content"): lambda i, o: TextV(TEXT(o.t), LEN(o.t), o.t),
    }


def c_advance(i, a, kw):
    p = a[0].t
    n = lexpos(i, p)
    i.safety("the lexer has been set up", n >= -1)
    i.hwrite("lexpos", p, V.VInt(n + 1))
    return NONE


def c_skip(i, a, kw):
    p = a[0].t
    n = lexpos(i, p)
    i.safety("the lexer has been set up", n >= -1)
    e = SKIP(p, n + 1)
    i.hwrite("lexpos", p, V.VInt(e))
    i.assume(skip_facts(p, n, e))
    return NONE


def skip_facts(p, n, e):
    return And(e >= n + 1, Or(e <= LEN(p), e == n + 1), Not(And(
        inn(p, e), ch_isspace(ch(p, e)))))


def lexer(k, cls=None):
    o = k.obj("self", cls or k.L.TRLC_Lexer)
    p = o.t
    k.i.assume(And(LEN(p) >= 0, k.h0("length", p) == V.VInt(LEN(p))))
    x = k.h0("lexpos", p)
    k.i.assume(And(V.is_VInt(x), V.vi(x) >= -1))
    k.i.ghost["lexer"] = p
    k.i.ghost["no_unroll"] = True
    return o, V.vi(x)


# --------------------------------------------------------------- cursor
def cur(k, p, n, h):
    return And(h("lexpos", p) == V.VInt(n), h("cc", p) == chv(p, n),
               h("nc", p) == chv(p, n + 1), h("nnc", p) == chv(p, n + 2),
               h("line_no", p) == V.VInt(LINE(p, n)),
               h("col_no", p) == V.VInt(COL(p, n)))


def d_line(p, n):
    """line and column of the position behind n"""
    nl = at(p, n, "\n")
    return And(
        LINE(p, n + 1) == If(n + 1 == 0, 1, LINE(p, n) + If(nl, 1, 0)),
        COL(p, n + 1) == If(Or(nl, n + 1 == 0), 0, COL(p, n)) + If(
            inn(p, n + 1), 1, 0))


def advance(k):
    o, n = lexer(k)
    p = o.t
    k.i.assume(cur(k, p, n, k.h0))
    k.i.assume(line_facts(p, n))
    k.i.assume(d_line(p, n))
    k.i.assume(And(LINE(p, -1) == 0, COL(p, -1) == 0))
    out, rv = k.call(k.L.Lexer_Base, "advance", [o])
    k.prove(C1, "cursor:one character further, with its line and column",
            cur(k, p, n + 1, k.h1))
    k.prove(C1, "cursor:lines and columns count from one",
            line_facts(p, n + 1))
    k.frame(ALL, lambda f, r: z3.eq(z3.simplify(r), p) and f in (
        "lexpos", "cc", "nc", "nnc", "line_no", "col_no"))


def base_init(k):
    o = k.obj("self", k.L.TRLC_Lexer)
    p = o.t
    k.i.assume(LEN(p) >= 0)
    k.i.assume(And(LINE(p, -1) == 0, COL(p, -1) == 0))
    text = TextV(TEXT(p), LEN(p), p)
    out, rv = k.call(k.L.Lexer_Base, "__init__", [o, k.mh(), text])
    n = z3.IntVal(-1)
    k.prove(C1, "cursor:in front of the first character",
            cur(k, p, n, k.h1))
    k.prove(C1, "cursor:lines and columns count from one",
            line_facts(p, n))
    k.prove(ALL, "state:the length of the text", k.h1("length", p) ==
            V.VInt(LEN(p)))
    t = k.o0("tokens", p)
    k.prove(C1, "state:no token yet", k.h1("$len", V.vo(k.h1(
        "tokens", p))) == 0)
    k.prove(ALL, "state:no other outcome", z3.BoolVal(out == "ret"))


def skip(k):
    o, n = lexer(k)
    p = o.t
    k.i.ghost["lex"] = [lambda q, ip, env: (SKIP(p, q + 1), d_skip(
        p, q + 1))]
    k.i.assume(d_skip(p, n + 1))
    k.i.ghost["lex end"] = SKIP(p, n + 1)
    k.i.ghost["lex from"] = n
    out, rv = k.call(k.L.Lexer_Base, "skip_whitespace", [o])
    e = lexpos(k.i, p)
    k.prove(C1, "value:to the first character that is no white space",
            e == SKIP(p, n + 1))
    k.prove(C1, "value:such a character or the end of the text",
            skip_facts(p, n, e))
    k.prove(C1, "state:no other outcome", z3.BoolVal(out == "ret"))
    k.frame(ALL, lambda f, r: z3.eq(z3.simplify(r), p) and f == "lexpos")


# ------------------------------------------------------------ invariants
def envs(env_mods, entry_env, kinds):
    return [n for n in sorted(env_mods) if env_mods[n] <= kinds and
            n in entry_env]


def inv_lex(i, node, it, env_mods, entry_env):
    fns = i.ghost.get("lex")
    if fns is None or it is not None:
        return []
    p, end, n0 = (i.ghost[x] for x in ("lexer", "lex end", "lex from"))
    out = [("not before the start", lambda ip, idx: lexpos(ip, p) >= n0),
           ("not far behind the end", lambda ip, idx: lexpos(
               ip, p) <= LEN(p)),
           ("inside or where it was", lambda ip, idx: Or(lexpos(
               ip, p) < LEN(p), lexpos(ip, p) == n0))]
    bools = envs(env_mods, entry_env, {"bool"})
    ints = envs(env_mods, entry_env, {"int"})
    strs = envs(env_mods, entry_env, {"str"})

    def var(ip, x):
        if not isinstance(x, str):
            return x
        sv = ip.stack[-1].env[x]
        if isinstance(sv, Conc):
            return z3.BoolVal(sv.v) if isinstance(sv.v, bool) else sv.v
        return sv.t

    def add(name, fn, names=()):
        def g(ip, idx):
            term, d = fn(lexpos(ip, p), ip, [var(ip, x) for x in names])
            ip.assume(d)
            return term
        out.append((name, g))
    for fi, fn in enumerate(fns):
        arity = getattr(fn, "arity", "")
        combos = [()]
        if arity == "n":
            combos = [(x,) for x in ints]
        elif arity == "rd":
            bs = bools if len(bools) > 1 else bools + [T, F]
            combos = [(x, y) for x in bs for y in bs if x is not y and (
                isinstance(x, str) or isinstance(y, str))]
        elif arity == "rdk":
            combos = [(x, y, z) for x in bools for y in bools if x != y
                      for z in strs]
        elif arity == "k":
            combos = [(x,) for x in strs]
        for c in combos:
            if getattr(fn, "formula", False):
                add("%d %r" % (fi, c), fn, c)
            else:
                add("same end %d %r" % (fi, c), lambda q, ip, e, f=fn: (
                    (lambda td: (td[0] == end, td[1]))(f(q, ip, e))), c)
    return out


def mark(arity, formula=False):
    def f(fn):
        fn.arity = arity
        fn.formula = formula
        return fn
    return f


def measure(i, node):
    p = i.ghost.get("lexer")
    m = lambda ip: LEN(p) + 3 - lexpos(ip, p)
    return m(i), m


# ------------------------------------------------------------------ tokens
def c_tq_value(i, a, kw):
    s = a[0]
    i.safety("a text of at least six characters in triple quotes",
             And(s.b - s.a >= 6, *[And(
                 z3.Select(s.text.arr, s.a + n) == z3.Select(
                     s.text.arr, s.b - 1 - m),
                 Or(z3.Select(s.text.arr, s.a + n) == 34,
                    z3.Select(s.text.arr, s.a + n) == 39))
                 for n in range(3) for m in range(3)]))
    return StrV(TQV(i.str_t(s)))


def int_of(i, args, kw):
    s = i.str_t(i.force(args[0]))
    base = args[1] if len(args) > 1 else kw.get("base", Conc(10))
    i.used_contracts["int(text, base)"] = (
        "assumed: the number a text of digits denotes; with base 10 it may "
        "raise ValueError (too many digits)")
    b = i.num(base)
    if not (isinstance(base, Conc) and base.v in (2, 4, 8, 16, 32)):
        if i.choose(2) == 0:
            i.ghost["too large"] = True
            raise PyRaise(ValueError)
    return IntV(INTOF(s, b))


def fraction_of(i, args, kw):
    if len(args) != 1:
        return None
    s = i.str_t(i.force(args[0]))
    i.used_contracts["Fraction(text)"] = (
        "assumed: the number a decimal literal denotes; it may raise "
        "ValueError (too many digits)")
    if i.choose(2) == 0:
        i.ghost["too large"] = True
        raise PyRaise(ValueError)
    return RealV(FRACOF(s))


def start(k):
    o, n = lexer(k)
    p = o.t
    s = SKIP(p, n + 1)
    k.i.assume(skip_facts(p, n, s))
    k.i.ghost["lex from"] = s
    k.i.ghost["lex end"] = z3.IntVal(-2)
    return o, n, s


def token_is(k, o, out, rv, s, e, kind, value, props=C2):
    """the outcome is exactly the token of this kind between s and e"""
    p = o.t
    if out == "err":
        k.prove(C2, "error:only if the text is malformed here",
                Or(e == -1, z3.BoolVal(bool(k.i.ghost.get("too large")))))
        return
    k.prove(C2, "value:well-formed tokens only", e != -1)
    r = k.v(rv)
    t = V.vo(r)
    k.prove(ALL, "value:a token", And(V.is_VObj(r), k.isa(r, k.L.Token)))
    loc = V.vo(k.h1("location", t))
    k.prove(C2, "value:of the longest text the grammar permits",
            k.h1("end_pos", loc) == V.VInt(e - 1))
    k.prove(C1, "position:starts where the white space ends",
            k.h1("start_pos", loc) == V.VInt(s))
    k.prove(C1, "position:ends where its text ends",
            k.h1("end_pos", loc) == V.VInt(e - 1))
    k.prove(C1, "position:line and column of its first character", And(
        k.h1("line_no", loc) == V.VInt(LINE(p, s)),
        k.h1("col_no", loc) == V.VInt(COL(p, s)),
        k.h1("lexer", loc) == V.VObj(p),
        k.h1("file_name", loc) == k.h0("file_name", p)))
    k.prove(C1, "position:inside the text", And(s >= 0, e > s, e <= LEN(p)))
    nxt = lexpos(k.i, p) + 1
    k.prove(C1, "position:the next token is looked for right behind it",
            Or(nxt == e, And(e == LEN(p), nxt >= e)))
    k.prove(C2, "value:kind", k.h1("kind", t) == V.VStr(kind))
    k.prove(props, "value:value", k.h1("value", t) == value)
    k.frame(ALL, lambda f, r: z3.eq(z3.simplify(r), p) and f == "lexpos")


def run_token(k, o):
    return k.call(k.L.TRLC_Lexer, "token", [o])


def t_end(k):
    o, n, s = start(k)
    k.i.assume(Not(inn(o.t, s)))
    out, rv = run_token(k, o)
    k.prove(C1, "value:no token at the end of the text", And(
        z3.BoolVal(out == "ret"),
        isnone(k.v(rv)) if out == "ret" else F))
    k.frame(ALL, lambda f, r: z3.eq(z3.simplify(r), o.t) and f == "lexpos")


def sub(p, a, b):
    return TEXTSUB(p, a, b)


def t_line_comment(k):
    o, n, s = start(k)
    p = o.t
    k.i.assume(And(at(p, s, "/"), at(p, s + 1, "/")))
    e = LC(p, s + 2)
    k.i.assume(And(d_lc(p, s), d_lc(p, s + 1), d_lc(p, s + 2)))
    k.i.ghost["lex end"] = e
    k.i.ghost["lex"] = [
        lambda q, ip, env: (LC(p, q), And(d_lc(p, q), d_lc(p, q + 1))),
        lambda q, ip, env: (LC(p, q + 1), And(d_lc(p, q), d_lc(p, q + 1)))]
    out, rv = run_token(k, o)
    token_is(k, o, out, rv, s, e, mkstr("COMMENT"), V.VStr(
        STRIPS["strip"](sub(p, s + 2, e))))


def t_block_comment(k):
    o, n, s = start(k)
    p = o.t
    k.i.assume(And(at(p, s, "/"), at(p, s + 1, "*")))
    e = BC(p, s + 2)
    d = lambda q: And(d_bc(p, q), d_bc(p, q + 1))
    k.i.assume(d(s + 2))
    k.i.ghost["lex end"] = e
    k.i.ghost["lex"] = [lambda q, ip, env: (BC(p, q), d(q))]
    out, rv = run_token(k, o)
    closed = And(at(p, e - 2, "*"), at(p, e - 1, "/"), e - 2 >= s + 2)
    token_is(k, o, out, rv, s, e, mkstr("COMMENT"), If(
        closed, V.VStr(STRIPS["strip"](sub(p, s + 2, e - 2))),
        V.VStr(STRIPS["strip"](sub(p, s + 2, e)))))


def t_identifier(k):
    o, n, s = start(k)
    p = o.t
    c = ch(p, s)
    k.i.assume(And(inn(p, s), ch_isascii(c), ch_isalpha(c)))
    e = ID(p, s + 1)
    k.i.assume(And(d_id(p, s), d_id(p, s + 1)))
    k.i.ghost["lex end"] = e
    k.i.ghost["lex"] = [lambda q, ip, env: (ID(p, q + 1), d_id(p, q + 1))]
    out, rv = run_token(k, o)
    kw = Or(*[And(e - s == len(w), *[ch(p, s + x) == ord(y)
                                     for x, y in enumerate(w)])
              for w in KEYWORDS])
    token_is(k, o, out, rv, s, e, If(kw, mkstr("KEYWORD"), mkstr(
        "IDENTIFIER")), V.VStr(sub(p, s, e)))


def t_fixed(cs):
    """delimiters and operators that start with one of cs"""
    def run(k):
        o, n, s = start(k)
        p = o.t
        k.i.assume(one_of(p, s, cs))
        two = {"=": {">": "ARROW", "=": "OPERATOR"}, ".": {".": "RANGE"},
               "<": {"=": "OPERATOR"}, ">": {"=": "OPERATOR"},
               "!": {"=": "OPERATOR"}, "*": {"*": "OPERATOR"}}
        one = {"=": "ASSIGN", ".": "DOT", "<": "OPERATOR", ">": "OPERATOR",
               "*": "OPERATOR"}
        one.update(SINGLE)
        if "/" in cs:
            k.i.assume(Not(And(at(p, s, "/"), one_of(p, s + 1, "/*"))))
        e, kind = z3.IntVal(-1), mkstr("")
        for c in cs:
            if c in one:
                e = If(at(p, s, c), s + 1, e)
                kind = If(at(p, s, c), mkstr(one[c]), kind)
            for d, kd in two.get(c, {}).items():
                f = And(at(p, s, c), at(p, s + 1, d))
                e, kind = If(f, s + 2, e), If(f, mkstr(kd), kind)
        out, rv = run_token(k, o)
        token_is(k, o, out, rv, s, e, kind, If(
            kind == mkstr("OPERATOR"), V.VStr(sub(p, s, e)), V.VNone))
    return run


def t_string(k):
    o, n, s = start(k)
    p = o.t
    k.i.assume(And(at(p, s, '"'), Not(And(at(p, s + 1, '"'), at(
        p, s + 2, '"')))))
    e = DQ(p, s + 1)
    d = lambda q: And(d_dq(p, q + 1), d_dq(p, q + 2), d_dq(p, q + 3))
    k.i.assume(d(s))
    k.i.ghost["lex end"] = e
    k.i.ghost["lex"] = [lambda q, ip, env: (DQ(p, q + 1), d(q))]
    out, rv = run_token(k, o)
    token_is(k, o, out, rv, s, e, mkstr("STRING"), V.VStr(REPLACE(
        sub(p, s + 1, e - 1), mkstr('\\"'), mkstr('"'))), "C02,C03")


def t_triple(quote):
    def run(k):
        o, n, s = start(k)
        p = o.t
        q = z3.IntVal(ord(quote))
        three = And(*[at(p, s + x, quote) for x in range(3)])
        if quote == '"':
            k.i.assume(three)
            e = TQ(p, q, s + 3, 0)
        else:
            k.i.assume(at(p, s, quote))
            e = If(three, TQ(p, q, s + 3, 0), -1)
        d = lambda x, m: And(d_tq(p, q, x + 1, m), d_tq(p, q, x + 2, m + 1),
                             d_tq(p, q, x + 2, z3.IntVal(0)))
        k.i.assume(d(s + 2, z3.IntVal(0)))
        k.i.ghost["lex end"] = e

        @mark("n")
        def same(x, ip, env):
            return TQ(p, q, x + 1, env[0]), d(x, env[0])

        @mark("n", True)
        def seen(x, ip, env):
            m = env[0]
            return And(m >= 0, m <= 3, x - m >= s + 2, *[Implies(
                m >= y + 1, at(p, x - y, quote)) for y in range(3)]), T

        @mark("n", True)
        def inside(x, ip, env):
            return Or(x + 1 < LEN(p), env[0] >= 3, x == s + 2), T
        k.i.ghost["lex"] = [same, seen, inside]
        out, rv = run_token(k, o)
        token_is(k, o, out, rv, s, e, mkstr("STRING"), V.VStr(TQV(
            sub(p, s, e))), "C02,C03")
    return run


def t_number(b):
    def run(k):
        o, n, s = start(k)
        p = o.t
        c = ch(p, s)
        bb = z3.IntVal(b)
        mark_ = {2: at(p, s + 1, "b"), 16: at(p, s + 1, "x")}
        pre = And(at(p, s, "0"), mark_[b]) if b in mark_ else And(
            inn(p, s), ch_isascii(c), ch_isdigit(c), Not(And(
                at(p, s, "0"), Or(*mark_.values()))))
        k.i.assume(pre)
        r0, d0 = z3.BoolVal(b != 10), z3.BoolVal(b == 10)
        f = s + (1 if b == 10 else 2)
        e = NE(p, bb, f, r0, d0)

        def dd(x, r, d):
            return And(d_num(p, b, x, r, d), *[d_num(
                p, b, x + 1, y, z) for y in (T, F) for z in (T, F)])
        k.i.assume(dd(f, r0, d0))
        k.i.ghost["lex end"] = e
        kend = NK(p, bb, f, r0, d0)

        @mark("rd")
        def same(x, ip, env):
            return NE(p, bb, x + 1, *env), dd(x + 1, *env)

        @mark("rdk", True)
        def kind(x, ip, env):
            k_ = env[2] if not isinstance(env[2], str) else mkstr(env[2])
            return And(Or(k_ == mkstr("INTEGER"), k_ == mkstr("DECIMAL")),
                       Or(k_ == mkstr("DECIMAL"), NK(
                           p, bb, x + 1, env[0], env[1])) == kend), \
                dd(x + 1, env[0], env[1])

        @mark("rd", True)
        def point(x, ip, env):
            return NK(p, bb, x + 1, *env) == kend, dd(x + 1, *env)
        k.i.ghost["lex"] = [same, kind, point]
        out, rv = run_token(k, o)
        text = REPLACE(sub(p, s, e), mkstr("_"), mkstr(""))
        digits = text if b == 10 else STRSUB(text, 2, NO_BOUND)
        token_is(k, o, out, rv, s, e, If(kend, mkstr("DECIMAL"), mkstr(
            "INTEGER")), If(kend, V.VFrac(FRACOF(text)), V.VInt(INTOF(
                digits, bb))))
    return run


def t_other(k):
    o, n, s = start(k)
    p = o.t
    c = ch(p, s)
    known = "()[]{},@:;/%+-=.<>!*\"'"
    k.i.assume(And(inn(p, s), Not(one_of(p, s, known)), Not(And(
        ch_isascii(c), Or(ch_isalpha(c), ch_isdigit(c))))))
    out, rv = run_token(k, o)
    k.prove(C2, "error:no token starts with this character",
            z3.BoolVal(out == "err"))


# ------------------------------------------- value of triple quoted strings
# lines of a text (their number, the i-th), whether a line is blank; the
# number of blanks a line starts with; how much of it two lines share; what
# is common to all; the text of the first lines
NLINES = z3.Function("number_of_lines", STR, I)
LINEAT = z3.Function("line_of_text", STR, I, STR)
BLANKS = z3.Function("blanks_from", STR, I, I)
SHARED = z3.Function("shared_from", STR, STR, I, I, I)
COMMON = z3.Function("common_prefix_from", STR, STR, I, I, I)
JOINED = z3.Function("text_of_lines_before", STR, I, I, STR)


def blank(l):
    return STRIPS["strip"](l) == mkstr("")


def d_blanks(l, j):
    c = STRCH(l, j)
    return BLANKS(l, j) == If(And(j < z3.Length(l), Or(
        c == 32, c == 9)), BLANKS(l, j + 1), j)


def d_shared(l, m, j, k):
    return SHARED(l, m, j, k) == If(And(
        j < k, j < z3.Length(m), STRCH(m, j) == STRCH(l, j)),
        SHARED(l, m, j + 1, k), j)


def d_common(t, l, n, k):
    m = LINEAT(t, n)
    return COMMON(t, l, n, k) == If(n >= NLINES(t), k, If(
        blank(m), COMMON(t, l, n + 1, k),
        COMMON(t, l, n + 1, SHARED(l, m, 0, k))))


def d_joined(t, k, n):
    return JOINED(t, k, n) == If(
        n <= 1, STRIPS["rstrip"](LINEAT(t, 0)), z3.Concat(
            JOINED(t, k, n - 1), z3.Concat(mkstr("\n"), STRIPS["rstrip"](
                STRSUB(LINEAT(t, n - 1), k, NO_BOUND)))))


def split_lines(i, t):
    i.used_contracts["str.splitlines, str.strip"] = (
        "assumed: CPython's functions; the first and the last line of a "
        "stripped text are not blank")
    n = NLINES(t)
    i.assume(n >= 0)
    q = z3.Int("q_line")
    arr = i.fresh("lines", z3.ArraySort(I, V))
    i.assume(z3.ForAll([q], z3.Select(arr, q) == V.VStr(LINEAT(t, q)),
                       patterns=[z3.Select(arr, q)]))
    r = i.new_ref(list)
    i.hwrite("$len", r, n)
    i.hwrite("$elem", r, arr)
    return ObjV(r, ("list", "str"))


def tq_value(k):
    i = k.i
    raw = k.arg("raw_value", "str")
    s = raw.t
    q3 = [mkstr("'" * 3), mkstr('"' * 3)]
    i.assume(And(z3.Length(s) >= 6, Or(*[z3.PrefixOf(x, s) for x in q3]),
                 STRSUB(s, 0, 3) == STRSUB(s, -3, NO_BOUND)))
    t = STRIPS["strip"](STRSUB(s, 3, -3))
    n = NLINES(t)
    f = z3.Int("first_line_with_text")
    q = z3.Int("q")
    last = LINEAT(t, n - 1)
    i.assume(And(n >= 0, Implies(n > 0, And(
        Not(blank(LINEAT(t, 0))), Not(blank(last))))))
    i.assume(Implies(n > 1, And(
        f >= 1, f < n, Not(blank(LINEAT(t, f))), z3.ForAll([q], Implies(
            And(q >= 1, q < f), blank(LINEAT(t, q)))))))
    l = LINEAT(t, f)
    k0 = BLANKS(l, 0)
    kk = COMMON(t, l, 2, k0)
    zero = z3.IntVal(0)
    i.assume(d_blanks(l, zero))
    i.assume(d_common(t, l, z3.IntVal(2), k0))
    i.ghost["tq"] = (t, f, l, k0, kk)
    i.assume(d_joined(t, kk, z3.IntVal(1)))
    out, rv = k.call_fn(k.L.triple_quoted_string_value, [raw])
    k.prove(C3, "value:no other outcome", z3.BoolVal(out == "ret"))
    if out != "ret":
        return
    i.assume(d_joined(t, kk, n))
    second_line(i, t, f)
    k.prove(C3, "value:the text of the lines, without what is common to "
            "them and without white space at their ends",
            k.v(rv) == V.VStr(If(n == 0, mkstr(""), JOINED(t, kk, n))))
    k.frame(C3)


def sub_facts(l, n):
    """Python's l[:n], for 0 <= n < len(l)"""
    a, b = STRSUB(l, 0, n), STRSUB(l, 0, n + 1)
    return And(STRSUB(l, 0, 0) == mkstr(""), Implies(
        And(n >= 0, n < z3.Length(l)), STRCAT(a, STRCH(l, n)) == b),
        Implies(And(n >= 0, n <= z3.Length(l)), z3.Length(a) == n),
        Implies(And(n >= 0, n < z3.Length(l)), z3.Length(b) == n + 1))


def char_facts(l, n, j):
    return Implies(And(j >= 0, j < n, n <= z3.Length(l)), STRCH(STRSUB(
        l, 0, n), j) == STRCH(l, j))


def second_line(ip, t, f):
    """the second line with text is the first one after the first"""
    for r, idx, n, inst in ip.ghost.get("filtered", ()):
        ip.assume(inst([z3.IntVal(0), z3.IntVal(1)], [
            z3.IntVal(0), f, NLINES(t) - 1]))
        one = z3.Select(idx, 1)
        ip.assume(Implies(And(one >= 1, one < f), blank(LINEAT(t, one))))
        g = Implies(n >= 2, one == f)
        if ip.valid(g):
            ip.assume(g)


def inv_tq(i, node, it, env_mods, entry_env):
    st = i.ghost.get("tq")
    if st is None or it is None:
        return []
    t, f, l, k0, kk = st
    out = []

    def lemma(ip):
        second_line(ip, t, f)

    def var(ip, x):
        sv = ip.stack[-1].env[x]
        if isinstance(sv, Conc):
            return z3.IntVal(sv.v) if isinstance(sv.v, int) else mkstr(sv.v)
        return sv.t
    ints = envs(env_mods, entry_env, {"int"})
    strs = envs(env_mods, entry_env, {"str"})
    allints = ints + [x for x, v in entry_env.items() if x not in ints and (
        isinstance(v, IntV))]
    for x in ints:
        def counting(ip, idx, x=x):
            v = var(ip, x)
            lemma(ip)
            ip.assume(And(d_blanks(l, v), d_blanks(l, v + 1)))
            return And(v == idx, v >= 0, BLANKS(l, v) == k0)
        out.append(("counts %s" % x, counting))

        def common(ip, idx, x=x):
            v = var(ip, x)
            m = LINEAT(t, idx + 2)
            ip.assume(And(d_common(t, l, idx + 2, v), d_shared(
                l, m, z3.IntVal(0), v)))
            return And(v >= 0, v <= k0, COMMON(t, l, idx + 2, v) == kk)
        out.append(("common %s" % x, common))
    for y in strs:
        def prefix(ip, idx, y=y):
            v = var(ip, y)
            ip.assume(sub_facts(l, idx))
            return And(v == STRSUB(l, 0, idx), z3.Length(v) == idx,
                       idx <= z3.Length(l), idx >= 0)
        out.append(("prefix %s" % y, prefix))
        for c in (0, 1):
            def joined(ip, idx, y=y, c=c):
                v = var(ip, y)
                ip.assume(And(d_joined(t, kk, idx + c), d_joined(
                    t, kk, idx + 1 + c)))
                return v == JOINED(t, kk, idx + c)
            out.append(("joined %s %d" % (y, c), joined))
    if it.desc == "range" and not env_mods:
        # comparing one line with the prefix
        pass
    for y, v in sorted(entry_env.items()):
        if isinstance(v, StrV) and y not in env_mods:
            def shared(ip, idx, m=v.t):
                b = it.len
                ip.assume(And(d_shared(l, m, idx, b), d_shared(
                    l, m, idx + 1, b), char_facts(l, k0, idx)))
                return SHARED(l, m, idx, b) == SHARED(l, m, 0, b)
            out.append(("shared %s" % y, shared))
    return out


def setup_tq(S):
    S.splitlines = split_lines


def teardown_tq(S):
    S.splitlines = None


def setup(S):
    for key, g in ghosts(S).items():
        S.ghost_fields[key] = g
    S._lex = {f: S.externals.get(f) for f in (int, Fraction)}
    S.externals[int] = int_of
    S.externals[Fraction] = fraction_of
    S._measure = S.loop_measure
    S.loop_measure = measure


def teardown(S):
    for key in ghosts(S):
        S.ghost_fields.pop(key)
    for f, g in S._lex.items():
        if g is None:
            S.externals.pop(f)
        else:
            S.externals[f] = g
    S.loop_measure = S._measure


def setup_text(S):
    S.ghost_fields[(S.L.Lexer_Base, "content")] = lambda i, o: TextV(
        TEXT(o.t), LEN(o.t), o.t)


def teardown_text(S):
    S.ghost_fields.pop((S.L.Lexer_Base, "content"))


def declare(S):
    L = S.L
    d = S.fields
    d[(L.Lexer_Base, "mh")] = S.E.Message_Handler
    d[(L.Lexer_Base, "length")] = "int"
    d[(L.Lexer_Base, "lexpos")] = "int"
    d[(L.Lexer_Base, "content")] = "str"
    for f in ("cc", "nc", "nnc"):
        d[(L.Lexer_Base, f)] = ("opt", "char")
    for f in ("line_no", "col_no"):
        d[(L.Lexer_Base, f)] = "int"
    d[(L.Lexer_Base, "tokens")] = ("list", L.Token)
    d[(L.TRLC_Lexer, "file_name")] = "str"
    d[(L.Source_Reference, "lexer")] = L.Lexer_Base
    d[(L.Source_Reference, "start_pos")] = "int"
    d[(L.Source_Reference, "end_pos")] = "int"
    S.contract(L.Lexer_Base, "advance", c_advance)
    S.contract(L.Lexer_Base, "skip_whitespace", c_skip)
    S.contracts[("trlc.lexer", "triple_quoted_string_value")] = Contract(
        "triple_quoted_string_value", c_tq_value)
    S.invariants.append(inv_lex)
    S.invariants.append(inv_tq)


def targets(S):
    LB = "Lexer_Base"

    def tg(name, cls, m, run, su=setup, td=teardown, more=(), props=ALL):
        return target(name, "trlc.lexer.%s.%s" % (cls, m), props, run,
                      [("trlc.lexer", "%s.%s" % (cls, m))] + list(more),
                      su, td)
    out = [tg("Lexer_Base.advance", LB, "advance", advance, setup_text,
              teardown_text),
           tg("Lexer_Base.__init__", LB, "__init__", base_init, None, None,
              [("trlc.lexer", "Lexer_Base.advance")]),
           tg("Lexer_Base.skip_whitespace", LB, "skip_whitespace", skip)]
    for name, run in (
            ("end of text", t_end), ("line comment", t_line_comment),
            ("block comment", t_block_comment), ("identifier", t_identifier),
            ("delimiters", t_fixed("(){}[],@:;%+-/")),
            ("operators", t_fixed("=.<>!*")), ("string", t_string),
            ('triple quoted "', t_triple('"')),
            ("triple quoted '", t_triple("'")),
            ("number", t_number(10)), ("binary number", t_number(2)),
            ("hexadecimal number", t_number(16)), ("other", t_other)):
        out.append(tg("TRLC_Lexer.token[%s]" % name, "TRLC_Lexer", "token",
                      run))
    return out
