"""The expression parser (B02, B01): every nonterminal builds the tree the
grammar defines, from the tokens the grammar gives it.

The token stream is a ghost sequence: TOKAT(parser, i) is the i-th token that
is not a comment, and the ghost field $pos of a parser is the number of
tokens consumed, so that nt = TOKAT($pos) and ct = TOKAT($pos - 1).  A
nonterminal is parsed at most once at each position (the parser never goes
back), so its node, its tree and its end are functions of the position."""
import re

import z3

from pyvc.core import (CLS, V, AnyV, BoolV, Conc, Infeasible, IntV, NONE,
                       ObjV, PyRaise, StrV, Unsupported, mro_find, to_v)
from .base import Contract, ER, EV
from .dataspec import bind, h0
from .evalspec import H, LOGIC, ORDER, STRFN, binary_types, evaluate_contract, isnone, make_ctx
from .symspec import FIND, SIMPLE
from .kit import (And, B, F, I, If, Implies, Kit, Not, Or, T, heap0, target)

PR = "B02,B01"
S_ = z3.StringSort()
TOKAT = z3.Function("token_at", I, I, V)
NTOK = z3.Function("number_of_tokens", I, I)
NODE = z3.Function("node_of", S_, I, I, I)
END = z3.Function("end_of", S_, I, I, I)
# trees
BIN = z3.Function("binary_tree", I, V, V, V)
UN = z3.Function("unary_tree", I, V, V)
RNG = z3.Function("range_tree", V, V, V, V)
LEAF = z3.Function("literal_tree", I, V, V)
NREF = z3.Function("name_tree", V, V)
FACC = z3.Function("field_access_tree", V, V, V)
ENUML = z3.Function("enumeration_literal_tree", V, V)
ACT = z3.Function("action_tree", V, V, V, V)
CND = z3.Function("conditional_tree", V, V)
CNDX = z3.Function("conditional_elsif_tree", V, V, V)
CNDE = z3.Function("conditional_else_tree", V, V, V)
QNT = z3.Function("quantified_tree", B, V, V, V, V)
ONE = z3.Function("oneof_tree", V, V)
# left-associative repetition: tree so far, position -> final tree and end
RT = z3.Function("rest_tree", I, V, I, V)
RE = z3.Function("rest_end", I, I, I)
SLOOK = z3.Function("scope_lookup", I, S_, V)
SHAS = z3.Function("scope_has", I, S_, B)
# scopes as states: what a table pushed on a scope gives
PUSH = z3.Function("scope_pushed", I, I, I)
POP = z3.Function("scope_popped", I, I)
DEPTH = z3.Function("scope_depth", I, I)
QN = z3.Function("qualified_name_at", I, I, V)
GLEVEL = {"parse_primary": 1, "parse_factor": 2, "parse_term": 3,
          "parse_simple_expression": 4, "parse_relation": 5,
          "parse_expression": 6}
WITHIN = {"parse_name": 0, "parse_quantified_expression": 0,
          "parse_conditional_expression": 0, "parse_builtin": 0}

s = z3.StringVal


def vs(x):
    return V.VStr(s(x))


def kind_of(t):
    return h0("kind", V.vo(t))


def value_of(t):
    return h0("value", V.vo(t))


def is_kind(t, *kinds):
    if isinstance(kinds[0], StrV):
        return And(Not(isnone(t)), kind_of(t) == V.VStr(kinds[0].t))
    return And(Not(isnone(t)), Or(*[kind_of(t) == vs(k) for k in kinds]))


def is_kw(t, *values):
    return And(is_kind(t, "KEYWORD"), Or(*[value_of(t) == vs(v)
                                           for v in values]))


def is_op(t, *values):
    return And(is_kind(t, "OPERATOR"), Or(*[value_of(t) == vs(v)
                                            for v in values]))


_tok = {}
# another language than that of TRLC files (see markupspec)
LANG = {}


def token_facts(i, p, n):
    """what the lexer guarantees of the n-th token"""
    t = TOKAT(p, n)
    L = i.specs.L
    kind, val = kind_of(t), value_of(t)
    return And(
        Or(isnone(t), And(
            V.is_VObj(t), V.vo(t) >= 0, i.prog.isinst(V.vo(t), L.Token),
            Or(*[kind == vs(k) for k in L.Token.KIND]),
            kind != vs("COMMENT"),
            If(Or(*[kind == vs(k) for k in ("IDENTIFIER", "KEYWORD",
                                            "OPERATOR", "STRING")]),
               V.is_VStr(val),
               If(kind == vs("INTEGER"), And(V.is_VInt(val), V.vi(val) >= 0),
                  If(kind == vs("DECIMAL"), And(V.is_VFrac(val),
                                                V.vr(val) >= 0),
                     isnone(val)))))),
        If(isnone(t), Or(n < 0, n >= NTOK(p)),
           And(n >= 0, n < NTOK(p))))


def token(i, p, n):
    """the n-th token, with what the lexer guarantees of it"""
    n = z3.simplify(n)
    key = (p.get_id(), n.get_id())
    hit = _tok.get(key)
    if hit is None or not (z3.eq(hit[0], p) and z3.eq(hit[1], n)):
        tp, tn = z3.Int("tk_p"), z3.Int("tk_n")
        if "template" not in _tok:
            _tok["template"] = z3.simplify(LANG.get(
                "facts", token_facts)(i, tp, tn))
        f = z3.substitute(_tok["template"], (tp, p), (tn, n))
        hit = _tok[key] = (p, n, f, TOKAT(p, n))
    if not known(i, hit[2]):
        i.pc_ids[hit[2].get_id()] = len(i.pc)
        i.pc.append(hit[2])
        i.add_fact(hit[2])
    return hit[3]


def pos(i, p):
    return V.vi(i.hread("$pos", p))


def setpos(i, p, n):
    i.hwrite("$pos", p, V.VInt(z3.simplify(n)))


def as_sv(i, t, cls):
    if i.valid(Not(isnone(t))):
        i.mark_old(V.vo(t))
        return ObjV(V.vo(t), cls)
    return AnyV(t, ("opt", cls))


def nt_ghost(i, o):
    return as_sv(i, token(i, o.t, pos(i, o.t)), i.specs.L.Token)


def ct_ghost(i, o):
    return as_sv(i, token(i, o.t, pos(i, o.t) - 1), i.specs.L.Token)


def tree(i, ref):
    return i.hread("$tree", ref)


def TREE(x, p, n):
    return h0("$tree", NODE(s(x), p, n))


def ENDP(x, p, n):
    return END(s(x), p, n)


# ------------------------------------------------- contracts of the parser
def c_advance(i, a, kw):
    p = a[0]
    token(i, p.t, pos(i, p.t))
    setpos(i, p.t, pos(i, p.t) + 1)
    return NONE


def kind_arg(i, a, kw, name):
    x = i.force(bind(["self", name], a, kw)[name])
    if isinstance(x, StrV):
        f = z3.simplify(x.t)
        x = Conc(f.as_string()) if z3.is_string_value(f) else x
    if not (isinstance(x, Conc) and isinstance(x.v, str)):
        if not isinstance(x, StrV) or name != "kind":
            raise Unsupported("computed token kind")
        i.safety("a valid kind of token", Or(*[x.t == s(w) for w in LANG.get(
            "kinds", i.specs.L.Token.KIND)]))
        return x
    valid = LANG.get("kinds", i.specs.L.Token.KIND) if name == "kind" else \
        i.specs.L.TRLC_Lexer.KEYWORDS
    i.safety("%s is a valid %s" % (x.v, name), z3.BoolVal(x.v in valid))
    return x.v


def consume(i, p, ok):
    if i.branch(Not(ok)):
        raise PyRaise(i.specs.E.TRLC_Error)
    setpos(i, p, pos(i, p) + 1)
    return NONE


def c_match(i, a, kw):
    k = kind_arg(i, a, kw, "kind")
    p = a[0].t
    return consume(i, p, is_kind(token(i, p, pos(i, p)), k))


def c_match_kw(i, a, kw):
    k = kind_arg(i, a, kw, "value")
    p = a[0].t
    return consume(i, p, is_kw(token(i, p, pos(i, p)), k))


def c_peek(i, a, kw):
    k = kind_arg(i, a, kw, "kind")
    p = a[0].t
    return BoolV(is_kind(token(i, p, pos(i, p)), k))


def c_peek_kw(i, a, kw):
    k = kind_arg(i, a, kw, "value")
    p = a[0].t
    return BoolV(is_kw(token(i, p, pos(i, p)), k))


def c_peek_eof(i, a, kw):
    p = a[0].t
    return BoolV(isnone(token(i, p, pos(i, p))))


def c_match_eof(i, a, kw):
    p = a[0].t
    if i.branch(Not(isnone(token(i, p, pos(i, p))))):
        raise PyRaise(i.specs.E.TRLC_Error)
    return NONE


def c_link(i, a, kw):
    """the link from a token to its node is no part of any property, but
    there has to be a token"""
    x = bind(["self", "tok"], a, kw)["tok"]
    t = i.need_obj(x, "a token")
    i.safety("the link is set on a token", i.prog.isinst(
        t.t, i.specs.L.Token))
    return NONE


def deeper(i, name, p):
    """no nonterminal calls itself without having consumed a token"""
    st = i.ghost.get("level")
    if st is None:
        return
    level, p0, n0 = st
    ok = pos(i, p) > n0
    if level is not None and GLEVEL.get(name, WITHIN.get(name)) < level:
        ok = Or(ok, pos(i, p) == n0)
    i.prove("recursion is well-founded: calls %s" % name, ok, "termination")


def nonterminal(name, cls=None):
    def f(i, a, kw):
        p = a[0].t
        n = pos(i, p)
        deeper(i, name, p)
        if i.choose(2) == 0:
            raise PyRaise(i.specs.E.TRLC_Error)
        r = NODE(s(name), p, n)
        e = END(s(name), p, n)
        i.mark_old(r)
        i.assume(i.prog.isinst(r, cls or i.specs.A.Expression))
        t = h0("typ", r)
        i.assume(Or(isnone(t), And(V.is_VObj(t), V.vo(t) >= 0, i.prog.isinst(
            V.vo(t), i.specs.A.Type))))
        i.assume(e > n)
        i.assume(Not(isnone(token(i, p, e - 1))))
        setpos(i, p, e)
        return ObjV(r, cls or i.specs.A.Expression)
    return f


# -------------------------------------------------- contracts of the nodes
def make(i, cls, tr, **fields):
    r = ObjV(i.new_ref(cls), cls)
    for k, x in fields.items():
        i.hwrite(k, r.t, to_v(i.prog, x))
    i.hwrite("$tree", r.t, tr)
    return r


def need(i, x, what):
    """x, which has to be an object"""
    if isinstance(x, AnyV):
        i.safety("an object is given (%s)" % what, V.is_VObj(x.t))
        i.assume(V.is_VObj(x.t))
        return ObjV(V.vo(x.t), i.specs.A.Node)
    return i.need_obj(x, what)


def ttree(i, e):
    e = need(i, e, "an expression")
    i.safety("an operand is an expression", i.prog.isinst(
        e.t, i.specs.A.Expression))
    return tree(i, e.t)


def may_reject(i):
    """the operand types are wrong (decided by the __init__ targets)"""
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)


def typ_of(i, e):
    return i.hread("typ", e.t)


def c_binary(i, a, kw):
    A = i.specs.A
    x = bind(["mh", "location", "typ", "operator", "n_lhs", "n_rhs"], a, kw)
    op = i.force(x["operator"])
    names = [o for o in A.Binary_Operator]
    if not isinstance(op, Conc):
        for o in names[:-1]:
            if i.branch(op.t == i.prog.enum_id(o)):
                op = Conc(o)
                break
        else:
            op = Conc(names[-1])
    l = need(i, x["n_lhs"], "lhs")
    r = need(i, x["n_rhs"], "rhs")
    tr = BIN(z3.IntVal(i.prog.enum_id(op.v)), ttree(i, l), ttree(i, r))
    may_reject(i)
    t = to_v(i.prog, x["typ"])
    k = H(i)
    sig, res = binary_types(k, op.v.name, typ_of(i, l), typ_of(i, r), t)
    i.assume(sig)
    i.prove("the type of %s is the result type of the operator" % op.v.name,
            res, "B01")
    i.prove("the location of %s is its operator's" % op.v.name,
            on_token(i, x["location"]), "B02")
    return make(i, A.Binary_Expression, tr, typ=x["typ"], operator=op,
                n_lhs=l, n_rhs=r, location=x["location"])


def on_token(i, loc):
    loc = need(i, loc, "location")
    return i.prog.isinst(loc.t, i.specs.E.Location)


UNRES = {"LOGICAL_NOT": "Builtin_Boolean", "STRING_LENGTH":
         "Builtin_Integer", "ARRAY_LENGTH": "Builtin_Integer",
         "CONVERSION_TO_INT": "Builtin_Integer",
         "CONVERSION_TO_DECIMAL": "Builtin_Decimal"}
UNARG = {"LOGICAL_NOT": "Builtin_Boolean", "STRING_LENGTH":
         "Builtin_String", "ARRAY_LENGTH": "Array_Type"}


def c_unary(i, a, kw):
    A = i.specs.A
    x = bind(["mh", "location", "typ", "operator", "n_operand"], a, kw)
    op = i.force(x["operator"])
    names = [o for o in A.Unary_Operator]
    if not isinstance(op, Conc):
        for o in names[:-1]:
            if i.branch(op.t == i.prog.enum_id(o)):
                op = Conc(o)
                break
        else:
            op = Conc(names[-1])
    e = need(i, x["n_operand"], "operand")
    tr = UN(z3.IntVal(i.prog.enum_id(op.v)), ttree(i, e))
    may_reject(i)
    t, n = to_v(i.prog, x["typ"]), op.v.name
    et = typ_of(i, e)
    isa = lambda v, c: H(i).isa(v, getattr(A, c))
    i.assume(isa(et, UNARG.get(n, "Builtin_Numeric_Type")))
    i.prove("the type of %s is the result type of the operator" % n,
            isa(t, UNRES[n]) if n in UNRES else t == et, "B01")
    return make(i, A.Unary_Expression, tr, typ=x["typ"], operator=op,
                n_operand=e, location=x["location"])


def boolean(i, what, t):
    i.prove("the type of %s is Boolean" % what, H(i).isa(
        to_v(i.prog, t), i.specs.A.Builtin_Boolean), "B01")


def c_range(i, a, kw):
    x = bind(["mh", "location", "typ", "n_lhs", "n_lower", "n_upper"], a, kw)
    es = [need(i, x[n], n) for n in ("n_lhs", "n_lower", "n_upper")]
    tr = RNG(*[ttree(i, e) for e in es])
    may_reject(i)
    boolean(i, "a range test", x["typ"])
    return make(i, i.specs.A.Range_Test, tr, typ=x["typ"], n_lhs=es[0],
                n_lower=es[1], n_upper=es[2], location=x["location"])


def c_oneof(i, a, kw):
    x = bind(["mh", "location", "typ", "choices"], a, kw)
    lst = need(i, x["choices"], "choices")
    may_reject(i)
    boolean(i, "oneof", x["typ"])
    return make(i, i.specs.A.OneOf_Expression, ONE(V.VObj(lst.t)),
                typ=x["typ"], choices=lst, location=x["location"])


def c_action(i, a, kw):
    x = bind(["mh", "t_kind", "n_condition", "n_expression"], a, kw)
    c = need(i, x["n_condition"], "condition")
    e = need(i, x["n_expression"], "expression")
    t = need(i, x["t_kind"], "keyword")
    kind = value_of(V.VObj(t.t))
    i.safety("an action is introduced by if or elsif", And(is_kw(
        V.VObj(t.t), "if", "elsif")))
    tr = ACT(kind, ttree(i, c), ttree(i, e))
    may_reject(i)
    return make(i, i.specs.A.Action, tr, kind=StrV(V.vs(kind)), n_cond=c,
                n_expr=e)


def c_conditional(i, a, kw):
    x = bind(["location", "if_action"], a, kw)
    act = need(i, x["if_action"], "action")
    i.safety("the first action is an if", i.hread(
        "kind", act.t) == vs("if"))
    e = V.vo(i.hread("n_expr", act.t))
    r = make(i, i.specs.A.Conditional_Expression, CND(tree(i, act.t)),
             location=x["location"])
    t = i.hread("typ", e)
    i.hwrite("typ", r.t, t)
    i.prove("the type of a conditional expression is that of its branches",
            H(i).isa(t, i.specs.A.Type), "B01")
    return r


def c_elsif(i, a, kw):
    x = bind(["self", "mh", "n_action"], a, kw)
    o, act = x["self"], need(i, x["n_action"], "action")
    i.safety("a further action is an elsif", i.hread(
        "kind", act.t) == vs("elsif"))
    may_reject(i)
    i.hwrite("$tree", o.t, CNDX(tree(i, o.t), tree(i, act.t)))
    return NONE


def c_else(i, a, kw):
    x = bind(["self", "mh", "n_expr"], a, kw)
    o, e = x["self"], need(i, x["n_expr"], "expression")
    may_reject(i)
    i.hwrite("$tree", o.t, CNDE(tree(i, o.t), ttree(i, e)))
    return NONE


def c_quantified(i, a, kw):
    x = bind(["mh", "location", "typ", "universal", "n_variable",
              "n_source", "n_expr"], a, kw)
    var = need(i, x["n_variable"], "variable")
    src = need(i, x["n_source"], "source")
    e = need(i, x["n_expr"], "expression")
    u = i.truth_term(x["universal"])
    tr = QNT(u, i.hread("name", var.t), i.hread("entity", src.t),
             ttree(i, e))
    may_reject(i)
    boolean(i, "a quantified expression", x["typ"])
    st = V.vo(i.hread("typ", src.t))
    i.prove("the variable has the element type of the array", And(
        i.prog.isinst(st, i.specs.A.Array_Type),
        i.hread("n_typ", var.t) == i.hread("element_type", st)), "B01")
    return make(i, i.specs.A.Quantified_Expression, tr, typ=x["typ"],
                universal=x["universal"], n_var=var, n_source=src, n_expr=e,
                location=x["location"])


def c_field_access(i, a, kw):
    x = bind(["mh", "location", "n_prefix", "n_field", "is_union_access",
              "is_universal"], a, kw)
    p = need(i, x["n_prefix"], "prefix")
    f = need(i, x["n_field"], "component")
    pt, A = typ_of(i, p), i.specs.A
    isa = H(i).isa
    name = i.hread("name", f.t)
    if i.branch(isa(pt, A.Union_Type)):
        i.prove("the field is one that the members of the union agree on",
                And(UF(pt, name) == V.VObj(f.t), Not(isnone(UFT(pt, name))),
                    i.truth_term(x["is_union_access"])), "B01,A05")
    else:
        i.prove("the prefix is a record or tuple, with that field", And(
            isa(pt, A.Composite_Type), Not(i.truth_term(
                x["is_union_access"])),
            FIND(V.vo(h0("components", V.vo(pt))), SIMPLE(V.vs(name)))
            == V.VObj(f.t)), "B01,D01")
    may_reject(i)
    tr = FACC(ttree(i, p), i.hread("name", f.t))
    r = make(i, i.specs.A.Field_Access_Expression, tr, n_prefix=p,
             n_field=f, is_union_access=x["is_union_access"],
             is_universal=x["is_universal"], location=x["location"])
    i.safety("the field is a component", i.prog.isinst(
        f.t, A.Composite_Component))
    i.hwrite("typ", r.t, to_v(i.prog, i.getattr(ObjV(
        f.t, A.Composite_Component), "n_typ")))
    return r


def inlined(cls, treefn):
    """the constructor itself runs; the tree is added to its result"""
    def f(i, a, kw):
        r = ObjV(i.new_ref(cls), cls)
        k, init = mro_find(cls, "__init__")
        i.call_function(init, [r] + a, kw, k)
        i.hwrite("$tree", r.t, treefn(i, r, a, kw))
        return r
    return f


def leaf(cls):
    def f(i, r, a, kw):
        tok = need(i, a[0] if a else kw["token"], "token")
        return LEAF(z3.IntVal(i.prog._cls_id(cls)), V.VObj(tok.t))
    return f


def c_static(i, a, kw):
    """static evaluation; the only static expression that is null is the
    null literal, which has no type (trusted lemma)"""
    r = evaluate_contract(i, a, kw)
    i.assume(Or(isnone(typ_of(i, a[0])), Not(isnone(i.hread(
        "value", r.t)))))
    return r


# --------------------------------------------------------- union types
# the representative component of that name, and its type
UF = z3.Function("union_field", V, V, V)
UFT = z3.Function("union_field_type", V, V, V)


def c_field_map(i, a, kw):
    """name -> component, type (none if they differ), number of types"""
    d = ObjV(i.new_ref(dict), dict)
    u = V.VObj(a[0].t)
    has, at = i.hread("$has", d.t), i.hread("$map", d.t)
    q = z3.Const("q_field", V)
    inf = z3.Select(at, q)
    hs, mp = heap0("$has"), heap0("$map")

    def info(q):
        inf = z3.Select(at, q)
        r = V.vo(inf)
        val = lambda x: z3.Select(z3.Select(mp, r), vs(x))
        c, t = val("component"), val("n_typ")
        return Implies(z3.Select(has, q), And(
            V.is_VObj(inf), r >= 0, i.prog.isinst(r, dict),
            *[z3.Select(z3.Select(hs, r), vs(x)) for x in (
                "component", "n_typ", "count", "total")],
            V.is_VObj(c), V.vo(c) >= 0, i.prog.isinst(
                V.vo(c), i.specs.A.Composite_Component),
            h0("name", V.vo(c)) == q, c == UF(u, q), t == UFT(u, q),
            Or(isnone(t), And(t == h0("n_typ", V.vo(c)), H(i).isa(
                t, i.specs.A.Type))),
            V.is_VInt(val("count")), V.is_VInt(val("total"))))
    i.ghost["on_dict_read"] = i.ghost.get("on_dict_read", ()) + (
        (d.t, info),)
    return d


# -------------------------------------------------------- names and scopes
def c_scope_lookup(i, a, kw):
    x = bind(["self", "mh", "referencing_token", "required_subclass"], a, kw)
    tok = i.need_obj(x["referencing_token"], "token")
    req = x.get("required_subclass", NONE)
    if not isinstance(req, Conc):
        raise Unsupported("lookup with a computed class")
    name = value_of(V.VObj(tok.t))
    i.safety("a name is looked up", is_kind(V.VObj(tok.t), "IDENTIFIER"))
    f = SLOOK(scope_state(i, x["self"].t), V.vs(name))
    i.safety("the scope is not empty", DEPTH(scope_state(
        i, x["self"].t)) >= 1)
    A = i.specs.A
    ok = And(V.is_VObj(f), V.vo(f) >= 0, i.prog.isinst(
        V.vo(f), req.v or A.Entity), h0("name", V.vo(f)) == name)
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    i.assume(ok)
    i.mark_old(V.vo(f))
    return ObjV(V.vo(f), req.v or A.Entity)


def c_scope_contains(i, a, kw):
    name = i.str_t(i.force(bind(["self", "name"], a, kw)["name"]))
    st = scope_state(i, a[0].t)
    f = SLOOK(st, name)
    i.assume(Implies(SHAS(st, name), And(
        V.is_VObj(f), V.vo(f) >= 0, i.prog.isinst(
            V.vo(f), i.specs.A.Entity))))
    return BoolV(SHAS(st, name))


def scope_state(i, o):
    return V.vi(i.hread("$scope", o))


def c_push(i, a, kw):
    x = bind(["self", "stab"], a, kw)
    t = i.need_obj(x["stab"], "a symbol table")
    i.safety("a symbol table is pushed", i.prog.isinst(
        t.t, i.specs.A.Symbol_Table))
    st = scope_state(i, x["self"].t)
    new = PUSH(st, t.t)
    i.assume(And(POP(new) == st, DEPTH(new) == DEPTH(st) + 1))
    seen = i.ghost.get("on_push")
    if seen is not None:
        seen(i, st, t.t)
    i.hwrite("$scope", x["self"].t, V.VInt(new))
    return NONE


def c_pop(i, a, kw):
    st = scope_state(i, a[0].t)
    i.safety("a table that was pushed is popped", DEPTH(st) >= 1)
    i.hwrite("$scope", a[0].t, V.VInt(POP(st)))
    return NONE


def c_qualified(i, a, kw):
    x = bind(["self", "scope", "required_subclass", "match_ident"], a, kw)
    p = x["self"].t
    req = x.get("required_subclass", NONE)
    mi = x.get("match_ident", Conc(True))
    if not isinstance(req, Conc) or not isinstance(mi, Conc):
        raise Unsupported("parse_qualified_name with computed arguments")
    if mi.v:
        c_match(i, [x["self"], Conc("IDENTIFIER")], {})
    n = pos(i, p)
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    f = QN(p, n)
    A = i.specs.A
    qualified_is(i, x["self"], x["scope"].t, n)
    i.assume(And(V.is_VObj(f), V.vo(f) >= 0, i.prog.isinst(
        V.vo(f), req.v or A.Entity)))
    i.mark_old(V.vo(f))
    e = qn_end(p, n)
    i.assume(is_kind(token(i, p, e - 1), "IDENTIFIER"))
    setpos(i, p, e)
    return ObjV(V.vo(f), req.v or A.Entity)


def qualified_is(i, po, scope, n):
    """what the qualified name, whose first identifier is before n, names"""
    p = po.t
    A = i.specs.A
    first = SLOOK(scope_state(i, scope), V.vs(value_of(token(i, p, n - 1))))
    pkg = i.prog.isinst(V.vo(first), A.Package)
    inner = FIND(V.vo(h0("symbols", V.vo(first))), SIMPLE(V.vs(value_of(
        token(i, p, n + 1)))))
    i.assume(QN(p, n) == If(pkg, inner, first))
    i.assume(qn_end(p, n) == If(pkg, n + 2, n))
    return first, pkg


def qn_end(p, n):
    return END(s("qualified_name"), p, n)


def c_builtin(i, a, kw):
    x = bind(["self", "scope", "n_name", "t_name"], a, kw)
    f = i.need_obj(x["n_name"], "function")
    i.need_obj(x["t_name"], "token")
    p = x["self"].t
    n = pos(i, p)
    A = i.specs.A
    i.safety("a function or numeric type is called", Or(
        i.prog.isinst(f.t, A.Builtin_Function),
        i.prog.isinst(f.t, A.Builtin_Numeric_Type)))
    r = nonterminal("parse_builtin")(i, a, kw)
    i.assume(BENT(p, n) == V.VObj(f.t))
    return r


# --------------------------------------------------------- target machinery
PARSER = {}


def parser(k):
    """the parser, with what its __init__ establishes"""
    A, P = k.A, k.S.P
    o = k.obj("self", P.Parser)
    k.i.assume(V.is_VInt(k.h0("$pos", o.t)))
    n = V.vi(k.h0("$pos", o.t))
    k.i.assume(n >= 1)
    token(k.i, o.t, n)
    k.i.assume(Not(isnone(token(k.i, o.t, n - 1))))
    for f, c in (("builtin_bool", A.Builtin_Boolean),
                 ("builtin_int", A.Builtin_Integer),
                 ("builtin_decimal", A.Builtin_Decimal),
                 ("builtin_str", A.Builtin_String),
                 ("builtin_mstr", A.Builtin_Markup_String)):
        k.i.assume(CLS(k.o0(f, o.t)) == k.prog._cls_id(c))
        k.i.assume(V.is_VObj(k.h0(f, o.t)))
    k.i.assume(V.is_VObj(k.h0("mh", o.t)))
    return o, n


def opmap(k, t, table, enum="Binary_Operator"):
    """operator number of an operator token"""
    items = list(table.items())
    e = getattr(k.A, enum)
    out = z3.IntVal(k.prog.enum_id(getattr(e, items[-1][1])))
    for text, name in items[:-1]:
        out = If(value_of(t) == vs(text), z3.IntVal(k.prog.enum_id(
            getattr(e, name))), out)
    return out


def opid(k, name, enum="Binary_Operator"):
    return z3.IntVal(k.prog.enum_id(getattr(getattr(k.A, enum), name)))


class Rest:
    """{ operator operand }: a left-associative repetition"""

    def __init__(self, k, num, p, more, step, end):
        self.num, self.p = z3.IntVal(num), p
        self.more, self.step, self.end = more, step, end

    def at(self, i, tr, n):
        """(final tree, end) from here, unfolded once"""
        t = token(i, self.p, n)
        m = self.more(t, n)
        tr2, n2 = self.step(tr, t, n), self.end(n)
        i.assume(RT(self.num, tr, n) == If(
            m, RT(self.num, tr2, n2), tr))
        i.assume(RE(self.num, n) == If(m, RE(self.num, n2), n))
        return RT(self.num, tr, n), RE(self.num, n)


def infix(k, num, p, more, op, operand):
    return Rest(k, num, p, more,
                lambda tr, t, n: BIN(op(t), tr, TREE(operand, p, n + 1)),
                lambda n: ENDP(operand, p, n + 1))


def inv_rest(i, node, it, env_mods, entry_env):
    """the final tree and end are the same seen from every iteration"""
    rests = i.ghost.get("rests")
    if rests is None or it is not None:
        return []
    out = []
    e = i.specs
    for r in rests:
        n0 = pos(i, r.p)

        def end_same(ip, idx, r=r, n0=n0):
            if ip is None:
                return None
            a = r.at(ip, V.VNone, n0)[1]
            return And(r.at(ip, V.VNone, pos(ip, r.p))[1] == a)
        out.append(("rest-end-%s" % r.num, end_same))

    def position(ip, idx, n0=pos(i, rests[0].p), p=rests[0].p):
        n = pos(ip, p)
        return And(V.is_VInt(ip.hread("$pos", p)), n >= n0, n >= 1,
                   Not(isnone(token(ip, p, n - 1))))
    out.append(("position", position))
    names = set(env_mods) | set(
        n for n, x in entry_env.items() if isinstance(x, ObjV) and
        is_expr(i, x))
    for name in sorted(names):
        x0 = entry_env.get(name)
        if not isinstance(x0, ObjV) or not is_expr(i, x0):
            continue
        r0 = x0.t
        for r in rests:
            t0, n0 = i.hread("$tree", r0), pos(i, r.p)

            def same_tree(ip, idx, r=r, t0=t0, n0=n0, name=name):
                x = ip.stack[-1].env.get(name)
                if not isinstance(x, (ObjV, AnyV)):
                    return None
                a = r.at(ip, t0, n0)[0]
                b = r.at(ip, ip.hread("$tree", ref_of(x)),
                         pos(ip, r.p))[0]
                return a == b
            out.append(("rest-tree-%s-%s" % (r.num, name), same_tree))
        ty0 = i.hread("typ", r0)

        def typ_same(ip, idx, ty0=ty0, name=name):
            x = ip.stack[-1].env.get(name)
            if not isinstance(x, (ObjV, AnyV)):
                return None
            return H(ip).kindeq(ip.hread("typ", ref_of(x)), ty0)

        def typ_equal(ip, idx, ty0=ty0, name=name):
            x = ip.stack[-1].env.get(name)
            if not isinstance(x, (ObjV, AnyV)):
                return None
            return ip.hread("typ", ref_of(x)) == ty0

        def typ_typed(ip, idx, name=name):
            x = ip.stack[-1].env.get(name)
            if not isinstance(x, (ObjV, AnyV)):
                return None
            return opt_type(ip, ip.hread("typ", ref_of(x)))

        def typ_there(ip, idx, name=name):
            x = ip.stack[-1].env.get(name)
            if not isinstance(x, (ObjV, AnyV)):
                return None
            return H(ip).isa(ip.hread("typ", ref_of(x)), e.A.Type)
        out += [("type-%s" % name, typ_same), ("typed-%s" % name, typ_typed),
                ("type-equal-%s" % name, typ_equal),
                ("type-there-%s" % name, typ_there)]
    return out


def opt_type(i, t):
    return Or(isnone(t), And(V.is_VObj(t), V.vo(t) >= 0, i.prog.isinst(
        V.vo(t), i.specs.A.Type)))


def is_expr(i, x):
    cs = i.classes_of(x)
    return bool(cs) and all(issubclass(c, i.specs.A.Expression) for c in cs)


def ref_of(x):
    if isinstance(x, ObjV):
        return x.t
    return V.vo(x.t)


def measure(i, node):
    p = i.ghost.get("parser")
    if p is None:
        return None
    m = lambda ip: NTOK(p) - pos(ip, p) + 1
    return m(i), m


# ------------------------------------------------------------------ targets
def start(k, level):
    o, n = parser(k)
    k.i.ghost["parser"] = o.t
    k.i.ghost["level"] = (level, o.t, n)
    return o, n


def built(k, o, out, rv, want, end):
    """obligations of a nonterminal that has returned"""
    if out == "err":
        return
    k.prove("B02", "value:the tree is the one the grammar defines",
            tree(k.i, ref_of(rv)) == want)
    k.prove("B02", "value:exactly the tokens of the expression are consumed",
            pos(k.i, o.t) == end)
    k.prove("B01", "value:the result is an expression, with a type", And(
        k.i.prog.isinst(ref_of(rv), k.A.Expression),
        opt_type(k.i, k.i.hread("typ", ref_of(rv)))))
    k.prove("B02", "end:at least one token is consumed", And(
        end > V.vi(k.h0("$pos", o.t)),
        Not(isnone(token(k.i, o.t, end - 1)))))
    k.frame("B02", lambda f, r: f in ("ast_link",) or (
        z3.eq(r, o.t) and f == "$pos"))


def scope_arg(k):
    o = k.obj("scope", k.A.Scope)
    st = k.h0("$scope", o.t)
    k.i.assume(And(V.is_VInt(st), DEPTH(V.vi(st)) >= 1))
    return o


MUL = {"*": "TIMES", "/": "DIVIDE", "%": "REMAINDER"}
ADD = {"+": "PLUS", "-": "MINUS"}
REL = {"==": "COMP_EQ", "!=": "COMP_NEQ", "<": "COMP_LT", "<=": "COMP_LEQ",
       ">": "COMP_GT", ">=": "COMP_GEQ"}


def term(k):
    o, n = start(k, 3)
    r = infix(k, 1, o.t, lambda t, q: is_op(t, *MUL),
              lambda t: opmap(k, t, MUL), "parse_factor")
    k.i.ghost["rests"] = (r,)
    e0 = ENDP("parse_factor", o.t, n)
    want, end = r.at(k.i, TREE("parse_factor", o.t, n), e0)
    out, rv = k.call(k.S.P.Parser, "parse_term", [o, scope_arg(k)])
    built(k, o, out, rv, want, end)


def simple_expression(sign):
    return lambda k: simple_expression_at(k, sign)


def simple_expression_at(k, sign):
    o, n = start(k, 4)
    t = token(k.i, o.t, n)
    un = is_op(t, *ADD)
    k.i.assume(un if sign else Not(un))
    r = infix(k, 2, o.t, lambda t, q: is_op(t, *ADD),
              lambda t: opmap(k, t, ADD), "parse_term")
    k.i.ghost["rests"] = (r,)
    n0 = If(un, n + 1, n)
    first = TREE("parse_term", o.t, n0)
    first = If(un, UN(opmap(k, t, ADD, "Unary_Operator"), first), first)
    for c in (un, Not(un)):
        # instances for both ways the code can go
        q = n + 1 if c is un else n
        token(k.i, o.t, ENDP("parse_term", o.t, q))
    want, end = r.at(k.i, first, ENDP("parse_term", o.t, n0))
    out, rv = k.call(k.S.P.Parser, "parse_simple_expression",
                     [o, scope_arg(k)])
    built(k, o, out, rv, want, end)


def relation(k):
    o, n = start(k, 5)
    p = o.t
    S1 = "parse_simple_expression"
    tree_at = lambda q: TREE(S1, p, q)
    end_at = lambda q: ENDP(S1, p, q)
    n1 = end_at(n)
    t = token(k.i, p, n1)
    left = tree_at(n)
    isrel = is_op(t, *REL)
    isnot, isin = is_kw(t, "not"), is_kw(t, "in")
    a0 = If(isnot, n1 + 2, n1 + 1)
    a1 = end_at(a0)
    rng = is_kind(token(k.i, p, a1), "RANGE")
    ta = h0("typ", NODE(s(S1), p, a0))
    member = If(rng, RNG(left, tree_at(a0), tree_at(a1 + 1)), BIN(
        If(k.isa(ta, k.A.Builtin_String), opid(k, "STRING_CONTAINS"),
           opid(k, "ARRAY_CONTAINS")), left, tree_at(a0)))
    want = If(isrel, BIN(opmap(k, t, REL), left, tree_at(n1 + 1)),
              If(isnot, UN(opid(k, "LOGICAL_NOT", "Unary_Operator"), member),
                 If(isin, member, left)))
    end = If(isrel, end_at(n1 + 1), If(Or(isnot, isin), If(
        rng, end_at(a1 + 1), a1), n1))
    out, rv = k.call(k.S.P.Parser, "parse_relation", [o, scope_arg(k)])
    built(k, o, out, rv, want, end)


def expression(k):
    o, n = start(k, 6)
    p = o.t
    R = "parse_relation"
    const = lambda op: lambda t: opid(k, op)
    ra = infix(k, 3, p, lambda t, q: is_kw(t, "and"), const("LOGICAL_AND"),
               R)
    ro = infix(k, 4, p, lambda t, q: is_kw(t, "or"), const("LOGICAL_OR"), R)
    k.i.ghost["rests"] = (ra, ro)
    left, n1 = TREE(R, p, n), ENDP(R, p, n)
    t = token(k.i, p, n1)
    right, n2 = TREE(R, p, n1 + 1), ENDP(R, p, n1 + 1)
    wa, ea = ra.at(k.i, left, n1)
    wo, eo = ro.at(k.i, left, n1)
    one = lambda op: BIN(opid(k, op), left, right)
    want = If(is_kw(t, "and"), wa, If(is_kw(t, "or"), wo, If(
        is_kw(t, "xor"), one("LOGICAL_XOR"), If(
            is_kw(t, "implies"), one("LOGICAL_IMPLIES"), left))))
    end = If(is_kw(t, "and"), ea, If(is_kw(t, "or"), eo, If(
        is_kw(t, "xor", "implies"), n2, n1)))
    out, rv = k.call(k.S.P.Parser, "parse_expression", [o, scope_arg(k)])
    built(k, o, out, rv, want, end)


def factor(k):
    o, n = start(k, 2)
    p = o.t
    R = "parse_primary"
    t = token(k.i, p, n)
    un = Or(is_kw(t, "not"), is_kw(t, "abs"))
    n1 = ENDP(R, p, n)
    power = is_op(token(k.i, p, n1), "**")
    want = If(un, UN(If(is_kw(t, "not"), opid(
        k, "LOGICAL_NOT", "Unary_Operator"), opid(
            k, "ABSOLUTE_VALUE", "Unary_Operator")), TREE(R, p, n + 1)),
        If(power, BIN(opid(k, "POWER"), TREE(R, p, n), TREE(
            R, p, n1 + 1)), TREE(R, p, n)))
    end = If(un, ENDP(R, p, n + 1), If(power, ENDP(R, p, n1 + 1), n1))
    out, rv = k.call(k.S.P.Parser, "parse_factor", [o, scope_arg(k)])
    built(k, o, out, rv, want, end)
    if out != "err":
        er, ev = static(k, NODE(s(R), p, n1 + 1))
        k.prove("A01,B01", "value:an exponent is static and not negative",
                Implies(And(Not(un), power), And(Not(er), Or(
                    And(V.is_VInt(ev), V.vi(ev) >= 0),
                    And(V.is_VFrac(ev), V.vr(ev) >= 0)))))


def static(k, ref):
    """(error, value) of the evaluation without context"""
    c = make_ctx(k.i, NONE)
    return ER(ref, c.s, c.m), EV(ref, c.s, c.m)


# compiles as a regular expression
REOK = z3.Function("valid_regex", S_, B)


def re_compile(i, a, kw):
    x = i.str_t(i.force(a[0]))
    if i.branch(REOK(x)):
        return ObjV(i.new_ref(object), object)
    raise PyRaise(re.error)


def lit(k, cls, t):
    return LEAF(z3.IntVal(k.prog._cls_id(getattr(k.A, cls))), t)


def primary(k):
    o, n = start(k, 1)
    p = o.t
    t = token(k.i, p, n)
    t1 = token(k.i, p, n + 1)
    bra = is_kind(t, "BRA")
    q = is_kw(t1, "forall", "exists")
    c = is_kw(t1, "if")
    inner = lambda f: If(q, f("parse_quantified_expression", p, n + 1), If(
        c, f("parse_conditional_expression", p, n + 1),
        f("parse_expression", p, n + 1)))
    simple = [(is_kind(t, "INTEGER"), "Integer_Literal"),
              (is_kind(t, "DECIMAL"), "Decimal_Literal"),
              (is_kind(t, "STRING"), "String_Literal"),
              (is_kw(t, "true", "false"), "Boolean_Literal"),
              (is_kw(t, "null"), "Null_Literal")]
    want = If(bra, inner(TREE), TREE("parse_name", p, n))
    end = If(bra, inner(ENDP) + 1, ENDP("parse_name", p, n))
    for cond, cls in simple:
        want = If(cond, lit(k, cls, t), want)
        end = If(cond, n + 1, end)
    out, rv = k.call(k.S.P.Parser, "parse_primary", [o, scope_arg(k)])
    built(k, o, out, rv, want, end)
    if out != "err":
        ref = ref_of(rv)
        ty = k.i.hread("typ", ref)
        for cond, cls, tc in ((simple[0][0], 0, "Builtin_Integer"),
                              (simple[1][0], 1, "Builtin_Decimal"),
                              (simple[2][0], 2, "Builtin_String"),
                              (simple[3][0], 3, "Builtin_Boolean")):
            k.prove("B01", "value:a literal has its type", Implies(
                cond, CLS(V.vo(ty)) == k.kid(tc)))
            k.prove("B02,I01", "value:a literal has the value of its token",
                    Implies(cond, k.i.hread("value", ref) == (
                        V.VBool(value_of(t) == vs("true")) if cls == 3
                        else value_of(t))))
        k.prove("B01", "value:null has no type", Implies(
            simple[4][0], isnone(ty)))
        k.prove("B02", "value:brackets are closed", Implies(bra, is_kind(
            token(k.i, p, end - 1), "KET")))



def quantified(k):
    o, n = start(k, 0)
    p = o.t
    sc = scope_arg(k)
    st = V.vi(k.h0("$scope", sc.t))
    k.i.assume(is_kw(token(k.i, p, n), "forall", "exists"))
    t0, t1, t3 = (token(k.i, p, n + d) for d in (0, 1, 3))
    name = V.vs(value_of(t1))
    src = SLOOK(st, V.vs(value_of(t3)))
    E_ = "parse_expression"

    def on_push(i, state, tab):
        table = V.vo(i.hread("table", tab))
        at = V.VStr(SIMPLE(name))
        v = z3.Select(i.hread("$map", table), at)
        q = z3.Const("q", V)
        i.prove("value:in the predicate the variable names an element of "
                "the array", And(
                    state == st, z3.Select(i.hread("$has", table), at),
                    i.prog.isinst(V.vo(v), k.A.Quantified_Variable),
                    i.hread("name", V.vo(v)) == V.VStr(name),
                    i.hread("n_typ", V.vo(v)) == h0("element_type", V.vo(
                        h0("n_typ", V.vo(src))))), "B01,D01")
        i.prove("value:and no other name is added to the scope", z3.ForAll(
            [q], Implies(z3.Select(i.hread("$has", table), q), q == at)),
            "D01")
    k.i.ghost["on_push"] = on_push
    out, rv = k.call(k.S.P.Parser, "parse_quantified_expression", [o, sc])
    want = QNT(is_kw(t0, "forall"), value_of(t1), V.VObj(V.vo(src)),
               TREE(E_, p, n + 5))
    end = ENDP(E_, p, n + 5)
    if out == "err":
        return
    k.prove("B02", "value:the tree is the one the grammar defines",
            tree(k.i, ref_of(rv)) == want)
    k.prove("B02", "value:exactly the tokens of the expression are consumed",
            pos(k.i, p) == end)
    k.prove("B02", "value:every token is the one the grammar asks for", And(
        is_kind(t1, "IDENTIFIER"), is_kw(token(k.i, p, n + 2), "in"),
        is_kind(t3, "IDENTIFIER"), is_kind(token(k.i, p, n + 4), "ARROW")))
    k.prove("B01", "value:it is Boolean and ranges over an array", And(
        k.isa(k.i.hread("typ", ref_of(rv)), k.A.Builtin_Boolean),
        k.isa(h0("n_typ", V.vo(src)), k.A.Array_Type)))
    k.prove("D01", "value:the variable hides no other name",
            Not(SHAS(st, name)))
    k.prove("D01", "frame:the scope is as it was before",
            scope_state(k.i, sc.t) == st)
    k.prove("B02", "end:at least one token is consumed", And(
        end > n, Not(isnone(token(k.i, p, end - 1)))))
    k.frame("B02,D01", lambda f, r: f in ("ast_link",) or (
        z3.eq(r, p) and f == "$pos") or (
            z3.eq(r, sc.t) and f == "$scope"))


def conditional(k):
    o, n = start(k, 0)
    p = o.t
    k.i.assume(is_kw(token(k.i, p, n), "if"))
    E_ = "parse_expression"
    then = lambda q: ENDP(E_, p, q + 1) + 1

    def action(kw, q):
        return ACT(vs(kw), TREE(E_, p, q + 1), TREE(E_, p, then(q)))
    r = Rest(k, 5, p, lambda t, q: is_kw(t, "elsif"),
             lambda tr, t, q: CNDX(tr, action("elsif", q)),
             lambda q: ENDP(E_, p, then(q)))
    k.i.ghost["rests"] = (r,)
    wr, er = r.at(k.i, CND(action("if", n)), ENDP(E_, p, then(n)))
    want, end = CNDE(wr, TREE(E_, p, er + 1)), ENDP(E_, p, er + 1)
    out, rv = k.call(k.S.P.Parser, "parse_conditional_expression",
                     [o, scope_arg(k)])
    built(k, o, out, rv, want, end)
    if out != "err":
        k.prove("B02", "value:there is always an else part", is_kw(token(
            k.i, p, er), "else"))
        k.prove("B01", "value:a conditional expression has a type", Not(
            isnone(k.i.hread("typ", ref_of(rv)))))


# position of the q-th argument of the call whose bracket is at n
AP = z3.Function("argument_at", I, I, I, I)
BENT = z3.Function("builtin_called_at", I, I, V)
FUNS = {"len": (1, False), "startswith": (2, False), "endswith": (2, False),
        "matches": (2, False), "oneof": (1, True)}


def inv_args(i, node, it, env_mods, entry_env):
    """a list of the arguments so far"""
    st = i.ghost.get("args")
    if st is None or it is not None:
        return []
    p, n = st
    E_ = "parse_expression"
    e = i.specs.A.Expression
    out = []

    def so_far(i, ref):
        q = z3.Int("q_arg")
        ln = i.hread("$len", ref)
        el = i.hread("$elem", ref)
        node_ = NODE(s(E_), p, AP(p, n, q))
        body = lambda q: Implies(And(q >= 0, q < ln), z3.substitute(And(
            z3.Select(el, z3.Int("q_arg")) == V.VObj(node_), node_ >= 0,
            i.prog.isinst(node_, e), opt_type(i, h0("typ", node_))),
            (z3.Int("q_arg"), q)))
        return z3.ForAll([q], body(q)), body
    for name, x in sorted(entry_env.items()):
        if not isinstance(x, ObjV) or i.classes_of(x) != [list]:
            continue

        def args(ip, idx, name=name):
            x = ip.stack[-1].env.get(name)
            if not isinstance(x, ObjV):
                return None
            return so_far(ip, x.t)[0]

        def where(ip, idx, name=name):
            x = ip.stack[-1].env.get(name)
            if not isinstance(x, ObjV):
                return None
            ln = ip.hread("$len", x.t)
            at = AP(p, n, ln)
            ip.assume(And(AP(p, n, z3.IntVal(0)) == n + 1, AP(
                p, n, ln + 1) == ENDP(E_, p, at) + 1))
            token(ip, p, at)
            return And(ln >= 0, pos(ip, p) == at, at > n,
                       Not(isnone(token(ip, p, at - 1))),
                       Or(ln == 0, Not(is_kind(token(ip, p, at), "KET"))))

        def commas(ip, idx, name=name):
            x = ip.stack[-1].env.get(name)
            if not isinstance(x, ObjV):
                return None
            return every_comma(ip, p, n, ip.hread("$len", x.t))
        out += [("arguments-" + name, args), ("position-" + name, where),
                ("commas-" + name, commas)]

    def read(ip, ref, idx):
        # an instance of the invariant, where an element is read
        f, body = so_far(ip, ref)
        ip.assume(body(idx) if known(ip, f) else Implies(f, body(idx)))
    i.ghost["on_list_read"] = read
    return out


def known(i, f):
    """f is assumed on this path"""
    at = i.pc_ids.get(f.get_id())
    return at is not None and at < len(i.pc) and z3.eq(i.pc[at], f)


def every_comma(i, p, n, ln):
    """the first ln arguments are followed by a comma"""
    q = z3.Int("q_comma")
    t = TOKAT(p, ENDP("parse_expression", p, AP(p, n, q)))
    return z3.ForAll([q], Implies(And(q >= 0, q < ln), is_kind(t, "COMMA")))


def builtin(which):
    return lambda k: builtin_at(k, which)


def builtin_at(k, which):
    A = k.A
    o, n = start(k, 0)
    p = o.t
    k.i.ghost["args"] = (p, n)
    k.i.ghost["plain_branch"] = True
    if which in FUNS:
        f = k.obj("n_name", A.Builtin_Function)
        ar, more = FUNS[which]
        k.i.assume(And(k.h0("arity", f.t) == V.VInt(ar),
                       k.h0("arity_at_least", f.t) == V.VBool(more)))
    else:
        f = k.obj("n_name", getattr(A, "Builtin_" + which))
        ar, more = 1, False
    k.i.assume(k.h0("name", f.t) == vs(which))
    tok = k.obj("t_name", k.L.Token)
    E_ = "parse_expression"
    ap = lambda q: AP(p, n, z3.IntVal(q))
    k.i.assume(ap(0) == n + 1)
    for q in range(3):
        k.i.assume(ap(q + 1) == ENDP(E_, p, ap(q)) + 1)
    arg = lambda q: TREE(E_, p, ap(q))
    typ = lambda q: h0("typ", NODE(s(E_), p, ap(q)))
    out, rv = k.call(k.S.P.Parser, "parse_builtin",
                     [o, scope_arg(k), f, tok])
    if out == "err":
        return
    ref = ref_of(rv)
    un = lambda name: UN(opid(k, name, "Unary_Operator"), arg(0))
    bi = lambda name: BIN(opid(k, name), arg(0), arg(1))
    end = ap(ar)
    if which == "len":
        want = If(k.isa(typ(0), A.Builtin_String), un("STRING_LENGTH"),
                  un("ARRAY_LENGTH"))
    elif which == "Integer":
        want = un("CONVERSION_TO_INT")
    elif which == "Decimal":
        want = un("CONVERSION_TO_DECIMAL")
    elif which == "oneof":
        lst = V.vo(k.i.hread("choices", ref))
        ln = k.i.hread("$len", lst)
        q = z3.Int("q_choice")
        want = ONE(V.VObj(lst))
        end = AP(p, n, ln)
        k.prove("B02", "value:the choices are the arguments, in order", And(
            ln >= 1, z3.ForAll([q], Implies(And(q >= 0, q < ln), And(
                z3.Select(k.i.hread("$elem", lst), q) == V.VObj(NODE(
                    s(E_), p, AP(p, n, q))))))))
        k.prove("B02", "value:commas separate the arguments",
                every_comma(k.i, p, n, ln - 1))
    else:
        want = bi({"startswith": "STRING_STARTSWITH", "endswith":
                   "STRING_ENDSWITH", "matches": "STRING_REGEX"}[which])
    built(k, o, out, rv, want, end)
    if which == "matches":
        er, ev = static(k, NODE(s(E_), p, ap(1)))
        k.prove("A04,B01", "value:the expression to match is static and "
                "valid", And(Not(er), V.is_VStr(ev), REOK(V.vs(ev)),
                             k.isa(typ(1), A.Builtin_String)))
    k.prove("B02", "value:the arguments are in brackets, with commas "
            "between them", And(
                is_kind(token(k.i, p, n), "BRA"),
                is_kind(token(k.i, p, end - 1), "KET"),
                *([is_kind(token(k.i, p, ap(1) - 1), "COMMA")]
                  if ar == 2 else [])))
    k.prove("B01", "value:a call has the result type of the function",
            k.isa(k.i.hread("typ", ref), getattr(A, {
                "len": "Builtin_Integer", "Integer": "Builtin_Integer",
                "Decimal": "Builtin_Decimal"}.get(
                    which, "Builtin_Boolean"))))


def name(k):
    A = k.A
    o, n = start(k, 0)
    k.i.ghost["plain_branch"] = True
    p = o.t
    k.i.assume(is_kind(token(k.i, p, n), "IDENTIFIER"))
    E_ = "parse_expression"
    bra = is_kind(token(k.i, p, n + 1), "BRA")
    spell = lambda q: SIMPLE(V.vs(value_of(token(k.i, p, q))))
    fun = FIND(k.o0("stab", p), spell(n))
    ent, e = QN(p, n + 1), qn_end(p, n + 1)
    call = lambda f: Or(k.isa(f, A.Builtin_Function),
                        k.isa(f, A.Builtin_Numeric_Type))
    B_ = "parse_builtin"
    r = Rest(k, 6, p, lambda t, q: is_kind(t, "DOT", "S_BRA"),
             lambda tr, t, q: If(is_kind(t, "DOT"), FACC(
                 tr, value_of(TOKAT(p, q + 1))), BIN(
                     opid(k, "INDEX"), tr, TREE(E_, p, q + 1))),
             lambda q: If(is_kind(TOKAT(p, q), "DOT"), q + 2, ENDP(
                 E_, p, q + 1) + 1))
    k.i.ghost["rests"] = (r,)
    wr, er = r.at(k.i, NREF(ent), e)
    enum = k.isa(ent, A.Enumeration_Type)
    lit = FIND(V.vo(k.h0("literals", V.vo(ent))), spell(e + 1))
    at = If(bra, n + 1, e)
    calls = Or(bra, call(ent))
    want = If(calls, TREE(B_, p, at), If(enum, ENUML(lit), wr))
    end = If(calls, ENDP(B_, p, at), If(enum, e + 2, er))
    out, rv = k.call(k.S.P.Parser, "parse_name", [o, scope_arg(k)])
    built(k, o, out, rv, want, end)
    if out == "err":
        return
    k.prove("B02,D01", "value:what is called is the function named",
            Implies(calls, BENT(p, at) == If(bra, fun, ent)))
    k.prove("D01", "value:a literal of the enumeration is named", Implies(
        And(Not(calls), enum), And(
            k.isa(lit, A.Enumeration_Literal_Spec),
            k.h0("name", V.vo(lit)) == value_of(token(k.i, p, e + 1)))))
    k.prove("B01,D01", "value:only components, variables, functions and "
            "enumerations are named", Implies(Not(bra), Or(
                call(ent), enum, k.isa(ent, A.Composite_Component),
                k.isa(ent, A.Quantified_Variable))))
    k.prove("B01", "value:a name has a type", Implies(Not(calls), Not(
        isnone(k.i.hread("typ", ref_of(rv))))))


VIS = z3.Function("package_visible", I, V, B)


def visible(i, cu, pkg):
    return Or(pkg == h0("package", cu), z3.Select(h0("$has", V.vo(
        h0("imports", cu))), pkg))


def c_visible(i, a, kw):
    x = bind(["self", "n_pkg"], a, kw)
    g = i.need_obj(x["n_pkg"], "package")
    i.safety("imports are resolved", Not(isnone(h0("imports", a[0].t))))
    i.safety("a package is asked for", i.prog.isinst(g.t, i.specs.A.Package))
    return BoolV(visible(i, a[0].t, V.VObj(g.t)))


def qualified(k):
    """with match_ident false the identifier has been consumed"""
    A = k.A
    o, n = start(k, None)
    p = o.t
    sc = scope_arg(k)
    k.i.assume(is_kind(token(k.i, p, n - 1), "IDENTIFIER"))
    cu = k.o0("cu", p)
    imp = k.h0("imports", cu)
    k.i.assume(And(V.is_VObj(imp), V.vo(imp) >= 0, CLS(V.vo(
        imp)) == k.prog._cls_id(set)))
    match = k.i.choose(2) == 1
    m = n + 1 if match else n
    reqs = (None, A.Type, A.Record_Type, A.Record_Object)
    req = reqs[k.i.choose(len(reqs))]
    first, pkg = qualified_is(k.i, o, sc.t, m)
    out, rv = k.call(k.S.P.Parser, "parse_qualified_name",
                     [o, sc, Conc(req)] + ([] if match else [Conc(False)]))
    if out == "err":
        return
    k.prove("D01,D02", "value:the entity named, in the package if one is "
            "given, else in the scope", k.v(rv) == QN(p, m))
    k.prove("D01", "value:spelled as it is declared", k.h0(
        "name", V.vo(k.v(rv))) == value_of(token(
            k.i, p, qn_end(p, m) - 1)))
    if req is not None:
        k.prove("D02,D01", "value:of the kind that is asked for",
                k.isa(k.v(rv), req))
    k.prove("D01,D02", "value:a package is used only if it is the own one "
            "or imported", Implies(pkg, visible(k.i, cu, first)))
    k.prove("B02,D01", "value:exactly the tokens of the name are consumed",
            And(pos(k.i, p) == qn_end(p, m), is_kind(token(k.i, p, m - 1),
                                                     "IDENTIFIER"),
                Implies(pkg, And(is_kind(token(k.i, p, m), "DOT"), is_kind(
                    token(k.i, p, m + 1), "IDENTIFIER")))))
    k.frame("D01,D02", lambda f, r: f in ("ast_link",) or (
        z3.eq(r, p) and f == "$pos"))


def unit(k):
    A = k.A
    o = k.obj("self", A.Compilation_Unit)
    imp = k.h0("imports", o.t)
    k.i.assume(And(V.is_VObj(imp), V.vo(imp) >= 0, CLS(V.vo(
        imp)) == k.prog._cls_id(set)))
    return o


def is_visible(k):
    o = unit(k)
    g = k.obj("n_pkg", k.A.Package)
    out, rv = k.call(k.A.Compilation_Unit, "is_visible", [o, g])
    if out == "err":
        k.prove("D01", "error:never", F)
        return
    k.prove("D01,D02", "value:true iff it is the own package or imported",
            k.bool_of(rv) == visible(k.i, o.t, V.VObj(g.t)))
    k.frame("D01")


# --------------------------------------------------------- the token cursor
RAW = z3.Function("raw_token", I, I, V)
NRAW = z3.Function("number_of_raw_tokens", I, I)
SKIP = z3.Function("first_token_that_is_no_comment", I, I, I)


def raw_token(i, lx, n):
    L = i.specs.L
    t = RAW(lx, n)
    i.assume(And(
        Or(isnone(t), And(V.is_VObj(t), V.vo(t) >= 0, i.prog.isinst(
            V.vo(t), L.Token_Base), V.is_VStr(kind_of(t)))),
        isnone(t) == Or(n < 0, n >= NRAW(lx)), NRAW(lx) >= 0))
    return t


def skip(i, lx, n):
    t = raw_token(i, lx, n)
    i.assume(SKIP(lx, n) == If(is_kind(t, "COMMENT"), SKIP(lx, n + 1), n))
    return SKIP(lx, n)


def c_token(i, a, kw):
    lx = a[0].t
    n = V.vi(i.hread("$read", lx))
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    t = raw_token(i, lx, n)
    # reading beyond the end changes nothing
    i.hwrite("$read", lx, V.VInt(If(isnone(t), n, n + 1)))
    return as_sv(i, t, i.specs.L.Token)


def inv_skip(i, node, it, env_mods, entry_env):
    st = i.ghost.get("skipping")
    if st is None or it is not None:
        return []
    p, lx, n = st
    ct = i.hread("ct", p)

    def same_target(ip, idx):
        at = ip.hread("$read", lx)
        return And(V.is_VInt(at), V.vi(at) >= n,
                   skip(ip, lx, V.vi(at)) == SKIP(lx, n))
    return [("the-next-token-is-the-same", same_target),
            ("the-current-token-stays", lambda ip, idx: ip.hread(
                "ct", p) == ct)]


def advance(k):
    P, L = k.S.P, k.L
    o = k.obj("self", P.Parser)
    lx = k.i.need_obj(k.i.getattr(o, "lexer"), "lexer")
    at = k.h0("$read", lx.t)
    k.i.assume(And(V.is_VInt(at), V.vi(at) >= 0))
    n = V.vi(at)
    k.i.ghost["skipping"] = (o.t, lx.t, n)
    k.i.ghost["lexer"] = lx.t
    to = skip(k.i, lx.t, n)
    out, rv = k.call(P.Parser, "advance", [o])
    if out == "err":
        return
    raw_token(k.i, lx.t, to)
    k.prove("B02,C01", "value:the next token becomes the current one",
            k.h1("ct", o.t) == k.h0("nt", o.t))
    k.prove("B02,C01", "value:the next token is the first that is no "
            "comment", k.h1("nt", o.t) == RAW(lx.t, to))
    k.prove("B02,C01", "value:no other token is read", V.vi(k.h1(
        "$read", lx.t)) == If(isnone(RAW(lx.t, to)), to, to + 1))
    k.frame("B02", lambda f, r: f in ("ct", "nt", "$read"))


def measure_raw(i, node):
    lx = i.ghost.get("lexer")
    if lx is None:
        return None
    m = lambda ip: NRAW(lx) - V.vi(ip.hread("$read", lx))
    return m(i), m


def cursor(method, ok, kinds=False):
    def f(k):
        o, n = parser(k)
        L = k.L
        x = k.arg("x", "str")
        known = L.Token.KIND if kinds else L.TRLC_Lexer.KEYWORDS
        lt = k.o0("language_tokens", o.t)
        lk = k.o0("language_keywords", o.t)
        k.i.assume(And(CLS(lt) == k.prog._cls_id(dict), lt >= 0, V.is_VObj(
            k.h0("language_tokens", o.t))))
        k.i.assume(And(CLS(lk) == k.prog._cls_id(set), lk >= 0,
                       V.is_VObj(k.h0("language_keywords", o.t))))
        for w in L.Token.KIND:
            k.i.assume(And(z3.Select(k.h0("$has", lt), vs(w)), V.is_VStr(
                z3.Select(k.h0("$map", lt), vs(w)))))
        k.i.assume(Or(*[x.t == s(w) for w in known]))
        if kinds is False:
            k.i.assume(z3.Select(k.h0("$has", lk), V.VStr(x.t)))
        t = token(k.i, o.t, n)
        args = [] if method.endswith("eof") else [x]
        out, rv = k.call(k.S.P.Parser, method, [o] + args)
        want = ok(t, V.VStr(x.t))
        if method.startswith("peek"):
            if out == "err":
                k.prove("B02", "error:never", F)
                return
            k.prove("B02", "value:tells if that token comes next",
                    k.bool_of(rv) == want)
            k.frame("B02")
        elif out == "err":
            k.prove("B02,J01", "error:only if another token comes next",
                    Not(want))
        else:
            k.prove("B02,J01", "value:returns only if that token comes next",
                    want)
            k.prove("B02", "value:that token is consumed", pos(
                k.i, o.t) == (n if method.endswith("eof") else n + 1))
            k.frame("B02", lambda f, r: f == "$pos")
    return f


def setup(keep=()):
    def f(S):
        A = S.A
        new = {
            A.Binary_Expression: c_binary, A.Unary_Expression: c_unary,
            A.Range_Test: c_range, A.OneOf_Expression: c_oneof,
            A.Action: c_action, A.Conditional_Expression: c_conditional,
            A.Quantified_Expression: c_quantified,
            A.Field_Access_Expression: c_field_access,
        }
        for c in (A.Integer_Literal, A.Decimal_Literal, A.String_Literal,
                  A.Boolean_Literal, A.Null_Literal):
            new[c] = inlined(c, leaf(c))
        new[A.Name_Reference] = inlined(
            A.Name_Reference, lambda i, r, a, kw: NREF(i.hread(
                "entity", r.t)))
        new[A.Enumeration_Literal] = inlined(
            A.Enumeration_Literal, lambda i, r, a, kw: ENUML(i.hread(
                "value", r.t)))
        for c, fn in new.items():
            S.ctors[c] = Contract(c.__name__, fn)
        S.ghost_fields[(S.P.Parser_Base, "nt")] = nt_ghost
        S.ghost_fields[(S.P.Parser_Base, "ct")] = ct_ghost
        S.virtuals.insert(0, (A.Expression, "evaluate", Contract(
            "Expression.evaluate (static)", c_static,
            "proved per class; trusted: a static expression that has a type "
            "is not null")))
        S.externals[re.compile] = re_compile
        S._measure = S.loop_measure
        S.loop_measure = measure
        S._added = list(new)
    return f


def teardown(S):
    for c in S._added:
        S.ctors.pop(c, None)
    S.ghost_fields.pop((S.P.Parser_Base, "nt"))
    S.ghost_fields.pop((S.P.Parser_Base, "ct"))
    S.loop_measure = S._measure
    S.externals.pop(re.compile)
    S.virtuals.pop(0)


def declare(S):
    A, P, L, E = S.A, S.P, S.L, S.E
    F_ = S.fields
    for k, v in dict(
            mh=E.Message_Handler, stab=A.Symbol_Table,
            cu=A.Compilation_Unit, ct=("opt", L.Token),
            nt=("opt", L.Token), builtin_bool=A.Type, builtin_int=A.Type,
            builtin_decimal=A.Type, builtin_str=A.Type, builtin_mstr=A.Type,
            default_scope=A.Scope, section=("list", A.Section),
            lint_mode="bool", error_recovery="bool", primary="bool",
            secondary="bool", eoc_name="str").items():
        F_[(P.Parser_Base, k)] = v
    PB = P.Parser_Base
    S.contract(PB, "advance", c_advance)
    S.contract(PB, "match", c_match)
    S.contract(PB, "match_kw", c_match_kw)
    S.contract(PB, "match_eof", c_match_eof)
    S.contract(PB, "peek", c_peek)
    S.contract(PB, "peek_kw", c_peek_kw)
    S.contract(PB, "peek_eof", c_peek_eof)
    for n in GLEVEL:
        S.contract(P.Parser, n, nonterminal(n))
    S.contract(P.Parser, "parse_name", nonterminal("parse_name"))
    S.contract(P.Parser, "parse_builtin", c_builtin)
    S.contract(A.Union_Type, "get_field_map", c_field_map)
    S.contract(P.Parser, "parse_quantified_expression", nonterminal(
        "parse_quantified_expression"))
    S.contract(P.Parser, "parse_conditional_expression", nonterminal(
        "parse_conditional_expression"))
    S.contract(P.Parser, "parse_qualified_name", c_qualified)
    S.contract(A.Compilation_Unit, "is_visible", c_visible)
    S.virtual(L.Lexer_Base, "token", c_token, "trusted: the tokens are a "
              "sequence; decided by the bounded checks of C01, C02, C03")
    F_[(PB, "lexer")] = L.Lexer_Base
    F_[(PB, "language_tokens")] = ("dict", "str", "str")
    F_[(PB, "language_keywords")] = "any"
    S.invariants.append(inv_skip)
    S.contract(A.Node, "set_ast_link", c_link)
    S.contract(A.Scope, "lookup", c_scope_lookup)
    S.contract(A.Scope, "contains", c_scope_contains)
    S.contract(A.Scope, "push", c_push)
    S.contract(A.Scope, "pop", c_pop)
    S.contract(A.Conditional_Expression, "add_elsif", c_elsif)
    S.contract(A.Conditional_Expression, "set_else_part", c_else)
    S.invariants.append(inv_rest)
    S.invariants.append(inv_args)


def advance_setup(S):
    S._measure = S.loop_measure
    S.loop_measure = measure_raw


def advance_teardown(S):
    S.loop_measure = S._measure


def targets(S):
    def cur(m, ok, kinds=False):
        return target("Parser_Base.%s" % m, "trlc.parser.Parser_Base.%s" % m,
                      "B02,J01", cursor(m, ok, kinds),
                      [("trlc.parser", "Parser_Base.%s" % m)], setup(),
                      teardown)
    def tg(m, f, props=PR, case=""):
        return target("Parser.%s%s" % (m, case), "trlc.parser.Parser.%s" % m,
                      props + ",J01", f, [("trlc.parser", "Parser.%s" % m)],
                      setup(), teardown)
    return [tg("parse_term", term),
            tg("parse_simple_expression", simple_expression(True), PR,
               "[sign]"),
            tg("parse_simple_expression", simple_expression(False), PR,
               "[no sign]"),
            tg("parse_relation", relation),
            tg("parse_expression", expression),
            tg("parse_factor", factor),
            tg("parse_primary", primary),
            tg("parse_quantified_expression", quantified, PR + ",D01"),
            tg("parse_conditional_expression", conditional),
            tg("parse_name", name, PR + ",D01,A05")] + [
                tg("parse_builtin", builtin(w), PR, "[%s]" % w)
                for w in list(FUNS) + ["Integer", "Decimal"]] + [
        tg("parse_qualified_name", qualified, "D01,D02,B02"),
        target("Compilation_Unit.is_visible",
               "trlc.ast.Compilation_Unit.is_visible", "D01,D02", is_visible,
               [("trlc.ast", "Compilation_Unit.is_visible")]),
        target("Parser_Base.advance", "trlc.parser.Parser_Base.advance",
               "B02,C01,J01", advance,
               [("trlc.parser", "Parser_Base.advance")],
               advance_setup, advance_teardown),
        cur("peek", lambda t, x: And(Not(isnone(t)), kind_of(t) == x), True),
        cur("peek_kw", lambda t, x: And(is_kind(t, "KEYWORD"),
                                        value_of(t) == x)),
        cur("peek_eof", lambda t, x: isnone(t)),
        cur("match", lambda t, x: And(Not(isnone(t)), kind_of(t) == x),
            True),
        cur("match_kw", lambda t, x: And(is_kind(t, "KEYWORD"),
                                         value_of(t) == x)),
        cur("match_eof", lambda t, x: isnone(t))]
