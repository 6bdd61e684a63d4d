"""Operand and result types of expressions (B01): the constructors accept
exactly the operand types of the signature and record what they are given.
These are the facts the contracts of evaluate assume of well-formed nodes."""
import z3

from pyvc.core import (CLS, V, AnyV, BoolV, Conc, Infeasible, NONE, ObjV,
                       PyRaise, Unsupported, to_v)
from .dataspec import SUB, h0, sub
from .evalspec import LOGIC, ORDER, STRFN, isnone
from .kit import (And, B, F, I, If, Implies, Kit, Not, Or, T, target)

P = "B01"
NUMOPS = ("MINUS", "PLUS", "ABSOLUTE_VALUE", "CONVERSION_TO_INT",
          "CONVERSION_TO_DECIMAL")


def operand(k, name):
    """an expression with the type it has, or the null literal"""
    e = k.i.force(k.arg(name, k.A.Expression))
    t = k.h0("typ", e.t)
    k.i.assume(Or(isnone(t), And(k.isa(t, k.A.Type), V.vo(t) >= 0)))
    return e, t


def members(k, t):
    """(number, element) of the record types a record or union type is"""
    A = k.A
    un = k.isa(t, A.Union_Type)
    lst = k.o0("types", V.vo(t))
    n = If(un, k.h0("$len", lst), 1)
    return n, lambda q: If(un, k.elem0(lst, q), t)


def union_facts(k, t):
    lst = k.o0("types", V.vo(t))
    k.all_elems(lst, lambda q: Implies(k.isa(t, k.A.Union_Type), And(
        k.isa(k.elem0(lst, q), k.A.Record_Type),
        V.vo(k.elem0(lst, q)) >= 0)))


def related(a, b):
    return Or(SUB(a, V.vo(b)), SUB(b, V.vo(a)))


def overlap(k, lt, rt):
    """some member of one type is a member of the other, or extends it"""
    n, l = members(k, lt)
    m, r = members(k, rt)
    j, q = z3.Int("jl"), z3.Int("jr")
    return z3.Exists([j, q], And(j >= 0, j < n, q >= 0, q < m,
                                 related(l(j), r(q))))


def binary_sig(k, op, lt, rt):
    A = k.A
    t = lambda x, c: k.isa(x, c)
    num = lambda x: t(x, A.Builtin_Numeric_Type)
    s = lambda x: t(x, A.Builtin_String)
    rec = lambda x: t(x, (A.Record_Type, A.Union_Type))
    if op in LOGIC:
        return And(t(lt, A.Builtin_Boolean), t(rt, A.Builtin_Boolean))
    if op in ("COMP_EQ", "COMP_NEQ"):
        return Or(isnone(lt), isnone(rt), If(
            Or(rec(lt), rec(rt)), And(rec(lt), rec(rt), overlap(k, lt, rt)),
            lt == rt))
    if op in ORDER + ("MINUS", "TIMES", "DIVIDE"):
        return And(num(lt), lt == rt)
    if op in STRFN:
        return And(s(lt), s(rt))
    if op == "PLUS":
        return Or(And(num(lt), lt == rt), And(s(lt), s(rt)))
    if op == "POWER":
        return And(num(lt), t(rt, A.Builtin_Integer))
    if op == "REMAINDER":
        return And(t(lt, A.Builtin_Integer), t(rt, A.Builtin_Integer))
    if op == "INDEX":
        return And(t(rt, A.Builtin_Integer), t(lt, A.Array_Type))
    if op == "ARRAY_CONTAINS":
        et = k.h0("element_type", V.vo(rt))
        kinds = [And(t(et, A.Record_Type), t(lt, A.Record_Type),
                     related(lt, et)),
                 And(t(et, A.Union_Type), t(lt, A.Union_Type),
                     overlap(k, lt, et)),
                 And(t(et, (A.Enumeration_Type, A.Tuple_Type)), lt == et)]
        for c in (A.Builtin_Integer, A.Builtin_Decimal, A.Builtin_Boolean,
                  A.Builtin_Markup_String):
            kinds.append(And(t(et, c), t(lt, c)))
        kinds.append(And(CLS(V.vo(et)) == k.kid("Builtin_String"), s(lt)))
        return And(t(rt, A.Array_Type), Or(*kinds))
    raise KeyError(op)


def outcome(k, out, ok):
    if out == "err":
        k.prove(P, "error:only for operands the language does not permit",
                Not(ok))
        return False
    k.prove(P, "error:reported for operands the language does not permit",
            ok)
    return True


def built(k, rv, **fields):
    k.prove("B01,B02", "value:the operator and operands given", And(*[
        k.h1(f, rv.t) == (x if z3.is_expr(x) else k.v(x))
        for f, x in fields.items()]))


def binary_init(op):
    name = "Binary_Expression.__init__[%s]" % op

    def run(k):
        A = k.A
        mh = k.mh()
        loc = k.arg("location", k.E.Location)
        typ = k.arg("typ", ("opt", A.Type))
        a, lt = operand(k, "n_lhs")
        b, rt = operand(k, "n_rhs")
        if op in ("COMP_EQ", "COMP_NEQ", "ARRAY_CONTAINS"):
            union_facts(k, lt)
            union_facts(k, rt)
        if op == "ARRAY_CONTAINS":
            et = k.h0("element_type", V.vo(rt))
            # the language has no arrays of arrays and no abstract types
            k.i.assume(Implies(k.isa(rt, A.Array_Type), And(
                k.isa(et, A.Type), V.vo(et) >= 0, Not(k.isa(
                    et, A.Array_Type)))))
            union_facts(k, et)
            sub(k.i, lt, V.vo(et))
            # a union has members (Union_Type.__init__)
            mem = k.elem0(k.o0("types", V.vo(et)), 0)
            k.i.assume(Implies(k.isa(et, A.Union_Type), members(
                k, et)[0] >= 1))
            sub(k.i, mem, V.vo(mem))
        e = Conc(getattr(A.Binary_Operator, op))
        ok = binary_sig(k, op, lt, rt)
        out, rv = k.new(A.Binary_Expression, [mh, loc, typ, e, a, b])
        if not outcome(k, out, ok):
            return
        built(k, rv, operator=e, n_lhs=a, n_rhs=b, typ=typ, location=loc)
        k.frame(P)
    return target(name, "trlc.ast.Binary_Expression.__init__", "B01,B02",
                  run, [("trlc.ast", "Binary_Expression.__init__")])


def unary_init(op):
    name = "Unary_Expression.__init__[%s]" % op

    def run(k):
        A = k.A
        mh = k.mh()
        loc = k.arg("location", k.E.Location)
        typ = k.arg("typ", ("opt", A.Type))
        a, at = operand(k, "n_operand")
        e = Conc(getattr(A.Unary_Operator, op))
        ok = k.isa(at, A.Builtin_Numeric_Type if op in NUMOPS else {
            "LOGICAL_NOT": A.Builtin_Boolean,
            "STRING_LENGTH": A.Builtin_String,
            "ARRAY_LENGTH": A.Array_Type}[op])
        out, rv = k.new(A.Unary_Expression, [mh, loc, typ, e, a])
        if not outcome(k, out, ok):
            return
        built(k, rv, operator=e, n_operand=a, typ=typ, location=loc)
        k.frame(P)
    return target(name, "trlc.ast.Unary_Expression.__init__", "B01,B02", run,
                  [("trlc.ast", "Unary_Expression.__init__")])


def range_init(k):
    A = k.A
    mh = k.mh()
    loc = k.arg("location", k.E.Location)
    typ = k.arg("typ", A.Type)
    (a, at), (b, bt), (c, ct) = [operand(k, n) for n in (
        "n_lhs", "n_lower", "n_upper")]
    out, rv = k.new(A.Range_Test, [mh, loc, typ, a, b, c])
    ok = And(k.isa(at, A.Builtin_Numeric_Type), at == bt, at == ct)
    if outcome(k, out, ok):
        built(k, rv, n_lhs=a, n_lower=b, n_upper=c, typ=typ, location=loc)
        k.frame(P)


def oneof_init(k):
    A = k.A
    mh = k.mh()
    loc = k.arg("location", k.E.Location)
    typ = k.arg("typ", A.Builtin_Boolean)
    lst = k.i.force(k.arg("choices", ("list", A.Expression)))
    k.all_elems(lst.t, lambda q: And(
        k.isa(k.elem0(lst.t, q), A.Expression),
        V.vo(k.elem0(lst.t, q)) >= 0))
    ty = lambda q: k.h0("typ", V.vo(k.elem0(lst.t, q)))
    n = k.h0("$len", lst.t)
    j = z3.Int("jo")
    k.i.assume(z3.ForAll([j], Implies(And(j >= 0, j < n), Or(
        isnone(ty(j)), k.isa(ty(j), A.Type)))))
    out, rv = k.new(A.OneOf_Expression, [mh, loc, typ, lst])
    ok = z3.ForAll([j], Implies(And(j >= 0, j < n), k.isa(
        ty(j), A.Builtin_Boolean)))
    if outcome(k, out, ok):
        built(k, rv, choices=lst, typ=typ, location=loc)


def action_init(k):
    A = k.A
    mh = k.mh()
    tok = k.obj("t_kind", k.L.Token)
    k.i.assume(k.h0("kind", tok.t) == V.VStr(z3.StringVal("KEYWORD")))
    val = k.h0("value", tok.t)
    k.i.assume(Or(*[val == V.VStr(z3.StringVal(s)) for s in ("if",
                                                             "elsif")]))
    (c, ct), (e, et) = operand(k, "n_condition"), operand(k, "n_expression")
    out, rv = k.new(A.Action, [mh, tok, c, e])
    if outcome(k, out, k.isa(ct, A.Builtin_Boolean)):
        built(k, rv, kind=val, n_cond=c, n_expr=e,
              location=k.h0("location", tok.t))


def conditional_init(k):
    A = k.A
    loc = k.arg("location", k.E.Location)
    act = k.obj("if_action", A.Action)
    k.i.assume(k.h0("kind", act.t) == V.VStr(z3.StringVal("if")))
    out, rv = k.new(A.Conditional_Expression, [loc, act])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    lst = V.vo(k.h1("actions", rv.t))
    k.prove("B01,B02", "value:one action, and the type of its expression",
            And(k.h1("$len", lst) == 1,
                z3.Select(k.h1("$elem", lst), 0) == k.v(act),
                k.h1("typ", rv.t) == k.h0("typ", k.o0("n_expr", act.t))))


def branch_added(method):
    def run(k):
        A = k.A
        o = k.obj("self", A.Conditional_Expression)
        mh = k.mh()
        t = k.h0("typ", o.t)
        k.i.assume(k.isa(t, A.Type))
        lst = k.o0("actions", o.t)
        n = k.h0("$len", lst)
        k.i.assume(n >= 0)
        if method == "add_elsif":
            x = k.obj("n_action", A.Action)
            k.i.assume(k.h0("kind", x.t) == V.VStr(z3.StringVal("elsif")))
            et = k.h0("typ", k.o0("n_expr", x.t))
            k.i.assume(Or(isnone(et), k.isa(et, A.Type)))
        else:
            x, et = operand(k, "n_expr")
        out, rv = k.call(A.Conditional_Expression, method, [o, mh, x])
        if not outcome(k, out, et == t):
            return
        j = z3.Int("ja")
        if method == "add_elsif":
            k.prove("B01,B02", "value:added after those before", And(
                k.h1("$len", lst) == n + 1,
                z3.Select(k.h1("$elem", lst), n) == k.v(x),
                z3.ForAll([j], Implies(And(j >= 0, j < n), z3.Select(
                    k.h1("$elem", lst), j) == k.elem0(lst, j)))))
        else:
            k.prove("B01,B02", "value:is the else part",
                    k.h1("else_expr", o.t) == k.v(x))
    return run


def quantified_init(k):
    A = k.A
    mh = k.mh()
    loc = k.arg("location", k.E.Location)
    typ = k.arg("typ", A.Builtin_Boolean)
    univ = k.arg("universal", "bool")
    var = k.obj("n_variable", A.Quantified_Variable)
    src = k.obj("n_source", A.Name_Reference)
    e, et = operand(k, "n_expr")
    out, rv = k.new(A.Quantified_Expression,
                    [mh, loc, typ, univ, var, src, e])
    if outcome(k, out, k.isa(et, A.Builtin_Boolean)):
        built(k, rv, universal=univ, n_var=var, n_source=src, n_expr=e,
              typ=typ, location=loc)


def field_access_init(k):
    A = k.A
    mh = k.mh()
    loc = k.arg("location", k.E.Location)
    p, pt = operand(k, "n_prefix")
    f = k.obj("n_field", A.Composite_Component)
    un = k.arg("is_union_access", "bool")
    al = k.arg("is_universal", "bool")
    mem = k.h0("member_of", f.t)
    k.i.assume(k.isa(mem, A.Composite_Type))
    out, rv = k.new(A.Field_Access_Expression, [mh, loc, p, f, un, al])
    ok = Or(un.t, pt == mem, And(
        k.isa(pt, A.Record_Type), k.isa(mem, A.Record_Type),
        SUB(pt, V.vo(mem))))
    if outcome(k, out, ok):
        built(k, rv, n_prefix=p, n_field=f, is_union_access=un,
              is_universal=al, typ=k.h0("n_typ", f.t), location=loc)


def name_init(k):
    A = k.A
    loc = k.arg("location", k.E.Location)
    ent = k.i.force(k.arg("entity", ("or", A.Composite_Component,
                                     A.Quantified_Variable)))
    out, rv = k.new(A.Name_Reference, [loc, ent])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    built(k, rv, entity=ent, typ=k.h0("n_typ", ent.t), location=loc)


def ensure_type(k):
    """null and every other type are rejected, and nothing else"""
    A = k.A
    o, t = operand(k, "self")
    mh = k.mh()
    cls = k.i.choose(2)
    if cls == 0:
        want = k.i.force(k.arg("want", A.Type))
        ok = t == k.v(want)
    else:
        names = ["Builtin_Boolean", "Builtin_Integer", "Builtin_Decimal",
                 "Builtin_Numeric_Type", "Builtin_String", "Array_Type",
                 "Enumeration_Type", "Record_Type", "Tuple_Type"]
        c = getattr(A, names[k.i.choose(len(names))])
        want = Conc(c)
        ok = k.isa(t, c)
    out, rv = k.call(A.Expression, "ensure_type", [o, mh, want])
    if outcome(k, out, ok):
        k.frame(P)


def declare(S):
    pass


def targets(S):
    A = S.A

    def tg(cls, m, f, props="B01,B02"):
        return target("%s.%s" % (cls, m), "trlc.ast.%s.%s" % (cls, m), props,
                      f, [("trlc.ast", "%s.%s" % (cls, m))])
    CE = "Conditional_Expression"
    ts = [binary_init(o.name) for o in A.Binary_Operator]
    ts += [unary_init(o.name) for o in A.Unary_Operator]
    ts += [tg("Range_Test", "__init__", range_init),
           tg("OneOf_Expression", "__init__", oneof_init),
           tg("Action", "__init__", action_init),
           tg(CE, "__init__", conditional_init),
           tg(CE, "add_elsif", branch_added("add_elsif")),
           tg(CE, "set_else_part", branch_added("set_else_part")),
           tg("Quantified_Expression", "__init__", quantified_init),
           tg("Field_Access_Expression", "__init__", field_access_init),
           tg("Name_Reference", "__init__", name_init),
           tg("Expression", "ensure_type", ensure_type)]
    return ts
