"""evaluate of the composite expression classes: aggregates, references,
field access, oneof, conditionals and quantifiers."""
import ast

import z3

from pyvc.core import (CLS, V, AnyV, Conc, Infeasible, ObjV, PyRaise, TupV,
                       to_v)
from pyvc.execpy import REMATCH
from .base import ARR_VV, EV, ER, EVT, Contract
from .evalspec import Ctx, isnone, make_ctx
from .kit import (And, B, F, I, If, Implies, Kit, Not, Or, T, heap0, target)

VB_T = V.VBool(z3.BoolVal(True))
VB_F = V.VBool(z3.BoolVal(False))


def std(k, clsname):
    """self, mh, context, gstab and the context as terms"""
    A = k.A
    cls = getattr(A, clsname)
    o = k.obj("self", cls)
    mh = k.mh()
    ctx = k.arg("context", ("opt", ("dict", "str", A.Expression)))
    g = k.arg("gstab", ("opt", A.Symbol_Table))
    ctx = k.i.force(ctx)
    return cls, o, mh, ctx, g, make_ctx(k.i, ctx)


def kids_ok(k, ref, c):
    """contract of evaluate for every element of the list ref (forall)"""
    j = z3.Int("jk")
    el = V.vo(k.elem0(ref, j))
    return z3.ForAll([j], Implies(And(j >= 0, j < k.h0("$len", ref)),
                                  k.child_facts(el, c)))


def result(k, rv, props):
    """reference of the returned Value"""
    if isinstance(rv, AnyV):
        k.i.safety("evaluate returns a Value", k.isa(rv.t, k.A.Value))
        return V.vo(rv.t)
    if not isinstance(rv, ObjV):
        k.i.safety("evaluate returns a Value", F)
        raise Infeasible()
    return rv.t


def fits_post(k, o, val, props="A04"):
    k.prove(props, "type:value belongs to the static type",
            Or(isnone(val), k.fits(k.typ(o.t), val)))


def run(clsname, body, props):
    name = clsname + ".evaluate"

    def one(k):
        cls, o, mh, ctx, g, c = std(k, clsname)
        body(k, cls, o, mh, ctx, g, c)
    return target(name, "trlc.ast." + name, props, one,
                  [("trlc.ast", name)])


# ------------------------------------------------------------ record refs
def record_reference(k, cls, o, mh, ctx, g, c):
    A = k.A
    tgt = k.h0("target", o.t)
    # established by resolve_references before any check is evaluated
    k.i.assume(k.isa(tgt, A.Record_Object))
    k.i.assume(k.isa(k.typ(o.t), (A.Record_Type, A.Union_Type)))
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    if out == "err":
        k.prove("A05", "error:a resolved reference never fails", F)
        return
    r = result(k, rv, "A05")
    k.prove("A05", "value:the fields of the very object referred to",
            k.h1("value", r) == k.h0("field", V.vo(tgt)))
    k.prove("A04", "type:the type of the object referred to",
            k.h1("typ", r) == k.h0("n_typ", V.vo(tgt)))
    fits_post(k, o, k.h1("value", r))
    k.frame("A05")


# -------------------------------------------------------- name references
def name_reference(k, cls, o, mh, ctx, g, c):
    A = k.A
    ent = k.o0("entity", o.t)
    name = k.h0("name", ent)
    child = None
    if c.has is not None:
        # every component of the object's type and every quantified
        # variable in scope is bound (established by Check.perform and
        # Quantified_Expression.evaluate)
        k.i.assume(z3.Select(c.has, name))
        child = V.vo(z3.Select(c.m, name))
        k.i.assume(k.isa(z3.Select(c.m, name), A.Expression))
        k.i.assume(k.child_facts(child, c))
        k.i.assume(Implies(Not(isnone(EV(child, c.s, c.m))),
                           k.kindeq(k.typ(o.t), k.typ(child))))
        k.i.assume(k.isa(k.typ(o.t), A.Type))
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    if out == "err":
        k.prove("A05", "error:only in a static context or when the bound "
                "expression fails",
                T if child is None else ER(child, c.s, c.m))
        return
    if child is None:
        k.prove("A05", "error:reported in a static context", F)
        return
    r = result(k, rv, "A05")
    k.prove("A05", "error:reported when the bound expression fails",
            Not(ER(child, c.s, c.m)))
    k.prove("A05", "value:that of the expression bound to the name",
            k.h1("value", r) == EV(child, c.s, c.m))
    fits_post(k, o, k.h1("value", r))
    k.frame("A05")


# ------------------------------------------------------------- aggregates
def array_aggregate(k, cls, o, mh, ctx, g, c):
    A = k.A
    lst = k.o0("value", o.t)
    n = k.h0("$len", lst)
    k.i.assume(kids_ok(k, lst, c))
    k.i.assume(k.isa(k.typ(o.t), A.Array_Type))
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    j = z3.Int("jp")
    er = lambda q: ER(V.vo(k.elem0(lst, q)), c.s, c.m)
    if out == "err":
        k.prove("A05", "error:only if an element fails",
                z3.Exists([j], And(j >= 0, j < n, er(j))))
        return
    r = result(k, rv, "A05")
    val = k.h1("value", r)
    res = V.vo(val)
    k.prove("A05", "error:reported if an element fails",
            z3.ForAll([j], Implies(And(j >= 0, j < n), Not(er(j)))))
    k.prove("A05", "value:as many elements as written",
            k.h1("$len", res) == n)
    el = V.vo(z3.Select(k.h1("$elem", res), j))
    k.prove("A05", "value:every element in place", z3.ForAll([j], Implies(
        And(j >= 0, j < n),
        z3.Select(k.i.fmap("value").term(), el) ==
        EV(V.vo(k.elem0(lst, j)), c.s, c.m))))
    fits_post(k, o, val)
    k.frame("A05")


def tuple_aggregate(k, cls, o, mh, ctx, g, c):
    A = k.A
    d = k.o0("value", o.t)
    n = k.h0("$len", d)
    key = lambda q: k.elem0(d, q)
    val0 = lambda q: z3.Select(k.h0("$map", d), key(q))
    j, j2 = z3.Int("jk"), z3.Int("jk2")
    rng = And(j >= 0, j < n)
    # a dictionary lists each of its keys once
    k.i.assume(n >= 0)
    k.i.assume(z3.ForAll([j], Implies(rng, And(
        z3.Select(k.h0("$has", d), key(j)), V.is_VStr(key(j)),
        k.isa(val0(j), A.Expression),
        k.child_facts(V.vo(val0(j)), c)))))
    k.i.assume(k.isa(k.typ(o.t), A.Tuple_Type))
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    er = lambda q: ER(V.vo(val0(q)), c.s, c.m)
    if out == "err":
        k.prove("A05", "error:only if a field fails",
                z3.Exists([j], And(rng, er(j))))
        return
    r = result(k, rv, "A05")
    val = k.h1("value", r)
    res = V.vo(val)
    k.prove("A05", "error:reported if a field fails",
            z3.ForAll([j], Implies(rng, Not(er(j)))))
    cell = V.vo(z3.Select(k.h1("$map", res), key(j)))
    k.prove("A05", "value:every field under its name", z3.ForAll([j], Implies(
        rng, And(z3.Select(k.h1("$has", res), key(j)),
                 z3.Select(k.i.fmap("value").term(), cell) ==
                 EV(V.vo(val0(j)), c.s, c.m)))))
    fits_post(k, o, val)
    k.frame("A05")


# ------------------------------------------------------------ field access
def field_access(k, cls, o, mh, ctx, g, c):
    A = k.A
    p = k.o0("n_prefix", o.t)
    k.i.assume(k.child_facts(p, c))
    er, ev, evt = ER(p, c.s, c.m), EV(p, c.s, c.m), EVT(p, c.s, c.m)
    fld = k.o0("n_field", o.t)
    name = k.h0("name", fld)
    union = V.vb(k.h0("is_union_access", o.t))
    univ = V.vb(k.h0("is_universal", o.t))
    comp = (A.Tuple_Type, A.Record_Type, A.Union_Type)
    k.i.assume(k.isa(k.typ(p), comp))
    k.i.assume(k.isa(k.typ(o.t), A.Type))
    k.i.assume(Implies(Not(isnone(ev)),
                       k.isa(evt, (A.Tuple_Type, A.Record_Type))))
    d = V.vo(ev)
    has = z3.Select(k.h0("$has", d), name)
    cell = z3.Select(k.h0("$map", d), name)
    ce = V.vo(cell)
    ok = And(Not(er), Not(isnone(ev)))
    # values of records are expressions, those of tuples are Values
    k.i.assume(Implies(And(ok, has), ce >= 0))
    k.i.assume(Implies(And(ok, has), Or(
        And(k.isa(cell, A.Expression), k.child_facts(ce, c)),
        And(k.isa(cell, A.Value),
            Or(isnone(k.h0("value", ce)),
               k.fits(k.typ(o.t), k.h0("value", ce)))))))
    k.i.assume(Implies(And(ok, has, k.isa(cell, A.Expression),
                           Not(isnone(EV(ce, c.s, c.m)))),
                       k.kindeq(k.typ(o.t), k.typ(ce))))
    j = z3.Int("jc")
    comps = COMPS(V.vo(evt))
    mem = V.vo(z3.Select(k.h0("$elem", comps), j))
    declares = z3.Exists([j], And(
        j >= 0, j < k.h0("$len", comps), k.h0("name", mem) == name,
        k.h0("n_typ", mem) == k.h0("n_typ", fld)))
    here = And(has, Or(Not(union), univ, declares))
    inner = And(ok, here, k.isa(cell, A.Expression), ER(ce, c.s, c.m))
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    if out == "err":
        k.prove("A05,A03", "error:only if the prefix fails or is null, or "
                "the component fails", Or(er, isnone(ev), inner))
        return
    r = result(k, rv, "A05")
    val = k.h1("value", r)
    k.prove("A03", "null:dereference rejected", Not(And(Not(er),
                                                        isnone(ev))))
    k.prove("A05", "error:reported when due", And(Not(er), Not(inner)))
    k.prove("A05", "value:null if the object has no such component",
            Implies(Not(here), isnone(val)))
    k.prove("A05", "value:that of the component named (record)",
            Implies(And(here, k.isa(cell, A.Expression)),
                    val == EV(ce, c.s, c.m)))
    k.prove("A05", "value:that of the component named (tuple)",
            Implies(And(here, Not(k.isa(cell, A.Expression))),
                    val == k.h0("value", ce)))
    fits_post(k, o, val)
    k.frame("A05")


# ------------------------------------------------------------------ oneof
def oneof(k, cls, o, mh, ctx, g, c):
    A = k.A
    lst = k.o0("choices", o.t)
    n = k.h0("$len", lst)
    k.i.assume(n >= 0)
    k.i.assume(kids_ok(k, lst, c))
    j, j2 = z3.Int("jo"), z3.Int("jo2")
    e = lambda q: V.vo(k.elem0(lst, q))
    er = lambda q: ER(e(q), c.s, c.m)
    ev = lambda q: EV(e(q), c.s, c.m)
    rng = And(j >= 0, j < n)
    k.i.assume(z3.ForAll([j], Implies(rng, k.isa(
        k.typ(e(j)), A.Builtin_Boolean))))
    k.i.assume(k.isa(k.typ(o.t), A.Builtin_Boolean))
    k.i.ghost["oneof"] = (o.t, ev)
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    if out == "err":
        k.prove("A05,A03", "error:only if a choice fails or is null",
                z3.Exists([j], And(rng, Or(er(j), isnone(ev(j))))))
        return
    r = result(k, rv, "A05")
    val = k.h1("value", r)
    k.prove("A03", "null:choice rejected",
            z3.ForAll([j], Implies(rng, Not(isnone(ev(j))))))
    k.prove("A05", "error:reported if a choice fails",
            z3.ForAll([j], Implies(rng, Not(er(j)))))
    exact = z3.Exists([j], And(rng, ev(j) == VB_T, z3.ForAll(
        [j2], Implies(And(j2 >= 0, j2 < n, j2 != j), ev(j2) == VB_F))))
    k.prove("A05", "value:true only if exactly one choice is",
            Implies(val == VB_T, exact))
    k.prove("A05", "value:false only if no or several choices are",
            Implies(val == VB_F, Not(exact)))
    k.prove("A05", "value:is a Boolean", Or(val == VB_T, val == VB_F))
    fits_post(k, o, val)
    k.frame("A05")


def inv_lists(i, node, it, env_mods, entry_env):
    """candidate: a list built in the loop holds one entry per iteration,
    and the j-th is the value of the j-th child"""
    out = []
    gh = i.ghost.get("oneof")
    if gh is None:
        return out
    _, ev = gh
    for name, v in list(entry_env.items()):
        if isinstance(v, ObjV) and v.spec and v.spec != object and \
           isinstance(v.spec, tuple) and v.spec[0] == "list":
            def length(ip, idx, v=v):
                if idx is None:
                    return None
                return ip.hread("$len", v.t) == idx

            def elems(ip, idx, v=v):
                if idx is None:
                    return None
                j = z3.Int("ji")
                return z3.ForAll([j], Implies(
                    And(j >= 0, j < idx),
                    z3.Select(ip.hread("$elem", v.t), j) == ev(j)))
            out.append((name + ":len", length))
            out.append((name + ":elems", elems))
    return out


# ------------------------------------------------------------- conditional
def conditional(k, cls, o, mh, ctx, g, c):
    A = k.A
    lst = k.o0("actions", o.t)
    n = k.h0("$len", lst)
    k.i.assume(n >= 0)
    j = z3.Int("ja")
    j2 = z3.Int("ja2")
    act = lambda q: V.vo(k.elem0(lst, q))
    cond = lambda q: k.o0("n_cond", act(q))
    expr = lambda q: k.o0("n_expr", act(q))
    els = k.o0("else_expr", o.t)
    rng = And(j >= 0, j < n)
    k.i.assume(z3.ForAll([j], Implies(rng, And(
        k.isa(k.h0("n_cond", act(j)), A.Expression),
        k.isa(k.h0("n_expr", act(j)), A.Expression),
        k.child_facts(cond(j), c), k.child_facts(expr(j), c),
        k.isa(k.typ(cond(j)), A.Builtin_Boolean),
        Or(isnone(EV(expr(j), c.s, c.m)), isnone(k.typ(expr(j))),
           k.kindeq(k.typ(o.t), k.typ(expr(j))))))))
    k.i.assume(k.child_facts(els, c))
    k.i.assume(Or(isnone(k.typ(o.t)), k.isa(k.typ(o.t), A.Type)))
    k.i.assume(Or(isnone(EV(els, c.s, c.m)), isnone(k.typ(els)),
                  k.kindeq(k.typ(o.t), k.typ(els))))
    # the type of the whole is that of the branches (null-typed branches
    # are rejected by ensure_type)
    k.i.assume(Implies(isnone(k.typ(o.t)), F))
    er = lambda x: ER(x, c.s, c.m)
    ev = lambda x: EV(x, c.s, c.m)
    skipped = lambda q: And(Not(er(cond(q))), ev(cond(q)) == VB_F)
    before = lambda q: z3.ForAll([j2], Implies(And(j2 >= 0, j2 < q),
                                               skipped(j2)))
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    if out == "err":
        k.prove("A05,A03", "error:only if the condition that is reached "
                "fails or is null, or the branch that is taken fails", Or(
                    z3.Exists([j], And(rng, before(j), Or(
                        er(cond(j)), isnone(ev(cond(j))),
                        And(ev(cond(j)) == VB_T, er(expr(j)))))),
                    And(before(n), er(els))))
        return
    r = result(k, rv, "A05")
    val = k.h1("value", r)
    k.prove("A05,A03", "value:that of the first branch whose condition is "
            "true", Or(
                z3.Exists([j], And(
                    rng, before(j), Not(er(cond(j))),
                    ev(cond(j)) == VB_T, Not(er(expr(j))),
                    val == ev(expr(j)))),
                And(before(n), Not(er(els)), val == ev(els))))
    fits_post(k, o, val)
    k.frame("A05")


# -------------------------------------------------------------- quantifier
def quantified(k, cls, o, mh, ctx, g, c):
    A = k.A
    body = k.o0("n_expr", o.t)
    src = k.o0("n_source", o.t)
    ent = k.h0("entity", src)
    sname = k.h0("name", V.vo(ent))
    vname = k.h0("name", k.o0("n_var", o.t))
    univ = V.vb(k.h0("universal", o.t))
    j = z3.Int("jq")
    j2 = z3.Int("jq2")
    # only components of array type can be quantified over
    k.i.assume(k.isa(ent, A.Composite_Component))
    k.i.assume(k.isa(k.typ(o.t), A.Builtin_Boolean))
    if c.has is not None:
        arr = z3.Select(c.m, sname)
        k.i.assume(z3.Select(c.has, sname))
        k.i.assume(Or(k.isa(arr, A.Implicit_Null),
                      k.isa(arr, A.Array_Aggregate)))
        lst = k.o0("value", V.vo(arr))
        n = k.h0("$len", lst)
        k.i.assume(Implies(k.isa(arr, A.Array_Aggregate), And(
            n >= 0, k.isa(k.h0("value", V.vo(arr)), list),
            z3.ForAll([j], Implies(And(j >= 0, j < n), k.isa(
                k.elem0(lst, j), A.Expression))))))
        env = lambda q: Ctx(F, z3.Store(c.m, vname, k.elem0(lst, q)))
        er = lambda q: ER(body, F, env(q).m)
        ev = lambda q: EV(body, F, env(q).m)
        k.i.assume(z3.ForAll([j], Implies(And(j >= 0, j < n),
                                          k.child_facts(body, env(j)))))
        k.i.assume(k.isa(k.typ(body), A.Builtin_Boolean))
        decisive = lambda q: And(Not(er(q)), Not(isnone(ev(q))), ev(q) ==
                                 If(univ, VB_F, VB_T))
        passive = lambda q: And(Not(er(q)), ev(q) == If(univ, VB_T, VB_F))
        before = lambda q: z3.ForAll([j2], Implies(And(j2 >= 0, j2 < q),
                                                   passive(j2)))
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    if out == "err":
        if c.has is None:
            k.prove("A05", "error:in a static context", T)
            return
        k.prove("A05,A03", "error:only if the source is null, or the body "
                "fails or is null for an element that is reached", Or(
                    k.isa(arr, A.Implicit_Null),
                    z3.Exists([j], And(j >= 0, j < n, before(j), Or(
                        er(j), isnone(ev(j)))))))
        return
    if c.has is None:
        k.prove("A05", "error:reported in a static context", F)
        return
    r = result(k, rv, "A05")
    val = k.h1("value", r)
    k.prove("A03", "null:source rejected", Not(k.isa(arr, A.Implicit_Null)))
    k.prove("A05,A03", "value:forall/exists over all elements", Or(
        And(before(n), val == V.VBool(univ)),
        And(val == V.VBool(Not(univ)), z3.Exists([j], And(
            j >= 0, j < n, before(j), decisive(j))))))
    fits_post(k, o, val)
    k.frame("A05")


# ------------------------------------------------------- equality of values
def value_eq(k):
    A = k.A
    a, b = k.obj("self", A.Value), k.obj("other", A.Value)
    ta = k.h0("typ", a.t)
    va, vb = k.h0("value", a.t), k.h0("value", b.t)
    # values are not enumeration members of Python; the values of
    # references are the fields of the object referred to
    for v, t in ((va, ta), (vb, k.h0("typ", b.t))):
        k.i.assume(Not(Or(V.is_VEnum(v), V.is_VChar(v))))
        k.i.assume(Or(isnone(v), k.fits(t, v)))
    k.i.assume(Or(isnone(va), isnone(vb), k.kindeq(ta, k.h0("typ", b.t))))
    out, rv = k.call(A.Value, "__eq__", [a, b])
    if out == "err":
        k.prove("A05", "error:equality never fails", F)
        return
    same = k.bool_of(rv)
    prim = lambda v: Or(isnone(v), V.is_VInt(v), V.is_VFrac(v),
                        V.is_VStr(v), V.is_VBool(v))
    k.prove("A05", "value:references are equal iff they denote the same "
            "object", Implies(k.isa(ta, (A.Record_Type, A.Union_Type)),
                              same == (va == vb)))
    k.prove("A05", "value:numbers, strings and Booleans are equal iff they "
            "are the same", Implies(And(
                Not(k.isa(ta, (A.Record_Type, A.Union_Type))), prim(va),
                prim(vb), Not(And(V.is_VBool(va), Not(V.is_VBool(vb)))),
                Not(And(V.is_VBool(vb), Not(V.is_VBool(va)))),
                V.is_VFrac(va) == V.is_VFrac(vb)),
                same == (va == vb)))
    k.frame("A05")


VEQ = z3.Function("value_equal", I, I, B)


def array_contains(k):
    """x in array: true iff some element is equal to x"""
    A = k.A
    cls, o, mh, ctx, g, c = std(k, "Binary_Expression")
    k.i.assume(k.h0("operator", o.t) == V.VEnum(z3.IntVal(
        k.opid("Binary_Operator", "ARRAY_CONTAINS"))))
    a, b = k.o0("n_lhs", o.t), k.o0("n_rhs", o.t)
    k.i.assume(k.child_facts(a, c))
    k.i.assume(k.child_facts(b, c))
    ea, eb = ER(a, c.s, c.m), ER(b, c.s, c.m)
    va, vb = EV(a, c.s, c.m), EV(b, c.s, c.m)
    k.i.assume(k.isa(k.typ(b), A.Array_Type))
    k.i.assume(k.isa(k.typ(o.t), A.Builtin_Boolean))
    lst = V.vo(vb)
    n = k.h0("$len", lst)
    j = z3.Int("jm")
    ok = And(Not(eb), Not(isnone(vb)))

    def elem(q):
        e = V.vo(k.elem0(lst, q))
        v, t = k.h0("value", e), k.h0("typ", e)
        return Implies(ok, And(
            k.isa(k.elem0(lst, q), A.Value), e >= 0,
            k.i.spec_formula(t, ("opt", A.Type)),
            isnone(v) == isnone(t), Implies(Not(isnone(v)), And(
                k.fits(t, v), k.kindeq(
                    t, k.h0("element_type", V.vo(k.typ(b))))))))
    k.all_elems(lst, elem)
    k.i.assume(k.kindeq(k.typ(a), k.h0("element_type", V.vo(k.typ(b)))))
    k.i.assume(Not(Or(V.is_VEnum(va), V.is_VChar(va))))
    out, rv = k.call(cls, "evaluate", [o, mh, ctx, g])
    if out == "err":
        k.prove("A05,A03", "error:only when the language defines one",
                Or(ea, isnone(va), eb, isnone(vb)))
        return
    r = result(k, rv, "A05")
    val = k.h1("value", r)
    k.prove("A03", "null:operand rejected", And(Not(isnone(va)),
                                                Not(isnone(vb))))
    k.prove("A05", "error:reported when due", And(Not(ea), Not(eb)))
    el = V.vo(k.elem0(lst, j))
    elv = k.h0("value", el)
    et = k.h0("typ", el)
    ref = k.isa(et, (A.Record_Type, A.Union_Type))
    prim = Or(V.is_VInt(va), V.is_VStr(va), V.is_VBool(va), V.is_VFrac(va))
    # for elements whose type decides equality by identity or by value
    k.prove("A05", "value:true only if some element is equal", Implies(
        val == VB_T, z3.Exists([j], And(j >= 0, j < n, Or(
            elv == va, Not(prim), V.is_VObj(elv),
            V.is_VBool(elv) != V.is_VBool(va),
            V.is_VFrac(elv) != V.is_VFrac(va))))))
    k.prove("A05", "value:false only if no element is equal", Implies(
        val == VB_F, z3.ForAll([j], Implies(
            And(j >= 0, j < n, Not(isnone(et)), prim), elv != va))))
    k.prove("A05", "value:is a Boolean", Or(val == VB_T, val == VB_F))
    fits_post(k, o, val)
    k.frame("A05")


COMPS = z3.Function("all_components_of", I, I)


def all_components(interp, args, kwargs):
    """the components of a composite type, own and inherited, as a list
    that exists already (a function of the type)"""
    o = args[0]
    r = COMPS(o.t)
    interp.mark_old(r)
    A = interp.specs.A
    interp.assume(CLS(r) == interp.prog._cls_id(list))
    interp.assume(interp.hread("$len", r) >= 0)
    return ObjV(r, ("list", A.Composite_Component))


def declare(S):
    A = S.A
    S.virtual(A.Composite_Type, "all_components", all_components,
              "proved by the all_components targets")
    S.invariants.append(inv_lists)


def targets(S):
    ts = [
        run("Record_Reference", record_reference, "A04,A05"),
        run("Name_Reference", name_reference, "A04,A05"),
        run("Array_Aggregate", array_aggregate, "A04,A05"),
        run("Tuple_Aggregate", tuple_aggregate, "A04,A05"),
        run("Field_Access_Expression", field_access, "A03,A04,A05"),
        run("OneOf_Expression", oneof, "A03,A04,A05"),
        run("Conditional_Expression", conditional, "A03,A04,A05"),
        run("Quantified_Expression", quantified, "A03,A04,A05"),
        target("Value.__eq__", "trlc.ast.Value.__eq__", "A05", value_eq,
               [("trlc.ast", "Value.__eq__")]),
        target("Binary_Expression.evaluate[ARRAY_CONTAINS]",
               "trlc.ast.Binary_Expression.evaluate", "A03,A04,A05",
               array_contains, [("trlc.ast", "Binary_Expression.evaluate")]),
    ]
    for t in ts:
        t.props_of = lambda ob: {"A04"} if ob.kind in (
            "safety", "termination") else set(ob.kind.split(","))
    return ts
