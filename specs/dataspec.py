"""Record types, objects, references and the values handed to users
(D02, D03, I01)."""
import z3

from pyvc.core import (CLS, V, AnyV, BoolV, Conc, Infeasible, NONE, ObjV,
                       PyRaise, StrV, Unsupported, to_v)
from .evalmore import COMPS
from .evalspec import isnone
from .kit import (And, B, F, I, If, Implies, Kit, Not, Or, T, heap0, target)
from .msgspec import Fold, bool_term, log_term, set_log
from .symspec import FIND, SIMPLE, Tab

S_ = z3.StringSort()
# a record type is, or extends, another one
SUB = z3.Function("is_subclass", V, I, B)
# the record type or one of its bases freezes the component of that name
FRZ = z3.Function("is_frozen", V, V, B)
FEX = z3.Function("freezing_expression", V, V, V)
# resolving the references below an expression raises / changes the log
RR = z3.Function("resolve_raises", I, B)
RL = z3.Function("resolve_log", I, I, I)
# the Python object an expression stands for
TPO = z3.Function("python_object", I, V)
FQN = z3.Function("qualified_name", I, S_)
TOFLOAT = z3.Function("py_float", z3.RealSort(), V)


def h0(f, r):
    return z3.Select(heap0(f), r)


# ------------------------------------------------------------- definitions
def sub(i, v, b):
    """SUB unfolded once"""
    i.assume(SUB(v, b) == And(Not(isnone(v)), Or(
        V.vo(v) == b, SUB(h0("parent", V.vo(v)), b))))
    return SUB(v, b)


def own_frozen(t, name):
    return z3.Select(h0("$has", V.vo(h0("frozen", t))), name)


def frz(i, v, name):
    i.assume(FRZ(v, name) == And(Not(isnone(v)), Or(
        own_frozen(V.vo(v), name), FRZ(h0("parent", V.vo(v)), name))))
    return FRZ(v, name)


def fex(i, v, name):
    t = V.vo(v)
    i.assume(FEX(v, name) == If(own_frozen(t, name), z3.Select(
        h0("$map", V.vo(h0("frozen", t))), name),
        FEX(h0("parent", t), name)))
    return FEX(v, name)


def anysub(i, lst, a):
    j = z3.Int("js")
    return z3.Exists([j], And(j >= 0, j < h0("$len", lst), SUB(
        V.VObj(a), V.vo(z3.Select(h0("$elem", lst), j)))))


# -------------------------------------------------------------- invariants
def inv_walk(i, node, it, env_mods, entry_env):
    """a loop that climbs from a type to its bases keeps the answer"""
    walk = i.ghost.get("walk")
    out = []
    if walk is None:
        return out
    for name in env_mods:
        v0 = entry_env.get(name)
        if not isinstance(v0, (ObjV, AnyV)) or v0.spec not in (
                i.specs.A.Record_Type, ("opt", i.specs.A.Record_Type)):
            continue
        t0 = to_v(i.prog, v0)

        def same(ip, idx, name=name, t0=t0):
            try:
                tv = to_v(ip.prog, ip.stack[-1].env.get(name))
            except (Unsupported, AttributeError):
                return None
            return And(*[w(ip, tv) == w(ip, t0) for w in walk])
        out.append((name + ":walk", same))
    return out


# --------------------------------------------------------------- contracts
def bind(names, args, kw):
    a = dict(zip(names, args))
    a.update(kw)
    return a


def subclass_contract(i, args, kw):
    a = bind(["self", "record_type"], args, kw)
    b = i.need_obj(a["record_type"], "record type")
    return BoolV(SUB(V.VObj(a["self"].t), b.t))


def compatible_contract(i, args, kw):
    a = bind(["self", "record_type"], args, kw)
    b = i.need_obj(a["record_type"], "record type")
    return BoolV(anysub(i, V.vo(i.hread("types", a["self"].t)), b.t))


def comp_name(i, a):
    c = i.need_obj(a["n_component"], "component")
    return to_v(i.prog, i.getattr(c, "name"))


def frozen_contract(i, args, kw):
    a = bind(["self", "n_component"], args, kw)
    return BoolV(FRZ(V.VObj(a["self"].t), comp_name(i, a)))


def freezing_contract(i, args, kw):
    a = bind(["self", "n_component"], args, kw)
    n = comp_name(i, a)
    v = V.VObj(a["self"].t)
    i.safety("a freezing expression is asked for frozen components only",
             FRZ(v, n))
    return i.typed(FEX(v, n), i.specs.A.Expression)


def resolve_contract(i, args, kw):
    a = bind(["self", "mh"], args, kw)
    o, mh = a["self"], i.need_obj(a["mh"], "message handler")
    set_log(i, mh, RL(log_term(i, mh), o.t))
    if i.branch(RR(o.t)):
        raise PyRaise(i.specs.E.TRLC_Error)
    return NONE


def python_contract(i, args, kw):
    o = args[0]
    i.safety("the value of a component can be converted", i.prog.isinst(
        o.t, convertible(i.specs.A)))
    return AnyV(TPO(o.t), "any")


def convertible(A):
    return (A.Literal, A.Unary_Expression, A.Array_Aggregate,
            A.Tuple_Aggregate, A.Record_Reference, A.Implicit_Null)


def fqn_contract(i, args, kw):
    return StrV(FQN(args[0].t))


# ---------------------------------------------------------------- types
def is_subclass_of(k):
    o = k.obj("self", k.A.Record_Type)
    b = k.obj("record_type", k.A.Record_Type)
    k.i.ghost["walk"] = [lambda ip, tv: sub(ip, tv, b.t)]
    sub(k.i, V.VNone, b.t)
    want = sub(k.i, V.VObj(o.t), b.t)
    out, rv = k.call(k.A.Record_Type, "is_subclass_of", [o, b])
    if out == "err":
        k.prove("D02", "error:never", F)
        return
    k.prove("D02", "value:true iff the type is, or extends, the other",
            k.bool_of(rv) == want)
    k.frame("D02")


def is_compatible(k):
    o = k.obj("self", k.A.Union_Type)
    b = k.obj("record_type", k.A.Record_Type)
    lst = k.o0("types", o.t)
    k.all_elems(lst, lambda q: And(k.isa(k.elem0(lst, q), k.A.Record_Type),
                                   V.vo(k.elem0(lst, q)) >= 0))
    want = anysub(k.i, lst, b.t)
    out, rv = k.call(k.A.Union_Type, "is_compatible", [o, b])
    if out == "err":
        k.prove("D02", "error:never", F)
        return
    k.prove("D02", "value:true iff the type is, or extends, a member",
            k.bool_of(rv) == want)
    k.frame("D02")


def component(k):
    c = k.obj("n_component", k.A.Composite_Component)
    k.i.assume(V.is_VStr(k.h0("name", c.t)))
    return c, k.h0("name", c.t)


def is_frozen(k):
    o = k.obj("self", k.A.Record_Type)
    c, name = component(k)
    k.i.ghost["walk"] = [lambda ip, tv: frz(ip, tv, name)]
    frz(k.i, V.VNone, name)
    want = frz(k.i, V.VObj(o.t), name)
    out, rv = k.call(k.A.Record_Type, "is_frozen", [o, c])
    if out == "err":
        k.prove("D03", "error:never", F)
        return
    k.prove("D03", "value:true iff the type or one of its bases freezes the "
            "component", k.bool_of(rv) == want)
    k.frame("D03")


def freezing_expression(k):
    o = k.obj("self", k.A.Record_Type)
    c, name = component(k)

    def walk(ip, tv):
        frz(ip, tv, name)
        return fex(ip, tv, name)
    k.i.ghost["walk"] = [lambda ip, tv: frz(ip, tv, name), walk]
    frz(k.i, V.VNone, name)
    k.i.assume(frz(k.i, V.VObj(o.t), name))
    want = fex(k.i, V.VObj(o.t), name)
    out, rv = k.call(k.A.Record_Type, "get_freezing_expression", [o, c])
    if out == "err":
        k.prove("D03", "error:never", F)
        return
    k.prove("D03", "value:that given by the most derived type freezing the "
            "component", k.v(rv) == want)
    k.frame("D03")


def all_components(clsname):
    def run(k):
        A = k.A
        cls = getattr(A, clsname)
        o = k.obj("self", cls)
        tab = V.vo(k.h0("table", k.o0("components", o.t)))
        n = k.h0("$len", tab)
        k.i.assume(n >= 0)
        base = z3.IntVal(0)
        if clsname == "Record_Type":
            par = k.h0("parent", o.t)
            pl = COMPS(V.vo(par))
            k.i.assume(k.h0("$len", pl) >= 0)
            base = If(isnone(par), 0, k.h0("$len", pl))
        j = z3.Int("jsel")
        out, rv = k.call(cls, "all_components", [o])
        if out == "err":
            k.prove("D03", "error:never", F)
            return
        r = V.vo(k.v(rv))
        k.prove("D03,A05,E01", "value:as many as the type and its bases "
                "declare", k.h1("$len", r) == base + n)
        k.i.assume(And(j >= 0, j < base + n))
        own = z3.Select(k.h0("$map", tab), k.elem0(tab, j - base))
        want = own
        if clsname == "Record_Type":
            want = If(j < base, k.elem0(pl, j), own)
        k.prove("D03,A05,E01", "value:inherited components first, then its "
                "own in order of declaration",
                z3.Select(k.h1("$elem", r), j) == want)
        k.frame("D03")
    return target(clsname + ".all_components",
                  "trlc.ast.%s.all_components" % clsname, "D03,A05,E01", run,
                  [key_for(clsname, "all_components")])


def key_for(clsname, method):
    import trlc.ast as A
    from pyvc.core import mro_find
    k, _ = mro_find(getattr(A, clsname), method)
    return (k.__module__, k.__name__ + "." + method)


# -------------------------------------------------------------- references
def reference_resolve(k):
    A = k.A
    o = k.obj("self", A.Record_Reference)
    mh = k.mh()
    st = k.o0("symbols", k.o0("package", o.t))
    t = Tab(k.i)
    name = k.h0("name", o.t)
    k.i.assume(V.is_VStr(name))
    found = t.find(st, SIMPLE(V.vs(name)))
    k.i.assume(t.entity(found))
    ty = k.h0("typ", o.t)
    obj = V.vo(found)
    ot = k.h0("n_typ", obj)
    absent = Or(isnone(found), k.h0("name", obj) != name,
                Not(k.isa(found, A.Record_Object)))
    wrong = And(Not(isnone(ty)), If(
        k.isa(ty, A.Union_Type),
        Not(anysub(k.i, k.o0("types", V.vo(ty)), V.vo(ot))),
        Not(SUB(ot, V.vo(ty)))))
    out, rv = k.call(A.Record_Reference, "resolve_references", [o, mh])
    if out == "err":
        k.prove("D02", "error:only if there is no such object, or its type "
                "is not permitted", Or(absent, wrong))
        return
    k.prove("D02", "error:reported if there is no such object",
            Not(absent))
    k.prove("D02", "error:reported if the type of the object is not "
            "permitted", Not(wrong))
    k.prove("D02", "value:the object of that name in the package named",
            k.h1("target", o.t) == found)
    k.prove("D02,A04", "type:as declared, else that of the object",
            k.h1("typ", o.t) == If(isnone(ty), ot, ty))
    k.frame("D02", lambda f, r: z3.eq(r, o.t) and f in ("target", "typ"))


def resolves(k, mh, l0, n, at):
    f = Fold(k, 7, n, lambda q: RR(V.vo(at(q))), lambda q: T,
             lambda l, q: RL(l, V.vo(at(q))), l0)
    k.i.ghost["folds"] = (f,)
    k.i.ghost["mhref"] = mh
    k.i.assume(n >= 0)
    return f


def resolve_all(clsname, method="resolve_references"):
    """every element is visited, in order, until one raises"""
    def run(k):
        A = k.A
        cls = getattr(A, clsname)
        o = k.obj("self", cls)
        mh = k.mh()
        k.i.assume(V.is_VInt(k.h0("$log", mh.t)))
        l0 = V.vi(k.h0("$log", mh.t))
        isdict = clsname in ("Tuple_Aggregate", "Record_Object")
        field = {"Record_Object": "field",
                 "String_Literal": "references"}.get(clsname, "value")
        c = k.o0(field, o.t)
        n = k.h0("$len", c)
        at = (lambda q: z3.Select(k.h0("$map", c), k.elem0(c, q))) \
            if isdict else (lambda q: k.elem0(c, q))
        k.all_elems(c, lambda q: And(k.isa(at(q), A.Expression),
                                     V.vo(at(q)) >= 0))
        f = resolves(k, mh, l0, n, at)
        out, rv = k.call(cls, method, [o, mh])
        log1 = log_term(k.i, mh)
        if out == "err":
            k.prove("D02", "error:only if some element has a reference that "
                    "does not resolve", f.raised_at(log1))
            return
        k.prove("D02", "error:reported for every element", f.quiet(f.n))
        f.unfold(k.i, z3.IntVal(0))
        f.unfold(k.i, f.n)
        k.prove("D02", "value:every element is resolved, in order",
                log1 == f.lt(f.n))
        k.frame("D02", lambda fld, ref: fld == "$log")
    return target("%s.%s" % (clsname, method),
                  "trlc.ast.%s.%s" % (clsname, method), "D02", run,
                  [key_for(clsname, method)])


def resolve_nothing(k):
    """expressions without references below them"""
    A = k.A
    o = k.i.force(k.arg("self", ("or",) + tuple(
        c for c in k.prog.cls_ids if issubclass(c, A.Expression) and
        not k.prog.is_abstract(c) and all(
            "resolve_references" not in b.__dict__ or b is A.Expression
            for b in c.__mro__))))
    mh = k.mh()
    out, rv = k.call(A.Expression, "resolve_references", [o, mh])
    k.prove("D02", "value:nothing to resolve", And(
        z3.BoolVal(out == "ret"), log_term(k.i, mh) == V.vi(k.h0(
            "$log", mh.t))))
    k.frame("D02")


# ------------------------------------------------------------------ objects
def object_init(k):
    A = k.A
    name = k.arg("name", "str")
    loc = k.arg("location", k.E.Location)
    typ = k.obj("n_typ", A.Record_Type)
    sec = k.arg("section", ("opt", ("list", A.Section)))
    pkg = k.obj("n_package", A.Package)
    comps = COMPS(typ.t)
    k.i.mark_old(comps)
    n = k.h0("$len", comps)
    k.all_elems(comps, lambda q: And(
        k.isa(k.elem0(comps, q), A.Composite_Component),
        V.vo(k.elem0(comps, q)) >= 0,
        V.is_VStr(k.h0("name", V.vo(k.elem0(comps, q)))),
        k.isa(k.h0("n_typ", V.vo(k.elem0(comps, q))), A.Type)))
    out, rv = k.new(A.Record_Object, [name, loc, typ, sec, pkg])
    if out == "err":
        k.prove("D03", "error:never", F)
        return
    d = V.vo(k.h1("field", rv.t))
    j = z3.Int("jc")
    nm = lambda q: k.h0("name", V.vo(k.elem0(comps, q)))
    cell = z3.Select(k.h1("$map", d), nm(j))
    k.prove("D03", "value:every component of the type has a field",
            z3.ForAll([j], Implies(And(j >= 0, j < n), z3.Select(
                k.h1("$has", d), nm(j)))))
    k.prove("D03", "value:every field is null at first",
            z3.ForAll([j], Implies(And(j >= 0, j < n), k.isa(
                cell, A.Implicit_Null))))
    q = z3.Const("kq", V)
    k.prove("D03", "value:there are no other fields", z3.ForAll([q], Implies(
        z3.Select(k.h1("$has", d), q),
        z3.Exists([j], And(j >= 0, j < n, nm(j) == q)))))
    k.prove("D03,I01", "value:name, type, package, section and location as "
            "declared", And(
                k.h1("name", rv.t) == k.v(name),
                k.h1("n_typ", rv.t) == k.v(typ),
                k.h1("n_package", rv.t) == k.v(pkg),
                k.h1("section", rv.t) == k.v(sec),
                k.h1("location", rv.t) == k.v(loc)))


def field_state(k):
    A = k.A
    o = k.obj("self", A.Record_Object)
    c = k.obj("component", A.Composite_Component)
    d = k.o0("field", o.t)
    name = k.h0("name", c.t)
    k.i.assume(V.is_VStr(name))
    cell = z3.Select(k.h0("$map", d), name)
    # the component belongs to the type of the object (Record_Object.__init__)
    k.i.assume(z3.Select(k.h0("$has", d), name))
    k.i.assume(k.isa(cell, A.Expression))
    return o, c, d, name, cell


def is_null(k):
    o, c, d, name, cell = field_state(k)
    out, rv = k.call(k.A.Record_Object, "is_component_implicit_null", [o, c])
    if out == "err":
        k.prove("D03", "error:never", F)
        return
    # (sic) the name says the opposite
    k.prove("D03", "value:true iff the component has been given a value",
            k.bool_of(rv) == Not(k.isa(cell, k.A.Implicit_Null)))
    k.frame("D03")


def assign(k):
    A = k.A
    o, c, d, name, cell = field_state(k)
    val = k.i.force(k.arg("value", ("or",) + convertible(A)))
    k.i.assume(k.isa(cell, A.Implicit_Null))
    out, rv = k.call(A.Record_Object, "assign", [o, c, val])
    if out == "err":
        k.prove("D03", "error:never", F)
        return
    q = z3.Const("kq", V)
    k.prove("D03", "value:the component has the value given, the others "
            "are as they were", z3.ForAll([q], And(
                z3.Select(k.h1("$map", d), q) == If(
                    q == name, V.VObj(val.t), z3.Select(
                        k.h0("$map", d), q)),
                z3.Select(k.h1("$has", d), q) == z3.Select(
                    k.h0("$has", d), q))))
    k.prove("D03", "value:the order of the components is kept", And(
        k.h1("$len", d) == k.h0("$len", d),
        k.h1("$elem", d) == k.h0("$elem", d)))
    k.frame("D03", lambda f, r: f.startswith("$"))


def tuple_init(k):
    A = k.A
    loc = k.arg("location", k.E.Location)
    typ = k.obj("typ", A.Tuple_Type)
    out, rv = k.new(A.Tuple_Aggregate, [loc, typ])
    if out == "err":
        k.prove("D04", "error:never", F)


def tuple_assign(k):
    A = k.A
    o = k.obj("self", A.Tuple_Aggregate)
    d = k.o0("value", o.t)
    fld = k.arg("field", "str")
    val = k.i.force(k.arg("value", ("or", A.Literal, A.Unary_Expression,
                                    A.Tuple_Aggregate, A.Record_Reference)))
    t = Tab(k.i)
    st = k.o0("components", k.o0("typ", o.t))
    found = t.find(st, SIMPLE(fld.t))
    k.i.assume(And(Not(isnone(found)), t.entity(found),
                   k.h0("name", V.vo(found)) == k.v(fld)))
    k.i.assume(z3.Select(k.h0("$has", d), k.v(fld)))
    out, rv = k.call(A.Tuple_Aggregate, "assign", [o, fld, val])
    if out == "err":
        k.prove("D04", "error:never", F)
        return
    q = z3.Const("kq", V)
    k.prove("D04", "value:the field has the value given, the others are as "
            "they were", z3.ForAll([q], z3.Select(k.h1("$map", d), q) == If(
                q == k.v(fld), V.VObj(val.t),
                z3.Select(k.h0("$map", d), q))))
    k.frame("D04", lambda f, r: f.startswith("$"))


def append(k):
    A = k.A
    o = k.obj("self", A.Array_Aggregate)
    val = k.i.force(k.arg("value", ("or", A.Literal, A.Unary_Expression,
                                    A.Array_Aggregate, A.Tuple_Aggregate,
                                    A.Record_Reference)))
    lst = k.o0("value", o.t)
    n = k.h0("$len", lst)
    k.i.assume(n >= 0)
    out, rv = k.call(A.Array_Aggregate, "append", [o, val])
    if out == "err":
        k.prove("D04", "error:never", F)
        return
    j = z3.Int("ja")
    k.prove("D04,A05", "value:appended at the end", And(
        k.h1("$len", lst) == n + 1,
        z3.Select(k.h1("$elem", lst), n) == V.VObj(val.t),
        z3.ForAll([j], Implies(And(j >= 0, j < n), z3.Select(
            k.h1("$elem", lst), j) == k.elem0(lst, j)))))
    k.frame("D04", lambda f, r: f.startswith("$"))


# ------------------------------------------------------------------ Python
def python_leaf(clsname, want):
    def run(k):
        cls = getattr(k.A, clsname)
        o = k.obj("self", cls)
        if clsname == "Record_Reference":
            # resolved (Source_Manager.resolve_record_references)
            k.i.assume(k.isa(k.h0("target", o.t), k.A.Record_Object))
        out, rv = k.call(cls, "to_python_object", [o])
        if out == "err":
            k.prove("I01", "error:never", F)
            return
        k.prove("I01", "value:the Python object of that value",
                k.v(rv) == want(k, o.t))
        k.frame("I01")
    return target(clsname + ".to_python_object",
                  "trlc.ast.%s.to_python_object" % clsname, "I01", run,
                  [key_for(clsname, "to_python_object")])


def python_unary(k):
    A = k.A
    o = k.obj("self", A.Unary_Expression)
    op = k.h0("operator", o.t)
    plus = V.VEnum(z3.IntVal(k.opid("Unary_Operator", "PLUS")))
    minus = V.VEnum(z3.IntVal(k.opid("Unary_Operator", "MINUS")))
    k.i.assume(Or(op == plus, op == minus))
    x = k.o0("n_operand", o.t)
    # only literals have a sign in values (Parser.parse_value)
    k.i.assume(k.isa(V.VObj(x), (A.Integer_Literal, A.Decimal_Literal)))
    p = TPO(x)
    k.i.assume(Or(V.is_VInt(p), V.is_VFrac(p)))
    out, rv = k.call(A.Unary_Expression, "to_python_object", [o])
    if out == "err":
        k.prove("I01", "error:never", F)
        return
    neg = If(V.is_VInt(p), V.VInt(-V.vi(p)), V.VFrac(-V.vr(p)))
    k.prove("I01", "value:the operand with that sign",
            k.v(rv) == If(op == plus, p, neg))
    k.frame("I01")


def python_many(clsname, method="to_python_object"):
    def run(k):
        A = k.A
        cls = getattr(A, clsname)
        o = k.obj("self", cls)
        isdict = clsname in ("Tuple_Aggregate", "Record_Object")
        c = k.o0("field" if clsname == "Record_Object" else "value", o.t)
        n = k.h0("$len", c)
        at = (lambda q: z3.Select(k.h0("$map", c), k.elem0(c, q))) \
            if isdict else (lambda q: k.elem0(c, q))
        k.all_elems(c, lambda q: And(
            k.isa(at(q), convertible(A)), V.vo(at(q)) >= 0,
            *([z3.Select(k.h0("$has", c), k.elem0(c, q)),
               V.is_VStr(k.elem0(c, q))] if isdict else [])))
        out, rv = k.call(cls, method, [o])
        if out == "err":
            k.prove("I01", "error:never", F)
            return
        r = V.vo(k.v(rv))
        j = z3.Int("jsel")
        k.prove("I01", "value:as many as there are",
                k.h1("$len", r) == n)
        k.i.assume(And(j >= 0, j < n))
        key = k.elem0(c, j)
        if isdict:
            k.prove("I01", "value:every component, under its name and in "
                    "order", And(z3.Select(k.h1("$elem", r), j) == key,
                                 z3.Select(k.h1("$has", r), key),
                                 z3.Select(k.h1("$map", r), key) ==
                                 TPO(V.vo(at(j)))))
        else:
            k.prove("I01", "value:every element, in order", z3.Select(
                k.h1("$elem", r), j) == TPO(V.vo(at(j))))
        k.prove("I01", "value:a %s" % ("dict" if isdict else "list"),
                CLS(r) == k.prog._cls_id(dict if isdict else list))
        k.frame("I01")
    return target("%s.%s" % (clsname, method),
                  "trlc.ast.%s.%s" % (clsname, method), "I01", run,
                  [key_for(clsname, method)])


def qualified_name(clsname):
    def run(k):
        cls = getattr(k.A, clsname)
        o = k.obj("self", cls)
        pkg = k.o0("n_package", o.t)
        k.i.assume(V.is_VStr(k.h0("name", pkg)))
        k.i.assume(V.is_VStr(k.h0("name", o.t)))
        out, rv = k.call(cls, "fully_qualified_name", [o])
        if out == "err":
            k.prove("I01", "error:never", F)
            return
        k.prove("I01", "value:package, dot, name", k.v(rv) == V.VStr(
            z3.Concat(V.vs(k.h0("name", pkg)), z3.StringVal("."),
                      V.vs(k.h0("name", o.t)))))
        k.frame("I01")
    return target(clsname + ".fully_qualified_name",
                  "trlc.ast.%s.fully_qualified_name" % clsname, "I01", run,
                  [key_for(clsname, "fully_qualified_name")])


def float_model(i, args, kw):
    v = to_v(i.prog, i.force(args[0]))
    i.safety("a number is converted", Or(V.is_VFrac(v), V.is_VInt(v)))
    return AnyV(TOFLOAT(If(V.is_VInt(v), z3.ToReal(V.vi(v)), V.vr(v))),
                "any")


def declare(S):
    A = S.A
    S.contract(A.Record_Type, "is_subclass_of", subclass_contract)
    S.contract(A.Union_Type, "is_compatible", compatible_contract)
    S.contract(A.Record_Type, "is_frozen", frozen_contract)
    S.contract(A.Record_Type, "get_freezing_expression", freezing_contract)
    S.virtual(A.Expression, "resolve_references", resolve_contract,
              "proved per class by the resolve_references targets")
    S.virtual(A.Expression, "to_python_object", python_contract,
              "proved per class by the to_python_object targets")
    S.contract(A.Record_Object, "fully_qualified_name", fqn_contract)
    S.invariants.append(inv_walk)
    S.externals[float] = float_model


def targets(S):
    def tg(cls, m, f, props, keys=()):
        return target("%s.%s" % (cls, m), "trlc.ast.%s.%s" % (cls, m), props,
                      f, [("trlc.ast", "%s.%s" % (cls, m))] + list(keys))
    h = lambda name: (lambda k, r: k.h0(name, r))
    ts = [
        tg("Record_Type", "is_subclass_of", is_subclass_of, "D02"),
        tg("Union_Type", "is_compatible", is_compatible, "D02"),
        tg("Record_Type", "is_frozen", is_frozen, "D03"),
        tg("Record_Type", "get_freezing_expression", freezing_expression,
           "D03"),
        all_components("Record_Type"), all_components("Tuple_Type"),
        tg("Record_Reference", "resolve_references", reference_resolve,
           "D02,A04"),
        resolve_all("String_Literal"), resolve_all("Array_Aggregate"),
        resolve_all("Tuple_Aggregate"), resolve_all("Record_Object"),
        tg("Expression", "resolve_references", resolve_nothing, "D02"),
        tg("Record_Object", "__init__", object_init, "D03,I01"),
        tg("Record_Object", "is_component_implicit_null", is_null, "D03"),
        tg("Record_Object", "assign", assign, "D03"),
        tg("Tuple_Aggregate", "assign", tuple_assign, "D04"),
        tg("Array_Aggregate", "append", append, "D04,A05"),
        python_leaf("Implicit_Null", lambda k, r: V.VNone),
        python_leaf("Null_Literal", lambda k, r: V.VNone),
        python_leaf("Integer_Literal", h("value")),
        python_leaf("String_Literal", h("value")),
        python_leaf("Boolean_Literal", h("value")),
        python_leaf("Decimal_Literal", lambda k, r: TOFLOAT(V.vr(
            k.h0("value", r)))),
        python_leaf("Enumeration_Literal", lambda k, r: k.h0(
            "name", k.o0("value", r))),
        python_leaf("Record_Reference", lambda k, r: V.VStr(FQN(
            k.o0("target", r)))),
        tg("Unary_Expression", "to_python_object", python_unary, "I01"),
        python_many("Array_Aggregate"), python_many("Tuple_Aggregate"),
        python_many("Record_Object", "to_python_dict"),
        qualified_name("Record_Object"), qualified_name("Concrete_Type"),
    ]
    return ts
