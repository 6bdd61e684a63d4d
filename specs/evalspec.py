"""Contracts of Expression.evaluate: language semantics of checks.

spec(node, ctx) gives, per node class, the exact condition under which an
error is reported and the exact value otherwise, in terms of the meaning
(ER, EV) of the children.  wf() is what the constructors establish.
"""
import z3

from pyvc.core import (CLS, V, Conc, Infeasible, IntV, NONE, ObjV, PyRaise,
                       StrV, AnyV, Unsupported)
from pyvc.execpy import POWI, POWR, REMATCH
from .base import ARR_VV, B, ER, EV, EVT, I

CEQ = z3.Function("py_container_eq", I, I, B)
And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies
isnone = V.is_VNone


class Ctx:
    def __init__(self, static, cmap, has=None):
        self.s = static
        self.m = cmap
        self.has = has


class H:
    """Reads of the (initial) heap as terms"""

    def __init__(self, interp):
        self.i = interp
        self.prog = interp.prog
        self.A = interp.prog.mods["trlc.ast"]

    def f(self, ref, name):
        return self.i.hread(name, ref)

    def o(self, ref, name):
        return V.vo(self.f(ref, name))

    def isa(self, v, cls):
        """V term v is an object of (a subclass of) cls"""
        return And(V.is_VObj(v), self.prog.isinst(V.vo(v), cls))

    def typ(self, ref):
        return self.f(ref, "typ")

    def ln(self, ref):
        return self.i.hread("$len", ref)

    def el(self, ref, i):
        return z3.Select(self.i.hread("$elem", ref), i)

    def kid(self, name):
        return self.prog._cls_id(getattr(self.A, name))

    def opid(self, cls, name):
        return self.prog.enum_id(getattr(getattr(self.A, cls), name))

    # ------------------------------------------------------------- shared
    def fits(self, typ, v):
        """value v (not null) belongs to type object typ"""
        A = self.A
        isl = And(V.is_VObj(v), CLS(V.vo(v)) == self.prog._cls_id(list))
        isd = And(V.is_VObj(v), CLS(V.vo(v)) == self.prog._cls_id(dict))
        ise = And(V.is_VObj(v), CLS(V.vo(v)) == self.kid(
            "Enumeration_Literal_Spec"))
        t = lambda c: self.isa(typ, c)
        return And(
            Not(isnone(typ)),
            Implies(t(A.Builtin_Integer), V.is_VInt(v)),
            Implies(t(A.Builtin_Decimal), V.is_VFrac(v)),
            Implies(t(A.Builtin_Boolean), V.is_VBool(v)),
            Implies(t(A.Builtin_String), V.is_VStr(v)),
            Implies(t(A.Array_Type), isl),
            Implies(t(A.Enumeration_Type), ise),
            Implies(t((A.Tuple_Type, A.Record_Type, A.Union_Type)), isd))

    def kindeq(self, t1, t2):
        """both types describe the same kind of value"""
        A = self.A
        return And(*[self.isa(t1, c) == self.isa(t2, c) for c in (
            A.Builtin_Integer, A.Builtin_Decimal, A.Builtin_Boolean,
            A.Builtin_String, A.Array_Type, A.Enumeration_Type,
            A.Tuple_Type, (A.Record_Type, A.Union_Type))])

    def child_facts(self, ref, c):
        """What the contract of evaluate promises about expression ref"""
        cache = self.prog.isinst_cache
        p = (z3.Int("cf_ref"), z3.Bool("cf_s"), z3.Const("cf_m", ARR_VV),
             z3.Const("cf_typ", V),
             z3.Const("cf_len", z3.ArraySort(I, I)),
             z3.Const("cf_ub", z3.ArraySort(I, V)))
        if "child_facts" not in cache:
            cache["child_facts"] = self.child_template(*p)
        return z3.substitute(
            cache["child_facts"], *zip(p, (
                ref, c.s, c.m, self.typ(ref), self.i.fmap("$len").term(),
                self.i.fmap("upper_bound").term())))

    def child_template(self, ref, s, m, t, ln, ubs):
        er, ev, evt = ER(ref, s, m), EV(ref, s, m), EVT(ref, s, m)
        return And(Or(isnone(t), self.isa(t, self.A.Type)),
                   Implies(Not(er), And(
            isnone(ev) == isnone(evt),
            Implies(isnone(t), isnone(ev)),
            Implies(Not(isnone(ev)), And(
                self.fits(t, ev), self.isa(evt, self.A.Type),
                self.kindeq(t, evt),
                self.fits(evt, ev),
                Implies(self.isa(evt, self.A.Array_Type),
                        self.arr_facts(evt, ev, ln, ubs)))))))

    def arr_facts(self, evt, ev, n, ubs):
        """an array value respects the upper bound of its type"""
        ub = z3.Select(ubs, V.vo(evt))
        return And(z3.Select(n, V.vo(ev)) >= 0,
                   Or(isnone(ub), V.is_VInt(ub)))

    def num_kind(self, ref):
        t = self.typ(ref)
        return self.isa(t, self.A.Builtin_Numeric_Type)


def py_floordiv(a, b):
    return If(b > 0, a / b, (-a) / (-b))


def trlc_rem(a, b):
    """dividend-signed remainder"""
    ab = If(b >= 0, b, -b)
    return If(a >= 0, a % ab, -((-a) % ab))


def away(r):
    half = z3.RealVal("1/2")
    return If(r >= 0, z3.ToInt(r + half), -z3.ToInt(-r + half))


def deep_eq(h, v, w):
    both = And(V.is_VObj(v), V.is_VObj(w))
    cont = lambda x: Or(CLS(V.vo(x)) == h.prog._cls_id(list),
                        CLS(V.vo(x)) == h.prog._cls_id(dict))
    return If(both,
              Or(v == w, And(cont(v), CLS(V.vo(v)) == CLS(V.vo(w)),
                             CEQ(V.vo(v), V.vo(w)))),
              v == w)


# ---------------------------------------------------------------- per class
class Spec:
    """er: error condition split in null part and rest; ev: value term;
    wf: what the constructor establishes"""

    def __init__(self, null, other, value, wf=None, children=()):
        self.null = null
        self.other = other
        self.value = value
        self.wf = wf if wf is not None else z3.BoolVal(True)
        self.children = children


T = z3.BoolVal(True)
F = z3.BoolVal(False)


def const_spec(h, r, c, v):
    return Spec(F, F, v)


def sp_null(h, r, c):
    return Spec(F, F, V.VNone, isnone(h.typ(r)))


def sp_int(h, r, c):
    return Spec(F, F, h.f(r, "value"), And(
        h.isa(h.typ(r), h.A.Builtin_Integer), V.is_VInt(h.f(r, "value"))))


def sp_dec(h, r, c):
    return Spec(F, F, h.f(r, "value"), And(
        h.isa(h.typ(r), h.A.Builtin_Decimal), V.is_VFrac(h.f(r, "value"))))


def sp_bool(h, r, c):
    return Spec(F, F, h.f(r, "value"), And(
        h.isa(h.typ(r), h.A.Builtin_Boolean), V.is_VBool(h.f(r, "value"))))


def sp_str(h, r, c):
    return Spec(F, F, h.f(r, "value"), And(
        h.isa(h.typ(r), h.A.Builtin_String), V.is_VStr(h.f(r, "value"))))


def sp_enum(h, r, c):
    v = h.f(r, "value")
    return Spec(F, F, v, And(
        h.isa(h.typ(r), h.A.Enumeration_Type),
        h.isa(v, h.A.Enumeration_Literal_Spec)))


def sp_unary(op):
    def f(h, r, c):
        A = h.A
        k = h.o(r, "n_operand")
        er, ev = ER(k, c.s, c.m), EV(k, c.s, c.m)
        kt, t = h.typ(k), h.typ(r)
        wf = h.f(r, "operator") == V.VEnum(z3.IntVal(
            h.opid("Unary_Operator", op)))
        null = And(Not(er), isnone(ev))
        isint = V.is_VInt(ev)
        num = h.isa(kt, A.Builtin_Numeric_Type)
        if op == "MINUS":
            val = If(isint, V.VInt(-V.vi(ev)), V.VFrac(-V.vr(ev)))
            w = And(num, t == kt)
        elif op == "PLUS":
            val, w = ev, And(num, t == kt)
        elif op == "ABSOLUTE_VALUE":
            val = If(isint, V.VInt(If(V.vi(ev) >= 0, V.vi(ev), -V.vi(ev))),
                     V.VFrac(If(V.vr(ev) >= 0, V.vr(ev), -V.vr(ev))))
            w = And(num, t == kt)
        elif op == "LOGICAL_NOT":
            val = V.VBool(Not(V.vb(ev)))
            w = And(h.isa(kt, A.Builtin_Boolean),
                    h.isa(t, A.Builtin_Boolean))
        elif op == "STRING_LENGTH":
            val = V.VInt(z3.Length(V.vs(ev)))
            w = And(h.isa(kt, A.Builtin_String),
                    h.isa(t, A.Builtin_Integer))
        elif op == "ARRAY_LENGTH":
            val = V.VInt(z3.Select(h.i.fmap("$len").base, V.vo(ev)))
            w = And(h.isa(kt, A.Array_Type), h.isa(t, A.Builtin_Integer))
        elif op == "CONVERSION_TO_INT":
            val = If(isint, ev, V.VInt(away(V.vr(ev))))
            w = And(num, h.isa(t, A.Builtin_Integer))
        elif op == "CONVERSION_TO_DECIMAL":
            val = If(isint, V.VFrac(z3.ToReal(V.vi(ev))), ev)
            w = And(num, h.isa(t, A.Builtin_Decimal))
        return Spec(null, er, val, And(wf, w), [k])
    return f


LOGIC = ("LOGICAL_AND", "LOGICAL_OR", "LOGICAL_XOR", "LOGICAL_IMPLIES")
ORDER = ("COMP_LT", "COMP_LEQ", "COMP_GT", "COMP_GEQ")
STRFN = ("STRING_CONTAINS", "STRING_STARTSWITH", "STRING_ENDSWITH",
         "STRING_REGEX")


def binary_types(h, op, lt, rt, t):
    """Signature of each operator: operand types and result type"""
    A = h.A
    isb = lambda x: h.isa(x, A.Builtin_Boolean)
    iss = lambda x: h.isa(x, A.Builtin_String)
    isi = lambda x: h.isa(x, A.Builtin_Integer)
    isn = lambda x: h.isa(x, A.Builtin_Numeric_Type)
    isa = lambda x: h.isa(x, A.Array_Type)
    rec = lambda x: h.isa(x, (A.Record_Type, A.Union_Type))
    if op in LOGIC:
        return And(isb(lt), isb(rt)), isb(t)
    if op in ("COMP_EQ", "COMP_NEQ"):
        un = Or(h.isa(lt, A.Union_Type), h.isa(rt, A.Union_Type))
        return Or(isnone(lt), isnone(rt), If(un, And(rec(lt), rec(rt)),
                                             lt == rt)), isb(t)
    if op in ORDER:
        return And(isn(lt), lt == rt), isb(t)
    if op in STRFN:
        return And(iss(lt), iss(rt)), isb(t)
    if op == "ARRAY_CONTAINS":
        et = z3.Select(h.i.fmap("element_type").base, V.vo(rt))
        return And(isa(rt), h.isa(et, A.Type), h.isa(lt, A.Type),
                   Or(CLS(V.vo(lt)) == CLS(V.vo(et)),
                      h.kindeq(lt, et))), isb(t)
    if op == "PLUS":
        return Or(And(isn(lt), lt == rt), And(iss(lt), iss(rt))), \
            And(h.isa(t, A.Type), h.kindeq(t, lt))
    if op in ("MINUS", "TIMES", "DIVIDE"):
        return And(isn(lt), lt == rt), t == lt
    if op == "REMAINDER":
        return And(isi(lt), isi(rt)), isi(t)
    if op == "POWER":
        return And(isn(lt), isi(rt)), t == lt
    if op == "INDEX":
        et = z3.Select(h.i.fmap("element_type").base, V.vo(lt))
        return And(isa(lt), isi(rt), h.isa(et, A.Type)), t == et
    raise KeyError(op)


def sp_binary(op):
    def f(h, r, c):
        a, b = h.o(r, "n_lhs"), h.o(r, "n_rhs")
        ea, eb = ER(a, c.s, c.m), ER(b, c.s, c.m)
        va, vb = EV(a, c.s, c.m), EV(b, c.s, c.m)
        t = h.typ(r)
        sig, res = binary_types(h, op, h.typ(a), h.typ(b), t)
        wf = And(h.f(r, "operator") == V.VEnum(z3.IntVal(
            h.opid("Binary_Operator", op))), sig, res)
        # strict operators
        other = Or(ea, And(Not(isnone(va)), eb))
        null = And(Not(ea), Or(isnone(va), And(Not(eb), isnone(vb))))
        isint = And(V.is_VInt(va), V.is_VInt(vb))
        x, y = V.vi(va), V.vi(vb)
        p, q = V.vr(va), V.vr(vb)
        if op in ("LOGICAL_AND", "LOGICAL_OR", "LOGICAL_IMPLIES"):
            ba, bb = V.vb(va), V.vb(vb)
            needed = Not(ba) if op == "LOGICAL_OR" else ba
            go = And(Not(ea), Not(isnone(va)), needed)
            other = Or(ea, And(go, eb))
            null = Or(And(Not(ea), isnone(va)),
                      And(go, Not(eb), isnone(vb)))
            val = V.VBool({"LOGICAL_AND": And(ba, bb),
                           "LOGICAL_OR": Or(ba, bb),
                           "LOGICAL_IMPLIES": Implies(ba, bb)}[op])
        elif op == "LOGICAL_XOR":
            val = V.VBool(z3.Xor(V.vb(va), V.vb(vb)))
        elif op in ("COMP_EQ", "COMP_NEQ"):
            null = F
            other = Or(ea, eb)
            # references are equal iff they denote the same object
            e = If(h.isa(h.typ(a), (h.A.Record_Type, h.A.Union_Type)),
                   va == vb, deep_eq(h, va, vb))
            val = V.VBool(e if op == "COMP_EQ" else Not(e))
        elif op in ORDER:
            val = V.VBool(If(isint, {
                "COMP_LT": x < y, "COMP_LEQ": x <= y,
                "COMP_GT": x > y, "COMP_GEQ": x >= y}[op], {
                "COMP_LT": p < q, "COMP_LEQ": p <= q,
                "COMP_GT": p > q, "COMP_GEQ": p >= q}[op]))
        elif op in STRFN:
            s, u = V.vs(va), V.vs(vb)
            val = V.VBool({
                "STRING_CONTAINS": z3.Contains(u, s),
                "STRING_STARTSWITH": z3.PrefixOf(u, s),
                "STRING_ENDSWITH": z3.SuffixOf(u, s),
                "STRING_REGEX": REMATCH(u, s)}[op])
        elif op == "ARRAY_CONTAINS":
            # membership: exists an element equal in value (see array_in)
            val = None
        elif op == "PLUS":
            val = If(isint, V.VInt(x + y),
                     If(V.is_VFrac(va), V.VFrac(p + q),
                        V.VStr(z3.Concat(V.vs(va), V.vs(vb)))))
        elif op == "MINUS":
            val = If(isint, V.VInt(x - y), V.VFrac(p - q))
        elif op == "TIMES":
            val = If(isint, V.VInt(x * y), V.VFrac(p * q))
        elif op == "DIVIDE":
            ok = And(Not(ea), Not(eb), Not(isnone(va)), Not(isnone(vb)))
            other = Or(other, And(ok, If(isint, y == 0, q == 0)))
            val = If(isint, V.VInt(py_floordiv(x, y)), V.VFrac(p / q))
        elif op == "REMAINDER":
            ok = And(Not(ea), Not(eb), Not(isnone(va)), Not(isnone(vb)))
            other = Or(other, And(ok, y == 0))
            val = V.VInt(trlc_rem(x, y))
        elif op == "POWER":
            # the parser admits only static, non-negative exponents
            wf = And(wf, Not(eb), V.is_VInt(vb), y >= 0)
            val = If(V.is_VInt(va), V.VInt(POWI(x, y)),
                     V.VFrac(POWR(p, y)))
        elif op == "INDEX":
            ok = And(Not(ea), Not(eb), Not(isnone(va)), Not(isnone(vb)))
            n = z3.Select(h.i.fmap("$len").base, V.vo(va))
            oob = Or(y < 0, y >= n)
            other = Or(other, And(ok, oob))
            el = z3.Select(z3.Select(h.i.fmap("$elem").base, V.vo(va)), y)
            val = z3.Select(h.i.fmap("value").base, V.vo(el))
            # value invariant of array values: elements are Values of the
            # element type, and there are no more than the bound allows
            evt = EVT(a, c.s, c.m)
            ub = z3.Select(h.i.fmap("upper_bound").base, V.vo(evt))
            et = z3.Select(h.i.fmap("element_type").base, V.vo(h.typ(a)))
            wf = And(wf, Implies(And(Not(ea), Not(isnone(va))), And(
                n >= 0,
                h.isa(evt, h.A.Array_Type),
                Or(isnone(ub), And(V.is_VInt(ub), n <= V.vi(ub))),
                Implies(And(y >= 0, y < n), And(
                    h.isa(el, h.A.Value),
                    Not(isnone(val)), h.fits(et, val))))))
        return Spec(null, other, val, wf, [a, b])
    return f


def sp_range(h, r, c):
    a, lo, hi = h.o(r, "n_lhs"), h.o(r, "n_lower"), h.o(r, "n_upper")
    ers = [ER(k, c.s, c.m) for k in (a, lo, hi)]
    evs = [EV(k, c.s, c.m) for k in (a, lo, hi)]
    n = [isnone(v) for v in evs]
    wf = And(h.isa(h.typ(a), h.A.Builtin_Numeric_Type),
             h.typ(lo) == h.typ(a), h.typ(hi) == h.typ(a),
             h.isa(h.typ(r), h.A.Builtin_Boolean))
    other = Or(ers[0], And(Not(n[0]), Or(ers[1], And(Not(n[1]), ers[2]))))
    null = And(Not(ers[0]), Or(n[0], And(Not(ers[1]), Or(n[1], And(
        Not(ers[2]), n[2])))))
    x, l, u = evs
    val = V.VBool(If(V.is_VInt(x),
                     And(V.vi(l) <= V.vi(x), V.vi(x) <= V.vi(u)),
                     And(V.vr(l) <= V.vr(x), V.vr(x) <= V.vr(u))))
    return Spec(null, other, val, wf, [a, lo, hi])


# ------------------------------------------------------------- registration
def make_ctx(interp, context):
    """SV of the 'context' argument -> Ctx terms"""
    if isinstance(context, Conc) and context.v is None:
        return Ctx(T, z3.Const("no_ctx", ARR_VV), None)
    if isinstance(context, ObjV):
        return Ctx(F, interp.hread("$map", context.t),
                   interp.hread("$has", context.t))
    if isinstance(context, AnyV):
        return make_ctx(interp, interp.force(context))
    raise Unsupported("context argument")


def evaluate_contract(interp, args, kwargs):
    names = ["self", "mh", "context", "gstab"]
    a = dict(zip(names, args))
    a.update(kwargs)
    o = a["self"]
    h = H(interp)
    c = make_ctx(interp, a["context"])
    interp.mark_old(o.t)
    interp.assume(h.child_facts(o.t, c))
    if interp.branch(ER(o.t, c.s, c.m)):
        raise PyRaise(interp.prog.mods["trlc.errors"].TRLC_Error)
    A = h.A
    r = ObjV(interp.new_ref(A.Value), A.Value)
    loc = interp.fresh("loc", V)
    interp.assume(interp.spec_formula(
        loc, interp.prog.mods["trlc.errors"].Location))
    interp.hwrite("location", r.t, loc)
    interp.hwrite("value", r.t, EV(o.t, c.s, c.m))
    interp.hwrite("typ", r.t, EVT(o.t, c.s, c.m))
    return r


def declare(S):
    A, E = S.A, S.E
    S.virtual(A.Expression, "evaluate", evaluate_contract,
              "proved per class by the evaluate targets (structural "
              "induction)")
    S.virtual(A.Expression, "to_string",
              lambda i, a, k: i.fresh_str("to_string"),
              "trusted: returns some string (only used in messages)")
    S.contract(A.Action, "to_string",
               lambda i, a, k: i.fresh_str("to_string"),
               "trusted: returns some string (only used in messages)")
    declare_mh(S)


def declare_mh(S):
    E = S.E
    TE = E.TRLC_Error

    def error(i, args, kw):
        names = ["self", "location", "message", "explanation", "fatal",
                 "user"]
        a = dict(zip(names, args))
        a.update(kw)
        fatal = a.get("fatal", Conc(True))
        i.ghost["msgs"] = i.ghost.get("msgs", ()) + (
            ("error", a.get("location"), a.get("message"),
             a.get("explanation", NONE), fatal, a.get("user", Conc(False))),)
        if i.truth(fatal):
            raise PyRaise(TE)
        return NONE

    def other(kind):
        def f(i, args, kw):
            names = ["self", "location", "message", "explanation", "user"]
            if kind == "check":
                names = ["self", "location", "message", "check",
                         "explanation"]
            a = dict(zip(names, args))
            a.update(kw)
            i.ghost["msgs"] = i.ghost.get("msgs", ()) + (
                (kind, a.get("location"), a.get("message"),
                 a.get("explanation", NONE), Conc(False),
                 a.get("user", Conc(False))),)
            return NONE
        return f

    def ice(i, args, kw):
        i.safety("no internal compiler error is reported", F)
        raise Infeasible()
    S.contract(E.Message_Handler, "error", error, "proved by E02 targets")
    for k in ("warning", "check"):
        S.contract(E.Message_Handler, k, other(k), "proved by E02 targets")
    S.contract(E.Message_Handler, "ice_loc", ice, "internal error = failure")
    S.contract(E.Message_Handler, "cross_file_reference",
               lambda i, a, k: i.fresh_str("xref"),
               "trusted: returns some string (only used in messages)")


# ----------------------------------------------------------------- targets
def class_specs():
    out = [("Null_Literal", None, sp_null), ("Implicit_Null", None, sp_null),
           ("Integer_Literal", None, sp_int),
           ("Decimal_Literal", None, sp_dec),
           ("Boolean_Literal", None, sp_bool),
           ("String_Literal", None, sp_str),
           ("Enumeration_Literal", None, sp_enum),
           ("Range_Test", None, sp_range)]
    for op in ("MINUS", "PLUS", "ABSOLUTE_VALUE", "LOGICAL_NOT",
               "STRING_LENGTH", "ARRAY_LENGTH", "CONVERSION_TO_INT",
               "CONVERSION_TO_DECIMAL"):
        out.append(("Unary_Expression", op, sp_unary(op)))
    for op in LOGIC + ("COMP_EQ", "COMP_NEQ") + ORDER + STRFN + (
            "PLUS", "MINUS", "TIMES", "DIVIDE", "REMAINDER", "POWER",
            "INDEX"):
        out.append(("Binary_Expression", op, sp_binary(op)))
    return out
