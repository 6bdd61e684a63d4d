"""Values in TRLC files (D04, D02, I01, C02): what parse_value builds for a
component of a given type.  A value is parsed once at each position; its node
and its end are functions of the position (see parsespec)."""
import z3

from pyvc.core import (ARR_VB, ARR_VV, CLS, V, AnyV, Conc, Infeasible, IterV, NONE, ObjV,
                       PyRaise, StrV, Unsupported, to_v)
from . import parsespec
from .base import Contract
from .dataspec import bind, convertible, h0
from .evalspec import H, isnone
from .kit import And, B, F, I, If, Implies, Not, Or, T, target
from .parsespec import (DEPTH, ENDP, NODE, TOKAT, is_kind, is_kw, is_op,
                        kind_of, opid, parser, pos, ref_of, setpos, token,
                        value_of, visible, vs)
from .symspec import FIND, SIMPLE

P = "D04"
PV = "parse_value"
# depth of a type: a tuple type is deeper than the types of its fields
TD = z3.Function("type_depth", I, I)
# errors reported while the value at that position is parsed
NERR = z3.Function("errors_reported_in_value", I, I, I)
# position of the q-th element of the array that opens at n; of the q-th
# field of a tuple
VP = z3.Function("element_at", I, I, I, I)
VE = z3.Function("errors_before_element", I, I, I, I)
TP = z3.Function("field_at", I, I, I, I)
HALF = z3.Function("half_of", I, I)
ODD = z3.Function("is_odd", I, B)
IX = z3.Function("index_of_field", I, V, I)


def node(p, n):
    return NODE(z3.StringVal(PV), p, n)


def val(p, n):
    return V.VObj(node(p, n))


def value_facts(i, r, t, ty=None, fresh=False):
    """the value of a component of type t"""
    A = i.specs.A
    isi = i.prog.isinst
    ty = h0("typ", r) if ty is None else ty
    tt = V.VObj(t)
    cls = lambda c: isi(r, c)
    same = lambda c: And(V.is_VObj(ty), CLS(V.vo(ty)) == i.prog._cls_id(c))
    un = cls(A.Unary_Expression)
    return And(
        T if fresh else r >= 0, isi(r, (A.Literal, A.Unary_Expression, A.Array_Aggregate,
                        A.Tuple_Aggregate, A.Record_Reference)),
        Implies(isi(t, A.Builtin_Integer), And(
            Or(un, cls(A.Integer_Literal)), same(A.Builtin_Integer))),
        Implies(isi(t, A.Builtin_Decimal), And(
            Or(un, cls(A.Decimal_Literal)), same(A.Builtin_Decimal))),
        Implies(isi(t, A.Builtin_Boolean), And(
            cls(A.Boolean_Literal), same(A.Builtin_Boolean))),
        Implies(isi(t, A.Builtin_Markup_String), And(
            cls(A.String_Literal), same(A.Builtin_Markup_String))),
        Implies(And(isi(t, A.Builtin_String), Not(isi(
            t, A.Builtin_Markup_String))), And(
                cls(A.String_Literal), same(A.Builtin_String))),
        Implies(isi(t, A.Array_Type), And(cls(A.Array_Aggregate), ty == tt)),
        Implies(isi(t, A.Enumeration_Type), And(
            cls(A.Enumeration_Literal), ty == tt)),
        Implies(isi(t, (A.Record_Type, A.Union_Type)), And(
            cls(A.Record_Reference), Or(
                ty == tt, And(isi(t, A.Union_Type))))),
        Implies(isi(t, A.Tuple_Type), And(
            cls(A.Tuple_Aggregate), ty == tt)))


def c_value(i, a, kw):
    x = bind(["self", "typ"], a, kw)
    p = x["self"].t
    t = parsespec.need(i, x["typ"], "a type")
    A = i.specs.A
    i.safety("a value of a type is parsed", i.prog.isinst(t.t, A.Type))
    n = pos(i, p)
    i.safety("a token has been read before", Not(isnone(token(i, p, n - 1))))
    st = i.ghost.get("value of")
    if st is not None:
        t0, n0 = st
        i.prove("recursion is well-founded: calls parse_value", Or(
            n > n0, And(n == n0, TD(t.t) < TD(t0), TD(t.t) >= 0)),
            "termination")
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    r, e = node(p, n), ENDP(PV, p, n)
    i.mark_old(r)
    i.assume(value_facts(i, r, t.t))
    i.assume(e > n)
    i.assume(Not(isnone(token(i, p, e - 1))))
    i.assume(NERR(p, n) >= 0)
    report(i, NERR(p, n))
    setpos(i, p, e)
    return ObjV(r, A.Expression)


def reported(i):
    return V.vi(i.hread("$reported", i.ghost["mh"]))


def report(i, n=1):
    if i.ghost.get("mh") is None:
        return
    i.hwrite("$reported", i.ghost["mh"], V.VInt(z3.simplify(
        reported(i) + n)))


def counted_error(orig):
    def f(i, a, kw):
        if i.ghost.get("mh") is not None:
            report(i)
        return orig(i, a, kw)
    return f


# ------------------------------------------------------------------ targets
def begin(k, t):
    o, n = parser(k)
    p = o.t
    k.i.ghost["parser"] = p
    k.i.ghost["value of"] = (t.t, n)
    k.i.ghost["plain_branch"] = True
    mh = k.o0("mh", p)
    k.i.ghost["mh"] = mh
    k.i.assume(Not(isnone(token(k.i, p, n - 1))))
    k.i.assume(V.is_VInt(k.h0("$reported", mh)))
    k.i.assume(TD(t.t) >= 0)
    ds = k.o0("default_scope", p)
    st = k.h0("$scope", ds)
    k.i.assume(And(V.is_VInt(st), DEPTH(V.vi(st)) >= 1))
    cu = k.o0("cu", p)
    imp = k.h0("imports", cu)
    k.i.assume(And(k.isa(imp, set), k.isa(k.h0("package", cu),
                                          k.A.Package)))
    return o, p, n, V.vi(k.h0("$reported", mh)), mh


def finish(k, o, t, out, rv, end, extra=None, props="D04"):
    """what holds of every value"""
    if out == "err":
        return None
    p, n = o.t, V.vi(k.h0("$pos", o.t))
    r = ref_of(rv)
    A = k.A
    k.prove(props, "value:exactly the tokens of the value are consumed",
            pos(k.i, p) == end)
    k.prove(props, "end:at least one token is consumed", And(
        end > n, Not(isnone(token(k.i, p, end - 1)))))
    k.prove(props + ",B01,J01", "value:an expression of the type asked for",
            value_facts(k.i, r, t.t, k.h1("typ", r), fresh=True))
    k.frame(props, lambda f, q: f == "ast_link" or f.startswith("$log") or (
        z3.eq(q, p) and f == "$pos") or f == "$reported")
    return r


def quiet(k, mh, err0, props="D04"):
    k.prove(props, "value:no error is reported when a value is returned",
            V.vi(k.h1("$reported", mh)) == err0)


def number(which, sign):
    def f(k):
        A = k.A
        t = k.obj("typ", getattr(A, "Builtin_" + which))
        o, p, n, err0, mh = begin(k, t)
        tok = token(k.i, p, n)
        signed = is_op(tok, "+", "-")
        k.i.assume(signed if sign else Not(signed))
        out, rv = k.call(k.S.P.Parser, PV, [o, t])
        m = n + 1 if sign else n
        r = finish(k, o, t, out, rv, m + 1, props="I01,C02")
        if r is None:
            return
        lit = r
        if sign:
            lit = V.vo(k.h1("n_operand", r))
            k.prove("I01,C02", "value:the sign is kept", And(
                k.i.prog.isinst(r, A.Unary_Expression),
                k.h1("operator", r) == V.VEnum(If(
                    value_of(tok) == vs("+"),
                    opid(k, "PLUS", "Unary_Operator"),
                    opid(k, "MINUS", "Unary_Operator")))))
        num = token(k.i, p, m)
        k.prove("I01,C02", "value:a %s literal with the value of its token"
                % which, And(
                    is_kind(num, which.upper()),
                    k.i.prog.isinst(lit, getattr(A, which + "_Literal")),
                    k.h1("value", lit) == value_of(num)))
        k.prove("D04,B01", "value:of the type asked for", CLS(V.vo(k.h1(
            "typ", r))) == CLS(t.t))
        quiet(k, mh, err0)
    return f


def simple(which):
    def f(k):
        A = k.A
        t = k.obj("typ", getattr(A, "Builtin_" + which))
        o, p, n, err0, mh = begin(k, t)
        tok = token(k.i, p, n)
        out, rv = k.call(k.S.P.Parser, PV, [o, t])
        r = finish(k, o, t, out, rv, n + 1, props="I01,C03")
        if r is None:
            return
        if which == "Boolean":
            k.prove("I01", "value:true and false", And(
                is_kw(tok, "true", "false"),
                k.i.prog.isinst(r, A.Boolean_Literal),
                k.h1("value", r) == V.VBool(value_of(tok) == vs("true"))))
        else:
            k.prove("I01,C03", "value:the value of the token", And(
                is_kind(tok, "STRING"),
                k.i.prog.isinst(r, A.String_Literal),
                k.h1("value", r) == value_of(tok)))
        if which == "Markup_String":
            k.prove("H01", "value:its references are read, from the start",
                    REFS(r))
        k.prove("D04,B01", "value:of the type asked for", CLS(V.vo(k.h1(
            "typ", r))) == CLS(t.t))
        quiet(k, mh, err0)
    return f


REFS = z3.Function("references_are_read", I, B)


def c_markup(i, a, kw):
    """Markup_Parser(parent, literal): starts at the first character"""
    x = bind(["parent", "literal"], a, kw)
    lit = i.need_obj(x["literal"], "literal")
    r = ObjV(i.new_ref(i.specs.P.Markup_Parser), i.specs.P.Markup_Parser)
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    i.hwrite("$literal", r.t, V.VObj(lit.t))
    return r


def c_references(i, a, kw):
    lit = V.vo(i.hread("$literal", a[0].t))
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    i.assume(REFS(lit))
    return AnyV(i.hread("references", lit), "any")


# ------------------------------------------------------------------- arrays
def inv_array(i, node_, it, env_mods, entry_env):
    st = i.ghost.get("array")
    if st is None or it is not None:
        return []
    p, n, et, err0, mh = st
    out = []
    for name, x in sorted(entry_env.items()):
        if not isinstance(x, ObjV) or i.classes_of(x) != [
                i.specs.A.Array_Aggregate]:
            continue

        def lst(ip, name=name):
            return V.vo(ip.hread("value", ip.stack[-1].env[name].t))

        def where(ip, idx, lst=lst):
            ln = ip.hread("$len", lst(ip))
            at = element(ip, p, n, ln)
            element(ip, p, n, ln - 1)
            return And(ln >= 0, pos(ip, p) == at, at > n,
                       Not(isnone(token(ip, p, at - 1))))

        def elems(ip, idx, lst=lst):
            r = lst(ip)
            return all_elements(ip, p, n, et, ip.hread("$len", r),
                                ip.hread("$elem", r))

        def errors(ip, idx, lst=lst):
            ln = ip.hread("$len", lst(ip))
            return And(V.is_VInt(ip.hread("$reported", mh)),
                       reported(ip) == err0 + VE(p, n, ln),
                       VE(p, n, ln) >= 0)
        out += [("position", where), ("elements", elems),
                ("errors", errors)]
    return out


def element(i, p, n, q):
    """position of the q-th element, and of the one behind it"""
    at = VP(p, n, q)
    e = ENDP(PV, p, at)
    t = token(i, p, e)
    comma = is_kind(t, "COMMA")
    i.assume(VP(p, n, q + 1) == If(comma, e + 1, e))
    i.assume(VE(p, n, q + 1) == VE(p, n, q) + NERR(p, at) + If(
        Or(comma, is_kind(t, "S_KET"), isnone(t)), 0, 1))
    return at


def all_elements(i, p, n, et, ln, el):
    q = z3.Int("q_elem")
    return z3.ForAll([q], Implies(And(q >= 0, q < ln), And(
        z3.Select(el, q) == val(p, VP(p, n, q)), node(p, VP(p, n, q)) >= 0,
        i.prog.isinst(node(p, VP(p, n, q)), convertible(i.specs.A)))))


def array(k):
    A = k.A
    t = k.obj("typ", A.Array_Type)
    o, p, n, err0, mh = begin(k, t)
    et = k.o0("element_type", t.t)
    k.i.ghost["array"] = (p, n, et, err0, mh)
    k.i.assume(VP(p, n, z3.IntVal(0)) == n + 1)
    k.i.assume(VE(p, n, z3.IntVal(0)) == 0)
    lo, up = k.h0("lower_bound", t.t), k.h0("upper_bound", t.t)
    k.i.assume(And(V.is_VInt(lo), Or(isnone(up), And(
        V.is_VInt(up), V.vi(up) >= 0))))
    k.i.ghost["element_classes"] = (A.Expression,)
    k.i.ghost["on_list_read"] = lambda ip, ref, q: ip.assume(Implies(And(
        z3.Select(ip.hread("$elem", ref), q) == val(p, VP(p, n, q)),
        node(p, VP(p, n, q)) >= 0), T))
    mark = len(k.i.ghost.get("msgs", ()))
    out, rv = k.call(k.S.P.Parser, PV, [o, t])
    if out == "err":
        return
    r = ref_of(rv)
    lst = V.vo(k.h1("value", r))
    ln = k.h1("$len", lst)
    close = VP(p, n, ln)
    r = finish(k, o, t, out, rv, close + 1)
    k.prove("D04,I01", "value:an array of that type, whose elements are the "
            "values between the brackets, in order", And(
                k.i.prog.isinst(r, A.Array_Aggregate),
                k.h1("typ", r) == V.VObj(t.t), ln >= 0,
                is_kind(token(k.i, p, n), "S_BRA"),
                is_kind(token(k.i, p, close), "S_KET"),
                all_elements(k.i, p, n, et, ln, k.h1("$elem", lst))))
    errs = V.vi(k.h1("$reported", mh)) - err0 - VE(p, n, ln)
    low = ln < V.vi(lo)
    high = And(Not(isnone(up)), ln > V.vi(up))
    k.prove("D04", "value:an error is reported if and only if there are too "
            "few or too many elements", errs == If(low, 1, 0) + If(
                high, 1, 0))
    msgs = k.i.ghost.get("msgs", ())[mark:]
    locs = [to_v(k.prog, m[1]) for m in msgs]
    k.prove("D04,E02", "value:too few are reported at the closing bracket, "
            "too many at the first that is too many", And(
                z3.BoolVal(len(msgs) <= 2), *[Or(
                    And(low, loc == h0("location", V.vo(token(
                        k.i, p, close)))),
                    And(high, loc == h0("location", node(p, VP(
                        p, n, V.vi(up)))))) for loc in locs]))


# ------------------------------------------------------------- enumerations
def enumeration(k):
    A = k.A
    t = k.obj("typ", A.Enumeration_Type)
    o, p, n, err0, mh = begin(k, t)
    e = parsespec.qn_end(p, n + 1)
    ent = parsespec.QN(p, n + 1)
    word = token(k.i, p, e + 1)
    lit = FIND(k.o0("literals", t.t), SIMPLE(V.vs(value_of(word))))
    # every literal belongs to its enumeration (parse_enum_declaration)
    k.i.assume(Implies(k.isa(lit, A.Enumeration_Literal_Spec),
                       h0("n_typ", V.vo(lit)) == V.VObj(t.t)))
    out, rv = k.call(k.S.P.Parser, PV, [o, t])
    r = finish(k, o, t, out, rv, e + 2, props="D04,D01")
    if r is None:
        return
    k.prove("D04,D01", "value:the enumeration asked for is named",
            ent == V.VObj(t.t))
    k.prove("D01,I01", "value:its literal of that spelling", And(
        k.i.prog.isinst(r, A.Enumeration_Literal),
        k.h1("value", r) == lit, k.h1("typ", r) == V.VObj(t.t),
        h0("name", V.vo(lit)) == value_of(word)))
    quiet(k, mh, err0)


# --------------------------------------------------------------- references
def reference(clsname):
    def f(k):
        A = k.A
        t = k.obj("typ", getattr(A, clsname))
        o, p, n, err0, mh = begin(k, t)
        t0, t2 = token(k.i, p, n), token(k.i, p, n + 2)
        cu = k.o0("cu", p)
        dot = is_kind(token(k.i, p, n + 1), "DOT")
        named = FIND(k.o0("stab", p), SIMPLE(V.vs(value_of(t0))))
        pkg = If(dot, named, k.h0("package", cu))
        word = If(dot, t2, t0)
        early = FIND(V.vo(h0("symbols", V.vo(pkg))), SIMPLE(V.vs(value_of(
            word))))
        calls = []
        k.i.ghost["on_resolve"] = calls
        out, rv = k.call(k.S.P.Parser, PV, [o, t])
        r = finish(k, o, t, out, rv, If(dot, n + 3, n + 1),
                   props="D02")
        if r is None:
            return
        k.prove("D02", "value:a reference by that name, of the type asked "
                "for, in the package named or the own one", And(
                    k.i.prog.isinst(r, A.Record_Reference),
                    is_kind(word, "IDENTIFIER"),
                    k.h1("name", r) == value_of(word),
                    k.h1("package", r) == pkg, k.isa(pkg, A.Package),
                    k.h1("location", r) == h0("location", V.vo(word))))
        k.prove("D01,D02", "value:the package is spelled as declared and "
                "visible", Implies(dot, And(
                    h0("name", V.vo(pkg)) == value_of(t0),
                    visible(k.i, cu, pkg))))
        quiet(k, mh, err0)
    return f


# ------------------------------------------------------------------- tuples
def c_tuple(i, a, kw):
    """Tuple_Aggregate(location, typ): every field is null"""
    x = bind(["location", "typ"], a, kw)
    A = i.specs.A
    t = i.need_obj(x["typ"], "type")
    r = ObjV(i.new_ref(A.Tuple_Aggregate), A.Tuple_Aggregate)
    d = ObjV(i.new_ref(dict), dict)
    i.hwrite("location", r.t, to_v(i.prog, x["location"]))
    i.hwrite("typ", r.t, V.VObj(t.t))
    i.hwrite("value", r.t, V.VObj(d.t))
    i.hwrite("$has", d.t, i.fresh("has", ARR_VB))
    i.hwrite("$map", d.t, i.fresh("map", ARR_VV))
    has, mp = i.hread("$has", d.t), i.hread("$map", d.t)
    st = i.ghost.get("tuple")
    if st is None or not z3.eq(st.t, t.t):
        return r
    i.ghost["tuple_values"] = d.t
    i.ghost["empty_map"] = mp
    j = z3.Int("q_null")
    i.assume(z3.ForAll([j], Implies(And(j >= 0, j < st.m), And(
        z3.Select(has, st.name(j)), implicit_null(i, z3.Select(
            mp, st.name(j)))))))
    return r


def implicit_null(i, v):
    """made with the tuple, so no value that is written"""
    return And(V.is_VObj(v), i.prog.isinst(V.vo(v), i.specs.A.Implicit_Null),
               V.vo(v) < 0)


def c_tuple_assign(i, a, kw):
    """proved by Tuple_Aggregate.assign"""
    x = bind(["self", "field", "value"], a, kw)
    A = i.specs.A
    f = to_v(i.prog, x["field"])
    v = parsespec.need(i, x["value"], "a value")
    i.safety("a value is assigned", i.prog.isinst(v.t, (
        A.Literal, A.Tuple_Aggregate, A.Record_Reference,
        A.Unary_Expression)))
    d = V.vo(i.hread("value", x["self"].t))
    ty = V.vo(i.hread("typ", x["self"].t))
    st = i.ghost.get("tuple")
    if st is not None:
        i.assume(st.facts(i.ghost["field"]))
    i.safety("the tuple has that field", And(V.is_VStr(f), h0(
        "name", V.vo(FIND(V.vo(h0("components", ty)), SIMPLE(
            V.vs(f))))) == f, z3.Select(i.hread("$has", d), f)))
    i.hwrite("$map", d, z3.Store(i.hread("$map", d), f, V.VObj(v.t)))
    return NONE


class Fields:
    """the fields of a tuple type, in order"""

    def __init__(self, k, t, n):
        i = k.i
        A = k.A
        self.t, self.n, self.A = t.t, n, A
        self.p = i.ghost["parser"]
        self.st = k.o0("components", t.t)
        self.tab = V.vo(k.h0("table", self.st))
        self.m = k.h0("$len", self.tab)
        self.seps = k.o0("separators", t.t)
        self.count = k.h0("$len", self.seps)
        i.assume(self.m >= 1)
        i.assume(Or(self.count == 0, self.count == self.m - 1))
        self.isa, self.isi = k.isa, k.i.prog.isinst
        j = z3.Int("q_field")
        i.assume(z3.ForAll([j], Implies(And(j >= 0, j < self.m), And(
            V.is_VStr(self.name(j)), IX(self.t, self.name(j)) == j))))
        i.ghost["tuple"] = self

    def at(self, q):
        return z3.Select(h0("$map", self.tab), z3.Select(h0(
            "$elem", self.tab), q))

    def name(self, q):
        return h0("name", V.vo(self.at(q)))

    def facts(self, q):
        """a tuple type that has been declared"""
        c = V.vo(self.at(q))
        ty = h0("n_typ", c)
        return Implies(And(q >= 0, q < self.m), And(
            self.isa(self.at(q), self.A.Composite_Component), c >= 0,
            V.is_VStr(self.name(q)), IX(self.t, self.name(q)) == q,
            FIND(self.st, SIMPLE(V.vs(self.name(q)))) == self.at(q),
            self.isa(ty, self.A.Type), TD(V.vo(ty)) < TD(self.t),
            TD(V.vo(ty)) >= 0, V.vo(ty) >= 0,
            Not(self.isa(ty, (self.A.Array_Type))),
            V.is_VBool(h0("optional", c))))

    def half(self, i, j):
        """q and odd with j = 2 * q + odd"""
        j = z3.simplify(j)
        if z3.is_int_value(j):
            v = j.as_long()
            return z3.IntVal(v // 2), z3.BoolVal(v % 2 == 1)
        x = z3.simplify(j - 1)
        step = x.num_args() == 0 and not z3.is_int_value(x)
        x = x if step else j
        q, odd = HALF(x), ODD(x)
        i.assume(x == 2 * q + If(odd, 1, 0))
        return (If(odd, q + 1, q), Not(odd)) if step else (q, odd)

    def value(self, q):
        return val(self.p, TP(self.p, self.n, q))

    def end(self, q):
        return ENDP(PV, self.p, TP(self.p, self.n, q))

    def sep(self, i, q):
        """the q-th separator"""
        s = z3.Select(h0("$elem", self.seps), q)
        tk = h0("token", V.vo(s))
        i.assume(Implies(And(q >= 0, q < self.count), And(
            self.isa(s, self.A.Separator), V.vo(s) >= 0,
            V.is_VObj(tk), V.vo(tk) >= 0, i.prog.isinst(
                V.vo(tk), i.specs.L.Token), is_kind(
                    tk, "AT", "COLON", "SEMICOLON", "IDENTIFIER"),
            Implies(is_kind(tk, "IDENTIFIER"), V.is_VStr(value_of(tk))))))
        return s

    def matched(self, q, i=None):
        """that separator stands behind the q-th field"""
        s = self.sep(i, q) if i else z3.Select(h0("$elem", self.seps), q)
        tk = h0("token", V.vo(s))
        t = token(i, self.p, self.end(q)) if i else TOKAT(
            self.p, self.end(q))
        return And(Not(isnone(t)), kind_of(t) == kind_of(tk), Implies(
            is_kind(tk, "IDENTIFIER"), value_of(t) == value_of(tk)))

    def unfold(self, i, q):
        """TP at the next field"""
        i.assume(TP(self.p, self.n, q + 1) == If(
            self.matched(q, i), self.end(q) + 1, self.end(q))
            if self.separated else TP(self.p, self.n, q + 1) ==
            self.end(q) + 1)
        i.assume(Implies(And(q >= 0, q < self.m), self.facts(q)))

    def given(self, i, c, mp):
        """the first c fields have the values that are written, the others
        are null"""
        q = z3.Int("q_given")
        v = z3.Select(mp, self.name(q))
        return z3.ForAll([q], Implies(And(q >= 0, q < self.m), If(
            q < c, v == self.value(q), implicit_null(i, v))))

    def all_matched(self, c):
        q = z3.Int("q_sep")
        return z3.ForAll([q], Implies(And(q >= 0, q < c), self.matched(q)))

    def all_commas(self, c):
        q = z3.Int("q_sep")
        return z3.ForAll([q], Implies(And(q >= 0, q < c), is_kind(
            TOKAT(self.p, self.end(q)), "COMMA")))


def c_sequence(i, a, kw):
    """the components of the type, and the separators between them"""
    st = i.ghost.get("tuple")
    if st is None or not z3.eq(st.t, i.need_obj(a[0], "type").t):
        raise Unsupported("iter_sequence")
    A = i.specs.A

    def comp(q):
        i.assume(st.facts(q))
        i.ghost["field"] = q
        i.mark_old(V.vo(st.at(q)))
        return ObjV(V.vo(st.at(q)), A.Composite_Component)
    if not st.separated:
        return IterV(st.m, comp, "fields")

    def item(j):
        q, odd = st.half(i, j)
        if i.branch(Not(odd)):
            return comp(q)
        s = st.sep(i, q)
        i.mark_old(V.vo(s))
        return ObjV(V.vo(s), A.Separator)
    return IterV(2 * st.m - 1, item, "sequence")


def inv_tuple(i, node_, it, env_mods, entry_env):
    st = i.ghost.get("tuple")
    if st is None or it is None:
        return []
    p, n = st.p, st.n
    vals = lambda ip: ip.hread("$map", ip.ghost["tuple_values"])
    out = []
    if not st.separated:
        def where(ip, q):
            st.unfold(ip, q - 1)
            return And(pos(ip, p) == If(q == 0, n + 1, st.end(q - 1)),
                       TP(p, n, q) > n, Not(isnone(token(
                           ip, p, pos(ip, p) - 1))))
        out += [("position", where),
                ("fields", lambda ip, q: st.given(ip, q, vals(ip))),
                ("commas", lambda ip, q: st.all_commas(q - 1))]
        for name, v in sorted(entry_env.items()):
            if isinstance(v, Conc) and v.v is True:
                out.append(("first-" + name, lambda ip, q, name=name:
                            truth_of(ip, name) == (q == 0)))
        return out
    for name, v in sorted(entry_env.items()):
        if not (isinstance(v, Conc) and v.v is False):
            continue

        def position(ip, j):
            q, odd = st.half(ip, j)
            st.unfold(ip, q - 1)
            st.unfold(ip, q)
            return And(q >= 0, pos(ip, p) == If(odd, st.end(q), TP(p, n, q)),
                       TP(p, n, q) >= n, Implies(q >= 1, TP(p, n, q) > n),
                       Implies(odd, st.end(q) > TP(p, n, q)),
                       Not(isnone(token(ip, p, pos(ip, p) - 1))))

        def missing(ip, j, name=name):
            q, odd = st.half(ip, j)
            return truth_of(ip, name) == And(
                Not(odd), q >= 1, Not(st.matched(q - 1, ip)))

        def matched(ip, j, name=name):
            q, odd = st.half(ip, j)
            return st.all_matched(If(truth_of(ip, name), q - 1, q))

        def given(ip, j):
            q, odd = st.half(ip, j)
            return st.given(ip, If(odd, q + 1, q), vals(ip))
        out += [("position", position), ("missing-" + name, missing),
                ("matched-" + name, matched), ("fields", given)]
        for other, w in sorted(entry_env.items()):
            if isinstance(w, Conc) and w.v is None:
                def separator(ip, j, other=other):
                    x = ip.stack[-1].env.get(other)
                    if x is None:
                        return None
                    q, odd = st.half(ip, j)
                    return Implies(j >= 2, to_v(ip.prog, x) == z3.Select(
                        h0("$elem", st.seps), q - 1))
                out.append(("separator-" + other, separator))
    return out


def truth_of(ip, name):
    x = ip.stack[-1].env[name]
    return V.vb(to_v(ip.prog, x))


def tuple_generic(k):
    A = k.A
    t = k.obj("typ", A.Tuple_Type)
    o, p, n, err0, mh = begin(k, t)
    st = Fields(k, t, n)
    st.separated = False
    k.i.assume(st.count == 0)
    k.i.assume(TP(p, n, z3.IntVal(0)) == n + 1)
    out, rv = k.call(k.S.P.Parser, PV, [o, t])
    if out == "err":
        return
    d = V.vo(k.h1("value", ref_of(rv)))
    close = st.end(st.m - 1)
    r = finish(k, o, t, out, rv, close + 1)
    k.prove("D04,I01", "value:a value for every field, in order, separated "
            "by commas between brackets", And(
                k.i.prog.isinst(r, A.Tuple_Aggregate),
                k.h1("typ", r) == V.VObj(t.t),
                is_kind(token(k.i, p, n), "BRA"),
                is_kind(token(k.i, p, close), "KET"),
                st.given(k.i, st.m, k.h1("$map", d)),
                st.all_commas(st.m - 1)))


def tuple_separated(k):
    A = k.A
    t = k.obj("typ", A.Tuple_Type)
    o, p, n, err0, mh = begin(k, t)
    st = Fields(k, t, n)
    st.separated = True
    k.i.assume(st.count >= 1)
    k.i.assume(TP(p, n, z3.IntVal(0)) == n)
    out, rv = k.call(k.S.P.Parser, PV, [o, t])
    if out == "err":
        return
    d = V.vo(k.h1("value", ref_of(rv)))
    mp = k.h1("$map", d)
    # the number of values that are written: up to the first separator that
    # is missing
    c = z3.Int("written")
    stop = And(c >= 1, c <= st.m, st.all_matched(c - 1),
               Or(c == st.m, Not(st.matched(c - 1))))
    k.i.assume(stop)
    st.unfold(k.i, c - 1)
    k.i.assume(st.facts(c))
    r = ref_of(rv)
    finish(k, o, t, out, rv, st.end(c - 1))
    k.prove("D04,I01", "value:the fields up to the first separator that is "
            "missing have the values written, the others are null", And(
                k.i.prog.isinst(r, A.Tuple_Aggregate),
                k.h1("typ", r) == V.VObj(t.t), st.given(k.i, c, mp)))
    k.prove("D04", "value:only an optional field is left out", Or(
        c == st.m, V.vb(h0("optional", V.vo(st.at(c))))))


def setup(S):
    parsespec.setup()(S)
    A = S.A
    S._mine = {}
    err = [k for k in S.contracts if k[1] == "Message_Handler.error"]
    S._mine["error"] = S.contracts[err[0]]
    S.contracts[err[0]] = Contract(
        S._mine["error"].name, counted_error(S._mine["error"].fn),
        S._mine["error"].status)
    S._mine["key"] = err[0]
    S._mine["ctors"] = {c: S.ctors.get(c) for c in (
        A.Tuple_Aggregate, S.P.Markup_Parser, A.Enumeration_Literal)}
    S.ctors[A.Tuple_Aggregate] = Contract("Tuple_Aggregate", c_tuple)
    S.ctors[S.P.Markup_Parser] = Contract("Markup_Parser", c_markup)
    S.ctors.pop(A.Enumeration_Literal, None)


def teardown(S):
    S.contracts[S._mine["key"]] = S._mine["error"]
    for c, v in S._mine["ctors"].items():
        if v is None:
            S.ctors.pop(c, None)
        else:
            S.ctors[c] = v
    parsespec.teardown(S)


def declare(S):
    A, P_ = S.A, S.P
    S.contract(P_.Parser, PV, c_value)
    S.contract(P_.Markup_Parser, "parse_all_references", c_references)
    S.contract(A.Tuple_Aggregate, "assign", c_tuple_assign)
    S.contract(A.Tuple_Type, "iter_sequence", c_sequence)
    S.invariants.append(inv_array)
    S.invariants.append(inv_tuple)


def targets(S):
    def tg(case, f, props):
        return target("Parser.parse_value[%s]" % case,
                      "trlc.parser.Parser.parse_value", props + ",J01", f,
                      [("trlc.parser", "Parser.parse_value")], setup,
                      teardown)
    num = "I01,C02,D04,B01"
    return [tg("Integer, sign", number("Integer", True), num),
            tg("Integer", number("Integer", False), num),
            tg("Decimal, sign", number("Decimal", True), num),
            tg("Decimal", number("Decimal", False), num),
            tg("String", simple("String"), "I01,C03,D04,B01"),
            tg("Markup_String", simple("Markup_String"),
               "I01,C03,D04,H01,B01"),
            tg("Boolean", simple("Boolean"), "I01,C03,D04,B01"),
            tg("tuple", tuple_generic, "D04,I01"),
            tg("tuple, separators", tuple_separated, "D04,I01"),
            tg("array", array, "D04,I01,E02"),
            tg("enumeration", enumeration, "D04,D01,I01"),
            tg("record", reference("Record_Type"), "D02,D01,D04"),
            tg("union", reference("Union_Type"), "D02,D01,D04")]
