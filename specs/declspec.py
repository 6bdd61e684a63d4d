"""Declarations (E01, D01, D03, D04, I01): check blocks, enumerations, tuples,
records, unions and sections.  What is declared in a loop is counted by ghost
fields of the parser; the q-th declared thing is described by the tokens at
the position where the q-th phrase starts."""
import z3

from pyvc.core import (CLS, V, AnyV, BoolV, Conc, IntV, IterV, NONE, ObjV, PyRaise,
                       StrV, to_v)
from . import parsespec, valuespec
from .base import Contract
from .dataspec import FRZ, bind, h0
from .evalspec import isnone
from .kit import And, B, F, I, If, Implies, Not, Or, T, target
from .parsespec import (DEPTH, ENDP, NODE, PUSH, is_kind, is_kw, pos, ref_of,
                        scope_state, setpos, token, value_of, vs)
from .symspec import FIND, SIMPLE

# start of the q-th phrase of the declaration that starts at a position
AT = z3.Function("phrase_at", I, I, I, I)
EMPTY = z3.Function("empty_scope", I)
# what the lookup of the name before a position finds in a table
FOUND = z3.Function("found_in_table", I, I, I)
E_ = "parse_expression"


def count(i, name="$regs"):
    return V.vi(i.hread(name, i.ghost["parser"]))


def counted(i, name="$regs"):
    i.hwrite(name, i.ghost["parser"], V.VInt(z3.simplify(
        count(i, name) + 1)))


def loc(t):
    return h0("location", V.vo(t))


def begin(k):
    o, n = parsespec.parser(k)
    p = o.t
    k.i.ghost.update(parser=p, plain_branch=True, kit=k, n0=n)
    for f in ("$regs", "$regs2"):
        k.i.hwrite(f, p, V.VInt(z3.IntVal(0)))
    mh = k.o0("mh", p)
    k.i.ghost["mh"] = mh
    k.i.hwrite("$reported", mh, V.VInt(z3.IntVal(0)))
    ds = k.o0("default_scope", p)
    st = k.h0("$scope", ds)
    k.i.assume(And(V.is_VInt(st), DEPTH(V.vi(st)) >= 1))
    cu = k.o0("cu", p)
    imp, pkg = k.h0("imports", cu), k.h0("package", cu)
    k.i.assume(And(k.isa(imp, set), k.isa(pkg, k.A.Package)))
    return o, p, n, V.vo(pkg)


def lookup_of(allowed):
    """Symbol_Table.lookup, proved by its own target: the entity of that
    spelling and class, or an error"""
    def f(i, a, kw):
        x = bind(["self", "mh", "referencing_token", "required_subclass"],
                 a, kw)
        tok = i.need_obj(x["referencing_token"], "token")
        req = x.get("required_subclass", NONE)
        cls = req.v if isinstance(req, Conc) and req.v else \
            i.specs.A.Entity
        i.safety("a name is looked up", is_kind(V.VObj(tok.t),
                                                "IDENTIFIER"))
        if i.choose(2) == 0:
            raise PyRaise(i.specs.E.TRLC_Error)
        return allowed(i, x["self"].t, tok.t, cls)
    return f


def found(i, st, tok, cls):
    r = FIND(st, SIMPLE(V.vs(value_of(V.VObj(tok)))))
    i.assume(And(V.is_VObj(r), V.vo(r) >= 0, i.prog.isinst(V.vo(r), cls),
                 h0("name", V.vo(r)) == value_of(V.VObj(tok))))
    i.mark_old(V.vo(r))
    return ObjV(V.vo(r), cls)


def c_scope(i, a, kw):
    r = ObjV(i.new_ref(i.specs.A.Scope), i.specs.A.Scope)
    i.hwrite("$scope", r.t, V.VInt(EMPTY()))
    i.assume(DEPTH(EMPTY()) == 0)
    return r


def c_size(i, a, kw):
    return IntV(DEPTH(scope_state(i, a[0].t)))


def failed(k, p, n, *words):
    """recovery after errors (Parser.parse_rsl_file, parse_trlc_file) goes
    on only if the first token is consumed"""
    t = token(k.i, p, n)
    k.prove("J01", "error:only after the first token, if that can start it",
            Implies(Or(*[is_kw(t, w) for w in words]) if words else is_kind(
                t, "IDENTIFIER"), pos(k.i, p) > n))


# ------------------------------------------------------------- check blocks
class Stmt:
    """the check that starts at n"""

    def __init__(self, i, p, n):
        e = self.e = ENDP(E_, p, n)
        tk = lambda m: token(i, p, m)
        self.expr = NODE(z3.StringVal(E_), p, n)
        self.kw = is_kind(tk(e + 1), "KEYWORD")
        self.sev = value_of(tk(e + 1))
        m = self.m = If(self.kw, e + 2, e + 1)
        self.msg = tk(m)
        more = self.more = is_kind(tk(m + 1), "COMMA")
        self.anchor = And(more, is_kind(tk(m + 2), "IDENTIFIER"))
        self.extra = And(more, is_kind(tk(m + 2), "STRING"))
        self.anchor2 = And(self.extra, is_kind(tk(m + 3), "COMMA"))
        self.info = value_of(tk(m + 2))
        self.tok = If(self.anchor, tk(m + 2), tk(m + 4))
        self.end = If(self.anchor, m + 3, If(self.anchor2, m + 5, If(
            self.extra, m + 3, m + 1)))


def at(i, p, n0, q, end):
    """start of the q-th phrase, unfolded once"""
    x = AT(p, n0, q)
    i.assume(AT(p, n0, q + 1) == end(i, p, x))
    return x


def stmt_end(i, p, n):
    return Stmt(i, p, n).end


def written_check(i, o):
    """the check is the one written at the next position"""
    A = i.specs.A
    p, b = i.ghost["parser"], i.ghost["body"]
    st = Stmt(i, p, AT(p, b, count(i)))
    f = lambda name: i.hread(name, o.t)
    ct = i.ghost["ctype"]
    an = f("n_anchor")
    found_ = FIND(V.vo(h0("components", ct)), SIMPLE(V.vs(value_of(
        st.tok))))
    i.prove("check:of the type that is named", f("n_type") == V.VObj(ct),
            "E01")
    i.prove("check:with the expression that is written",
            f("n_expr") == V.VObj(st.expr), "E01")
    i.prove("check:that is Boolean", i.prog.isinst(V.vo(h0(
        "typ", st.expr)), A.Builtin_Boolean), "E01,B01")
    i.prove("check:with its severity, which is error if none is written",
            If(st.kw, And(f("severity") == st.sev, Or(
                *[st.sev == vs(w) for w in ("warning", "error", "fatal")])),
               f("severity") == vs("error")), "E01")
    i.prove("check:with its message", And(
        is_kind(st.msg, "STRING"), f("location") == loc(st.msg)), "E01")
    i.prove("check:with its details", f("extrainfo") == If(
        st.extra, st.info, V.VNone), "E01")
    i.prove("check:with its anchor", If(
        Or(st.anchor, st.anchor2), And(
            an == found_, i.prog.isinst(V.vo(an), A.Composite_Component),
            h0("name", V.vo(an)) == value_of(st.tok)), isnone(an)),
        "E01,D01")


def c_add_check(i, a, kw):
    """proved by Composite_Type.add_check"""
    x = bind(["self", "n_check"], a, kw)
    c = i.need_obj(x["n_check"], "a check")
    i.safety("a check is added", i.prog.isinst(c.t, i.specs.A.Check))
    i.prove("check:added to the type that is named",
            x["self"].t == i.ghost["ctype"], "E01")
    written_check(i, c)
    counted(i)
    return NONE


def c_block_check(i, a, kw):
    x = bind(["self", "n_check"], a, kw)
    c = i.need_obj(x["n_check"], "a check")
    i.safety("a check is added", i.prog.isinst(c.t, i.specs.A.Check))
    counted(i, "$regs2")
    return NONE


def c_expression(i, a, kw):
    sc = bind(["self", "scope"], a, kw)["scope"]
    A = i.specs.A
    i.safety("an expression is parsed in a scope", i.prog.isinst(
        i.need_obj(sc, "a scope").t, A.Scope))
    p = i.ghost["parser"]
    tables = [V.vo(i.hread("stab", p)), V.vo(h0("symbols", i.ghost["pkg"])),
              V.vo(h0("components", i.ghost["ctype"]))]
    want = EMPTY()
    for t in tables:
        want = PUSH(want, t)
    i.prove("check:its names are those of builtins, package and type",
            scope_state(i, sc.t) == want, "D01,E01")
    i.prove("check:a check starts here", pos(i, p) == AT(
        p, i.ghost["body"], count(i)), "E01,B02")
    return parsespec.nonterminal(E_)(i, a, kw)


def phrases(i, p, b, end):
    """the phrases start at b"""
    i.ghost["phrase end"] = end
    i.ghost["body"] = b
    i.assume(AT(p, b, z3.IntVal(0)) == b)


def inv_phrases(i, node, it, env_mods, entry_env):
    """a phrase starts at the current position; it is the next one"""
    end = i.ghost.get("phrase end")
    if end is None or it is not None:
        return []
    p = i.ghost["parser"]
    b = i.ghost["body"]

    where = i.ghost.get("phrase here", lambda ip, c: And(
        c >= 0, pos(ip, p) == AT(p, b, c)))

    def here(ip, idx):
        c = count(ip)
        n = pos(ip, p)
        at(ip, p, b, c, end)
        return And(where(ip, c), n >= b, Not(isnone(token(ip, p, n - 1))))
    return i.ghost.get("more invariants", lambda *_: [])(
        env_mods, entry_env) + [("phrases", here),
            ("both-counts", lambda ip, idx: count(ip) == count(
                ip, "$regs2"))] + [
        ("empty-%s" % v, lambda ip, idx, v=v: (ip.stack[-1].env[v].t if not
         isinstance(ip.stack[-1].env[v], Conc) else z3.BoolVal(
             ip.stack[-1].env[v].v)) == (count(ip) == 0))
        for v, x in sorted(entry_env.items()) if isinstance(
            x, BoolV) or (isinstance(x, Conc) and isinstance(x.v, bool))]


def check_block(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    i.ghost["pkg"] = pkg
    phrases(i, p, n + 3, stmt_end)
    ct = FIND(V.vo(h0("symbols", pkg)), SIMPLE(V.vs(value_of(token(
        i, p, n + 1)))))
    i.ghost["ctype"] = V.vo(ct)
    out, rv = k.call(k.S.P.Parser, "parse_check_block", [o])
    msgs = i.ghost.get("msgs", ())
    if msgs:
        st = Stmt(i, p, AT(p, i.ghost["body"], count(i)))
        ty = h0("typ", st.expr)
        fatal = Or(
            Not(And(V.is_VObj(ty), i.prog.isinst(V.vo(
                ty), A.Builtin_Boolean))),
            And(st.kw, Not(Or(*[st.sev == vs(w) for w in (
                "warning", "error", "fatal")]))),
            And(st.more, Not(st.anchor), Not(st.extra)))
        nl = z3.Contains(V.vs(value_of(st.msg)), z3.StringVal("\n"))
        k.prove("E01,J01", "error:only if the expression is not Boolean, "
                "there is no such severity, the message has several lines, "
                "or neither details nor anchor follow", Or(fatal, nl))
    if out == "err":
        failed(k, p, n, "checks")
        return
    r = ref_of(rv)
    k.prove("E01", "value:all checks that are written have been added",
            And(is_kw(token(i, p, n), "checks"),
                is_kind(token(i, p, n + 1), "IDENTIFIER"),
                is_kind(token(i, p, n + 2), "C_BRA"),
                is_kind(token(i, p, pos(i, p) - 1), "C_KET"),
                pos(i, p) - 1 == AT(p, n + 3, count(i)),
                count(i) == count(i, "$regs2")))
    k.prove("E01", "value:a block of the type", And(
        i.prog.isinst(r, A.Check_Block), k.h1("n_typ", r) == ct))
    k.frame("E01", lambda f, x: f in ("ast_link",) or f[0] == "$")


# ------------------------------------------------------------ enumerations
def described(i, p, n):
    """end of the described name at n, and its description"""
    d = is_kind(token(i, p, n + 1), "STRING")
    return If(d, n + 2, n + 1), If(d, value_of(token(i, p, n + 1)), V.VNone)


def name_end(i, p, n):
    return described(i, p, n)[0]


def names(i, f, p, n, props):
    """what is declared has name, place and description written at n"""
    t = token(i, p, n)
    i.prove("declared:with the name written", And(
        is_kind(t, "IDENTIFIER"), f("name") == value_of(t)), props + ",D01")
    i.prove("declared:where it is written", f("location") == loc(t),
            props + ",C01")
    if f("description") is not None:
        i.prove("declared:with its description",
                f("description") == described(i, p, n)[1], props)


def c_register(i, a, kw):
    """proved by Symbol_Table.register: registered, or an error"""
    x = bind(["self", "mh", "entity"], a, kw)
    st, e = x["self"].t, i.need_obj(x["entity"], "entity")
    i.safety("an entity is registered", i.prog.isinst(
        e.t, i.specs.A.Entity))
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    i.ghost["on_register"](i, st, e.t)
    return NONE


def enum(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    b = name_end(i, p, n + 1) + 1
    phrases(i, p, b, name_end)
    P_ = "D01"

    def seen(i, st, r):
        f = lambda name: i.hread(name, r)
        if i.branch(i.prog.isinst(r, A.Enumeration_Type)):
            names(i, f, p, n + 1, P_)
            i.prove("declared:a type in the package of the file", And(
                st == V.vo(h0("symbols", pkg)),
                f("n_package") == V.VObj(pkg), count(i, "$regs2") == 0), P_)
            i.ghost["enum"] = r
            counted(i, "$regs2")
            return
        names(i, f, p, AT(p, b, count(i)), P_)
        en = i.ghost.get("enum", z3.IntVal(0))
        i.prove("declared:a literal of the enumeration", And(
            i.prog.isinst(r, A.Enumeration_Literal_Spec),
            st == V.vo(i.hread("literals", en)), f("n_typ") == V.VObj(en)),
            P_)
        counted(i)
    i.ghost["on_register"] = seen
    out, rv = k.call(k.S.P.Parser, "parse_enum_declaration", [o])
    if i.ghost.get("msgs", ()):
        k.prove("D01,J01", "error:only for an empty enumeration", And(
            count(i) == 0, is_kind(token(i, p, b), "C_KET")))
    if out == "err":
        failed(k, p, n, "enum")
        return
    k.prove(P_, "value:the type and every literal are declared once", And(
        is_kw(token(i, p, n), "enum"), is_kind(token(i, p, b - 1), "C_BRA"),
        is_kind(token(i, p, pos(i, p) - 1), "C_KET"),
        pos(i, p) - 1 == AT(p, b, count(i)), count(i) > 0,
        count(i, "$regs2") == 1, ref_of(rv) == i.ghost.get(
            "enum", z3.IntVal(0))))
    k.frame(P_, lambda f, x: f in ("ast_link",) or f[0] == "$")


# ---------------------------------------------------------------- sections
def same_list(i, lst, ln, el, props, what):
    q = z3.Int("q_open")
    i.prove(what, And(i.hread("$len", lst) == ln, z3.ForAll([q], Implies(
        And(q >= 0, q < ln), z3.Select(i.hread("$elem", lst), q) ==
        z3.Select(el, q)))), props)


def c_entry(i, a, kw):
    """proved by Parser.parse_trlc_entry: the open sections stay"""
    p = a[0].t
    i.ghost["on_entry"](i)
    n = pos(i, p)
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    e = END_ENTRY(p, n)
    i.assume(e > n)
    i.assume(Not(isnone(token(i, p, e - 1))))
    setpos(i, p, e)
    return NONE


END_ENTRY = z3.Function("end_of_entry", I, I, I)


def entry_end(i, p, n):
    return END_ENTRY(p, n)


def section(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    lst = k.o0("section", p)
    ln, el = k.h0("$len", lst), k.h0("$elem", lst)
    k.all_elems(lst, lambda q: And(V.is_VObj(k.elem0(lst, q)), V.vo(
        k.elem0(lst, q)) >= 0, k.isa(k.elem0(lst, q), A.Section)))
    phrases(i, p, n + 3, entry_end)
    P_ = "I01"

    def inner(i):
        cur = V.vo(i.hread("section", p))
        i.prove("section:it is open while its entries are read",
                And(cur == lst, i.hread("$len", lst) == ln + 1), P_)
        sec = z3.Select(i.hread("$elem", lst), ln)
        q = z3.Int("q_open")
        i.prove("section:the others stay open", z3.ForAll([q], Implies(
            And(q >= 0, q < ln), z3.Select(i.hread("$elem", lst), q) ==
            z3.Select(el, q))), P_)
        t = token(i, p, n + 1)
        f = lambda name: i.hread(name, V.vo(sec))
        i.prove("section:with the name and place that are written", And(
            i.prog.isinst(V.vo(sec), A.Section), is_kind(t, "STRING"),
            f("name") == value_of(t), f("location") == loc(t)),
            P_ + ",C01")
        i.prove("section:inside the innermost one that was open",
                f("parent") == If(ln > 0, z3.Select(el, ln - 1), V.VNone),
                P_)
        i.prove("section:an entry starts here", pos(i, p) == AT(
            p, n + 3, count(i)), "I01,B02")
        counted(i)
    i.ghost["on_entry"] = inner
    out, rv = k.call(k.S.P.Parser, "parse_section_declaration", [o])
    k.prove("I01,J01", "error:none is reported here",
            z3.BoolVal(not i.ghost.get("msgs", ())))
    if out == "err":
        failed(k, p, n, "section")
        return
    same_list(i, V.vo(i.hread("section", p)), ln, el, P_,
              "value:it is closed at its end, all others stay open")
    k.prove(P_, "value:all entries are read", And(
        is_kw(token(i, p, n), "section"),
        is_kind(token(i, p, n + 2), "C_BRA"),
        is_kind(token(i, p, pos(i, p) - 1), "C_KET"),
        pos(i, p) - 1 == AT(p, n + 3, count(i))))
    k.frame(P_, lambda f, x: f in ("ast_link",) or (
        f[0] == "$" and f not in ("$has", "$map", "$len", "$elem")) or (
            z3.eq(z3.simplify(x), z3.simplify(lst))))


def c_record_object(i, a, kw):
    """proved by Parser.parse_record_object_declaration"""
    r = parsespec.nonterminal("record object", i.specs.A.Record_Object)(
        i, a, kw)
    return r


def c_section(i, a, kw):
    p = a[0].t
    n = pos(i, p)
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    e = END_ENTRY(p, n)
    i.assume(e > n)
    i.assume(Not(isnone(token(i, p, e - 1))))
    setpos(i, p, e)
    i.ghost["section read"] = True
    return NONE


def entry(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    items = []

    def add(i, a, kw):
        x = bind(["self", "node"], a, kw)
        items.append((x["self"].t, ref_of(x["node"])))
        return NONE
    k.S.contract(A.Compilation_Unit, "add_item", add)
    i.ghost["level"] = None
    out, rv = k.call(k.S.P.Parser, "parse_trlc_entry", [o])
    k.prove("I01,J01", "error:none is reported here",
            z3.BoolVal(not i.ghost.get("msgs", ())))
    if out == "err":
        return
    sec = is_kw(token(i, p, n), "section")
    k.prove("I01,D03", "value:a section, or a record object, which becomes "
            "an item of the file", If(
                sec, And(z3.BoolVal(not items), z3.BoolVal(i.ghost.get(
                    "section read", False))),
                And(z3.BoolVal(len(items) == 1), *[
                    And(c == k.o0("cu", p), r == NODE(z3.StringVal(
                        "record object"), p, n)) for c, r in items])))
    k.frame("I01", lambda f, x: f[0] == "$")


# -------------------------------------------------------------- components
UT = "parse_union_type"
FIELD = "parse_tuple_field"
COMP = "parse_record_component"


class Head:
    """name, optional and type of the component at n"""

    def __init__(self, i, p, n, required=None):
        self.n = n
        d, self.descr = described(i, p, n)
        self.d = d
        self.opt = is_kw(token(i, p, d), "optional")
        t = self.t = If(self.opt, d + 1, d)
        self.union = is_kind(token(i, p, t), "S_BRA")
        self.typ = If(self.union, V.VObj(NODE(z3.StringVal(UT), p, t)),
                      parsespec.QN(p, t + 1))
        self.end = If(self.union, ENDP(UT, p, t), parsespec.qn_end(p, t + 1))


def c_union(i, a, kw):
    return parsespec.nonterminal(UT, i.specs.A.Union_Type)(i, a, kw)


def component(k, h, r, member, props):
    i = k.i
    p = i.ghost["parser"]
    f = lambda name: k.h1(name, r)
    i.prove("value:a component", i.prog.isinst(
        r, k.A.Composite_Component), props)
    names(i, f, p, h.n, props)
    i.prove("value:of that type", f("member_of") == V.VObj(member), props)
    i.prove("value:optional if and only if that is written",
            f("optional") == V.VBool(h.opt), props)


def record_component(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    rec = k.obj("record", A.Record_Type)
    out, rv = k.call(k.S.P.Parser, "parse_record_component", [o, rec])
    h = Head(i, p, n)
    a = h.end
    tk = lambda m: token(i, p, m)
    star = is_kind(tk(a + 3), "OPERATOR"), value_of(tk(a + 3)) == vs("*")
    num = is_kind(tk(a + 3), "INTEGER")
    P_ = "D03,D04"
    if i.ghost.get("msgs", ()):
        k.prove("D04,J01", "error:only for an upper bound that is neither a "
                "number nor *", And(is_kind(tk(a), "S_BRA"), Not(num), Not(
                    And(*star))))
    if out == "err":
        return
    r = ref_of(rv)
    component(k, h, r, rec.t, P_)
    arr = is_kind(tk(a), "S_BRA")
    ty = k.h1("n_typ", r)
    t = V.vo(ty)
    k.prove(P_, "value:of the type that is named", Implies(
        Not(arr), And(ty == h.typ, pos(i, p) == a)))
    k.prove("D04", "value:an array of the type that is named", Implies(
        arr, And(i.prog.isinst(t, A.Array_Type),
                 k.h1("element_type", t) == h.typ, pos(i, p) == a + 5)))
    k.prove("D04", "value:with the bounds that are written", Implies(
        arr, And(is_kind(tk(a + 1), "INTEGER"), is_kind(tk(a + 2), "RANGE"),
                 is_kind(tk(a + 4), "S_KET"), Or(num, And(*star)),
                 k.h1("lower_bound", t) == value_of(tk(a + 1)),
                 k.h1("upper_bound", t) == If(num, value_of(
                     tk(a + 3)), V.VNone))))
    k.frame(P_, lambda f, x: f in ("ast_link",) or f[0] == "$")


def tuple_field(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    tup = k.obj("tuple", A.Tuple_Type)
    al, rq = k.arg("allowed", "bool"), k.arg("required", "bool")
    why = k.arg("reason", "str")
    i.assume(Implies(k.bool_of(rq), k.bool_of(al)))
    out, rv = k.call(k.S.P.Parser, "parse_tuple_field", [o, tup, al, why,
                                                        rq])
    h = Head(i, p, n)
    P_ = "D04"
    if i.ghost.get("msgs", ()):
        k.prove("D04,J01", "error:only for optional where it is not allowed",
                And(h.opt, Not(k.bool_of(al))))
    if out == "err":
        return
    r = ref_of(rv)
    component(k, h, r, tup.t, P_)
    k.prove(P_, "value:of the type that is named", And(
        k.h1("n_typ", r) == h.typ, pos(i, p) == h.end))
    k.prove(P_, "value:optional only where allowed, and where required",
            And(Implies(h.opt, k.bool_of(al)), Implies(
                k.bool_of(rq), h.opt)))
    k.frame(P_, lambda f, x: f in ("ast_link",) or f[0] == "$")


# ------------------------------------------------------------------ tuples
# some field before the q-th one is optional
OPTS = z3.Function("optional_before", I, I, I, B)
# order in which a table gives its entities
PERM = z3.Function("place_in_order", I, I)
INVP = z3.Function("place_in_declaration", I, I)


def field(p, n):
    return NODE(z3.StringVal(FIELD), p, n)


def bool_term(x):
    if isinstance(x, Conc):
        return z3.BoolVal(bool(x.v))
    return x.t if isinstance(x, BoolV) else V.vb(x.t)


def c_field(i, a, kw):
    """proved by Parser.parse_tuple_field"""
    x = bind(["self", "n_tuple", "optional_allowed", "optional_reason",
              "optional_required"], a, kw)
    A = i.specs.A
    p, b = i.ghost["parser"], i.ghost["body"]
    tup = i.need_obj(x["n_tuple"], "a tuple")
    i.safety("a field of a tuple", i.prog.isinst(tup.t, A.Tuple_Type))
    q = count(i)
    n = pos(i, p)
    was = i.ghost.setdefault("tuple decl", tup.t)
    al, rq = bool_term(x["optional_allowed"]), bool_term(
        x["optional_required"])
    i.safety("a required optional field is allowed", Implies(rq, al))
    i.prove("field:of the tuple that is declared", tup.t == was, "D04")
    i.prove("field:the next one starts here", Or(n == AT(p, b, q), Not(
        is_kind(token(i, p, n), "IDENTIFIER"))), "D04,B02")
    i.prove("field:optional is allowed with separators, but not first",
            al == And(q > 0, i.ghost["separated"]), "D04")
    i.prove("field:optional is required after an optional one",
            rq == OPTS(p, b, q), "D04")
    r = parsespec.nonterminal(FIELD, A.Composite_Component)(i, a, kw)
    opt = h0("optional", r.t)
    i.assume(And(is_kind(token(i, p, n), "IDENTIFIER"),
                 r.t == field(p, n), V.is_VBool(opt), V.is_VStr(h0(
        "name", r.t)), Implies(V.vb(opt), al), Implies(rq, V.vb(opt))))
    ty = h0("n_typ", r.t)
    i.assume(And(V.is_VObj(ty), V.vo(ty) >= 0, i.prog.isinst(
        V.vo(ty), A.Type)))
    i.assume(OPTS(p, b, q + 1) == Or(OPTS(p, b, q), V.vb(opt)))
    return r


def c_separator(i, a, kw):
    """Tuple_Type.add_separator: appends, if all fields so far but the last
    are followed by a separator"""
    x = bind(["self", "n_separator"], a, kw)
    sep = i.need_obj(x["n_separator"], "a separator")
    i.safety("a separator is added", i.prog.isinst(
        sep.t, i.specs.A.Separator))
    p, b = i.ghost["parser"], i.ghost["body"]
    q = count(i)
    i.safety("one separator after each field", q == count(i, "$regs2") + 1)
    t = token(i, p, AT(p, b, q) - 1)
    i.prove("separator:of the tuple that is declared",
            x["self"].t == i.ghost["tuple decl"], "D04")
    i.prove("separator:the token that is written", And(i.hread(
        "token", sep.t) == t, is_kind(t, "IDENTIFIER", "AT", "COLON",
                                      "SEMICOLON")), "D04")
    counted(i, "$regs2")
    return NONE


def c_values(i, a, kw):
    """Symbol_Table.values: everything that is declared in the table, in
    another order"""
    p, b = i.ghost["parser"], i.ghost["body"]
    if len(a) > 1 or kw:
        raise parsespec.Unsupported("values of one class")
    i.prove("fields:those of the tuple are looked at", a[0].t == V.vo(
        i.hread("components", i.ghost["tuple decl"])), "D04")
    n = count(i)

    def get(j):
        q = PERM(j)
        r = field(p, AT(p, b, q))
        i.assume(Implies(And(j >= 0, j < n), And(
            q >= 0, q < n, INVP(q) == j, r >= 0, i.prog.isinst(
                r, i.specs.A.Composite_Component))))
        i.mark_old(r)
        ty = h0("n_typ", r)
        i.assume(Implies(And(j >= 0, j < n), And(V.is_VObj(ty), V.vo(
            ty) >= 0, i.prog.isinst(V.vo(ty), i.specs.A.Type))))
        return ObjV(r, i.specs.A.Composite_Component)
    return IterV(n, get, "values")


def nested(i, p, b, q):
    A = i.specs.A
    ty = V.vo(h0("n_typ", field(p, AT(p, b, q))))
    return And(i.prog.isinst(ty, A.Tuple_Type), h0("$len", V.vo(h0(
        "separators", ty))) > 0)


def tuple_decl(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    b = name_end(i, p, n + 1) + 1
    e0 = ENDP(FIELD, p, b)
    hs = is_kw(token(i, p, e0), "separator")
    P_ = "D04"

    def end(i, p, x):
        e = ENDP(FIELD, p, x)
        token(i, p, e)
        return If(hs, e + 2, e)
    phrases(i, p, b, end)
    at(i, p, b, z3.IntVal(0), end)
    i.assume(Not(OPTS(p, b, z3.IntVal(0))))
    i.ghost["separated"] = hs
    i.ghost["phrase here"] = lambda ip, c: And(
        c >= 1, pos(ip, p) == ENDP(FIELD, p, at(ip, p, b, c - 1, end)),
        Implies(c == 1, AT(p, b, c - 1) == b),
        count(ip, "$regs2") == If(hs, c - 1, 0))

    def more(env_mods, entry_env):
        out = []
        for v, x in sorted(entry_env.items()):
            if not (isinstance(x, BoolV) or (isinstance(
                    x, Conc) and isinstance(x.v, bool))):
                continue
            for w, g in (("separated", lambda c: And(hs, c >= 2)),
                         ("may separate", lambda c: Or(hs, c < 2)),
                         ("optional", lambda c: OPTS(p, b, c))):
                out.append(("%s %s" % (w, v), lambda ip, idx, v=v, g=g:
                            bool_term(ip.stack[-1].env[v]) == g(count(ip))))
        return out + [("optional with separators", lambda ip, idx: Implies(
            OPTS(p, b, count(ip)), And(hs, count(ip) >= 2)))]
    i.ghost["more invariants"] = more
    done = []

    def seen(i, st, r):
        f = lambda name: i.hread(name, r)
        q = count(i)
        if not z3.eq(r, i.ghost.get("tuple decl", r)) or "tuple decl" not in i.ghost:
            i.prove("declared:the fields of the tuple", And(
                r == field(p, AT(p, b, q)), st == V.vo(i.hread(
                    "components", i.ghost.get("tuple decl", z3.IntVal(0))))), P_)
            counted(i)
            return
        names(i, f, p, n + 1, "D04,D01")
        i.prove("declared:a type in the package of the file", And(
            st == V.vo(h0("symbols", pkg)), f("n_package") == V.VObj(pkg)),
            "D01")
        done.append(r)
    i.ghost["on_register"] = seen
    out, rv = k.call(k.S.P.Parser, "parse_tuple_declaration", [o])
    c = count(i)
    q = z3.Int("q_nested")
    inner = z3.Exists([q], And(q >= 0, q < c, nested(i, p, b, q)))
    if i.ghost.get("msgs", ()):
        k.prove("D04,J01", "error:only if some fields are separated and "
                "some are not, or for a nested tuple with separators", Or(
                    And(Not(hs), c >= 2, is_kw(token(i, p, ENDP(
                        FIELD, p, AT(p, b, c - 1))), "separator")),
                    And(hs, inner)))
    if out == "err":
        failed(k, p, n, "tuple")
        return
    r = ref_of(rv)
    close = pos(i, p) - 1
    k.prove(P_, "value:the type and every field are declared once", And(
        is_kw(token(i, p, n), "tuple"), is_kind(token(i, p, b - 1),
                                                "C_BRA"),
        is_kind(token(i, p, close), "C_KET"), c >= 1,
        close == ENDP(FIELD, p, AT(p, b, c - 1)),
        z3.BoolVal(len(done) == 1 and z3.eq(done[0], r) and z3.eq(
            r, i.ghost["tuple decl"])), i.prog.isinst(r, A.Tuple_Type)))
    k.prove(P_, "value:separators between all fields or none", count(
        i, "$regs2") == If(And(hs, c >= 2), c - 1, 0))
    s_ = z3.Int("a_field")
    i.assume(And(s_ >= 0, s_ < c))
    i.assume(And(INVP(s_) >= 0, INVP(s_) < c, PERM(INVP(s_)) == s_))
    k.prove(P_, "value:no nested tuple with separators in one with "
            "separators", Implies(And(hs, c >= 2), Not(nested(
                i, p, b, s_))))
    k.frame(P_, lambda f, x: f in ("ast_link",) or f[0] == "$")


# ----------------------------------------------------------------- records
FZM = z3.Function("frozen_values", I, I, I, z3.ArraySort(
    V, V))
FZH = z3.Function("frozen_names", I, I, I, z3.ArraySort(V, B))
PV = "parse_value"


def record_decl(k, prefix=None, extends=None):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    tk = lambda m: token(i, p, m)
    abstract, final = is_kw(tk(n), "abstract"), is_kw(tk(n), "final")
    n1 = If(Or(abstract, final), n + 1, n)
    d = name_end(i, p, n1 + 1)
    ext = is_kw(tk(d), "extends")
    parent = parsespec.QN(p, d + 2)
    b = If(ext, parsespec.qn_end(p, d + 2), d) + 1
    if prefix is not None:
        i.assume(And(abstract == (prefix == "abstract"),
                     final == (prefix == "final"), ext == extends))
    pfinal = And(ext, V.vb(h0("is_final", V.vo(parent))))
    P_ = "D03"

    def item(i, p, x):
        return is_kw(token(i, p, x), "freeze")

    def end(i, p, x):
        token(i, p, x + 1), token(i, p, x + 2)
        return If(item(i, p, x), ENDP(PV, p, x + 3), ENDP(COMP, p, x))
    phrases(i, p, b, end)
    z = z3.IntVal(0)
    i.assume(FZH(p, b, z) == z3.K(V, F))

    def unfold(i, q):
        x = at(i, p, b, q, end)
        fr = item(i, p, x)
        w = value_of(token(i, p, x + 1))
        i.assume(FZH(p, b, q + 1) == If(fr, z3.Store(FZH(
            p, b, q), w, T), FZH(p, b, q)))
        i.assume(FZM(p, b, q + 1) == If(fr, z3.Store(FZM(
            p, b, q), w, V.VObj(NODE(z3.StringVal(PV), p, x + 3))), FZM(
                p, b, q)))

    def frozen_map(ip):
        return V.vo(ip.hread("frozen", ip.ghost["record"]))

    def more(env_mods, entry_env):
        if "record" not in i.ghost:
            return []
        m0 = i.hread("$map", frozen_map(i))
        i.assume(FZM(p, b, z) == m0)

        def values(ip, idx):
            q = count(ip)
            unfold(ip, q)
            return And(ip.hread("$has", frozen_map(ip)) == FZH(p, b, q),
                       ip.hread("$map", frozen_map(ip)) == FZM(p, b, q))
        return [("frozen", values)]
    i.ghost["more invariants"] = more

    def seen(i, st, r):
        f = lambda name: i.hread(name, r)
        if "record" not in i.ghost:
            i.ghost["record"] = r
            i.prove("declared:a record type", i.prog.isinst(
                r, A.Record_Type), "D03,D01")
            names(i, f, p, n1 + 1, "D03")
            i.prove("declared:a type in the package of the file", And(
                st == V.vo(h0("symbols", pkg)),
                f("n_package") == V.VObj(pkg)), "D01")
            i.prove("declared:that extends the type that is named", f(
                "parent") == If(ext, parent, V.VNone), "D03,D01")
            i.prove("declared:abstract if and only if that is written", f(
                "is_abstract") == V.VBool(abstract), "D03")
            return
        q = count(i)
        x = AT(p, b, q)
        i.prove("declared:the component that is written", And(
            r == NODE(z3.StringVal(COMP), p, x), Not(item(i, p, x)),
            st == V.vo(i.hread("components", i.ghost["record"]))),
            "D03,D01")
        i.prove("declared:not in a type that is final", Not(pfinal), "D03")
        counted(i)
    i.ghost["on_register"] = seen

    def lookup(i, st, tok, cls):
        i.prove("freeze:of a component of the type or its bases",
                st == V.vo(i.hread("components", i.ghost["record"])),
                "D03,D01")
        r = FOUND(p, pos(i, p))
        i.mark_old(r)
        i.assume(And(r >= 0, i.prog.isinst(r, cls), h0(
            "name", r) == value_of(V.VObj(tok))))
        ty = h0("n_typ", r)
        i.assume(And(V.is_VObj(ty), V.vo(ty) >= 0, i.prog.isinst(
            V.vo(ty), A.Type)))
        return ObjV(r, cls)

    def is_frozen(i, name):
        m = frozen_map(i)
        return Or(z3.Select(i.hread("$has", m), name), And(ext, FRZ(
            parent, name)))

    def c_frozen(i, a, kw):
        x = bind(["self", "n_component"], a, kw)
        c = i.need_obj(x["n_component"], "component")
        i.safety("a component", i.prog.isinst(
            c.t, A.Composite_Component))
        i.prove("freeze:in the type that is declared",
                x["self"].t == i.ghost["record"], "D03")
        return BoolV(is_frozen(i, i.hread("name", c.t)))

    def c_freezing(i, a, kw):
        x = bind(["self", "n_component"], a, kw)
        c = i.need_obj(x["n_component"], "component")
        i.safety("the component is frozen", is_frozen(i, i.hread(
            "name", c.t)))
        r = i.fresh("value", I)
        i.mark_old(r)
        i.assume(And(r >= 0, i.prog.isinst(r, A.Expression)))
        return ObjV(r, A.Expression)

    def c_val(i, a, kw):
        x = bind(["self", "typ"], a, kw)
        q = count(i)
        at_ = AT(p, b, q)
        i.prove("freeze:with a value for that component", And(
            item(i, p, at_), is_kind(token(i, p, at_ + 1), "IDENTIFIER"),
            is_kind(token(i, p, at_ + 2), "ASSIGN"),
            pos(i, p) == at_ + 3,
            i.need_obj(x["typ"], "type").t == V.vo(h0("n_typ", FOUND(
                p, at_ + 2)))), "D03,D04")
        i.prove("freeze:of a component that is not frozen yet", Not(
            is_frozen(i, value_of(token(i, p, at_ + 1)))), "D03")
        r = valuespec.c_value(i, a, kw)
        counted(i)
        return r

    def c_comp(i, a, kw):
        x = bind(["self", "n_record"], a, kw)
        i.prove("component:of the type that is declared", i.need_obj(
            x["n_record"], "record").t == i.ghost["record"], "D03")
        at_ = AT(p, b, count(i))
        i.prove("component:the next one starts here", And(
            pos(i, p) == at_, Not(item(i, p, at_))), "D03,B02")
        r = parsespec.nonterminal(COMP, A.Composite_Component)(i, a, kw)
        i.assume(V.is_VStr(h0("name", r.t)))
        return r
    R = A.Record_Type
    i.specs.contract(A.Symbol_Table, "lookup", lookup_of(lookup))
    i.specs.contract(R, "is_frozen", c_frozen)
    i.specs.contract(R, "get_freezing_expression", c_freezing)
    i.specs.contract(k.S.P.Parser, "parse_value", c_val)
    i.specs.contract(k.S.P.Parser, COMP, c_comp)
    out, rv = k.call(k.S.P.Parser, "parse_record_declaration", [o])
    msgs = [m for m in i.ghost.get("msgs", ())]
    q = count(i)
    x = AT(p, b, q)
    if out == "err":
        failed(k, p, n, "type", "abstract", "final")
        if msgs and "record" in i.ghost:
            fatal = Or(
                And(item(i, p, x), is_frozen(i, value_of(tk(x + 1)))),
                And(Not(item(i, p, x)), pfinal))
            lint = And(V.vb(k.h0("lint_mode", p)), pfinal, Not(final))
            k.prove("D03,J01", "error:only for a component frozen twice or "
                    "declared in a final type", Or(fatal, lint))
        return
    r = ref_of(rv)
    close = pos(i, p) - 1
    k.prove(P_, "value:every component and frozen value is declared once",
            And(is_kw(tk(n1), "type"), is_kind(tk(b - 1), "C_BRA"),
                is_kind(tk(close), "C_KET"), close == AT(p, b, q),
                r == i.ghost.get("record", z3.IntVal(0))))
    m = frozen_map(i)
    k.prove(P_, "value:frozen are the values that are written", And(
        k.h1("$has", m) == FZH(p, b, q), k.h1("$map", m) == FZM(p, b, q)))
    k.prove(P_, "value:final if written, or if the base is",
            k.h1("is_final", r) == V.VBool(Or(final, pfinal)))
    k.frame(P_, lambda f, x: f in ("ast_link",) or f[0] == "$")


# ------------------------------------------------------------- union types
SEENU = z3.Function("names_before", I, I, I, z3.ArraySort(V, B))
DUPS = z3.Function("repeated_before", I, I, I, I)


def full_name(r):
    return V.VStr(z3.Concat(V.vs(h0("name", V.vo(h0("n_package", r)))),
                            z3.StringVal("."), V.vs(h0("name", r))))


def type_at(p, b, q):
    return parsespec.QN(p, AT(p, b, q) + 1)


def entry_at(i, p, b, q):
    e = parsespec.qn_end(p, AT(p, b, q) + 1)
    return V.VPair(type_at(p, b, q), loc(token(i, p, e - 1)))


def union_type(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    b = n + 1
    P_ = "D02"

    def end(i, p, x):
        return parsespec.qn_end(p, x + 1) + 1
    phrases(i, p, b, end)
    at(i, p, b, z3.IntVal(0), end)
    i.ghost["phrase here"] = lambda ip, c: And(
        c >= 1, pos(ip, p) == parsespec.qn_end(p, at(
            ip, p, b, c - 1, end) + 1))
    z = z3.IntVal(0)
    i.assume(And(SEENU(p, b, z) == z3.K(V, F), DUPS(p, b, z) == 0))

    def unfold(i, q):
        x = full_name(V.vo(type_at(p, b, q)))
        old = SEENU(p, b, q)
        i.assume(SEENU(p, b, q + 1) == z3.Store(old, x, T))
        i.assume(DUPS(p, b, q + 1) == DUPS(p, b, q) + If(z3.Select(
            old, x), 1, 0))

    def entries(i, lst):
        q = z3.Int("q_entry")
        el = i.hread("$elem", lst)
        return z3.ForAll([q], Implies(And(q >= 0, q < i.hread(
            "$len", lst)), And(z3.Select(el, q) == entry_at(
                i, p, b, q), known(q, entry_at(i, p, b, q)))))

    def known(q, e):
        return And(*[And(V.is_VObj(t), V.vo(t) >= 0, i.prog.isinst(
            V.vo(t), c)) for t, c in ((V.v0(e), A.Record_Type), (
                V.v1(e), k.S.E.Location))])
    i.ghost["element_pairs"] = ((A.Record_Type, k.S.E.Location),)
    i.ghost["element_classes"] = (A.Record_Type,)

    def more(env_mods, entry_env):
        out = []
        for v, x in sorted(entry_env.items()):
            if isinstance(x, ObjV) and i.classes_of(x) == [list]:
                out.append(("entries %s" % v, lambda ip, idx, v=v: And(
                    ip.hread("$len", ip.stack[-1].env[v].t) == count(ip),
                    entries(ip, ip.stack[-1].env[v].t))))
        return out
    i.ghost["more invariants"] = more

    def repeated(env_mods, entry_env):
        out = []
        for v, x in sorted(entry_env.items()):
            if isinstance(x, ObjV) and i.classes_of(x) == [dict]:
                def names_(ip, q, v=v):
                    unfold(ip, q)
                    return ip.hread("$has", ip.stack[-1].env[v].t) == \
                        SEENU(p, b, q)
                out.append(("names %s" % v, names_))
            if isinstance(x, ObjV) and i.classes_of(x) == [list]:
                def types_(ip, idx, v=v):
                    lst = ip.stack[-1].env[v].t
                    el = ip.hread("$elem", lst)
                    q = z3.Int("q_type")
                    e = entry_at(i, p, b, q)
                    return And(ip.hread("$len", lst) == idx, z3.ForAll(
                        [q], Implies(And(q >= 0, q < idx), And(z3.Select(
                            el, q) == V.v0(e), known(q, e)))))
                out.append(("types %s" % v, types_))
        return out + [("reported", lambda ip, q: And(V.is_VInt(
            ip.hread("$reported", ip.ghost["mh"])), valuespec.reported(
                ip) == DUPS(p, b, q), DUPS(p, b, q) >= 0))]
    i.ghost["for invariants"] = repeated
    def c_type(i, a, kw):
        q = count(i)
        i.prove("union:the next type is read here", Or(pos(i, p) == AT(
            p, b, q), Not(is_kind(token(i, p, pos(i, p)), "IDENTIFIER"))),
                "D02,B02")
        r = parsespec.c_qualified(i, a, kw)
        counted(i)
        return r
    i.specs.contract(k.S.P.Parser, "parse_qualified_name", c_type)

    out, rv = k.call(k.S.P.Parser, UT, [o])
    if out == "err":
        return
    r = ref_of(rv)
    c = count(i)
    lst = V.vo(k.h1("types", r))
    q = z3.Int("q_type")
    i.assume(And(q >= 0, q < c))
    k.prove(P_, "value:a union of the types that are written, in order",
            And(i.prog.isinst(r, A.Union_Type), c >= 1, k.h1(
                "$len", lst) == c, z3.Select(k.h1("$elem", lst), q) ==
                type_at(p, b, q), is_kind(token(i, p, n), "S_BRA"),
                is_kind(token(i, p, pos(i, p) - 1), "S_KET"),
                pos(i, p) - 1 == parsespec.qn_end(p, AT(
                    p, b, c - 1) + 1)))
    k.prove(P_, "error:one for each type that is named again",
            valuespec.reported(i) == DUPS(p, b, c))
    k.frame(P_, lambda f, x: f in ("ast_link",) or f[0] == "$")


def inv_for(i, node, it, env_mods, entry_env):
    g = i.ghost.get("for invariants")
    return [] if g is None or it is None else g(env_mods, entry_env)


class Patch:
    def __init__(self, ctors=(), contracts=()):
        self.ctors, self.contracts = ctors, contracts

    def setup(self, S):
        valuespec.setup(S)
        S._decl = ({}, {})
        for c, f in self.ctors:
            c = getattr(S.A, c)
            S._decl[0][c] = S.ctors.get(c)
            if f is None:
                S.ctors.pop(c, None)
            else:
                S.ctors[c] = Contract(c.__name__ + ".__init__", f)
        for m, c, n, f in self.contracts:
            c = getattr(getattr(S, m), c)
            if f is None:
                f = lambda i, a, kw: NONE
            key = (c.__module__, "%s.%s" % (c.__name__, n))
            S._decl[1][key] = S.contracts.get(key)
            S.contract(c, n, f)

    def teardown(self, S):
        for c, f in S._decl[0].items():
            if f is None:
                S.ctors.pop(c, None)
            else:
                S.ctors[c] = f
        for key, f in S._decl[1].items():
            if f is None:
                S.contracts.pop(key)
            else:
                S.contracts[key] = f
        valuespec.teardown(S)


def declare(S):
    A, P = S.A, S.P
    S.invariants.append(inv_phrases)
    S.invariants.append(inv_for)


def targets(S):
    def tg(m, run, props, patch, case=""):
        return target("Parser.%s%s" % (m, case), "trlc.parser.Parser.%s" % m,
                      props, run, [("trlc.parser", "Parser.%s" % m)],
                      patch.setup, patch.teardown)
    return [
        tg("parse_check_block", check_block, "E01,D01,B01,B02,J01", Patch(
            [("Scope", c_scope)],
            [("A", "Scope", "size", c_size),
             ("A", "Symbol_Table", "lookup", lookup_of(found)),
             ("A", "Composite_Type", "add_check", c_add_check),
             ("A", "Check_Block", "add_check", c_block_check),
             ("P", "Parser", "parse_expression", c_expression)])),
        tg("parse_enum_declaration", enum, "D01,C01,J01", Patch(
            [], [("A", "Symbol_Table", "register", c_register)])),
        tg("parse_section_declaration", section, "I01,B02,C01,J01", Patch(
            [], [("P", "Parser", "parse_trlc_entry", c_entry)])),
        tg("parse_trlc_entry", entry, "I01,D03,J01", Patch(
            [], [("P", "Parser", "parse_section_declaration", c_section),
                 ("P", "Parser", "parse_record_object_declaration",
                  c_record_object),
                 ("A", "Compilation_Unit", "add_item", None)])),
        tg("parse_record_component", record_component, "D03,D04,D01,J01",
           Patch([], [("P", "Parser", UT, c_union)])),
        tg("parse_tuple_declaration", tuple_decl, "D04,D01,C01,J01", Patch(
            [], [("A", "Symbol_Table", "register", c_register),
                 ("A", "Symbol_Table", "values", c_values),
                 ("A", "Tuple_Type", "add_separator", c_separator),
                 ("P", "Parser", FIELD, c_field)])),
        tg("parse_union_type", union_type, "D02,B02,J01", Patch(
            [], [("P", "Parser", "parse_qualified_name", None)])),
        tg("parse_tuple_field", tuple_field, "D04,D01,J01",
           Patch([], [("P", "Parser", UT, c_union)])),
    ] + [
        tg("parse_record_declaration",
           lambda k, w=w, e=e: record_decl(k, w, e), "D03,D01,D04,C01,J01",
           Patch([], [("A", "Symbol_Table", "register", c_register),
                      ("A", "Symbol_Table", "lookup", None),
                      ("A", "Record_Type", "is_frozen", None),
                      ("A", "Record_Type", "get_freezing_expression", None),
                      ("P", "Parser", "parse_value", None),
                      ("P", "Parser", COMP, None)]),
           "[%s%s]" % (w, ", extends" if e else ""))
        for w in ("type", "abstract", "final") for e in (False, True)]
