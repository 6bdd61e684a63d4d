"""Declarations of record objects (D03, I01): which values the components of
an object have, and that the object is complete."""
import z3

from pyvc.core import (ARR_VB, ARR_VV, CLS, V, AnyV, BoolV, Conc, NONE, ObjV,
                       PyRaise, to_v)
from . import parsespec, valuespec
from .base import Contract
from .dataspec import FEX, FRZ, bind, convertible, h0
from .evalmore import COMPS
from .evalspec import isnone
from .kit import And, B, F, I, If, Implies, Not, Or, T, target
from .parsespec import (ENDP, is_kind, kind_of, pos, ref_of, token, value_of,
                        vs)
from .symspec import FIND, SIMPLE
from .valuespec import PV, implicit_null, node, val

P = "D03"
# the values of the components when the rest of the object is read, given
# those that are known before; and whether what is written is in order
REST = z3.Function("components_in_all", I, I, ARR_VV, ARR_VV)
INORDER = z3.Function("assignments_in_order", I, I, B)
# place of the component of that name among the components of a record type
CI = z3.Function("place_of_component", I, V, I)


class Comps:
    """the components of a record type, inherited ones first"""

    def __init__(self, k, t):
        self.i, self.A, self.t = k.i, k.A, t
        self.isa = k.isa
        self.lst = COMPS(t)
        self.n = h0("$len", self.lst)
        self.st = V.vo(h0("components", t))
        k.i.mark_old(self.lst)
        k.i.assume(self.n >= 0)
        q = z3.Int("q_comp")
        k.i.assume(z3.ForAll([q], Implies(And(q >= 0, q < self.n), And(
            V.is_VStr(self.name(q)), CI(t, self.name(q)) == q))))

    def at(self, q):
        return z3.Select(h0("$elem", self.lst), q)

    def name(self, q):
        return h0("name", V.vo(self.at(q)))

    def facts(self, q):
        c = self.at(q)
        ty = h0("n_typ", V.vo(c))
        return Implies(And(q >= 0, q < self.n), And(
            self.isa(c, self.A.Composite_Component), V.vo(c) >= 0,
            V.is_VStr(self.name(q)), CI(self.t, self.name(q)) == q,
            V.is_VBool(h0("optional", V.vo(c))),
            self.isa(ty, self.A.Type), V.vo(ty) >= 0,
            Implies(FRZ(V.VObj(self.t), self.name(q)), And(
                V.is_VObj(self.frozen(q)), V.vo(self.frozen(q)) >= 0,
                self.i.prog.isinst(V.vo(self.frozen(q)), convertible(
                    self.A)), Not(self.isa(self.frozen(
                        q), self.A.Implicit_Null))))))

    def frozen(self, q):
        return FEX(V.VObj(self.t), self.name(q))

    def is_frozen(self, q):
        return FRZ(V.VObj(self.t), self.name(q))

    def optional(self, q):
        return V.vb(h0("optional", V.vo(self.at(q))))

    def named(self, i, word):
        """the component of that name"""
        c = FIND(self.st, SIMPLE(V.vs(word)))
        q = CI(self.t, word)
        # all components of a record type are found in its table
        i.assume(Implies(And(self.isa(c, self.A.Composite_Component), h0(
            "name", V.vo(c)) == word), And(
                q >= 0, q < self.n, self.at(q) == c)))
        i.assume(self.facts(q))
        return c, q

    def rest(self, i, p, n, mp):
        """REST and INORDER unfolded once"""
        t, a = token(i, p, n), token(i, p, n + 1)
        word = value_of(t)
        c, q = self.named(i, word)
        e = ENDP(PV, p, n + 2)
        i.assume(REST(p, n, mp) == If(is_kind(t, "C_KET"), mp, REST(
            p, e, z3.Store(mp, word, val(p, n + 2)))))
        i.assume(INORDER(p, n) == Or(is_kind(t, "C_KET"), And(
            is_kind(t, "IDENTIFIER"), is_kind(a, "ASSIGN"),
            self.isa(c, self.A.Composite_Component),
            h0("name", V.vo(c)) == word, Not(self.is_frozen(q)),
            INORDER(p, e))))

    def only_free(self, i, mp):
        """what is not null has been written, so it is not frozen"""
        q = z3.Int("q_free")
        v = z3.Select(mp, self.name(q))
        return z3.ForAll([q], Implies(And(q >= 0, q < self.n), Or(
            implicit_null(i, v), And(
                V.is_VObj(v), V.vo(v) >= 0, self.i.prog.isinst(
                    V.vo(v), convertible(self.A)), Not(self.isa(
                        v, self.A.Implicit_Null)),
                Not(self.is_frozen(q))))))

    def completed(self, i, before, now, c):
        """the first c components are complete, the others as before"""
        q = z3.Int("q_done")
        v0, v1 = (z3.Select(m, self.name(q)) for m in (before, now))
        null = implicit_null(i, v0)
        return z3.ForAll([q], Implies(And(q >= 0, q < self.n), If(
            And(q < c, null), Or(
                And(self.is_frozen(q), v1 == self.frozen(q)),
                And(Not(self.is_frozen(q)), self.optional(q), v1 == v0)),
            v1 == v0)))


def c_register(i, a, kw):
    """proved by Symbol_Table.register"""
    x = bind(["self", "mh", "entity"], a, kw)
    st, e = x["self"].t, i.need_obj(x["entity"], "entity")
    i.safety("an entity is registered", i.prog.isinst(
        e.t, i.specs.A.Entity))
    name = V.vs(i.hread("name", e.t))
    if i.branch(Not(isnone(FIND(st, SIMPLE(name))))):
        raise PyRaise(i.specs.E.TRLC_Error)
    i.ghost["registered"] = i.ghost.get("registered", ()) + (
        (st, V.VObj(e.t)),)
    return NONE


def c_object(i, a, kw):
    """proved by Record_Object.__init__"""
    x = bind(["name", "location", "n_typ", "section", "n_package"], a, kw)
    A = i.specs.A
    t = i.need_obj(x["n_typ"], "type")
    i.safety("an object of a record type", i.prog.isinst(
        t.t, A.Record_Type))
    g = i.need_obj(x["n_package"], "package")
    i.safety("an object in a package", i.prog.isinst(g.t, A.Package))
    i.safety("the object has a name", V.is_VStr(to_v(i.prog, x["name"])))
    r = ObjV(i.new_ref(A.Record_Object), A.Record_Object)
    d = ObjV(i.new_ref(dict), dict)
    for f in ("name", "location", "n_typ", "section", "n_package"):
        i.hwrite(f, r.t, to_v(i.prog, x[f]))
    i.hwrite("field", r.t, V.VObj(d.t))
    i.hwrite("$has", d.t, i.fresh("has", ARR_VB))
    i.hwrite("$map", d.t, i.fresh("map", ARR_VV))
    has, mp = i.hread("$has", d.t), i.hread("$map", d.t)
    cs = i.ghost.get("comps")
    if cs is None:
        k = i.ghost["kit"]
        cs = i.ghost["comps"] = Comps(k, t.t)
    i.safety("the type of the object is the one named", cs.t == t.t)
    i.ghost["object"] = (r.t, d.t, mp)
    q = z3.Int("q_new")
    i.assume(z3.ForAll([q], Implies(And(q >= 0, q < cs.n), And(
        z3.Select(has, cs.name(q)), implicit_null(i, z3.Select(
            mp, cs.name(q)))))))
    return r


def component_of(i, x):
    c = i.need_obj(x, "component")
    i.safety("a component of the type", i.prog.isinst(
        c.t, i.specs.A.Composite_Component))
    return c, i.hread("name", c.t)


def c_assigned(i, a, kw):
    """proved by Record_Object.is_component_implicit_null (sic)"""
    x = bind(["self", "component"], a, kw)
    c, name = component_of(i, x["component"])
    d = V.vo(i.hread("field", x["self"].t))
    i.safety("the object has that component", z3.Select(i.hread(
        "$has", d), name))
    v = z3.Select(i.hread("$map", d), name)
    return BoolV(Not(i.prog.isinst(V.vo(v), i.specs.A.Implicit_Null)))


def c_assign(i, a, kw):
    """proved by Record_Object.assign"""
    x = bind(["self", "component", "value"], a, kw)
    c, name = component_of(i, x["component"])
    v = parsespec.need(i, x["value"], "a value")
    A = i.specs.A
    i.safety("a value is assigned", i.prog.isinst(v.t, convertible(A)))
    d = V.vo(i.hread("field", x["self"].t))
    i.safety("the object has that component", z3.Select(i.hread(
        "$has", d), name))
    old = z3.Select(i.hread("$map", d), name)
    i.prove("the component is not assigned twice", i.prog.isinst(
        V.vo(old), A.Implicit_Null), "D03,J01")
    i.hwrite("$map", d, z3.Store(i.hread("$map", d), name, V.VObj(v.t)))
    return NONE


# -------------------------------------------------------------- invariants
def inv_object(i, node_, it, env_mods, entry_env):
    st = i.ghost.get("object")
    if st is None:
        return []
    r, d, mp0 = st
    cs = i.ghost["comps"]
    p = i.ghost["parser"]
    now = lambda ip: ip.hread("$map", d)
    if it is None:
        n0 = pos(i, p)

        def same_rest(ip, idx):
            at = pos(ip, p)
            cs.rest(ip, p, at, now(ip))
            return And(REST(p, at, now(ip)) == REST(p, n0, mp0),
                       INORDER(p, at) == INORDER(p, n0), at >= n0,
                       Not(isnone(token(ip, p, at - 1))))
        return [("components-in-all", same_rest),
                ("only-free", lambda ip, idx: cs.only_free(ip, now(ip)))]
    if "before" not in i.ghost:
        i.ghost["before"] = now(i)
    before = i.ghost["before"]

    def done(ip, q):
        return cs.completed(ip, before, now(ip), q)
    return [("complete", done)]


def read_component(i, lst, q):
    cs = i.ghost.get("comps")
    if cs is not None and z3.eq(lst, cs.lst):
        i.assume(cs.facts(q))


# ----------------------------------------------------------------- targets
def record_object(k):
    A = k.A
    o, n = parsespec.parser(k)
    p = o.t
    k.i.ghost.update(parser=p, plain_branch=True, kit=k,
                     on_list_read=read_component)
    ds = k.o0("default_scope", p)
    st = k.h0("$scope", ds)
    k.i.assume(And(V.is_VInt(st), parsespec.DEPTH(V.vi(st)) >= 1))
    cu = k.o0("cu", p)
    imp, pkg = k.h0("imports", cu), k.h0("package", cu)
    k.i.assume(And(k.isa(imp, set), k.isa(pkg, A.Package)))
    sec = k.o0("section", p)
    k.i.assume(k.h0("$len", sec) >= 0)
    e = parsespec.qn_end(p, n + 1)
    ty = parsespec.QN(p, n + 1)
    out, rv = k.call(k.S.P.Parser, "parse_record_object_declaration", [o])
    msgs = k.i.ghost.get("msgs", ())
    cs = k.i.ghost.get("comps")
    k.prove("D03,E02", "messages:at most one error is reported here",
            z3.BoolVal(len(msgs) <= 1 and (out == "err" or not msgs)))
    if msgs:
        why = V.vb(h0("is_abstract", V.vo(ty)))
        if cs is not None:
            d = k.i.ghost["object"][1]
            mp = k.i.hread("$map", d)
            word = value_of(token(k.i, p, pos(k.i, p) - 1))
            c, q = cs.named(k.i, word)
            twice = And(Not(implicit_null(k.i, z3.Select(mp, word))))
            j = z3.Int("q_missing")
            missing = z3.Exists([j], And(
                j >= 0, j < cs.n, k.isa(z3.Select(mp, cs.name(
                    j)), A.Implicit_Null), Not(cs.is_frozen(j)),
                Not(cs.optional(j))))
            why = Or(why, twice, cs.is_frozen(q), missing)
        k.prove(P, "error:only for an abstract type, a component assigned "
                "twice, frozen or required but not given", why)
    if out == "err":
        k.prove("J01", "error:only after the first token, if that can start "
                "it", Implies(is_kind(token(k.i, p, n), "IDENTIFIER"),
                              pos(k.i, p) > n))
        return
    r = ref_of(rv)
    name = token(k.i, p, e)
    k.prove("D03,D01", "value:an object of the record type that is named, "
            "which is not abstract", And(
                k.i.prog.isinst(r, A.Record_Object),
                k.h1("n_typ", r) == ty, k.isa(ty, A.Record_Type),
                Not(V.vb(h0("is_abstract", V.vo(ty))))))
    k.prove("D03,I01,C01", "value:name and location are those written, the "
            "package is that of the file", And(
                is_kind(name, "IDENTIFIER"),
                k.h1("name", r) == value_of(name),
                k.h1("location", r) == h0("location", V.vo(name)),
                k.h1("n_package", r) == pkg))
    s1 = k.h1("section", r)
    q = z3.Int("q_section")
    k.prove("I01", "value:in the sections that are open", If(
        h0("$len", sec) == 0, isnone(s1), And(
            k.i.prog.isinst(V.vo(s1), list), V.vo(s1) < 0,
            k.h1("$len", V.vo(s1)) == h0("$len", sec), z3.ForAll(
                [q], Implies(And(q >= 0, q < h0("$len", sec)), z3.Select(
                    k.h1("$elem", V.vo(s1)), q) == z3.Select(h0(
                        "$elem", sec), q))))))
    reg = k.i.ghost.get("registered", ())
    k.prove("D01,I01", "value:registered once, in the package", And(
        z3.BoolVal(len(reg) == 1), *[And(
            s == V.vo(h0("symbols", V.vo(pkg))), x == V.VObj(r))
            for s, x in reg]))
    _, d, mp0 = k.i.ghost["object"]
    body = e + 2
    close = pos(k.i, p) - 1
    k.prove("D03,B02", "value:braces around the assignments", And(
        is_kind(token(k.i, p, e + 1), "C_BRA"),
        is_kind(token(k.i, p, close), "C_KET")))
    before = k.i.ghost["before"]
    k.prove("D03,I01,D01", "value:the values written are those of the "
            "components of that spelling", And(
                before == REST(p, body, mp0), INORDER(p, body)))
    final = k.h1("$map", V.vo(k.h1("field", r)))
    k.prove("D03,I01", "value:a component without a value is frozen, and has "
            "the frozen value, or is optional", cs.completed(
                k.i, before, final, cs.n))
    k.frame("D03", lambda f, x: f in ("ast_link",) or (
        z3.eq(x, p) and f == "$pos"))


def setup(S):
    valuespec.setup(S)
    A = S.A
    S._obj = {}
    S._obj["ctor"] = S.ctors.get(A.Record_Object)
    S.ctors[A.Record_Object] = Contract("Record_Object.__init__", c_object)
    S._obj["contracts"] = {}
    for c, m, f in ((A.Record_Object, "assign", c_assign),
                    (A.Record_Object, "is_component_implicit_null",
                     c_assigned), (A.Symbol_Table, "register", c_register)):
        key = (c.__module__, "%s.%s" % (c.__name__, m))
        S._obj["contracts"][key] = S.contracts.get(key)
        S.contract(c, m, f)


def teardown(S):
    for key, c in S._obj["contracts"].items():
        if c is None:
            S.contracts.pop(key)
        else:
            S.contracts[key] = c
    if S._obj["ctor"] is None:
        S.ctors.pop(S.A.Record_Object)
    else:
        S.ctors[S.A.Record_Object] = S._obj["ctor"]
    valuespec.teardown(S)


def declare(S):
    S.invariants.append(inv_object)
    S.contract(S.E.Message_Handler, "cross_file_reference",
               lambda i, a, k: i.fresh_str("place"),
               "trusted: returns some string (only used in messages)")


def targets(S):
    return [target("Parser.parse_record_object_declaration",
                   "trlc.parser.Parser.parse_record_object_declaration",
                   "D03,I01,D01,C01,B02,E02,J01", record_object,
                   [("trlc.parser",
                     "Parser.parse_record_object_declaration")],
                   setup, teardown)]
