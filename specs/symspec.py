"""Symbol tables (D01): registration and lookup."""
import z3

from pyvc.core import (CLS, V, AnyV, BoolV, Conc, Infeasible, NONE, ObjV,
                       PyRaise, Unsupported, to_v)
from pyvc.execpy import LOWER, REPLACE
from .evalspec import isnone
from .kit import (And, B, F, I, If, Implies, Kit, Not, Or, T, target)

P = "D01"
S_ = z3.StringSort()
# the name with case and underscores ignored
SIMPLE = z3.Function("simplified_name", S_, S_)
# entity found under a simplified name in a table or its parents (or None)
CHAIN = z3.Function("entity_in_chain", V, S_, V)
# ... or in an imported table: the first that has one
FIND = z3.Function("entity_found", I, S_, V)
# first hit among the first n imported tables
IMP = z3.Function("entity_in_imports", I, S_, I, V)
DEPTH = z3.Function("nesting_depth", I, I)


class Tab:
    """definitions of the lookup functions over the initial heap"""

    def __init__(self, i):
        self.i = i
        self.A = i.specs.A

    def h(self, f, r):
        from .kit import heap0
        return z3.Select(heap0(f), r)

    def table(self, st):
        return V.vo(self.h("table", st))

    def has(self, st, s):
        return z3.Select(self.h("$has", self.table(st)), V.VStr(s))

    def entry(self, st, s):
        return z3.Select(self.h("$map", self.table(st)), V.VStr(s))

    def chain(self, v, s):
        """CHAIN unfolded once at table v"""
        if v.decl().name() == "VNone":
            self.i.assume(CHAIN(v, s) == V.VNone)
            return v
        st = V.vo(v)
        # only entities are stored (Symbol_Table.register)
        self.i.assume(Implies(self.has(st, s), And(
            Not(isnone(self.entry(st, s))), self.entity(self.entry(st, s)))))
        self.i.assume(CHAIN(v, s) == If(
            isnone(v), V.VNone, If(self.has(st, s), self.entry(st, s),
                                   CHAIN(self.h("parent", st), s))))
        return CHAIN(v, s)

    def imported(self, st):
        return V.vo(self.h("imported", st))

    def nimp(self, st):
        return self.h("$len", self.imported(st))

    def imp(self, st, s, n):
        """IMP unfolded once"""
        lst = self.imported(st)
        last = z3.Select(self.h("$elem", lst), n - 1)
        self.i.assume(Implies(And(n > 0, n <= self.nimp(st)), And(
            V.is_VObj(last), V.vo(last) >= 0,
            self.i.prog.isinst(V.vo(last), self.A.Symbol_Table))))
        self.i.assume(IMP(st, s, n) == If(
            n <= 0, V.VNone, If(isnone(IMP(st, s, n - 1)),
                                CHAIN(last, s), IMP(st, s, n - 1))))
        return IMP(st, s, n)

    def find(self, st, s):
        self.i.assume(CHAIN(V.VNone, s) == V.VNone)
        self.i.assume(FIND(st, s) == If(
            isnone(CHAIN(V.VObj(st), s)), IMP(st, s, self.nimp(st)),
            CHAIN(V.VObj(st), s)))
        return FIND(st, s)

    def entity(self, t):
        """whatever is stored is an entity under its simplified name"""
        return Implies(Not(isnone(t)), And(
            V.is_VObj(t), V.vo(t) >= 0,
            self.i.prog.isinst(V.vo(t), self.A.Entity),
            V.is_VStr(self.h("name", V.vo(t)))))

    def keyed(self, t, s):
        return Implies(Not(isnone(t)), SIMPLE(V.vs(self.h(
            "name", V.vo(t)))) == s)


def simple_contract(i, args, kw):
    from pyvc.core import StrV
    s = args[0] if args else kw["name"]
    return StrV(SIMPLE(i.str_t(i.force(s))))


def contains_raw_contract(i, args, kw):
    a = dict(zip(["self", "simple_name", "precise_name"], args))
    a.update(kw)
    t = Tab(i)
    o = a["self"]
    s = i.str_t(i.force(a["simple_name"]))
    f = t.find(o.t, s)
    i.assume(t.entity(f))
    p = to_v(i.prog, a.get("precise_name", NONE))
    return BoolV(And(Not(isnone(f)), Or(isnone(p), t.h(
        "name", V.vo(f)) == p)))


def lookup_contract(direct):
    def f(i, args, kw):
        if direct:
            a = dict(zip(["self", "mh", "name", "error_location",
                          "required_subclass", "simplified"], args))
            a.update(kw)
            name = i.str_t(i.force(a["name"]))
        else:
            a = dict(zip(["self", "mh", "referencing_token",
                          "required_subclass"], args))
            a.update(kw)
            name = i.str_t(i.force(i.getattr(a["referencing_token"],
                                             "value")))
        t = Tab(i)
        o = a["self"]
        found = t.find(o.t, SIMPLE(name))
        i.assume(t.entity(found))
        simplified = i.truth_term(a.get("simplified", Conc(False)))
        bad = Or(isnone(found), And(Not(simplified), t.h(
            "name", V.vo(found)) != V.VStr(name)))
        req = a.get("required_subclass", NONE)
        if not isinstance(req, Conc):
            raise Unsupported("lookup with a computed class")
        if req.v is not None:
            bad = Or(bad, Not(i.prog.isinst(V.vo(found), req.v)))
        if i.branch(bad):
            raise PyRaise(i.specs.E.TRLC_Error)
        i.mark_old(V.vo(found))
        return ObjV(V.vo(found), req.v if req.v is not None
                    else i.specs.A.Entity)
    return f


# ------------------------------------------------------------- obligations
def stab(k, name="self"):
    o = k.obj(name, k.A.Symbol_Table)
    t = Tab(k.i)
    lst = t.imported(o.t)
    k.all_elems(lst, lambda q: k.isa(k.elem0(lst, q), k.A.Symbol_Table))
    # tables import the table of builtins only, and that imports nothing:
    # established by Package.__init__ and Symbol_Table.__init__
    n = t.nimp(o.t)
    k.i.assume(Or(isnone(k.h0("parent", o.t)), n == 0))
    k.i.assume(n <= 1)
    imp = V.vo(k.elem0(lst, 0))
    k.i.assume(Implies(n == 1, And(t.nimp(imp) == 0)))
    par = V.vo(k.h0("parent", o.t))
    k.i.assume(Implies(Not(isnone(k.h0("parent", o.t))), And(
        t.nimp(par) == 0, DEPTH(par) < DEPTH(o.t))))
    return o, t


def simplified_name(k):
    s = k.arg("name", "str")
    out, rv = k.call(k.A.Symbol_Table, "simplified_name", [s])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    us = z3.StringVal("_")
    e = z3.StringVal("")
    got = k.i.str_t(k.i.force(rv))
    k.prove(P, "value:lower case without underscores", Or(
        got == REPLACE(LOWER(s.t), us, e), got == LOWER(REPLACE(s.t, us, e))))


def contains_raw(k):
    o, t = stab(k)
    s = k.arg("simple_name", "str")
    p = k.arg("precise_name", ("opt", "str"))
    found = t.find(o.t, s.t)
    t.chain(V.VObj(o.t), s.t)
    t.imp(o.t, s.t, z3.IntVal(0))
    t.imp(o.t, s.t, z3.IntVal(1))
    par = k.h0("parent", o.t)
    imp0 = k.elem0(t.imported(o.t), 0)
    for x in (par, imp0):
        t.find(V.vo(x), s.t)
        t.imp(V.vo(x), s.t, z3.IntVal(0))
    k.i.assume(t.entity(found))
    found1 = FIND(V.vo(imp0), s.t)
    k.i.ghost["raw"] = And(Not(isnone(found1)), Or(isnone(k.v(p)), k.h0(
        "name", V.vo(found1)) == k.v(p)))
    out, rv = k.call(k.A.Symbol_Table, "contains_raw", [o, s, p])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    want = And(Not(isnone(found)), Or(isnone(k.v(p)), k.h0(
        "name", V.vo(found)) == k.v(p)))
    k.prove(P, "value:true iff an entity of that simplified name (and that "
            "spelling, if given) is in scope", k.bool_of(rv) == want)
    k.frame(P)


def contains(k):
    o, t = stab(k)
    name = k.arg("name", "str")
    out, rv = k.call(k.A.Symbol_Table, "contains", [o, name])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    found = t.find(o.t, SIMPLE(name.t))
    k.prove(P, "value:true iff an entity of exactly that spelling is in "
            "scope", k.bool_of(rv) == And(Not(isnone(found)), k.h0(
                "name", V.vo(found)) == V.VStr(name.t)))
    k.frame(P)


# the class is handed to isinstance and otherwise only named in messages; any
# class of entities stands for all of them
CLASSES = [None, "Type"]


def pick_class(k):
    n = k.i.choose(len(CLASSES))
    c = CLASSES[n]
    return Conc(None if c is None else getattr(k.A, c))


def facts_for_scan(k, o, t, s):
    """definitions at the tables the search starts from"""
    t.find(o.t, s)
    t.chain(V.VNone, s)
    for n in (0, 1):
        t.imp(o.t, s, z3.IntVal(n))
    k.i.ghost["scan"] = (o, t, s)


def inv_scan(i, node, it, env_mods, entry_env):
    """the search through tables, parents and imports"""
    gh = i.ghost.get("scan")
    out = []
    raw = i.ghost.get("raw")
    if raw is not None and it is not None:
        out.append(("not-yet", lambda ip, idx: None if idx is None else
                    Implies(idx > 0, Not(raw))))
    if gh is None:
        return out
    o, t, s = gh
    if it is None:
        for name in env_mods:
            v0 = entry_env.get(name)
            if not isinstance(v0, (ObjV, AnyV)) or v0.spec not in (
                    i.specs.A.Symbol_Table, ("opt",
                                             i.specs.A.Symbol_Table)):
                continue
            t0 = to_v(i.prog, v0)

            def same_chain(ip, idx, name=name, t0=t0):
                v = ip.stack[-1].env.get(name)
                try:
                    tv = to_v(ip.prog, v)
                except (Unsupported, AttributeError):
                    return None
                t.chain(tv, s)
                return CHAIN(tv, s) == CHAIN(t0, s)
            out.append((name + ":chain", same_chain))
        return out

    def none_so_far(ip, idx):
        if idx is None:
            return None
        # element 0 is the table itself, the others are imported
        t.imp(o.t, s, idx)
        t.imp(o.t, s, idx - 1)
        t.chain(V.VObj(o.t), s)
        t.chain(z3.Select(t.h("$elem", t.imported(o.t)), idx - 1), s)
        t.chain(z3.Select(t.h("$elem", t.imported(o.t)), idx - 2), s)
        return Implies(idx > 0, And(isnone(CHAIN(V.VObj(o.t), s)),
                                    isnone(IMP(o.t, s, idx - 1))))
    out.append(("none-so-far", none_so_far))
    return out


def lookup_direct(k):
    o, t = stab(k)
    mh = k.mh()
    name = k.arg("name", "str")
    loc = k.arg("error_location", k.E.Location)
    simp = k.arg("simplified", "bool")
    req = pick_class(k)
    s = SIMPLE(name.t)
    facts_for_scan(k, o, t, s)
    found = FIND(o.t, s)
    k.i.assume(t.entity(found))
    out, rv = k.call(k.A.Symbol_Table, "lookup_direct",
                     [o, mh, name, loc, req, simp])
    bad = Or(isnone(found), And(Not(simp.t), k.h0(
        "name", V.vo(found)) != V.VStr(name.t)))
    if req.v is not None:
        bad = Or(bad, Not(k.isa(found, req.v)))
    if out == "err":
        k.prove(P, "error:only if there is no entity of that spelling and "
                "kind in scope", bad)
        return
    k.prove(P, "error:reported if there is no entity of that spelling and "
            "kind in scope", Not(bad))
    k.prove(P, "value:the entity of that name", k.v(rv) == found)
    k.frame(P)


def lookup_assuming(k):
    o, t = stab(k)
    mh = k.mh()
    name = k.arg("name", "str")
    req = pick_class(k)
    s = SIMPLE(name.t)
    facts_for_scan(k, o, t, s)
    found = FIND(o.t, s)
    k.i.assume(t.entity(found))
    out, rv = k.call(k.A.Symbol_Table, "lookup_assuming", [o, mh, name, req])
    absent = Or(isnone(found), k.h0("name", V.vo(found)) != V.VStr(name.t))
    wrong = F if req.v is None else Not(k.isa(found, req.v))
    if out == "err":
        k.prove(P, "error:only if the entity is of another kind",
                And(Not(absent), wrong))
        return
    k.prove(P, "value:the entity of that name, or None", k.v(rv) ==
            If(absent, V.VNone, found))
    k.prove(P, "error:reported if the entity is of another kind",
            Or(absent, Not(wrong)))
    k.frame(P)


def lookup(k):
    o, t = stab(k)
    mh = k.mh()
    tok = k.obj("tok", k.L.Token)
    kind = k.h0("kind", tok.t)
    k.i.assume(Or(*[kind == V.VStr(z3.StringVal(x))
                    for x in ("IDENTIFIER", "BUILTIN")]))
    k.i.assume(V.is_VStr(k.h0("value", tok.t)))
    name = V.vs(k.h0("value", tok.t))
    req = pick_class(k)
    found = t.find(o.t, SIMPLE(name))
    out, rv = k.call(k.A.Symbol_Table, "lookup", [o, mh, tok, req])
    bad = Or(isnone(found), k.h0("name", V.vo(found)) != V.VStr(name))
    if req.v is not None:
        bad = Or(bad, Not(k.isa(found, req.v)))
    if out == "err":
        k.prove(P, "error:only if there is no entity of that spelling and "
                "kind in scope", bad)
        return
    k.prove(P, "error:reported if there is no such entity", Not(bad))
    k.prove(P, "value:the entity of that name", k.v(rv) == found)
    k.frame(P)


def register(k):
    o, t = stab(k)
    mh = k.mh()
    ent = k.i.force(k.arg("entity", k.A.Entity))
    name = V.vs(k.h0("name", ent.t))
    s = SIMPLE(name)
    found = t.find(o.t, s)
    tab = t.table(o.t)
    q = z3.Const("q", V)
    out, rv = k.call(k.A.Symbol_Table, "register", [o, mh, ent])
    k.prove(P, "error:exactly if an entity of an equal name, ignoring case "
            "and underscores, is in scope",
            Not(isnone(found)) if out == "err" else isnone(found))
    if out == "err":
        k.prove(P, "frame:a rejected declaration changes nothing",
                k.h1("$has", tab) == k.h0("$has", tab))
        return
    k.prove(P, "value:found under its simplified name from now on", And(
        z3.Select(k.h1("$has", tab), V.VStr(s)),
        z3.Select(k.h1("$map", tab), V.VStr(s)) == V.VObj(ent.t)))
    k.prove(P, "frame:every other entity stays where it was", z3.ForAll(
        [q], Implies(q != V.VStr(s), And(
            z3.Select(k.h1("$has", tab), q) == z3.Select(
                k.h0("$has", tab), q),
            z3.Select(k.h1("$map", tab), q) == z3.Select(
                k.h0("$map", tab), q)))))
    k.frame(P, lambda f, r: f.startswith("$"))


def make_visible(k):
    o, t = stab(k)
    st = k.obj("stab", k.A.Symbol_Table)
    lst = t.imported(o.t)
    n = k.h0("$len", lst)
    out, rv = k.call(k.A.Symbol_Table, "make_visible", [o, st])
    k.prove(P, "value:imported after those imported before", And(
        k.h1("$len", lst) == n + 1,
        z3.Select(k.h1("$elem", lst), n) == V.VObj(st.t)))


def table_init(k):
    par = k.arg("parent", ("opt", k.A.Symbol_Table))
    out, rv = k.new(k.A.Symbol_Table, [par])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    k.prove(P, "value:empty, nothing imported, parent as given", And(
        k.h1("parent", rv.t) == k.v(par),
        k.h1("$len", V.vo(k.h1("imported", rv.t))) == 0,
        k.h1("$len", V.vo(k.h1("table", rv.t))) == 0))


def package_init(k):
    A = k.A
    name = k.arg("name", "str")
    loc = k.arg("location", k.E.Location)
    b = k.obj("builtin_stab", A.Symbol_Table)
    late = k.arg("declared_late", "bool")
    out, rv = k.new(A.Package, [name, loc, b, late])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    st = V.vo(k.h1("symbols", rv.t))
    lst = V.vo(k.h1("imported", st))
    k.prove(P, "value:a new package sees the builtins and nothing else", And(
        isnone(k.h1("parent", st)), k.h1("$len", lst) == 1,
        z3.Select(k.h1("$elem", lst), 0) == V.VObj(b.t),
        k.h1("$len", V.vo(k.h1("table", st))) == 0))


def composite_init(k):
    """the components of an extension are found through its parent's"""
    A = k.A
    name = k.arg("name", "str")
    desc = k.arg("description", ("opt", "str"))
    loc = k.arg("location", k.E.Location)
    pkg = k.obj("package", A.Package)
    par = k.arg("n_parent", ("opt", A.Record_Type))
    abstract = k.arg("is_abstract", "bool")
    out, rv = k.new(A.Record_Type, [name, desc, loc, pkg, par, abstract])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    st = V.vo(k.h1("components", rv.t))
    k.prove("D01,D03", "value:components inherited from the parent type",
            k.h1("parent", st) == If(isnone(k.v(par)), V.VNone, k.h0(
                "components", V.vo(k.v(par)))))
    k.prove("D03", "value:parent, abstractness and finality recorded", And(
        k.h1("parent", rv.t) == k.v(par),
        k.h1("is_abstract", rv.t) == k.v(abstract),
        k.h1("is_final", rv.t) == If(isnone(k.v(par)), V.VBool(F), k.h0(
            "is_final", V.vo(k.v(par))))))
    k.prove("E01", "value:no checks yet",
            k.h1("$len", V.vo(k.h1("checks", rv.t))) == 0)
    k.prove("D03", "value:nothing frozen yet",
            k.h1("$len", V.vo(k.h1("frozen", rv.t))) == 0)


# ------------------------------------------------------------------ scopes
def scope(k):
    A = k.A
    o = k.obj("self", A.Scope)
    lst = k.o0("scope", o.t)
    k.all_elems(lst, lambda q: k.isa(k.elem0(lst, q), A.Symbol_Table))
    n = k.h0("$len", lst)
    t = Tab(k.i)
    return o, lst, n, t


# the entity of that spelling in the innermost of the first n tables
INNER = z3.Function("innermost_entity", I, S_, I, V)


def inner(t, lst, name, n):
    """INNER unfolded once"""
    tab = z3.Select(t.h("$elem", lst), n - 1)
    f = FIND(V.vo(tab), SIMPLE(name))
    t.i.assume(INNER(lst, name, n) == If(
        n <= 0, V.VNone, If(And(Not(isnone(f)), t.h(
            "name", V.vo(f)) == V.VStr(name)), f, INNER(lst, name, n - 1))))
    return INNER(lst, name, n)


def inv_scope(i, node, it, env_mods, entry_env):
    gh = i.ghost.get("scopes")
    if gh is None or it is None:
        return []
    lst, n, t, name = gh

    def same_so_far(ip, idx):
        if idx is None:
            return None
        inner(t, lst, name, n - idx)
        inner(t, lst, name, n - idx + 1)
        return INNER(lst, name, n - idx) == INNER(lst, name, n)
    return [("not-in-the-inner-ones", same_so_far)]


def scope_contains(k):
    o, lst, n, t = scope(k)
    name = k.arg("name", "str")
    k.i.ghost["scopes"] = (lst, n, t, name.t)
    found = inner(t, lst, name.t, n)
    inner(t, lst, name.t, z3.IntVal(0))
    out, rv = k.call(k.A.Scope, "contains", [o, name])
    if out == "err":
        k.prove(P, "error:never", F)
        return
    k.prove(P, "value:true iff some table of the scope has that spelling",
            k.bool_of(rv) == Not(isnone(found)))
    k.frame(P)


def scope_lookup(k):
    o, lst, n, t = scope(k)
    mh = k.mh()
    k.i.assume(n >= 1)
    tok = k.obj("tok", k.L.Token)
    kind = k.h0("kind", tok.t)
    k.i.assume(Or(*[kind == V.VStr(z3.StringVal(x))
                    for x in ("IDENTIFIER", "BUILTIN")]))
    k.i.assume(V.is_VStr(k.h0("value", tok.t)))
    name = V.vs(k.h0("value", tok.t))
    req = pick_class(k)
    k.i.ghost["scopes"] = (lst, n, t, name)
    found = inner(t, lst, name, n)
    inner(t, lst, name, z3.IntVal(0))
    inner(t, lst, name, z3.IntVal(1))
    out, rv = k.call(k.A.Scope, "lookup", [o, mh, tok, req])
    bad = isnone(found)
    if req.v is not None:
        bad = Or(bad, Not(k.isa(found, req.v)))
    if out == "err":
        k.prove(P, "error:only if the innermost entity of that spelling is "
                "of another kind, or there is none", bad)
        return
    k.prove(P, "error:reported if the innermost entity of that spelling is "
            "of another kind, or there is none", Not(bad))
    k.prove(P, "value:the innermost entity of that spelling",
            k.v(rv) == found)
    k.frame(P)


def declare(S):
    A = S.A
    ST = A.Symbol_Table
    S.contract(ST, "simplified_name", simple_contract)
    S.contract(ST, "contains_raw", contains_raw_contract)
    S.contract(ST, "lookup_direct", lookup_contract(True))
    S.contract(ST, "lookup", lookup_contract(False))

    def contains_c(i, args, kw):
        name = i.force(args[1] if len(args) > 1 else kw["name"])
        s = to_v(i.prog, name)
        from pyvc.core import StrV
        return contains_raw_contract(i, [args[0], StrV(SIMPLE(V.vs(s))),
                                         name], {})
    S.contract(ST, "contains", contains_c)
    S.fields[(A.Scope, "scope")] = ("list", ST)
    S.invariants.append(inv_scan)
    S.invariants.append(inv_scope)


def targets(S):
    def tg(cls, m, f, props=P, keys=()):
        return target("%s.%s" % (cls, m), "trlc.ast.%s.%s" % (cls, m), props,
                      f, [("trlc.ast", "%s.%s" % (cls, m))] + list(keys))
    ST = "Symbol_Table"
    return [
        tg(ST, "simplified_name", simplified_name),
        tg(ST, "contains_raw", contains_raw),
        tg(ST, "contains", contains),
        tg(ST, "lookup_direct", lookup_direct),
        tg(ST, "lookup_assuming", lookup_assuming),
        tg(ST, "lookup", lookup),
        tg(ST, "register", register),
        tg(ST, "make_visible", make_visible),
        tg(ST, "__init__", table_init),
        tg("Package", "__init__", package_init),
        tg("Record_Type", "__init__", composite_init, "D01,D03,E01"),
        tg("Scope", "contains", scope_contains),
        tg("Scope", "lookup", scope_lookup),
    ]
