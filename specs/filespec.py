"""Files (B02, D01, F01, F02, I01, J01): preambles, the items of a file and
what is done after an error in one of them."""
import z3

from pyvc.core import V, BoolV, Conc, NONE, ObjV, PyRaise
from . import parsespec, valuespec
from .dataspec import bind
from .declspec import Patch, begin, bool_term, count, counted
from .evalspec import isnone
from .kit import And, B, F, I, If, Implies, Not, Or, T, target
from .parsespec import (NODE, PUSH, is_kind, is_kw, pos, ref_of, scope_state,
                        setpos, token, value_of)
from .symspec import SIMPLE

ITEM = {"rsl": ("checks", "type", "abstract", "final", "tuple", "enum"),
        "trlc": ("section",)}


# --------------------------------------------------------- type declaration
def dispatch(k):
    A = k.A
    o, p, n, pkg = begin(k)
    i = k.i
    i.ghost["level"] = None
    out, rv = k.call(k.S.P.Parser, "parse_type_declaration", [o])
    k.prove("D01,J01", "error:none is reported here",
            z3.BoolVal(not i.ghost.get("msgs", ())))
    if out == "err":
        return
    t = token(i, p, n)
    node = lambda s: NODE(z3.StringVal(s), p, n)
    k.prove("B02,D01", "value:the enumeration, tuple or record that is "
            "declared here", ref_of(rv) == If(
                is_kw(t, "enum"), node("enum"), If(is_kw(t, "tuple"), node(
                    "tuple"), node("record"))))
    k.frame("D01", lambda f, x: f[0] == "$")


# ----------------------------------------------------------------- preamble
def preamble(kind):
    def run(k):
        A = k.A
        o, p, n, old = begin(k)
        i = k.i
        cu, stab, ds = k.o0("cu", p), k.o0("stab", p), k.o0(
            "default_scope", p)
        st = scope_state(i, ds)
        t = token(i, p, n + 1)
        pkgs = {}
        known = i.fresh("declared", B)
        i.hwrite("package", cu, V.VNone)

        def c_contains(i, a, kw):
            x = bind(["self", "name"], a, kw)
            i.prove("package:looked for where packages are declared, by the "
                    "name that is written", And(
                        x["self"].t == stab, parsespec.to_v(
                            i.prog, x["name"]) == value_of(t)), "D01,F01")
            return BoolV(known)

        def c_lookup(i, a, kw):
            x = bind(["self", "mh", "referencing_token",
                      "required_subclass"], a, kw)
            i.prove("package:found where packages are declared", And(
                x["self"].t == stab, V.VObj(i.need_obj(
                    x["referencing_token"], "token").t) == t, z3.BoolVal(
                        isinstance(x.get("required_subclass"), Conc) and
                        x["required_subclass"].v is A.Package)), "D01,F01")
            if i.choose(2) == 0:
                raise PyRaise(i.specs.E.TRLC_Error)
            r = ObjV(i.fresh("found", I), A.Package)
            i.mark_old(r.t)
            i.assume(And(r.t >= 0, i.prog.isinst(r.t, A.Package)))
            pkgs["found"] = r.t
            return r

        def c_register(i, a, kw):
            x = bind(["self", "mh", "entity"], a, kw)
            e = i.need_obj(x["entity"], "entity")
            f = lambda name: i.hread(name, e.t)
            i.prove("package:declared with the name and place written", And(
                x["self"].t == stab, i.prog.isinst(e.t, A.Package),
                f("name") == value_of(t), f("location") == parsespec.h0(
                    "location", V.vo(t))), "D01,C01,F01")
            i.prove("package:declared late only by the file that uses it",
                    f("declared_late") == V.VBool(z3.BoolVal(
                        kind == "trlc")), "D01,F01")
            i.prove("package:declared in a trlc file only if no rsl file "
                    "does", Or(z3.BoolVal(kind == "rsl"), Not(known)),
                    "D01,F01")
            if i.choose(2) == 0:
                raise PyRaise(i.specs.E.TRLC_Error)
            pkgs["new"] = e.t
            return NONE

        def c_package(i, a, kw):
            x = bind(["self", "pkg"], a, kw)
            e = i.need_obj(x["pkg"], "package")
            i.safety("a package", i.prog.isinst(e.t, A.Package))
            i.prove("package:the current one is that of the file", And(
                x["self"].t == cu, e.t == pkgs.get("new", pkgs.get(
                    "found", z3.IntVal(-1)))), "D01")
            i.hwrite("package", x["self"].t, V.VObj(e.t))
            return NONE

        def c_import(i, a, kw):
            x = bind(["self", "mh", "t_import"], a, kw)
            b = n + 2 + 2 * count(i)
            i.prove("import:the one that is written", And(
                x["self"].t == cu, is_kw(token(i, p, b), "import"),
                is_kind(token(i, p, b + 1), "IDENTIFIER"),
                V.VObj(i.need_obj(x["t_import"], "token").t) == token(
                    i, p, b + 1)), "D01,F02")
            if i.choose(2) == 0:
                raise PyRaise(i.specs.E.TRLC_Error)
            counted(i)
            return NONE
        ST = A.Symbol_Table
        i.specs.contract(ST, "contains", c_contains)
        i.specs.contract(ST, "lookup", c_lookup)
        i.specs.contract(ST, "register", c_register)
        i.specs.contract(A.Compilation_Unit, "set_package", c_package)
        i.specs.contract(A.Compilation_Unit, "add_import", c_import)

        def invariant(env_mods, entry_env):
            return [("imports", lambda ip, q: And(
                count(ip) >= 0, pos(ip, p) == n + 2 + 2 * count(ip),
                Not(isnone(token(ip, p, pos(ip, p) - 1)))))]
        i.ghost["while invariants"] = invariant
        out, rv = k.call(k.S.P.Parser, "parse_preamble", [o, Conc(kind)])
        k.prove("D01,J01", "error:none is reported here",
                z3.BoolVal(not i.ghost.get("msgs", ())))
        if out == "err":
            return
        e = pos(i, p)
        mine = pkgs.get("new", pkgs.get("found", z3.IntVal(-1)))
        k.prove("D01,F01", "value:the package is declared, or found if "
                "another file declares it", And(
                    is_kw(token(i, p, n), "package"),
                    is_kind(t, "IDENTIFIER"), z3.BoolVal(len(pkgs) == 1),
                    Implies(z3.BoolVal("found" in pkgs), known),
                    i.hread("package", cu) == V.VObj(mine)))
        k.prove("D01", "value:its names are visible in the file",
                scope_state(i, ds) == PUSH(st, V.vo(i.hread(
                    "symbols", mine))))
        k.prove("D01,F02", "value:every import is recorded", And(
            e == n + 2 + 2 * count(i),
            Not(is_kw(token(i, p, e), "import"))))
        k.frame("D01", lambda f, x: f in ("ast_link", "package") or (
            f[0] == "$"))
    return run


def inv_while(i, node, it, env_mods, entry_env):
    g = i.ghost.get("while invariants")
    return [] if g is None or it is not None else g(env_mods, entry_env)


# -------------------------------------------------------------------- files
def moved(i, p, least):
    """the parser has read on, to some later token"""
    n = i.fresh("later", I)
    i.assume(n >= least)
    setpos(i, p, n)
    return n


def lexer_error(i):
    """the lexer may fail whenever tokens are read"""
    if i.choose(2) == 0:
        i.ghost["lexer error"] = True
        raise PyRaise(i.specs.E.TRLC_Error)


def c_skip_line(i, a, kw):
    """proved by Parser_Base.skip_until_newline"""
    p = a[0].t
    moved(i, p, pos(i, p))
    lexer_error(i)
    return NONE


def c_advance(i, a, kw):
    p = a[0].t
    setpos(i, p, pos(i, p) + 1)
    lexer_error(i)
    return NONE


def c_item(what, cls, words, start):
    """an item is parsed, or there is an error in it; what starts with a
    token that can start an item, consumes that token"""
    def f(i, a, kw):
        p = a[0].t
        n = pos(i, p)
        t = token(i, p, n)
        i.ghost["on item"](i, what, n)
        starts = Or(*([is_kw(t, w) for w in words] + [
            is_kind(t, w) for w in start]))
        if i.choose(2) == 0:
            m = i.ghost["error at"] = moved(i, p, n)
            i.assume(Implies(starts, m > n))
            valuespec.report(i)
            e = i.fresh("error", I)
            i.mark_old(e)
            i.assume(And(e >= 0, i.prog.isinst(e, i.specs.E.TRLC_Error)))
            raise PyRaise(i.specs.E.TRLC_Error, ObjV(
                e, i.specs.E.TRLC_Error))
        m = moved(i, p, n + 1)
        i.assume(Not(isnone(token(i, p, m - 1))))
        r = NODE(z3.StringVal(what), p, n)
        i.mark_old(r)
        i.ghost["last item"] = r
        counted(i)
        if cls is None:
            return NONE
        i.assume(And(r >= 0, i.prog.isinst(r, cls)))
        return ObjV(r, cls)
    return f


def c_table(i, a, kw):
    return BoolV(i.fresh("contains", B))


def c_symbol(i, a, kw):
    A = i.specs.A
    r = i.fresh("symbol", I)
    i.mark_old(r)
    i.assume(And(r >= 0, i.prog.isinst(r, A.Entity)))
    return ObjV(r, A.Entity)


def file(kind):
    def run(k):
        A, Ps = k.A, k.S.P.Parser
        o, p, n, pkg = begin(k)
        i = k.i
        cu = k.o0("cu", p)
        recover = V.vb(k.h0("error_recovery", p))
        S = i.specs
        i.assume(k.isa(k.h0("lexer", p), k.L.Lexer_Base))

        def on_item(i, what, m):
            t = token(i, p, m)
            i.prove("item:parsed where it starts", And(
                m == pos(i, p), Not(isnone(t))), "B02,J01")
            if kind == "rsl":
                i.prove("item:checks are parsed as checks, types as types",
                        is_kw(t, "checks") == z3.BoolVal(what == "checks"),
                        "B02,E01")
        i.ghost["on item"] = on_item

        def add(i, a, kw):
            x = bind(["self", "node"], a, kw)
            i.prove("item:added to the file it is in", And(
                x["self"].t == cu, ref_of(x["node"]) == i.ghost.get(
                    "last item", z3.IntVal(-1)), count(i) == count(
                        i, "$regs2") + 1), "E01,I01")
            counted(i, "$regs2")
            return NONE
        words = ITEM["rsl"]
        S.contract(Ps, "parse_check_block", c_item(
            "checks", A.Check_Block, ["checks"], []))
        S.contract(Ps, "parse_type_declaration", c_item(
            "type", A.Concrete_Type, words[1:], []))
        S.contract(Ps, "parse_trlc_entry", c_item(
            "entry", None, ITEM["trlc"], ["IDENTIFIER"]))
        S.contract(A.Compilation_Unit, "add_item", add)
        S.contract(A.Symbol_Table, "contains", c_table)
        S.contract(A.Symbol_Table, "lookup_assuming", c_symbol)
        S.contract(S.P.Parser_Base, "skip_until_newline", c_skip_line)
        S.contract(S.P.Parser_Base, "advance", c_advance)

        def invariant(env_mods, entry_env):
            out = [("position", lambda ip, q: pos(ip, p) >= n),
                   ("reported", lambda ip, q: And(V.is_VInt(ip.hread(
                       "$reported", ip.ghost["mh"])), valuespec.reported(
                           ip) >= 0)),
                   ("recovering", lambda ip, q: Or(
                       recover, valuespec.reported(ip) == 0))]
            m = i.ghost.get("error at")
            if m is not None:
                out.append(("onwards", lambda ip, q: pos(ip, p) >= m))
            if kind == "rsl":
                out.append(("both-counts", lambda ip, idx: count(
                    ip) == count(ip, "$regs2")))
            for v, x in sorted(entry_env.items()):
                if isinstance(x, (BoolV, Conc)) and (isinstance(
                        x, BoolV) or isinstance(x.v, bool)):
                    out.append(("ok %s" % v, lambda ip, q, v=v: bool_term(
                        ip.stack[-1].env[v]) == (
                            valuespec.reported(ip) == 0)))
            return out
        i.ghost["while invariants"] = invariant
        out, rv = k.call(Ps, "parse_%s_file" % kind, [o])
        errs = valuespec.reported(i)
        msgs = i.ghost.get("msgs", ())
        t = token(i, p, pos(i, p))
        if out == "err":
            k.prove("J01,E02", "error:only if the lexer fails, text is left "
                    "at the end, or an item is in error and nobody asked to "
                    "go on", Or(z3.BoolVal(bool(i.ghost.get(
                        "lexer error"))), Not(isnone(t)), And(
                            errs == 1, Not(recover))))
            return
        k.prove("B02,J01", "value:the whole file has been read", isnone(t))
        k.prove("E02,J01", "value:true if and only if no item is in error",
                k.bool_of(rv) == (errs == 0))
        if kind == "rsl":
            k.prove("E01,I01", "value:every item is an item of the file",
                    count(i) == count(i, "$regs2"))
        k.frame("I01", lambda f, x: f in ("ast_link",) or f[0] == "$")
    return run


def skip(k):
    o, p, n, pkg = begin(k)
    i = k.i
    line = lambda m: parsespec.h0("line_no", V.vo(parsespec.h0(
        "location", V.vo(token(i, p, m)))))
    i.ghost["while invariants"] = lambda env_mods, entry_env: [
        ("position", lambda ip, q: And(
            pos(ip, p) >= n, Not(isnone(token(ip, p, n - 1))))),
        ("skipped", lambda ip, q: Implies(
            pos(ip, p) > n, line(pos(ip, p) - 1) == line(n - 1)))]
    out, rv = k.call(k.S.P.Parser_Base, "skip_until_newline", [o])
    if out == "err":
        return
    first = isnone(token(i, p, n - 1))
    e = pos(i, p)
    k.prove("J01", "value:nothing is read before the first token, else the "
            "rest of the line", If(first, e == n, And(e >= n, Or(isnone(
                token(i, p, e)), line(e) != line(n - 1)), Implies(
                    e > n, line(e - 1) == line(n - 1)))))
    k.frame("J01", lambda f, x: f[0] == "$")


# ------------------------------------------------------------------ imports
def add_import(k):
    A = k.A
    i = k.i
    o = k.obj("self", A.Compilation_Unit)
    mh = k.mh()
    tok = k.obj("t_import", k.L.Token)
    pkg = k.o0("package", o.t)
    i.assume(And(k.isa(k.h0("package", o.t), A.Package),
                 V.is_VStr(k.h0("name", pkg)), V.is_VStr(k.h0(
                     "value", tok.t)),
                 k.h0("kind", tok.t) == parsespec.vs("IDENTIFIER")))
    lst = k.o0("raw_imports", o.t)
    ln, el = k.h0("$len", lst), k.h0("$elem", lst)
    i.assume(ln >= 0)
    k.all_elems(lst, lambda q: k.isa(k.elem0(lst, q), k.L.Token))
    name = k.h0("value", tok.t)
    q = z3.Int("q_import")
    same = lambda q: k.h0("value", V.vo(z3.Select(el, q))) == name
    i.ghost["for invariants"] = lambda env_mods, entry_env: [
        ("none-so-far", lambda ip, idx: z3.ForAll([q], Implies(And(
            q >= 0, q < idx), Not(same(q)))))]
    out, rv = k.call(A.Compilation_Unit, "add_import", [o, mh, tok])
    own = k.h0("name", pkg) == name
    before = z3.Exists([q], And(q >= 0, q < ln, same(q)))
    msgs = i.ghost.get("msgs", ())
    if out == "err":
        k.prove("D01,J01", "error:only for an import of the package itself",
                own)
        return
    k.prove("D01", "value:no package imports itself", Not(own))
    if msgs:
        k.prove("E02,D01", "warning:only for a package that is imported "
                "again", And(before, z3.BoolVal(len(msgs) == 1 and msgs[0][
                    0] == "warning")))
    j = z3.Int("an_import")
    i.assume(And(j >= 0, j < ln))
    now, el1 = k.h1("$len", lst), k.h1("$elem", lst)
    k.prove("D01,F02", "value:recorded, once", And(
        V.vo(k.h1("raw_imports", o.t)) == lst,
        now == If(before, ln, ln + 1),
        z3.Select(el1, j) == z3.Select(el, j)))
    k.prove("D01,F02", "value:the one that is written", Implies(
        Not(before), z3.Select(el1, ln) == V.VObj(tok.t)))
    k.frame("D01", lambda f, x: f[0] == "$" and z3.eq(z3.simplify(
        x), z3.simplify(lst)))


def declare(S):
    S.invariants.append(inv_while)
    S.fields[(S.E.TRLC_Error, "kind")] = ("enum", S.E.Kind)


def targets(S):
    def tg(m, run, props, patch, case="", cls="Parser"):
        return target("%s.%s%s" % (cls, m, case), "trlc.parser.%s.%s" % (
            cls, m), props, run, [("trlc.parser", "%s.%s" % (cls, m))],
                      patch.setup, patch.teardown)
    U, ST, Ps = "Compilation_Unit", "Symbol_Table", "Parser"
    files = Patch([], [
        ("P", Ps, "parse_check_block", None),
        ("P", Ps, "parse_type_declaration", None),
        ("P", Ps, "parse_trlc_entry", None), ("A", U, "add_item", None),
        ("A", ST, "contains", None), ("A", ST, "lookup_assuming", None),
        ("P", "Parser_Base", "skip_until_newline", None),
        ("P", "Parser_Base", "advance", None)])
    node = parsespec.nonterminal
    A = S.A
    return [
        tg("parse_type_declaration", dispatch, "B02,D01,J01", Patch([], [
            ("P", Ps, "parse_enum_declaration", node(
                "enum", A.Enumeration_Type)),
            ("P", Ps, "parse_tuple_declaration", node(
                "tuple", A.Tuple_Type)),
            ("P", Ps, "parse_record_declaration", node(
                "record", A.Record_Type))])),
        tg("skip_until_newline", skip, "J01", Patch(), "", "Parser_Base"),
        target("Compilation_Unit.add_import",
               "trlc.ast.Compilation_Unit.add_import", "D01,F02,E02,J01",
               add_import, [("trlc.ast", "Compilation_Unit.add_import")]),
    ] + [
        tg("parse_preamble", preamble(w), "D01,F01,F02,C01,J01", Patch([], [
            ("A", ST, "contains", None), ("A", ST, "lookup", None),
            ("A", ST, "register", None), ("A", U, "set_package", None),
            ("A", U, "add_import", None)]), "[%s]" % w)
        for w in ("rsl", "trlc")] + [
        tg("parse_%s_file" % w, file(w), "B02,E01,E02,I01,J01", files)
        for w in ("rsl", "trlc")]
