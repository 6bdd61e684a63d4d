"""Message accounting, and the verdict of processing (E02)."""
import z3

from pyvc.core import (CLS, V, AnyV, BoolV, Conc, Infeasible, NONE, ObjV,
                       PyRaise, Unsupported, to_v)
from .evalspec import isnone
from .kit import (And, B, F, I, If, Implies, Kit, Not, Or, T, target)
from .msgspec import key_of

P = "E02"


def events(k):
    return k.i.ghost.get("emits", ())


def emit_contract(i, args, kw):
    """raises exactly if fatal; counts and prints are emit's own business"""
    names = ["self", "location", "kind", "message", "fatal", "extrainfo",
             "category"]
    a = dict(zip(names, args))
    a.update(kw)
    E = i.specs.E
    fatal = i.force(a.get("fatal", Conc(True)))
    i.ghost["emits"] = i.ghost.get("emits", ()) + (a,)
    i.hwrite("suppressed", a["self"].t,
             V.VInt(i.fresh("suppressed", z3.IntSort())))
    if i.truth(fatal):
        raise PyRaise(E.TRLC_Error)
    return NONE


def print_model(i, args, kw):
    """print: the text goes to the stream given"""
    mh = i.ghost.get("printmh")
    if mh is None:
        return NONE
    fd = kw.get("file")
    i.prove("messages go to the configured stream",
            F if fd is None else to_v(i.prog, fd) == z3.Select(
                z3.Const("H_out", z3.ArraySort(I, V)), mh.t), P)
    i.ghost["prints"] = i.ghost.get("prints", 0) + 1
    old = i.hread("$printed", mh.t)
    i.hwrite("$printed", mh.t, V.VInt(V.vi(old) + 1))
    return NONE


def str_arg(k, name):
    return k.arg(name, "str")


def m_emit(k):
    E = k.E
    mh = k.mh()
    k.i.ghost["printmh"] = mh
    loc = k.arg("location", E.Location)
    kind = k.arg("kind", ("enum", E.Kind))
    msg = str_arg(k, "message")
    fatal = k.arg("fatal", "bool")
    extra = k.arg("extrainfo", ("opt", "str"))
    cat = k.arg("category", ("opt", "str"))
    out, rv = k.call(E.Message_Handler, "emit",
                     [mh, loc, kind, msg, fatal, extra, cat])
    sup = z3.Select(k.h0("$has", k.o0("suppress_kind", mh.t)), k.v(kind))
    s0, s1 = V.vi(k.h0("suppressed", mh.t)), V.vi(k.h1("suppressed", mh.t))
    k.prove(P, "raise:exactly if fatal, suppressed or not",
            fatal.t == z3.BoolVal(out == "err"))
    k.prove(P, "suppressed:counted", s1 == If(sup, s0 + 1, s0))
    n = k.i.ghost.get("prints", 0)
    k.prove(P, "print:exactly if not suppressed",
            z3.BoolVal(n > 0) == Not(sup))
    k.prove(P, "counts:errors and warnings are the caller's business", And(
        k.h1("errors", mh.t) == k.h0("errors", mh.t),
        k.h1("warnings", mh.t) == k.h0("warnings", mh.t)))


def reporter(method, params, kinds, counter, fatal=None, extra=None,
             category=None):
    """error, warning, check, lex_error: one count, one message"""
    def run(k):
        E = k.E
        mh = k.mh()
        k.i.assume(V.is_VInt(k.h0("errors", mh.t)))
        k.i.assume(V.is_VInt(k.h0("warnings", mh.t)))
        a = {}
        for n in params:
            sp = {"location": E.Location, "message": "str",
                  "explanation": ("opt", "str"), "fatal": "bool",
                  "user": "bool", "check": "str"}[n]
            a[n] = k.arg(n, sp)
        out, rv = k.call(E.Message_Handler, method,
                         [mh] + [a[n] for n in params])
        other = "warnings" if counter == "errors" else "errors"
        k.prove(P, "count:%s incremented by one" % counter,
                k.h1(counter, mh.t) == V.VInt(V.vi(k.h0(counter, mh.t)) + 1))
        k.prove(P, "count:%s unchanged" % other,
                k.h1(other, mh.t) == k.h0(other, mh.t))
        ev = events(k)
        k.prove(P, "message:exactly one", z3.BoolVal(len(ev) == 1))
        if len(ev) != 1:
            return
        e = ev[0]
        want = If(k.bool_of(a["user"]), kind_id(k, kinds[1]),
                  kind_id(k, kinds[0])) if "user" in a \
            else kind_id(k, kinds[0])
        k.prove(P, "message:kind", k.v(e["kind"]) == V.VEnum(want))
        k.prove(P, "message:location and text", And(
            k.v(e["location"]) == k.v(a["location"]),
            k.v(e["message"]) == k.v(a["message"])))
        if "explanation" in a:
            k.prove(P, "message:details", k.v(e.get("extrainfo", NONE)) ==
                    k.v(a["explanation"]))
        if "check" in a:
            k.prove(P, "message:name of the check",
                    k.v(e.get("category", NONE)) == k.v(a["check"]))
        ft = k.bool_of(a["fatal"]) if "fatal" in a else z3.BoolVal(fatal)
        k.prove(P, "raise:exactly if fatal", ft == z3.BoolVal(out == "err"))
    return target("Message_Handler." + method,
                  "trlc.errors.Message_Handler." + method, P, run,
                  [("trlc.errors", "Message_Handler." + method)])


def kind_id(k, name):
    return z3.IntVal(k.prog.enum_id(getattr(k.E.Kind, name)))


def m_init(k):
    E = k.E
    sp = [("brief", "bool"), ("detailed_info", "bool")]
    args = [k.arg(n, s) for n, s in sp]
    out, rv = k.new(E.Message_Handler, args)
    if out == "err":
        k.prove(P, "error:never", F)
        return
    zero = V.VInt(z3.IntVal(0))
    k.prove(P, "counts:start at zero", And(
        *[k.h1(f, rv.t) == zero for f in ("errors", "warnings",
                                          "suppressed")]))
    d = V.vo(k.h1("suppress_kind", rv.t))
    k.prove(P, "suppression:nothing is suppressed at first",
            k.h1("$len", d) == 0)


def m_suppress(k):
    E = k.E
    mh = k.mh()
    kind = k.arg("kind", ("enum", E.Kind))
    d = k.o0("suppress_kind", mh.t)
    q = z3.Const("q", V)
    out, rv = k.call(E.Message_Handler, "suppress", [mh, kind])
    has0, has1 = k.h0("$has", d), k.h1("$has", d)
    k.prove(P, "suppression:exactly that kind is added", z3.ForAll([q], (
        z3.Select(has1, q) == Or(q == k.v(kind), z3.Select(has0, q)))))


# ----------------------------------------------------------- verdict
STAGES = ["build_graph", "parse_rsl_files", "parse_trlc_files",
          "resolve_record_references", "perform_checks"]


def stage(name):
    def f(i, args, kw):
        r = i.fresh(name, B)
        if "stages" in i.ghost:
            i.ghost["stages"] = i.ghost["stages"] + ((name, r),)
        return BoolV(r)
    return f


def process(k):
    M = k.prog.mods["trlc.trlc"]
    o = k.obj("self", M.Source_Manager)
    k.i.ghost["stages"] = ()
    out, rv = k.call(M.Source_Manager, "process", [o])
    st = k.i.ghost["stages"]
    k.prove(P, "error:never raised", z3.BoolVal(out == "ret"))
    if out != "ret":
        return
    ran = [n for n, _ in st]
    res = And(T, *[r for _, r in st])
    got = k.v(rv)
    k.prove(P, "result:the symbol table or None",
            Or(isnone(got), got == k.h0("stab", o.t)))
    k.prove(P, "result:None if any stage failed",
            Implies(Not(isnone(got)), res))
    k.prove(P, "result:the symbol table if every stage succeeded",
            Implies(res, Not(isnone(got))))
    every = [s for s in ("build_graph", "parse_rsl_files")] + (
        ["parse_trlc_files", "resolve_record_references", "perform_checks"])
    trlc = V.vb(k.h0("parse_trlc", o.t))
    k.prove(P, "result:a symbol table only after every stage", Implies(
        And(Not(isnone(got)), trlc),
        z3.BoolVal([n for n in ran if n in every] == every)))
    k.prove(P, "result:a symbol table only after both model stages", Implies(
        Not(isnone(got)), z3.BoolVal(ran[:2] == every[:2])))
    lint = V.vb(k.h0("lint_mode", o.t))
    k.prove(P, "result:with lint only after the sanity checks", Implies(
        And(Not(isnone(got)), lint), z3.BoolVal("sanity" in ran)))


RAISES = z3.Function("stage_raises", I, I, B)       # stage, object
PASSES = z3.Function("stage_passes", I, I, B)


def item_stage(cls, method, tag, recursion=True):
    def f(i, args, kw):
        o = args[0]
        t = z3.IntVal(tag)
        if i.branch(RAISES(t, o.t)):
            if tag == 1 and i.branch(RECURSES(o.t)):
                raise PyRaise(RecursionError)
            raise PyRaise(i.specs.E.TRLC_Error)
        return BoolV(PASSES(t, o.t)) if tag == 1 else NONE
    return f


def per_object(method, item, tag):
    """a stage that visits every object of every package"""
    def run(k):
        M = k.prog.mods["trlc.trlc"]
        A = k.A
        o = k.obj("self", M.Source_Manager)
        stab = k.o0("stab", o.t)
        k.i.ghost["tag"] = tag
        pk, np, pat = values_of(k, stab, A.Package)
        out, rv = k.call(M.Source_Manager, method, [o])
        k.prove(P, "error:never raised", z3.BoolVal(out == "ret"))
        if out != "ret":
            return
        k.prove(P, "result:true iff no object of any package failed",
                k.bool_of(rv) == AG(z3.IntVal(tag), stab, pk, np))

    def setup(S):
        S.contract(S.A.Record_Object, item, item_stage(None, item, tag),
                   "proved by its own targets")

    def teardown(S):
        del S.contracts[("trlc.ast", "Record_Object." + item)]
    return target("Source_Manager." + method,
                  "trlc.trlc.Source_Manager." + method, P, run,
                  [("trlc.trlc", "Source_Manager." + method)],
                  setup, teardown)


RECURSES = z3.Function("exceeds_recursion_limit", I, B)


# values(subtype) of a symbol table: a sequence
VALUES_N = z3.Function("stab_values_n", I, I, I)
VALUES_AT = z3.Function("stab_values_at", I, I, I, V)


def cid(k, cls):
    p = k.prog if hasattr(k, "prog") else k
    return z3.IntVal(p._cls_id(cls))


def values_of(k, stab, cls):
    c = cid(k, cls)
    return c, VALUES_N(stab, c), lambda q: V.vo(VALUES_AT(stab, c, q))


def values_contract(i, args, kw):
    from pyvc.core import IterV
    st = args[0]
    sub = args[1] if len(args) > 1 else kw.get("subtype", NONE)
    if not isinstance(sub, Conc):
        raise Unsupported("values of a computed type")
    cls = sub.v if sub.v is not None else i.specs.A.Entity
    c = cid(i.prog, cls)
    n = VALUES_N(st.t, c)
    i.assume(n >= 0)

    def at(q):
        return i.typed(VALUES_AT(st.t, c, q), cls)
    return IterV(n, at, ("values", st.t, c))


# recursive definition of "every one of the first n elements is good"
AG = z3.Function("all_good", I, I, I, I, B)     # stage, table, class, n


def good_elem(k, tag, st, c, q):
    """of a package: all its objects are good"""
    t = z3.IntVal(tag)
    el = V.vo(VALUES_AT(st, c, q))
    if c.as_long() == k.prog._cls_id(k.specs.A.Package):
        sy = V.vo(z3.Select(z3.Const("H_symbols", z3.ArraySort(I, V)), el))
        r = cid(k.prog, k.specs.A.Record_Object)
        return AG(t, sy, r, VALUES_N(sy, r))
    # resolving references has no verdict but the exception
    return And(Not(RAISES(t, el)), PASSES(t, el) if tag == 1 else T)


def all_good(k, it, idx, tag):
    """every element of the first idx passes its stage without raising"""
    d = it.desc
    if not (isinstance(d, tuple) and d[0] == "values"):
        return None
    t = z3.IntVal(tag)
    k.assume(AG(t, d[1], d[2], idx) == Or(idx <= 0, And(
        AG(t, d[1], d[2], idx - 1),
        good_elem(k, tag, d[1], d[2], idx - 1))))
    return AG(t, d[1], d[2], idx)


def inv_ok(i, node, it, env_mods, entry_env):
    """candidate: a flag is true iff it was before the loop and every element
    so far passed"""
    out = []
    tag = i.ghost.get("tag")
    if tag is None or it is None:
        return out
    from .msgspec import bool_term
    for name in env_mods:
        v0 = entry_env.get(name)
        t0 = bool_term(i, v0) if v0 is not None else None
        if t0 is None or all_good(i, it, z3.IntVal(0), tag) is None:
            continue

        def cand(ip, idx, name=name, t0=t0):
            if idx is None:
                return None
            t = bool_term(ip, ip.stack[-1].env.get(name))
            if t is None:
                return None
            return t == And(t0, all_good(ip, it, idx, tag))
        out.append((name + ":allgood", cand))
    return out


def declare(S):
    E, A = S.E, S.A
    M = S.prog.mods["trlc.trlc"]
    SM = M.Source_Manager
    S.contract(E.Message_Handler, "emit", emit_contract,
               "proved by the Message_Handler.emit target")
    S.externals[print] = print_model
    S.invariants.append(inv_ok)
    S.contract(A.Symbol_Table, "values", values_contract,
               "trusted: a sequence, a function of table and type")
    F_ = S.fields
    for n, sp in dict(
            suppress_kind=("set", ("enum", E.Kind)), show_details="bool",
            out="any", strip_prefix=("opt", "str"), brief="bool").items():
        F_[(E.Message_Handler, n)] = sp
    F_[(E.Message_Handler, "$printed")] = "int"
    for n, sp in dict(
            mh=E.Message_Handler, stab=A.Symbol_Table, lint_mode="bool",
            parse_trlc="bool", verify_mode="bool", debug_vcg="bool",
            error_recovery="bool", progress_current="int",
            progress_final="int").items():
        F_[(SM, n)] = sp
    for i, n in enumerate(STAGES):
        S.contract(SM, n, stage(n), "proved by its own target")
    lint = S.prog.mods["trlc.lint"]
    S.ctors[lint.Linter] = Contract_new(lint.Linter)
    S.contract(lint.Linter, "perform_sanity_checks", stage("sanity"),
               "returns some Boolean")
    S.contract(lint.Linter, "verify_imports", lambda i, a, k: NONE,
               "trusted: only reports warnings")
    for n in ("context_lines",):
        S.virtual(E.Location, n, lambda i, a, k: context_lines(i),
                  "trusted: returns no or two strings")
    S.virtual(E.Location, "to_string", lambda i, a, k: i.fresh_str("loc"),
              "trusted: returns some string (only used in messages)")


def context_lines(i):
    if i.branch(i.fresh("has_context", B)):
        return i.new_list([i.fresh_str("line"), i.fresh_str("marker")])
    return i.new_list([])


def Contract_new(cls):
    from .base import Contract

    def f(i, args, kw):
        r = i.new_ref(cls)
        return ObjV(r, cls)
    return Contract(cls.__name__, f, "trusted: creates an object")


def targets(S):
    full = ["location", "message", "explanation", "fatal", "user"]
    ts = [
        target("Message_Handler.emit", "trlc.errors.Message_Handler.emit", P,
               m_emit, [("trlc.errors", "Message_Handler.emit")]),
        reporter("error", full, ("SYS_ERROR", "USER_ERROR"), "errors"),
        reporter("warning", ["location", "message", "explanation", "user"],
                 ("SYS_WARNING", "USER_WARNING"), "warnings", fatal=False),
        reporter("check", ["location", "message", "check", "explanation"],
                 ("SYS_CHECK",), "warnings", fatal=False),
        reporter("lex_error", ["location", "message"], ("SYS_ERROR",),
                 "errors", fatal=True),
        target("Message_Handler.__init__",
               "trlc.errors.Message_Handler.__init__", P, m_init,
               [("trlc.errors", "Message_Handler.__init__")]),
        target("Message_Handler.suppress",
               "trlc.errors.Message_Handler.suppress", P, m_suppress,
               [("trlc.errors", "Message_Handler.suppress")]),
        target("Source_Manager.process", "trlc.trlc.Source_Manager.process",
               P, process, [("trlc.trlc", "Source_Manager.process")]),
    ]
    ts.append(per_object("perform_checks", "perform_checks", 1))
    ts.append(per_object("resolve_record_references", "resolve_references",
                         2))
    return ts
