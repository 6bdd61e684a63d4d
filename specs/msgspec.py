"""Message handler (E02) and the execution of checks (E01).

The sequence of messages is the ghost field $log of the message handler, an
uninterpreted term: every operation that may report something maps the old
log to a new one by a function of its arguments, so that equality of logs
means: the same operations in the same order."""
import z3

from pyvc.core import (CLS, V, AnyV, Conc, Infeasible, IterV, NONE, ObjV,
                       PyRaise, Unsupported, mro_find, to_v)
from .base import ARR_VV, EV, ER, Contract
from .evalspec import isnone
from .kit import (And, B, F, I, If, Implies, Kit, Not, Or, T, target)

# one check on one object: does it raise, is it passed, log afterwards
PR = z3.Function("check_raises", I, I, B)
POK = z3.Function("check_passes", I, I, B)
PL = z3.Function("check_log", I, I, I, I)
# the checks belonging to the type of a value
TR = z3.Function("type_checks_raise", I, V, B)
TOK = z3.Function("type_checks_pass", I, V, B)
TL = z3.Function("type_checks_log", I, I, V, I)
CHECKS = z3.Function("checks_of", I, I)
LOG0 = z3.Int("log0")
# folds over a sequence; the first argument names the fold
FL = z3.Function("fold_log", I, I, I, I)
FOK = z3.Function("fold_ok", I, I, B)


def get_log(i, mh):
    return i.ghost["log"]


def log_term(i, mh):
    return V.vi(i.hread("$log", mh.t))


def set_log(i, mh, t):
    i.hwrite("$log", mh.t, V.VInt(t))


class Fold:
    """recursive definition over the elements of a sequence"""

    def __init__(self, k, tag, n, raises, passes, log, l0):
        self.k, self.tag, self.n = k, tag, n
        self.raises, self.passes, self.log, self.l0 = raises, passes, log, l0

    def unfold(self, i, q):
        """definition of the fold at q, instance by instance"""
        t = z3.IntVal(self.tag)
        i.assume(FL(t, self.l0, q) == If(q <= 0, self.l0, self.log(
            FL(t, self.l0, q - 1), q - 1)))
        i.assume(FOK(t, q) == Or(q <= 0, And(FOK(t, q - 1),
                                              self.passes(q - 1))))

    def lt(self, q):
        return FL(z3.IntVal(self.tag), self.l0, q)

    def ok(self, q):
        return FOK(z3.IntVal(self.tag), q)

    def quiet(self, q):
        j = z3.Int("jf%d" % self.tag)
        return z3.ForAll([j], Implies(And(j >= 0, j < q),
                                      Not(self.raises(j))))

    def raised_at(self, log1):
        j = z3.Int("jr%d" % self.tag)
        return z3.Exists([j], And(
            j >= 0, j < self.n, self.raises(j), self.quiet(j),
            log1 == self.log(self.lt(j), j)))


def inv_fold(i, node, it, env_mods, entry_env):
    """candidates: after idx elements log and verdict are those of a fold"""
    out = []
    mh = i.ghost.get("mhref")
    folds = i.ghost.get("folds", ())
    if it is not None:
        hit = [f for f in folds if z3.is_true(z3.simplify(it.len == f.n))]
        folds = hit or folds
    for f in folds:
        def log(ip, idx, f=f):
            if idx is None:
                return None
            f.unfold(ip, idx)
            return log_term(ip, mh) == f.lt(idx)
        out.append(("log%d" % f.tag, log))
        for name in list(entry_env):
            v = entry_env[name]
            def verdict(ip, idx, f=f, name=name):
                if idx is None:
                    return None
                v = ip.stack[-1].env.get(name)
                t = bool_term(ip, v)
                if t is None:
                    return None
                f.unfold(ip, idx)
                return t == And(*[f.ok(idx)] + [
                    g.ok(g.n) for g in ip.ghost["folds"] if g.tag < f.tag])
            if bool_term(i, v) is not None:
                out.append(("%s:verdict%d" % (name, f.tag), verdict))
    return out


def bool_term(i, v):
    if isinstance(v, Conc):
        return z3.BoolVal(v.v) if isinstance(v.v, bool) else None
    try:
        t = to_v(i.prog, v)
    except (Unsupported, AttributeError):
        return None
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().name() == "VBool":
        return t.arg(0)
    if isinstance(v, AnyV) and v.spec == "bool":
        return V.vb(v.t)
    return None


# ------------------------------------------------------------- contracts
def perform_contract(i, args, kw):
    names = ["self", "mh", "composite_object", "gstab"]
    a = dict(zip(names, args))
    a.update(kw)
    c, o, mh = a["self"], i.need_obj(a["composite_object"], "object"), a["mh"]
    set_log(i, mh, PL(log_term(i, mh), c.t, o.t))
    if i.branch(PR(c.t, o.t)):
        raise PyRaise(i.specs.E.TRLC_Error)
    from pyvc.core import BoolV
    return BoolV(POK(c.t, o.t))


def type_checks_contract(i, args, kw):
    names = ["self", "mh", "value", "gstab"]
    a = dict(zip(names, args))
    a.update(kw)
    t, mh = a["self"], a["mh"]
    v = to_v(i.prog, a["value"])
    i.safety("value checked is an expression",
             And(V.is_VObj(v), i.prog.isinst(V.vo(v), i.specs.A.Expression)))
    set_log(i, mh, TL(log_term(i, mh), t.t, v))
    if i.branch(TR(t.t, v)):
        raise PyRaise(i.specs.E.TRLC_Error)
    from pyvc.core import BoolV
    return BoolV(TOK(t.t, v))


def iter_checks_contract(i, args, kw):
    o = args[0]
    r = CHECKS(o.t)
    i.mark_old(r)
    i.assume(CLS(r) == i.prog._cls_id(list))
    i.assume(i.hread("$len", r) >= 0)
    return ObjV(r, ("list", i.specs.A.Check))


def key_of(clsname, method):
    """the function that runs for objects of the class"""
    import trlc.ast as A
    k, _ = mro_find(getattr(A, clsname), method)
    return (k.__module__, k.__name__ + "." + method)


# ------------------------------------------------------- Check.perform
def check_perform(k):
    A = k.A
    c = k.obj("self", A.Check)
    mh = k.mh()
    comp = k.i.force(k.arg("composite_object",
                           ("or", A.Record_Object, A.Tuple_Aggregate)))
    g = k.obj("gstab", A.Symbol_Table)
    rec = k.isa(V.VObj(comp.t), A.Record_Object)
    d = If(rec, V.vo(k.h0("field", comp.t)), V.vo(k.h0("value", comp.t)))
    m = z3.Select(k.i.fmap("$map").term(), d)
    e = k.o0("n_expr", c.t)
    anchor = k.h0("n_anchor", c.t)
    aname = k.h0("name", V.vo(anchor))
    cell = z3.Select(m, aname)
    er, ev = ER(e, F, m), EV(e, F, m)
    sev = k.h0("severity", c.t)
    k.i.assume(Or(*[sev == V.VStr(z3.StringVal(s))
                    for s in ("warning", "error", "fatal")]))
    # the object has a value for every component of its type
    k.i.assume(Implies(Not(isnone(anchor)), And(
        z3.Select(z3.Select(k.i.fmap("$has").term(), d), aname),
        k.isa(cell, A.Expression), V.vo(cell) >= 0)))
    # an omitted component is located at the object
    k.i.assume(Implies(k.isa(cell, A.Implicit_Null),
                       k.h0("location", V.vo(cell)) ==
                       k.h0("location", comp.t)))
    k.i.assume(k.isa(k.typ(e), A.Builtin_Boolean))
    from .evalspec import Ctx
    k.i.assume(k.child_facts(e, Ctx(F, m, None)))
    loc = If(Or(isnone(anchor), k.isa(cell, A.Implicit_Null)),
             k.h0("location", comp.t), k.h0("location", V.vo(cell)))
    fails = And(Not(er), ev == V.VBool(F))
    out, rv = k.call(A.Check, "perform", [c, mh, comp, g])
    msgs = k.i.ghost.get("msgs", ())
    P = "E01"
    fatal = sev == V.VStr(z3.StringVal("fatal"))
    warn = sev == V.VStr(z3.StringVal("warning"))
    k.prove(P, "messages:at most one", z3.BoolVal(len(msgs) <= 1))
    if len(msgs) > 1:
        raise Infeasible()
    if msgs:
        kind, mloc, msg, expl, ftl, user = msgs[0]
        k.prove(P, "message:located at the anchor if that has a value, else "
                "at the object", k.v(mloc) == loc)
        own = Not(isnone(ev))
        k.prove(P, "message:text and details are those of the check",
                Implies(own, And(k.v(msg) == k.h0("message", c.t),
                                 k.v(expl) == k.h0("extrainfo", c.t))))
        k.prove(P, "message:reported as that of a user-defined check",
                Implies(own, k.bool_of(user)))
        k.prove(P, "message:severity as declared", Implies(own, And(
            z3.BoolVal(kind == "warning") == warn,
            z3.BoolVal(kind == "error") == Not(warn),
            k.bool_of(ftl) == fatal)))
        k.prove("E01,A03", "message:a null outcome is a fatal error",
                Implies(Not(own), And(z3.BoolVal(kind == "error"),
                                      k.bool_of(ftl))))
        k.prove(P, "message:only if the check fails or is null",
                And(Not(er), Or(ev == V.VBool(F), isnone(ev))))
    if out == "err":
        k.prove("E01,A03", "error:only if evaluation fails, is null, or the "
                "check is fatal and fails",
                Or(er, isnone(ev), And(fails, fatal)))
        k.prove(P, "error:reported", Or(er, z3.BoolVal(len(msgs) == 1)))
        return
    k.prove("E01,A03", "error:a null outcome stops the object",
            And(Not(er), Not(isnone(ev))))
    k.prove(P, "error:a failing fatal check stops the object",
            Not(And(fails, fatal)))
    k.prove(P, "message:a failing check is reported",
            fails == z3.BoolVal(len(msgs) == 1))
    k.prove(P, "result:true iff passed or only a warning",
            k.bool_of(rv) == Not(And(fails, Not(warn))))
    k.frame(P)


# --------------------------------------------------- iteration over checks
def iter_checks(clsname):
    def run(k):
        A = k.A
        cls = getattr(A, clsname)
        o = k.obj("self", cls)
        own = k.o0("checks", o.t)
        n = k.h0("$len", own)
        k.i.assume(n >= 0)
        parent = k.h0("parent", o.t) if clsname == "Record_Type" else None
        out, rv = k.call(cls, "iter_checks", [o])
        if out == "err":
            k.prove("E01", "error:never", F)
            return
        it = k.i.iterate(rv)
        base = z3.IntVal(0)
        plist = None
        if parent is not None:
            plist = CHECKS(V.vo(parent))
            base = If(isnone(parent), 0, k.h0("$len", plist))
            k.i.assume(k.h0("$len", plist) >= 0)
        k.prove("E01", "value:as many checks as the type and its bases have",
                it.len == base + n)
        j = z3.Int("jsel")
        k.i.assume(And(j >= 0, j < it.len))
        got = k.v(it.at(j))
        want = k.elem0(own, j - base)
        if plist is not None:
            want = If(j < base, k.elem0(plist, j), want)
        k.prove("E01", "value:those of the base types first, in order of "
                "declaration", got == want)
        k.frame("E01")
    return target(clsname + ".iter_checks",
                  "trlc.ast.%s.iter_checks" % clsname, "E01", run,
                  [key_of(clsname, "iter_checks")])


def add_check(k):
    A = k.A
    o = k.arg("self", ("or", A.Record_Type, A.Tuple_Type))
    o = k.i.force(o)
    c = k.obj("n_check", A.Check)
    lst = k.o0("checks", o.t)
    n = k.h0("$len", lst)
    k.i.assume(n >= 0)
    out, rv = k.call(A.Composite_Type, "add_check", [o, c])
    if out == "err":
        k.prove("E01", "error:never", F)
        return
    j = z3.Int("ja")
    k.prove("E01", "value:appended at the end", And(
        k.h1("$len", lst) == n + 1,
        z3.Select(k.h1("$elem", lst), n) == V.VObj(c.t),
        z3.ForAll([j], Implies(And(j >= 0, j < n), z3.Select(
            k.h1("$elem", lst), j) == k.elem0(lst, j)))))
    k.prove("E01", "value:the list of checks stays the same object",
            k.h1("checks", o.t) == k.h0("checks", o.t))


# ------------------------------------------------- checks of types, objects
def start(k):
    mh = k.mh()
    g = k.obj("gstab", k.A.Symbol_Table)
    k.i.ghost["mhref"] = mh
    l0 = V.vi(k.h0("$log", mh.t))
    k.i.assume(V.is_VInt(k.h0("$log", mh.t)))
    return mh, g, l0


def checks_fold(k, tag, lst, obj, l0):
    e = lambda q: V.vo(k.elem0(lst, q))
    f = Fold(k, tag, k.h0("$len", lst), lambda q: PR(e(q), obj),
             lambda q: POK(e(q), obj), lambda l, q: PL(l, e(q), obj), l0)
    k.i.ghost["folds"] = k.i.ghost.get("folds", ()) + (f,)
    k.i.assume(f.n >= 0)
    return f


def type_fold(k, tag, n, typ, val, l0):
    f = Fold(k, tag, n, lambda q: TR(typ(q), val(q)),
             lambda q: TOK(typ(q), val(q)),
             lambda l, q: TL(l, typ(q), val(q)), l0)
    k.i.ghost["folds"] = k.i.ghost.get("folds", ()) + (f,)
    k.i.assume(n >= 0)
    return f


def conclude(k, out, rv, mh, folds, l0):
    P = "E01"
    log1 = log_term(k.i, mh)
    if out == "err":
        alts = []
        pre = T
        for f in folds:
            alts.append(And(pre, f.raised_at(log1)))
            pre = And(pre, f.quiet(f.n))
        k.prove(P, "error:only when a check raises one, with exactly the "
                "messages of the checks before it and its own",
                Or(*alts) if alts else F)
        return
    k.prove(P, "error:not swallowed",
            And(*[f.quiet(f.n) for f in folds]) if folds else T)
    for f in folds:
        f.unfold(k.i, z3.IntVal(0))
        f.unfold(k.i, f.n)
    k.prove(P, "messages:those of every check, in order",
            log1 == (folds[-1].lt(folds[-1].n) if folds else l0))
    k.prove(P, "result:true iff every check passed", k.bool_of(rv) ==
            And(T, *[f.ok(f.n) for f in folds]))
    k.frame(P, lambda field, ref: field == "$log")


def plain_type_checks(clsname):
    def run(k):
        A = k.A
        cls = getattr(A, clsname)
        if clsname == "Type":
            o = k.i.force(k.arg("self", ("or",) + tuple(
                c for c in k.prog.cls_ids if issubclass(c, A.Type) and
                not k.prog.is_abstract(c) and "perform_type_checks" not in
                c.__dict__)))
        else:
            o = k.obj("self", cls)
        mh, g, l0 = start(k)
        v = k.arg("value", A.Expression)
        out, rv = k.call(cls, "perform_type_checks", [o, mh, v, g])
        conclude(k, out, rv, mh, [], l0)
    return target(clsname + ".perform_type_checks",
                  "trlc.ast.%s.perform_type_checks" % clsname, "E01", run,
                  [("trlc.ast", clsname + ".perform_type_checks")])


def value_arg(k, cls):
    v = k.arg("value", ("or", cls, k.A.Implicit_Null))
    return k.i.force(v)


def array_type_checks(k):
    A = k.A
    o = k.obj("self", A.Array_Type)
    mh, g, l0 = start(k)
    v = value_arg(k, A.Array_Aggregate)
    isarr = T if k.i.branch(k.isa(V.VObj(v.t), A.Array_Aggregate)) else F
    lst = k.o0("value", v.t)
    et = k.o0("element_type", o.t)
    k.all_elems(lst, lambda q: Implies(isarr, k.isa(k.elem0(lst, q),
                                                    A.Expression)))
    n = z3.simplify(If(isarr, k.h0("$len", lst), 0))
    f = type_fold(k, 1, n, lambda q: et, lambda q: k.elem0(lst, q), l0)
    out, rv = k.call(A.Array_Type, "perform_type_checks", [o, mh, v, g])
    conclude(k, out, rv, mh, [f], l0)


def comp_fold(k, tag, o, d, on, l0):
    """the type checks of every component value"""
    from .evalmore import COMPS
    A = k.A
    comps = COMPS(o)
    name = lambda q: k.h0("name", V.vo(k.elem0(comps, q)))
    val = lambda q: z3.Select(k.h0("$map", d), name(q))
    k.i.mark_old(comps)
    k.all_elems(comps, lambda q: And(
        k.isa(k.elem0(comps, q), A.Composite_Component),
        V.vo(k.elem0(comps, q)) >= 0,
        k.isa(k.h0("n_typ", V.vo(k.elem0(comps, q))), A.Type),
        Implies(on, And(z3.Select(k.h0("$has", d), name(q)),
                        k.isa(val(q), A.Expression), V.vo(val(q)) >= 0))))
    n = z3.simplify(If(on, k.h0("$len", comps), 0))
    return type_fold(k, tag, n, lambda q: V.vo(k.h0(
        "n_typ", V.vo(k.elem0(comps, q)))), val, l0)


def tuple_type_checks(k):
    A = k.A
    o = k.obj("self", A.Tuple_Type)
    mh, g, l0 = start(k)
    v = value_arg(k, A.Tuple_Aggregate)
    on = T if k.i.branch(k.isa(V.VObj(v.t), A.Tuple_Aggregate)) else F
    f = comp_fold(k, 1, o.t, k.o0("value", v.t), on, l0)
    lst = CHECKS(o.t)
    k.i.mark_old(lst)
    h = checks_fold(k, 2, lst, v.t, f.lt(f.n))
    h.n = z3.simplify(If(on, h.n, 0))
    f.unfold(k.i, f.n)
    out, rv = k.call(A.Tuple_Type, "perform_type_checks", [o, mh, v, g])
    conclude(k, out, rv, mh, [f, h], l0)


def object_checks(k):
    A = k.A
    o = k.obj("self", A.Record_Object)
    mh, g, l0 = start(k)
    t = k.o0("n_typ", o.t)
    f = comp_fold(k, 1, t, k.o0("field", o.t), T, l0)
    lst = CHECKS(t)
    k.i.mark_old(lst)
    h = checks_fold(k, 2, lst, o.t, f.lt(f.n))
    out, rv = k.call(A.Record_Object, "perform_checks", [o, mh, g])
    conclude(k, out, rv, mh, [f, h], l0)


def declare(S):
    A = S.A
    S.contract(A.Check, "perform", perform_contract,
               "proved by the Check.perform target")
    S.virtual(A.Type, "perform_type_checks", type_checks_contract,
              "proved per class by the perform_type_checks targets")
    S.virtual(A.Composite_Type, "iter_checks", iter_checks_contract,
              "proved by the iter_checks targets")
    S.fields[(S.E.Message_Handler, "$log")] = "int"
    S.invariants.append(inv_fold)


def targets(S):
    A = S.A
    return [
        target("Check.perform", "trlc.ast.Check.perform", "E01,A03",
               check_perform, [("trlc.ast", "Check.perform")]),
        iter_checks("Tuple_Type"),
        iter_checks("Record_Type"),
        target("Composite_Type.add_check", "trlc.ast.Composite_Type."
               "add_check", "E01", add_check,
               [("trlc.ast", "Composite_Type.add_check")]),
        plain_type_checks("Type"), plain_type_checks("Union_Type"),
        target("Array_Type.perform_type_checks",
               "trlc.ast.Array_Type.perform_type_checks", "E01",
               array_type_checks,
               [("trlc.ast", "Array_Type.perform_type_checks")]),
        target("Tuple_Type.perform_type_checks",
               "trlc.ast.Tuple_Type.perform_type_checks", "E01",
               tuple_type_checks,
               [("trlc.ast", "Tuple_Type.perform_type_checks")]),
        target("Record_Object.perform_checks",
               "trlc.ast.Record_Object.perform_checks", "E01",
               object_checks,
               [("trlc.ast", "Record_Object.perform_checks")]),
    ]
