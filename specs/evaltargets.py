import z3
from pyvc.core import (CLS, V, Conc, Infeasible, NONE, ObjV, PyRaise,
                       AnyV, Unsupported, mro_find)
from pyvc.interp import is_fresh, ReturnX
from pyvc.verify import Target
from .base import ARR_VV
from .evalspec import Ctx, H, class_specs, isnone, make_ctx, F, T, deep_eq

And, Or, Not, Implies = z3.And, z3.Or, z3.Not, z3.Implies


def self_ref(interp, cls):
    r = z3.Int("self")
    interp.mark_old(r)
    interp.assume(CLS(r) == interp.prog._cls_id(cls))
    return ObjV(r, cls)


def std_args(interp):
    A, E = interp.specs.A, interp.specs.E
    mh = ObjV(z3.Int("mh"), E.Message_Handler)
    interp.mark_old(mh.t)
    interp.assume(CLS(mh.t) == interp.prog._cls_id(E.Message_Handler))
    ctx = interp.typed(z3.Const("context", V),
                       ("opt", ("dict", "str", A.Expression)))
    g = interp.typed(z3.Const("gstab", V), ("opt", A.Symbol_Table))
    return mh, ctx, g


def run_evaluate(clsname, op, specf):
    def one(interp):
        A = interp.specs.A
        cls = getattr(A, clsname)
        o = self_ref(interp, cls)
        mh, ctx, g = std_args(interp)
        ctx = interp.force(ctx)
        h = H(interp)
        c = make_ctx(interp, ctx)
        sp = specf(h, o.t, c)
        interp.assume(sp.wf)
        for k in sp.children:
            interp.assume(h.child_facts(k, c))
        tag = op or ""
        k, fn = mro_find(cls, "evaluate")
        cov = interp.covered
        try:
            rv = interp.call_function(fn, [o, mh, ctx, g], {}, k)
        except PyRaise as e:
            if e.cls is not interp.specs.E.TRLC_Error:
                interp.safety("no %s escapes" % e.cls.__name__, F)
                return
            cov["raise"] = cov.get("raise", 0) + 1
            interp.prove("error:only when the language defines one",
                         Or(sp.null, sp.other), "err")
            return
        cov["return"] = cov.get("return", 0) + 1
        if not isinstance(rv, ObjV):
            interp.safety("evaluate returns a Value", F)
            return
        val = interp.hread("value", rv.t)
        typ = interp.hread("typ", rv.t)
        interp.prove("null:operand rejected", Not(sp.null), "null")
        interp.prove("error:reported when due", Not(sp.other), "err")
        if sp.value is not None:
            interp.prove("value:equals the defined value",
                         val == sp.value, "value")
        interp.prove("type:value belongs to the static type",
                     Or(isnone(val), h.fits(h.typ(o.t), val)), "type")
        frame_ok = all(is_fresh(r) for _, r, _ in interp.writes_log)
        interp.prove("frame:no pre-existing object is modified",
                     z3.BoolVal(frame_ok), "frame")

    def run(interp):
        interp.explore(lambda: one(interp))
    return run


def targets(S):
    out = []
    for clsname, op, sp in class_specs():
        fn = mro_find(getattr(S.A, clsname), "evaluate")[1]
        S_name = "%s.evaluate%s" % (clsname, "[%s]" % op if op else "")
        t = Target(S_name, "trlc.ast." + clsname + ".evaluate",
                   run_evaluate(clsname, op, sp), [])
        t.key = S.key(fn)
        out.append(t)
    return out
