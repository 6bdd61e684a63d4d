"""Helpers to state contracts of functions: symbolic arguments, initial and
final heap, outcome, obligations tagged with the properties they decide."""
import z3

from pyvc.core import (ARR_IV, ARR_VB, ARR_VV, CLS, V, AnyV, BoolV, Conc,
                       Infeasible, IntV, NONE, ObjV, PyRaise, StrV, TupV,
                       Unsupported, mro_find, to_v)
from pyvc.interp import is_fresh
from pyvc.verify import Target
from .evalspec import Ctx, H, isnone, make_ctx
from .base import Contract, ER, EV, EVT

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
T, F = z3.BoolVal(True), z3.BoolVal(False)
I, B = z3.IntSort(), z3.BoolSort()

SORTS = {"$len": z3.ArraySort(I, I), "$elem": z3.ArraySort(I, ARR_IV),
         "$map": z3.ArraySort(I, ARR_VV), "$has": z3.ArraySort(I, ARR_VB)}


def heap0(name):
    """initial heap map of a field"""
    return z3.Const("H_" + name, SORTS.get(name, z3.ArraySort(I, V)))


class Kit(H):
    """One path of one target"""

    def __init__(self, interp):
        super().__init__(interp)
        self.E = interp.prog.mods["trlc.errors"]
        self.L = interp.prog.mods.get("trlc.lexer")
        self.S = interp.specs

    # ------------------------------------------------------------ arguments
    def obj(self, name, cls, exact=True):
        r = z3.Int(name)
        self.i.mark_old(r)
        if exact:
            self.i.assume(CLS(r) == self.prog._cls_id(cls))
        else:
            self.i.assume(self.prog.isinst(r, cls))
        return ObjV(r, cls)

    def arg(self, name, spec):
        return self.i.typed(z3.Const(name, V), spec)

    def mh(self):
        return self.obj("mh", self.E.Message_Handler)

    # ---------------------------------------------------------------- heaps
    def h0(self, field, ref):
        return z3.Select(heap0(field), ref)

    def o0(self, field, ref):
        return V.vo(self.h0(field, ref))

    def h1(self, field, ref):
        return self.i.hread(field, ref)

    def elem0(self, lst, idx):
        return z3.Select(self.h0("$elem", lst), idx)

    # ----------------------------------------------------------------- call
    def call(self, cls, method, args, kwargs=None):
        """('ret', value) or ('err', None); other exceptions are failures"""
        k, fn = mro_find(cls, method)
        fn = fn.__func__ if isinstance(fn, (classmethod,
                                            staticmethod)) else fn
        return self.call_fn(fn, args, kwargs, k)

    def call_fn(self, fn, args, kwargs=None, cls=None):
        try:
            rv = self.i.call_function(fn, args, kwargs or {}, cls)
        except PyRaise as e:
            if e.cls is not self.E.TRLC_Error:
                self.i.safety("no %s escapes" % e.cls.__name__, F)
                raise Infeasible() from None
            self.i.covered["raise"] = self.i.covered.get("raise", 0) + 1
            return "err", None
        self.i.covered["return"] = self.i.covered.get("return", 0) + 1
        return "ret", rv

    def new(self, cls, args, kwargs=None):
        try:
            rv = self.i.new_object(cls, args, kwargs or {})
        except PyRaise as e:
            if e.cls is not self.E.TRLC_Error:
                self.i.safety("no %s escapes" % e.cls.__name__, F)
                raise Infeasible() from None
            self.i.covered["raise"] = self.i.covered.get("raise", 0) + 1
            return "err", None
        self.i.covered["return"] = self.i.covered.get("return", 0) + 1
        return "ret", rv

    def v(self, sv):
        return to_v(self.prog, sv)

    def bool_of(self, sv):
        """truth value of a returned Python bool"""
        if isinstance(sv, Conc):
            return z3.BoolVal(bool(sv.v))
        if isinstance(sv, BoolV):
            return sv.t
        return V.vb(self.v(sv))

    def prove(self, props, name, f):
        self.i.prove(name, f, props)

    def frame(self, props, allowed=lambda field, ref: False):
        """nothing but the allowed locations of the old heap is written"""
        ok = all(is_fresh(r) or n == "$key" or allowed(n, r)
                 for n, r, _ in self.i.writes_log)
        self.i.prove("frame:no other object is modified", z3.BoolVal(ok),
                     props)

    def all_elems(self, lst, fact, n=None):
        """assume fact(i) for every index of the list; instances are also
        supplied wherever the code reads an element"""
        j = z3.Int("el%d" % len(self.i.ghost.get("elem_facts", ())))
        if n is None:
            n = self.h0("$len", lst)
        self.i.assume(n >= 0)
        g = lambda q: Implies(And(q >= 0, q < n), fact(q))
        self.i.assume(z3.ForAll([j], g(j)))
        self.i.ghost["elem_facts"] = self.i.ghost.get(
            "elem_facts", ()) + ((lst, g),)

    def unfold(self, f):
        self.i.assume(f)


ALL = []


def props_of_kind(default):
    def f(ob):
        if ob.kind in ("safety", "termination"):
            return set(default.split(","))
        return set(ob.kind.split(","))
    return f


def target(name, function, props, run, keys, setup=None, teardown=None):
    """run(kit) executes one path; keys: functions verified (not replaced
    by their contracts)"""
    def go(interp):
        interp.explore(lambda: run(Kit(interp)))
    t = Target(name, function, go, [])
    t.keys = keys
    t.props_of = props_of_kind(props)
    t.may = set(props.split(","))
    t.setup = setup
    t.teardown = teardown
    return t
