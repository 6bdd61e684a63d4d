"""pyvc.interp - path-wise symbolic execution of the real Python source.

Paths are explored by re-execution with a decision prefix.  Calls with a
contract are replaced by it; other repository functions are inlined; loops
over symbolic sequences are cut by (inferred and checked) invariants.
"""
import ast
import builtins
import enum
import inspect
import time
import types
from fractions import Fraction

import z3

from .core import (ARR_IV, ARR_VB, ARR_VV, CLS, V, AnyV, BoolV, BoundV, CharV,
                   Conc, DictLit, EnumV, FuncV, Infeasible, IntV, IterV, NONE,
                   FALSE, TRUE, ObjV, PyRaise, RealV, SliceV, StrV, SuperV,
                   STRCH, SV, TEXTSUB, TextV, TupV, Unbound, Unsupported, ch_isalnum,
                   ch_isalpha, ch_isascii, ch_isdigit, ch_isspace, conc_to_v,
                   from_v, mkstr, mro_find, to_v)

T_BRANCH = 2000      # ms, feasibility checks
T_QUANT = 200        # ms, feasibility under quantified facts
T_PROVE = 8000       # ms, obligations


class Obligation:
    def __init__(self, name, line, status, model=None, seconds=0.0,
                 backend="z3", kind="post"):
        self.name = name
        self.line = line
        self.status = status        # discharged | refuted | unknown
        self.model = model
        self.seconds = seconds
        self.backend = backend
        self.kind = kind

    def __repr__(self):
        return "%s@%s:%s" % (self.name, self.line, self.status)


class ReturnX(Exception):
    def __init__(self, val):
        self.val = val


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class FieldMap:
    """One heap field: base array plus write log"""
    __slots__ = ("base", "writes")

    def __init__(self, base, writes=()):
        self.base = base
        self.writes = list(writes)      # (ref term, V term)

    def copy(self):
        return FieldMap(self.base, self.writes)

    def term(self):
        t = self.base
        for r, v in self.writes:
            t = z3.Store(t, r, v)
        return t


def same(a, b):
    return a.eq(b)


# references of objects created on this path are -FRESH0-1, -FRESH0-2, ...
FRESH0 = 5000000


def is_fresh(r):
    return z3.is_int_value(r) and r.as_long() < 0


class Frame:
    def __init__(self, env, modname, fn, cls=None, parent=None):
        self.env = env
        self.modname = modname
        self.fn = fn
        self.cls = cls
        self.parent = parent            # closure frame env chain


class Interp:
    def __init__(self, prog, specs):
        self.prog = prog
        self.specs = specs
        self.obligations = []
        self.seen_obl = {}
        self.stats = dict(branch=0, solver_s=0.0, paths=0)
        self.deadline = None
        self.quiet = 0            # >0: do not record obligations (sub runs)
        self.inline_depth = 0
        self.reset()

    # ------------------------------------------------------------ run state
    def reset(self):
        self.pc = []
        self.pc_ids = {}
        self.new_solver()
        self.heap = {}
        self.counter = 0
        self.alloc_n = 0
        self.fresh_n = FRESH0
        self.ctx = 0
        self.ctx_n = 0
        self.prefix = []
        self.pos = 0
        self.pending = []
        self.stack = []
        self.fresh_log = []
        self.writes_log = []
        self.cut = None
        self.line = 0
        self.allocated = {}
        self.known_cls = {}
        self.ghost = {}

    def fresh_name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def fresh(self, base, sort):
        c = z3.Const(self.fresh_name(base), sort)
        self.fresh_log.append(c)
        return c

    def fresh_any(self, base, spec=None):
        t = self.fresh(base, V)
        return self.typed(t, spec) if spec is not None else AnyV(t)

    def fresh_str(self, base="str"):
        return StrV(self.fresh(base, z3.StringSort()))

    def new_ref(self, cls):
        self.fresh_n += 1
        r = z3.IntVal(-self.fresh_n)
        self.assume(CLS(r) == self.prog._cls_id(cls))
        self.known_cls[r.as_long()] = cls
        return r

    # --------------------------------------------------------------- solver
    def assume(self, f):
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return
        n = len(self.pc)
        k = f.get_id()
        at = self.pc_ids.get(k)
        if at is not None and at < n and self.pc[at].get_id() == k:
            return
        self.pc_ids[k] = n
        self.pc.append(f)
        self.add_fact(f)

    def add_fact(self, f):
        self.solver.add(f)
        if has_quantifier(f):
            self.nquant += 1
        else:
            self.qf.add(f)

    def new_solver(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", T_BRANCH)
        self.qf = z3.Solver()
        self.qf.set("timeout", T_BRANCH)
        self.nquant = 0

    def check_time(self):
        if self.deadline is not None and time.process_time() > self.deadline:
            raise Unsupported("time budget of this function exhausted")

    def feasible(self, f):
        self.check_time()
        self.stats["branch"] += 1
        t = time.time()
        r = self.qf.check(f)
        if r != z3.unsat and self.nquant and not self.quiet and \
           not self.ghost.get("plain_branch"):
            # quantified facts only refine: undecided counts as feasible
            self.solver.set("timeout", T_QUANT)
            r = self.solver.check(f)
            self.solver.set("timeout", T_BRANCH)
        self.stats["solver_s"] += time.time() - t
        return r != z3.unsat

    def branch(self, cond):
        """Fork on a Boolean term; returns the decision on this path"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.assume(cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond)) if t else True
        if t and f:
            self.pending.append(self.prefix + [False])
            d = True
        else:
            d = bool(t)
        self.prefix = self.prefix + [d]
        self.pos += 1
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """Unconditional n-way fork"""
        for k in range(n - 1):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
            else:
                self.pending.append(self.prefix + [False])
                d = True
                self.prefix = self.prefix + [d]
                self.pos += 1
            if d:
                return k
        return n - 1

    def valid(self, f, timeout=T_BRANCH):
        """Is f implied by the path condition (no recording)"""
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return True
        self.check_time()
        t = time.time()
        self.solver.set("timeout", timeout)
        r = self.solver.check(z3.Not(f))
        self.solver.set("timeout", T_BRANCH)
        self.stats["solver_s"] += time.time() - t
        return r == z3.unsat

    def prove(self, name, f, kind="post"):
        if self.quiet:
            self.assume(f)
            return
        self.check_time()
        t = time.time()
        s = z3.Solver()
        s.set("timeout", T_PROVE)
        for p in self.pc:
            s.add(p)
        s.add(z3.Not(f))
        r = s.check()
        backend = "z3"
        model = None
        if r == z3.unsat:
            st = "discharged"
        elif r == z3.sat:
            st = "refuted"
            model = self.describe_model(s.model())
        else:
            st = "unknown"
            model = s.reason_unknown()
            r2 = cvc5_check(s, T_PROVE)
            if r2 == "unsat":
                st, backend = "discharged", "cvc5"
            elif r2 == "sat":
                st, backend = "refuted", "cvc5"
        dt = time.time() - t
        self.stats["solver_s"] += dt
        self.obligations.append(
            Obligation(name, self.line, st, model, dt, backend, kind))
        self.assume(f)

    def describe_model(self, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                s = str(m[d])
                out[d.name()] = s if len(s) < 200 else s[:200]
            if len(out) > 60:
                break
        return out

    def safety(self, name, f):
        """Python would raise an internal error unless f"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if self.valid(f, 500):
            if not self.quiet:
                self.obligations.append(
                    Obligation(name, self.line, "discharged", kind="safety"))
            return
        self.prove(name, f, kind="safety")

    # ---------------------------------------------------------------- paths
    def explore(self, fn, max_paths=4000):
        """Run fn() on all paths from the initial state"""
        self.loop_memo = {}
        work = [[]]
        n = 0
        while work:
            p = work.pop()
            n += 1
            if n > max_paths:
                raise Unsupported("more than %d paths" % max_paths)
            self.reset()
            self.prefix = p
            self.pending = []
            try:
                fn()
                self.stats["paths"] += 1
            except Infeasible:
                pass
            work.extend(self.pending)
        return n

    def snapshot(self):
        return dict(pc=len(self.pc),
                    heap={k: v.copy() for k, v in self.heap.items()},
                    envs=[(f, dict(f.env)) for f in self.stack],
                    depth=len(self.stack),
                    fresh_n=self.fresh_n,
                    alloc=dict(self.allocated),
                    known=dict(self.known_cls),
                    ghost=dict(self.ghost))

    def restore(self, s):
        del self.pc[s["pc"]:]
        self.new_solver()
        for p in self.pc:
            self.add_fact(p)
        self.heap = {k: v.copy() for k, v in s["heap"].items()}
        del self.stack[s["depth"]:]
        for f, e in s["envs"]:
            f.env.clear()
            f.env.update(e)
        self.allocated = dict(s["alloc"])
        self.known_cls = dict(s["known"])
        self.ghost = dict(s["ghost"])

    def subexplore(self, fn, max_paths=400):
        """Explore fn() on all paths from the current state; the state is
        restored afterwards.  Returns list of fn results with the path
        condition added by each."""
        snap = self.snapshot()
        saved = (self.prefix, self.pos, self.pending)
        self.quiet += 1
        outer_ctx = self.ctx
        self.ctx_n += 1
        self.ctx = self.ctx_n
        # alternatives are named alike, so that what one of them found out
        # about a loop can be used by the next (see sym_loop)
        first = (self.counter, self.fresh_n)
        last = first
        work = [[]]
        results = []
        try:
            while work:
                p = work.pop()
                if len(results) > max_paths:
                    raise Unsupported("too many paths in loop body")
                self.restore(snap)
                self.prefix, self.pos, self.pending = p, 0, []
                flog = len(self.fresh_log)
                wlog = len(self.writes_log)
                self.counter, self.fresh_n = first
                try:
                    r = fn()
                    results.append((r, list(self.pc[snap["pc"]:]),
                                    list(self.fresh_log[flog:]),
                                    list(self.writes_log[wlog:]),
                                    dict(self.stack[-1].env)
                                    if self.stack else {}))
                except Infeasible:
                    pass
                del self.fresh_log[flog:]
                del self.writes_log[wlog:]
                work.extend(self.pending)
                last = (max(last[0], self.counter),
                        max(last[1], self.fresh_n))
        finally:
            self.quiet -= 1
            self.ctx = outer_ctx
            self.counter = max(last[0], self.counter)
            self.fresh_n = max(last[1], self.fresh_n)
            self.restore(snap)
            self.prefix, self.pos, self.pending = saved
        return results

    # ----------------------------------------------------------------- heap
    def fmap(self, name):
        if name not in self.heap:
            if name == "$len":
                s = z3.ArraySort(z3.IntSort(), z3.IntSort())
            elif name == "$elem":
                s = z3.ArraySort(z3.IntSort(), ARR_IV)
            elif name == "$map":
                s = z3.ArraySort(z3.IntSort(), ARR_VV)
            elif name == "$has":
                s = z3.ArraySort(z3.IntSort(), ARR_VB)
            else:
                s = z3.ArraySort(z3.IntSort(), V)
            self.heap[name] = FieldMap(z3.Const("H_" + name, s))
        return self.heap[name]

    def hread(self, name, ref):
        fm = self.fmap(name)
        for k in range(len(fm.writes) - 1, -1, -1):
            r, v = fm.writes[k]
            if same(r, ref):
                return v
            if is_fresh(r) and (is_fresh(ref) or self.is_old(ref)):
                continue
            if is_fresh(ref) and self.is_old(r):
                continue
            # possible alias: general read
            t = fm.base
            for r2, v2 in fm.writes:
                t = z3.Store(t, r2, v2)
            return z3.simplify(z3.Select(t, ref))
        return z3.Select(fm.base, ref)

    def is_old(self, ref):
        """ref is syntactically not one of this run's fresh references"""
        if z3.is_int_value(ref):
            return ref.as_long() >= 0
        key = ref.get_id()
        if key in self.allocated:
            return True
        return False

    def mark_old(self, ref):
        if not z3.is_int_value(ref) and ref.get_id() not in self.allocated:
            self.allocated[ref.get_id()] = ref
            self.assume(ref >= 0)

    def hwrite(self, name, ref, val):
        fm = self.fmap(name)
        if fm.writes and same(fm.writes[-1][0], ref):
            fm.writes[-1] = (ref, val)
        else:
            fm.writes.append((ref, val))
        self.writes_log.append((name, ref, None))

    # --------------------------------------------------------- object types
    def typed(self, t, spec):
        """Assume that V term t satisfies the type schema spec"""
        sv = from_v(self.prog, t, spec)
        if not isinstance(sv, AnyV):
            if isinstance(sv, ObjV):
                if sv.spec is None:
                    sv.spec = spec
                if not is_fresh(sv.t):
                    self.mark_old(sv.t)
                    f = self.spec_formula(t, spec)
                    self.assume(f)
            return sv
        f = self.spec_formula(t, spec)
        self.assume(f)
        one = self.spec_single(t, spec)
        if one is not None:
            if isinstance(one, ObjV):
                self.mark_old(one.t)
            return one
        return AnyV(t, spec)

    def spec_single(self, t, spec):
        if spec == "int":
            return IntV(V.vi(t))
        if spec == "bool":
            return BoolV(V.vb(t))
        if spec == "real":
            return RealV(V.vr(t))
        if spec == "str":
            return StrV(V.vs(t))
        if spec == "char":
            return CharV(V.vc(t))
        if spec == "none":
            return NONE
        if isinstance(spec, tuple) and spec[0] in ("list", "dict", "set",
                                                   "odict"):
            return ObjV(V.vo(t), spec)
        if isinstance(spec, tuple) and spec[0] == "enum":
            return EnumV(V.ve(t))
        if isinstance(spec, type):
            return ObjV(V.vo(t), spec)
        if isinstance(spec, tuple) and spec[0] == "pair":
            return TupV([self.spec_single(V.v0(t), spec[1]) or
                         AnyV(V.v0(t), spec[1]),
                         self.spec_single(V.v1(t), spec[2]) or
                         AnyV(V.v1(t), spec[2])])
        return None

    def spec_formula(self, t, spec):
        if spec is None or spec == "any":
            return z3.BoolVal(True)
        if spec == "int":
            return V.is_VInt(t)
        if spec == "bool":
            return V.is_VBool(t)
        if spec == "real":
            return V.is_VFrac(t)
        if spec == "str":
            return V.is_VStr(t)
        if spec == "char":
            return z3.And(V.is_VChar(t), V.vc(t) >= 0, V.vc(t) < 0x110000)
        if spec == "none":
            return V.is_VNone(t)
        if isinstance(spec, type):
            return z3.And(V.is_VObj(t), V.vo(t) >= 0,
                          self.prog.isinst(V.vo(t), spec))
        k = spec[0]
        if k == "pair":
            return z3.And(V.is_VPair(t), self.spec_formula(V.v0(t), spec[1]),
                          self.spec_formula(V.v1(t), spec[2]))
        if k == "opt":
            return z3.Or(V.is_VNone(t), self.spec_formula(t, spec[1]))
        if k == "or":
            return z3.Or(*[self.spec_formula(t, s) for s in spec[1:]])
        if k == "enum":
            return z3.And(V.is_VEnum(t),
                          z3.Or(*[V.ve(t) == self.prog.enum_id(e)
                                  for e in spec[1]]))
        if k == "list":
            return z3.And(V.is_VObj(t), V.vo(t) >= 0,
                          CLS(V.vo(t)) == self.prog._cls_id(list),
                          z3.Select(self.fmap("$len").term(), V.vo(t)) >= 0)
        if k in ("dict", "odict"):
            return z3.And(V.is_VObj(t), V.vo(t) >= 0,
                          CLS(V.vo(t)) == self.prog._cls_id(dict),
                          z3.Select(self.fmap("$len").term(), V.vo(t)) >= 0)
        if k == "set":
            return z3.And(V.is_VObj(t), V.vo(t) >= 0,
                          CLS(V.vo(t)) == self.prog._cls_id(set),
                          z3.Select(self.fmap("$len").term(), V.vo(t)) >= 0)
        raise Unsupported("schema %r" % (spec,))

    def pick_spec(self, spec, want):
        """Sub-schema of spec describing an object value"""
        if spec is None or isinstance(spec, (str, type)):
            return spec
        if spec[0] == "opt":
            return self.pick_spec(spec[1], want)
        if spec[0] == "or":
            for s in spec[1:]:
                if isinstance(s, tuple) and s[0] == want:
                    return s
            return None
        return spec

    # ----------------------------------------------------- value refinement
    def force(self, sv):
        """Resolve an AnyV to a typed value, forking on its constructor"""
        if not isinstance(sv, AnyV):
            return sv
        t = sv.t
        s2 = from_v(self.prog, t, sv.spec)
        if not isinstance(s2, AnyV):
            return s2
        if "char" not in str(sv.spec):
            # strings are stored as VStr unless the schema says "char"
            self.assume(z3.Not(V.is_VChar(t)))
        if "pair" not in str(sv.spec):
            # tuples are stored only where the schema says so
            self.assume(z3.Not(V.is_VPair(t)))
        elif self.branch(V.is_VPair(t)):
            sp = self.pick_spec(sv.spec, "pair")
            return self.typed(t, sp) if isinstance(sp, tuple) and \
                sp[0] == "pair" else TupV([AnyV(V.v0(t)), AnyV(V.v1(t))])
        for rec, mk in ((V.is_VNone, lambda: NONE),
                        (V.is_VObj, lambda: ObjV(V.vo(t), sv.spec)),
                        (V.is_VInt, lambda: IntV(V.vi(t))),
                        (V.is_VBool, lambda: BoolV(V.vb(t))),
                        (V.is_VStr, lambda: StrV(V.vs(t))),
                        (V.is_VFrac, lambda: RealV(V.vr(t))),
                        (V.is_VEnum, lambda: EnumV(V.ve(t))),
                        (V.is_VChar, lambda: CharV(V.vc(t)))):
            if self.branch(rec(t)):
                r = mk()
                if isinstance(r, ObjV):
                    self.mark_old(r.t)
                    if not isinstance(sv.spec, (type, type(None))):
                        for w in ("list", "dict", "set", "odict"):
                            sp = self.pick_spec(sv.spec, w)
                            if isinstance(sp, tuple) and sp[0] == w:
                                r.spec = sp
                return r
        raise Infeasible()

    def need_obj(self, sv, what):
        sv = self.force(sv)
        if isinstance(sv, Conc) and sv.v is None:
            self.safety("no None has attribute (%s)" % what,
                        z3.BoolVal(False))
            raise Infeasible()
        return sv

    # ---------------------------------------------------------------- truth
    def truth(self, sv):
        """Python truth value as python bool (forks)"""
        return self.branch(self.truth_term(sv))

    def truth_term(self, sv):
        if isinstance(sv, AnyV):
            sv = self.force(sv)
        if isinstance(sv, Conc):
            return z3.BoolVal(bool(sv.v))
        if isinstance(sv, BoolV):
            return sv.t
        if isinstance(sv, IntV):
            return sv.t != 0
        if isinstance(sv, RealV):
            return sv.t != 0
        if isinstance(sv, StrV):
            return sv.t != z3.StringVal("")
        if isinstance(sv, CharV):
            return z3.BoolVal(True)
        if isinstance(sv, EnumV):
            return z3.BoolVal(True)
        if isinstance(sv, TupV):
            return z3.BoolVal(len(sv.items) > 0)
        if isinstance(sv, DictLit):
            return z3.BoolVal(len(sv.items) > 0)
        if isinstance(sv, (FuncV, BoundV)):
            return z3.BoolVal(True)
        if isinstance(sv, SliceV):
            return sv.b > sv.a
        if isinstance(sv, ObjV):
            cs = self.classes_of(sv)
            if all(c in (list, dict, set) for c in cs):
                return self.len_term(sv) != 0
            if any(c in (list, dict, set) for c in cs) or \
                    any(hasattr(c, "__bool__") or hasattr(c, "__len__")
                        for c in cs):
                out = []
                if self.branch(z3.Or(*[CLS(sv.t) == self.prog._cls_id(c)
                                       for c in (list, dict, set)])):
                    return self.len_term(sv) != 0
                return z3.BoolVal(True)
            return z3.BoolVal(True)
        raise Unsupported("truth of %s" % sv.__class__.__name__)

    def classes_of(self, sv):
        """Python classes an object may have on this path"""
        if is_fresh(sv.t):
            c = self.known_cls.get(sv.t.as_long())
            if c is not None:
                return [c]
        sp = sv.spec
        while isinstance(sp, tuple) and sp[0] == "opt":
            sp = sp[1]
        if isinstance(sp, tuple) and sp[0] == "list":
            return [list]
        if isinstance(sp, tuple) and sp[0] in ("dict", "odict"):
            return [dict]
        if isinstance(sp, tuple) and sp[0] == "set":
            return [set]
        if isinstance(sp, type):
            ids = self.prog.leafs(sp)
        elif isinstance(sp, tuple) and sp[0] == "or" and \
                all(isinstance(x, type) for x in sp[1:]):
            ids = []
            for x in sp[1:]:
                ids += [n for n in self.prog.leafs(x) if n not in ids]
        else:
            ids = [i for c, i in self.prog.cls_ids.items()
                   if not self.prog.is_abstract(c)]
        return [self.prog.id_cls[i] for i in ids]

    def feasible_classes(self, sv):
        cs = self.classes_of(sv)
        if len(cs) == 1:
            return cs
        return [c for c in cs
                if self.feasible(CLS(sv.t) == self.prog._cls_id(c))]

    # ------------------------------------------------------------- equality
    def py_eq(self, a, b):
        """Python == as Boolean term"""
        if isinstance(a, (Conc,)) and isinstance(b, Conc):
            return z3.BoolVal(a.v == b.v)
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And(*[self.py_eq(x, y)
                            for x, y in zip(a.items, b.items)])
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            # equality with a constant needs no fork
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Conc) and isinstance(y, AnyV):
                    if x.v is None:
                        return V.is_VNone(y.t)
                    if isinstance(x.v, str) and len(x.v) == 1:
                        return z3.Or(
                            z3.And(V.is_VChar(y.t), V.vc(y.t) == ord(x.v)),
                            y.t == conc_to_v(self.prog, x.v))
                    if isinstance(x.v, (str, enum.Enum)):
                        return y.t == conc_to_v(self.prog, x.v)
            return self.py_eq(self.force(a), self.force(b))
        num = (IntV, BoolV, RealV)

        def isnum(x):
            return isinstance(x, num) or (
                isinstance(x, Conc) and isinstance(x.v, (int, Fraction)))
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return a.t == b.t
        for x, y in ((a, b), (b, a)):
            if isinstance(x, BoolV) and isinstance(y, Conc) and \
               isinstance(y.v, bool):
                return x.t if y.v else z3.Not(x.t)
        if isnum(a) and isnum(b):
            x, y = self.num(a), self.num(b)
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            return x == y
        if isnum(a) != isnum(b):
            return z3.BoolVal(False)
        strs = (StrV, CharV, SliceV)

        def isstr(x):
            return isinstance(x, strs) or (isinstance(x, Conc) and
                                           isinstance(x.v, str))
        if isstr(a) and isstr(b):
            return self.str_eq(a, b)
        if isstr(a) != isstr(b):
            return z3.BoolVal(False)

        def isenum(x):
            return isinstance(x, EnumV) or (isinstance(x, Conc) and
                                            isinstance(x.v, enum.Enum))
        if isenum(a) and isenum(b):
            return self.enum_t(a) == self.enum_t(b)
        if isenum(a) != isenum(b):
            return z3.BoolVal(False)
        if isinstance(a, Conc) and a.v is None or \
           isinstance(b, Conc) and b.v is None:
            return z3.BoolVal(False)
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return self.obj_eq(a, b)
        if isinstance(a, (TupV,)) or isinstance(b, (TupV,)):
            return z3.BoolVal(False)
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            return z3.BoolVal(a is b)
        raise Unsupported("== on %s and %s" % (a.__class__.__name__,
                                               b.__class__.__name__))

    def narrow(self, a, b):
        """a, with its class known if it is provably that of b"""
        if len(self.classes_of(a)) > 8:
            cb = self.classes_of(b)
            if len(cb) == 1 and self.valid(
                    CLS(a.t) == self.prog._cls_id(cb[0])):
                return ObjV(a.t, cb[0])
        return a

    def obj_eq(self, a, b):
        if same(a.t, b.t):
            return z3.BoolVal(True)
        conts = (list, dict, set)
        a, b = self.narrow(a, b), self.narrow(b, a)
        ca, cb = self.feasible_classes(a), self.feasible_classes(b)
        if ca == cb == [set] and is_fresh(a.t) and is_fresh(b.t):
            return self.hread("$has", a.t) == self.hread("$has", b.t)
        if any(c in conts for c in ca) and any(c in conts for c in cb):
            # container comparison: uninterpreted, reflexive, symmetric
            f = z3.Function("py_container_eq", z3.IntSort(),
                            z3.IntSort(), z3.BoolSort())
            self.assume(f(a.t, b.t) == f(b.t, a.t))
            oth = [c for c in ca if c not in conts]
            if any(mro_find(c, "__eq__")[0] is not object for c in oth):
                raise Unsupported("mixed __eq__")
            isc = z3.Or(*[CLS(a.t) == self.prog._cls_id(c) for c in conts])
            return z3.Or(a.t == b.t, z3.And(isc, CLS(a.t) == CLS(b.t),
                                            f(a.t, b.t)))
        if all(c in conts for c in ca) != all(c in conts for c in cb):
            return z3.BoolVal(False)
        for c in ca:
            k, m = mro_find(c, "__eq__")
            if k is not None and k is not object:
                ks = set(mro_find(x, "__eq__")[1] for x in ca)
                if len(ks) == 1 and self.prog.func_def(list(ks)[0]):
                    r = self.call_function(list(ks)[0], [a, b], {})
                    return self.truth_term(r)
                raise Unsupported("mixed __eq__")
        return a.t == b.t

    def str_eq(self, a, b):
        if isinstance(b, CharV) or isinstance(b, SliceV):
            a, b = b, a
        if isinstance(a, SliceV):
            if isinstance(b, Conc):
                s = b.v
                return z3.And(a.b - a.a == len(s),
                              *[z3.Select(a.text.arr, a.a + k) == ord(c)
                                for k, c in enumerate(s)])
            if isinstance(b, CharV):
                return z3.And(a.b - a.a == 1,
                              z3.Select(a.text.arr, a.a) == b.t)
            raise Unsupported("slice comparison")
        if isinstance(a, CharV):
            if isinstance(b, CharV):
                return a.t == b.t
            if isinstance(b, Conc):
                return (a.t == ord(b.v) if len(b.v) == 1
                        else z3.BoolVal(False))
            raise Unsupported("char/string comparison")
        return self.str_t(a) == self.str_t(b)

    def str_t(self, sv):
        sv = self.force(sv)
        if isinstance(sv, StrV):
            return sv.t
        if isinstance(sv, Conc) and isinstance(sv.v, str):
            return mkstr(sv.v)
        if isinstance(sv, SliceV) and sv.text.key is not None:
            return TEXTSUB(sv.text.key, sv.a, sv.b)
        raise Unsupported("string term of %s" % sv.__class__.__name__)

    def enum_t(self, sv):
        if isinstance(sv, EnumV):
            return sv.t
        return z3.IntVal(self.prog.enum_id(sv.v))

    def num(self, sv):
        """arithmetic term (Int or Real)"""
        if isinstance(sv, IntV) or isinstance(sv, RealV):
            return sv.t
        if isinstance(sv, BoolV):
            return z3.If(sv.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(sv, Conc) and isinstance(sv.v, bool):
            return z3.IntVal(int(sv.v))
        if isinstance(sv, Conc) and isinstance(sv.v, int):
            return z3.IntVal(sv.v)
        if isinstance(sv, Conc) and isinstance(sv.v, Fraction):
            return z3.RealVal(str(sv.v))
        raise Unsupported("number from %s" % sv.__class__.__name__)

    def is_num(self, sv):
        return isinstance(sv, (IntV, RealV, BoolV)) or (
            isinstance(sv, Conc) and isinstance(sv.v, (int, Fraction)))

    def is_str(self, sv):
        return isinstance(sv, (StrV, CharV, SliceV)) or (
            isinstance(sv, Conc) and isinstance(sv.v, str))

    def py_is(self, a, b):
        if isinstance(a, Conc) and isinstance(b, Conc):
            return z3.BoolVal(a.v is b.v)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Conc) and x.v is None:
                if isinstance(y, AnyV):
                    return V.is_VNone(y.t)
                return z3.BoolVal(isinstance(y, Conc) and y.v is None)
            if isinstance(x, Conc) and isinstance(x.v, bool):
                if isinstance(y, AnyV):
                    return y.t == conc_to_v(self.prog, x.v)
                if isinstance(y, BoolV):
                    return y.t == x.v
                return z3.BoolVal(False)
            if isinstance(x, Conc) and isinstance(x.v, enum.Enum):
                return self.py_eq(x, y)
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            return self.py_is(self.force(a), self.force(b))
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return a.t == b.t
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return a.t == b.t
        if isinstance(a, ObjV) != isinstance(b, ObjV):
            return z3.BoolVal(False)
        if not isinstance(a, (EnumV, FuncV)) or \
           not isinstance(b, (EnumV, FuncV)):
            # identity of numbers and strings is up to the implementation
            r = self.fresh("is", z3.BoolSort())
            self.assume(z3.Implies(r, self.py_eq(a, b)))
            return r
        raise Unsupported("is on %s, %s" % (a, b))

    # ------------------------------------------------------------ functions
    def push(self, frame):
        if len(self.stack) > 60:
            raise Unsupported("inlining too deep")
        self.stack.append(frame)

    def call_def(self, node, modname, args, kwargs, cls=None, closure=None,
                 defaults=None):
        """Inline a function definition"""
        env = self.bind(node.args, modname, args, kwargs, closure)
        fr = Frame(env, modname, node.name if hasattr(node, "name")
                   else "<lambda>", cls, closure)
        fr.node = node
        self.push(fr)
        save = self.line
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom))
                   for n in walk_fn(node)):
                return self.run_generator(node)
            try:
                self.block(node.body)
            except ReturnX as r:
                return r.val
            return NONE
        finally:
            if self.stack and self.stack[-1] is fr:
                self.stack.pop()
            self.line = save

    def run_generator(self, node):
        """Eagerly run a generator without carried loops: list of values"""
        fr = self.stack[-1]
        fr.env["$yield"] = TupV([])
        try:
            self.block(node.body)
        except ReturnX:
            pass
        items = fr.env["$yield"]
        if isinstance(items, TupV):
            its = items.items
            return IterV(z3.IntVal(len(its)), lambda i: its[i], "generator",
                         list(its))
        return items

    def bind(self, a, modname, args, kwargs, closure):
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                raise Unsupported("too many arguments")
            env[a.vararg.arg] = TupV(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            env[a.vararg.arg] = TupV([])
        for n, v in zip(pos, args):
            env[n] = v
        dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for n in pos[len(args):]:
            if n in kwargs:
                env[n] = kwargs.pop(n)
            elif n in dflt:
                env[n] = self.ev_default(dflt[n], modname, closure)
            else:
                raise Unsupported("missing argument %s" % n)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.ev_default(d, modname, closure)
            else:
                raise Unsupported("missing argument %s" % x.arg)
        if kwargs:
            if a.kwarg is None:
                raise Unsupported("unexpected keyword arguments")
            raise Unsupported("**kwargs")
        return env

    def ev_default(self, node, modname, closure):
        fr = Frame({}, modname, "<default>", None, closure)
        self.stack.append(fr)
        try:
            return self.ev(node)
        finally:
            self.stack.pop()

    def call_function(self, fn, args, kwargs, cls=None):
        """Call a real (repository) function object"""
        spec = self.specs.contract_for(fn)
        if spec is not None and not self.specs.is_target(fn, self):
            return spec.apply(self, args, kwargs)
        node = self.prog.func_def(fn)
        if node is None:
            raise Unsupported("external function %s" %
                              getattr(fn, "__qualname__", fn))
        key = (fn.__module__, fn.__qualname__)
        if sum(1 for f in self.stack
               if getattr(f, "key", None) == key) > 0:
            raise Unsupported("recursion without contract: %s" % key[1])
        if cls is None and "." in fn.__qualname__:
            cls = self.find_cls(fn)
        env = self.bind(node.args, fn.__module__, args, kwargs, None)
        fr = Frame(env, fn.__module__, node.name, cls)
        fr.key = key
        fr.node = node
        self.push(fr)
        save = self.line
        try:
            if any(isinstance(n, (ast.Yield, ast.YieldFrom))
                   for n in walk_fn(node)):
                return self.run_generator(node)
            try:
                self.block(node.body)
            except ReturnX as r:
                return r.val
            return NONE
        finally:
            while self.stack and self.stack[-1] is not fr:
                self.stack.pop()
            if self.stack:
                self.stack.pop()
            self.line = save

    def find_cls(self, fn):
        q = fn.__qualname__.rsplit(".", 1)[0]
        return getattr(self.prog.mods.get(fn.__module__), q, None)

    def new_object(self, c, args, kwargs):
        """Instantiate class c"""
        if issubclass(c, BaseException):
            return Conc(("exc", c, args, kwargs))
        if c not in self.prog.cls_ids:
            raise Unsupported("instance of %s" % c.__name__)
        if self.prog.is_abstract(c):
            self.safety("instantiation of abstract %s" % c.__name__,
                        z3.BoolVal(False))
            raise Infeasible()
        ct = self.specs.ctor_contract(c)
        if ct is not None:
            return ct.apply(self, args, kwargs) if hasattr(ct, "apply") \
                else ct(self, args, kwargs)
        r = ObjV(self.new_ref(c), c)
        k, init = mro_find(c, "__init__")
        if k is not object:
            self.call_function(init, [r] + args, kwargs, k)
        return r

    # ------------------------------------------------------------ lists etc
    def len_term(self, sv):
        t = self.hread("$len", sv.t)
        if not is_fresh(sv.t):
            self.assume(t >= 0)
        return t

    def new_list(self, items):
        r = self.new_ref(list)
        self.hwrite("$len", r, z3.IntVal(len(items)))
        arr = z3.Const("emptylist", ARR_IV)
        for k, x in enumerate(items):
            arr = z3.Store(arr, k, to_v(self.prog, x))
        self.hwrite("$elem", r, arr)
        spec = None
        return ObjV(r, ("list", spec))

    def new_dict(self, items=()):
        r = self.new_ref(dict)
        self.hwrite("$len", r, z3.IntVal(0))
        self.hwrite("$has", r, z3.K(V, z3.BoolVal(False)))
        self.hwrite("$map", r, z3.K(V, V.VNone))
        self.hwrite("$elem", r, z3.Const("emptylist", ARR_IV))
        d = ObjV(r, ("dict", None, None))
        for k, v in items:
            self.dict_set(d, k, v)
        return d

    def new_set(self, items=()):
        r = self.new_ref(set)
        self.hwrite("$len", r, z3.IntVal(0))
        self.hwrite("$has", r, z3.K(V, z3.BoolVal(False)))
        d = ObjV(r, ("set", None))
        for k in items:
            self.set_add(d, k)
        return d

    def set_add(self, d, k):
        kv = to_v(self.prog, k)
        has = self.hread("$has", d.t)
        n = self.hread("$len", d.t)
        self.hwrite("$len", d.t, z3.simplify(
            z3.If(z3.Select(has, kv), n, n + 1)))
        self.hwrite("$has", d.t, z3.Store(has, kv, z3.BoolVal(True)))

    def dict_set(self, d, k, v):
        kv = to_v(self.prog, k)
        vv = to_v(self.prog, v)
        has = self.hread("$has", d.t)
        n = self.hread("$len", d.t)
        el = self.hread("$elem", d.t)
        isin = z3.Select(has, kv)
        self.hwrite("$elem", d.t, z3.If(isin, el, z3.Store(el, n, kv)))
        self.hwrite("$len", d.t, z3.If(isin, n, n + 1))
        self.hwrite("$has", d.t, z3.Store(has, kv, z3.BoolVal(True)))
        self.hwrite("$map", d.t, z3.Store(self.hread("$map", d.t), kv, vv))
        self.writes_log.append(("$key", d.t, kv))

    def kind(self, sv, what):
        """sv is an ObjV; decide (forking) whether it is list/dict/set/other
        """
        cs = self.classes_of(sv)
        for c, n in ((list, "list"), (dict, "dict"), (set, "set")):
            if cs == [c]:
                return n
        if not any(c in (list, dict, set) for c in cs):
            return "obj"
        for c, n in ((list, "list"), (dict, "dict"), (set, "set")):
            if c in cs and self.branch(CLS(sv.t) == self.prog._cls_id(c)):
                return n
        return "obj"

    def elem_spec(self, sv, n=1):
        if isinstance(sv.spec, tuple) and len(sv.spec) > n:
            return sv.spec[n]
        return None

    def copy_of(self, sv):
        """the list that sv is an unchanged copy of"""
        for r, src, el in self.ghost.get("copies", ()):
            if same(r, sv.t):
                if same(self.hread("$elem", r), el) and same(
                        self.hread("$elem", src.t), el):
                    return self.copy_of(src)
                return sv
        return sv

    def list_get(self, sv, idx):
        sv = self.copy_of(sv)
        t = z3.Select(self.hread("$elem", sv.t), idx)
        on_read = self.ghost.get("on_list_read")
        if on_read is not None:
            on_read(self, sv.t, idx)
        # instances of assumed universal facts about this list
        for r, fact in self.ghost.get("elem_facts", ()):
            if same(r, sv.t):
                self.assume(fact(idx))
        sp = self.elem_spec(sv)
        if sp is not None:
            return self.typed(t, sp)
        out = from_v(self.prog, t)
        for cs in self.ghost.get("element_pairs", ()):
            # the element is a pair of objects, as can be proved
            parts = [V.v0(t), V.v1(t)]
            g = z3.And(V.is_VPair(t), *[z3.And(
                V.is_VObj(x), V.vo(x) >= 0, self.prog.isinst(V.vo(x), c))
                for x, c in zip(parts, cs)])
            if isinstance(out, AnyV) and self.valid(g):
                self.assume(g)
                for x in parts:
                    self.mark_old(V.vo(x))
                return TupV([ObjV(V.vo(x), c) for x, c in zip(parts, cs)])
        for c in self.ghost.get("element_classes", ()):
            # the element is of this class, as can be proved
            if isinstance(out, AnyV) and self.valid(z3.And(
                    V.is_VObj(t), self.prog.isinst(V.vo(t), c))):
                self.assume(V.is_VObj(t))
                return ObjV(V.vo(t), c)
        return out

    def dict_get(self, sv, k):
        for r, fact in self.ghost.get("on_dict_read", ()):
            if same(r, sv.t):
                self.assume(fact(to_v(self.prog, k)))
        t = z3.Select(self.hread("$map", sv.t), to_v(self.prog, k))
        sp = self.elem_spec(sv, 2)
        if sp is not None:
            return self.typed(t, sp)
        return from_v(self.prog, t)

    def iterate(self, sv):
        """SV -> IterV"""
        if isinstance(sv, IterV):
            return sv
        if isinstance(sv, AnyV):
            sv = self.need_obj(sv, "iteration")
        if isinstance(sv, TupV):
            its = sv.items
            return IterV(z3.IntVal(len(its)), lambda i: its[i], "tuple", its)
        if isinstance(sv, DictLit):
            its = [k for k, _ in sv.items]
            return IterV(z3.IntVal(len(its)), lambda i: its[i], "dict", its)
        if isinstance(sv, Conc) and isinstance(sv.v, (tuple, list, str)):
            its = [Conc(x) for x in sv.v]
            return IterV(z3.IntVal(len(its)), lambda i: its[i], "const", its)
        if isinstance(sv, Conc) and isinstance(sv.v, range):
            its = [Conc(x) for x in sv.v]
            return IterV(z3.IntVal(len(its)), lambda i: its[i], "range", its)
        if isinstance(sv, Conc) and isinstance(sv.v, type) and \
                issubclass(sv.v, enum.Enum):
            its = [Conc(x) for x in sv.v]
            return IterV(z3.IntVal(len(its)), lambda i: its[i], "enum", its)
        if isinstance(sv, ObjV):
            k = self.kind(sv, "iteration")
            n = z3.simplify(self.len_term(sv))
            if k == "list" or k == "dict":
                if z3.is_int_value(n) and n.as_long() <= 12:
                    its = [self.list_get_k(sv, z3.IntVal(i), k)
                           for i in range(n.as_long())]
                    return IterV(n, lambda i: its[i], k, its)
                return IterV(n, lambda i: self.list_get_k(sv, i, k), k)
            raise Unsupported("iteration over %s" % k)
        if isinstance(sv, SliceV) or isinstance(sv, TextV):
            raise Unsupported("iteration over text")
        if isinstance(sv, StrV):
            return IterV(z3.Length(sv.t), lambda i: CharV(STRCH(sv.t, i)),
                         "characters")
        raise Unsupported("iteration over %s" % sv.__class__.__name__)

    def list_get_k(self, sv, i, k):
        if k == "list":
            return self.list_get(sv, i)
        t = z3.Select(self.hread("$elem", sv.t), i)
        sp = self.elem_spec(sv, 1)
        self.assume(z3.Select(self.hread("$has", sv.t), t))
        return self.typed(t, sp) if sp is not None else \
            from_v(self.prog, t)


def walk_fn(node):
    """Walk a function body without entering nested functions"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def cvc5_check(z3solver, timeout):
    """Second back end: hand the SMT-LIB text of the query to cvc5"""
    try:
        import cvc5
    except ImportError:
        return "unknown"
    try:
        text = "(set-logic ALL)\n" + z3solver.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        s = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        s.setOption("tlimit-per", str(timeout))
        s.setOption("strings-exp", "true")
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        out = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            r = cmd.invoke(s, sm)
            r = str(r).strip()
            if r in ("sat", "unsat", "unknown"):
                out = r
        return out
    except Exception:      # pylint: disable=broad-except
        return "unknown"


_QUANT = {}


def has_quantifier(t):
    hit = _QUANT.get(t.get_id())
    if hit is not None:
        return hit[1]
    seen = {}
    todo = [t]
    r = False
    while todo and not r:
        x = todo.pop()
        n = x.get_id()
        if n in seen:
            continue
        hit = _QUANT.get(n)
        if hit is not None:
            r = hit[1]
            continue
        seen[n] = x
        r = z3.is_quantifier(x)
        if not r and z3.is_app(x) and x.num_args():
            todo.extend(x.children())
    # keeps the terms alive, so the ids stay valid
    if r:
        _QUANT[t.get_id()] = (t, r)
    else:
        for n, x in seen.items():
            _QUANT[n] = (x, False)
    return r


def free_consts(t, acc=None):
    seen = set()
    out = []
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and \
               x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            else:
                todo.extend(x.children())
    return out
