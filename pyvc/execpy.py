"""pyvc.execpy - statements, expressions, loops and builtins."""
import ast
from collections import OrderedDict
import builtins
import copy as copymod
import difflib
import enum
import inspect
import math as pymath
import os
import types
from fractions import Fraction

import z3

from .core import (ARR_IV, ARR_VB, ARR_VV, CLS, V, AnyV, BoolV, BoundV, CharV,
                   Conc, DictLit, EnumV, FuncV, Infeasible, IntV, IterV, NONE,
                   FALSE, TRUE, ObjV, PyRaise, RealV, SliceV, StrV, SuperV,
                   STRSUB, STRCH, STRCAT, NO_BOUND, SV, TextV, TupV, Unbound, Unsupported, ch_isalnum,
                   ch_isalpha, ch_isascii, ch_isdigit, ch_isspace, conc_to_v,
                   from_v, mkstr, mro_find, to_v)
from .interp import (BreakX, ContinueX, FieldMap, Frame, Interp, ReturnX,
                     free_consts, is_fresh, same)

POWI = z3.Function("py_pow_int", z3.IntSort(), z3.IntSort(), z3.IntSort())
POWR = z3.Function("py_pow_frac", z3.RealSort(), z3.IntSort(), z3.RealSort())
REMATCH = z3.Function("py_re_match", z3.StringSort(), z3.StringSort(),
                      z3.BoolSort())
# objects created by a comprehension: allocation site, iteration -> reference
NEWREF = z3.Function("alloc_ref", z3.IntSort(), z3.IntSort(), z3.IntSort())
NEWREF_ID = z3.Function("alloc_site", z3.IntSort(), z3.IntSort())
NEWREF_IX = z3.Function("alloc_index", z3.IntSort(), z3.IntSort())
STRIPS = {n: z3.Function("py_str_" + n, z3.StringSort(), z3.StringSort())
          for n in ("strip", "rstrip", "lstrip")}
LOWER = z3.Function("py_str_lower", z3.StringSort(), z3.StringSort())
REPLACE = z3.Function("py_str_replace", z3.StringSort(), z3.StringSort(),
                      z3.StringSort(), z3.StringSort())


DEBUG_LOOPS = bool(os.environ.get("PYVC_DEBUG_LOOPS"))

class GenV(SV):
    """Unevaluated generator expression"""
    def __init__(self, node, frame):
        self.node = node
        self.frame = frame


class Exec(Interp):
    handled = None                     # exception that is being handled

    # ----------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, n):
        self.line = getattr(n, "lineno", self.line)
        self.check_time()
        m = getattr(self, "s_" + n.__class__.__name__, None)
        if m is None:
            raise Unsupported("statement %s" % n.__class__.__name__)
        m(n)

    def s_Pass(self, n):
        pass

    def s_Global(self, n):
        raise Unsupported("global")

    def s_Import(self, n):
        raise Unsupported("import")

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Yield):
            v = self.ev(n.value.value) if n.value.value else NONE
            self.do_yield([v])
            return
        if isinstance(n.value, ast.YieldFrom):
            it = self.iterate_any(self.ev(n.value.value))
            env = self.stack[-1].env
            cur = env.get("$yield")
            if it.conc is not None and isinstance(cur, TupV):
                self.do_yield(it.conc)
                return
            env["$yield"] = self.concat_iter(cur, it)
            return
        self.ev(n.value)

    def do_yield(self, vals):
        env = self.stack[-1].env
        cur = env.get("$yield")
        if isinstance(cur, TupV):
            env["$yield"] = TupV(cur.items + list(vals))
            return
        env["$yield"] = self.concat_iter(
            cur, IterV(z3.IntVal(len(vals)), lambda i: vals[i], "y",
                       list(vals)))

    def concat_iter(self, a, b):
        a = self.iterate_any(a)
        b = self.iterate_any(b)
        if a.conc is not None and not a.conc:
            return b
        if b.conc is not None and not b.conc:
            return a

        def at(i):
            if self.branch(i < a.len):
                return a.at(i)
            return b.at(i - a.len)
        return IterV(a.len + b.len, at, "chain")

    def s_Assert(self, n):
        c = self.truth_val(n.test)
        self.safety("assert %s" % ast.unparse(n.test)[:60], c)
        self.assume(c)

    def truth_val(self, node):
        """Truth of an expression as a term; forks only where needed"""
        if self.simple_test(node):
            return self.simple_term(node)
        return self.truth_term(self.ev(node))

    def simple_test(self, n):
        """and/or/not over isinstance(name, ...) and 'name is None': such
        operands have no effects and cannot raise, so no fork is needed"""
        if isinstance(n, ast.BoolOp):
            return all(self.simple_test(x) for x in n.values)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.simple_test(n.operand)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
           n.func.id == "isinstance" and len(n.args) == 2:
            if isinstance(n.args[1], ast.Name) and \
               n.args[1].id in self.stack[-1].env:
                return False
            return self.simple_name(n.args[0])
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
           isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            return self.simple_name(n.left) and \
                isinstance(n.comparators[0], ast.Constant)
        return False

    def simple_name(self, n):
        return isinstance(n, ast.Name)

    def simple_term(self, n):
        if isinstance(n, ast.BoolOp):
            ts = [self.simple_term(x) for x in n.values]
            return z3.And(*ts) if isinstance(n.op, ast.And) else z3.Or(*ts)
        if isinstance(n, ast.UnaryOp):
            return z3.Not(self.simple_term(n.operand))
        return self.truth_term(self.ev(n))

    def s_If(self, n):
        if self.branch(self.truth_val(n.test)):
            self.block(n.body)
        else:
            self.block(n.orelse)

    def s_Return(self, n):
        raise ReturnX(self.ev(n.value) if n.value else NONE)

    def s_Break(self, n):
        raise BreakX()

    def s_Continue(self, n):
        raise ContinueX()

    def s_Raise(self, n):
        if n.exc is None:
            if self.handled is None:
                raise Unsupported("re-raise")
            raise PyRaise(self.handled.cls, self.handled.val)
        v = self.ev(n.exc)
        if isinstance(v, Conc) and isinstance(v.v, tuple) and \
           v.v and v.v[0] == "exc":
            raise PyRaise(v.v[1], v)
        if isinstance(v, Conc) and isinstance(v.v, type):
            raise PyRaise(v.v)
        if isinstance(v, ObjV):
            raise PyRaise(self.classes_of(v)[0], v)
        raise Unsupported("raise")

    def s_Try(self, n):
        try:
            try:
                self.block(n.body)
            except PyRaise as e:
                for h in n.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ht = self.ev(h.type)
                        if isinstance(ht, TupV):
                            cl = tuple(x.v for x in ht.items)
                        else:
                            cl = ht.v
                        match = issubclass(e.cls, cl)
                    if match:
                        if h.name:
                            self.stack[-1].env[h.name] = \
                                e.val if e.val is not None else NONE
                        outer, self.handled = self.handled, e
                        try:
                            self.block(h.body)
                        finally:
                            self.handled = outer
                        break
                else:
                    raise
            else:
                self.block(n.orelse)
        except (ReturnX, PyRaise, BreakX, ContinueX):
            self.block(n.finalbody)
            raise
        self.block(n.finalbody)

    def s_FunctionDef(self, n):
        fr = self.stack[-1]
        fr.env[n.name] = FuncV(n, fr, fr.modname, n.name, fr.cls)

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def s_AugAssign(self, n):
        cur = self.ev(to_load(n.target))
        rhs = self.ev(n.value)
        cur2 = self.force(cur)
        if isinstance(cur2, ObjV) and isinstance(n.op, ast.Add):
            self.list_extend(cur2, rhs)
            self.assign(n.target, cur2)
            return
        self.assign(n.target, self.binop(n.op, cur, rhs))

    def s_Delete(self, n):
        raise Unsupported("del")

    def s_With(self, n):
        raise Unsupported("with")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.stack[-1].env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.need_obj(self.ev(t.value), t.attr)
            if not isinstance(o, ObjV):
                raise Unsupported("attribute store")
            self.store_attr(o, t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iterate_any(v)
            if it.conc is None or len(it.conc) != len(t.elts):
                raise Unsupported("unpacking")
            for e, x in zip(t.elts, it.conc):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            o = self.need_obj(self.ev(t.value), "subscript store")
            k = self.ev(t.slice)
            if not isinstance(o, ObjV):
                raise Unsupported("subscript store")
            kd = self.kind(o, "store")
            if kd == "dict":
                self.dict_set(o, k, v)
            elif kd == "list":
                i = self.num(self.force(k))
                n = self.len_term(o)
                self.safety("list index in range",
                            z3.And(i >= -n, i < n))
                i = z3.If(i < 0, i + n, i)
                self.hwrite("$elem", o.t, z3.Store(
                    self.hread("$elem", o.t), i, to_v(self.prog, v)))
            else:
                raise Unsupported("subscript store")
        else:
            raise Unsupported("assignment target")

    def store_attr(self, o, name, v):
        if isinstance(v, (TupV, DictLit, FuncV, GenV, IterV)) or \
           (isinstance(v, Conc) and isinstance(
               v.v, (type, types.FunctionType, tuple))):
            self.ghost[("attr", str(o.t), name)] = v
            self.ghost["has_attr"] = True
            return
        if isinstance(v, TextV) or (isinstance(v, SliceV) and
                                    v.text.key is None):
            self.ghost[("attr", str(o.t), name)] = v
            self.ghost["has_attr"] = True
            return
        self.ghost.pop(("attr", str(o.t), name), None)
        self.hwrite(name, o.t, to_v(self.prog, v))

    # ---------------------------------------------------------------- loops
    def s_For(self, n):
        it = self.iterate_any(self.ev(n.iter))
        if it.conc is not None:
            broke = False
            for x in it.conc:
                self.assign(n.target, x)
                try:
                    self.block(n.body)
                except ContinueX:
                    pass
                except BreakX:
                    broke = True
                    break
            if not broke:
                self.block(n.orelse)
            return
        self.sym_loop(n, it)

    def s_While(self, n):
        # unroll while the condition is decided syntactically
        for _ in range(40):
            was = self.pos
            c = z3.simplify(self.truth_term(self.ev(n.test)))
            if z3.is_true(c):
                if isinstance(n.test, ast.Constant) or self.pos != was:
                    break
                try:
                    self.block(n.body)
                except ContinueX:
                    pass
                except BreakX:
                    return
                if self.pos != was and self.ghost.get("no_unroll"):
                    break
                continue
            if z3.is_false(c):
                self.block(n.orelse)
                return
            break
        it = self.counted(n)
        if it is None:
            self.sym_loop(n, None)
            return
        name, seq, xs = it
        # while i < len(xs): ... i += 1 ...
        loop = ast.copy_location(ast.For(
            target=ast.copy_location(ast.Name(name, ast.Store()), n),
            iter=n.test, body=n.body, orelse=[]), n)
        loop = self.counted_loops.setdefault(id(n), (n, loop))[1]
        ln = seq.len
        def unchanged():
            if not same(z3.simplify(self.len_term(xs)), ln):
                raise Unsupported("sequence changed in a counted loop")
        try:
            self.sym_loop(loop, IterV(ln, IntV, seq.desc))
        except (ReturnX, PyRaise):
            unchanged()
            raise
        unchanged()
        if isinstance(self.stack[-1].env[name], Unbound):
            # the condition has become false
            self.stack[-1].env[name] = IntV(ln)
            self.block(n.orelse)

    def counted(self, n):
        """(index variable, sequence) of a loop over all indices"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        if isinstance(t.ops[0], ast.Lt):
            i, bound = t.left, t.comparators[0]
        elif isinstance(t.ops[0], ast.Gt):
            i, bound = t.comparators[0], t.left
        else:
            return None
        if not (isinstance(i, ast.Name) and isinstance(bound, ast.Call) and
                isinstance(bound.func, ast.Name) and bound.func.id == "len"
                and len(bound.args) == 1 and not bound.keywords):
            return None
        xs = bound.args[0]
        while isinstance(xs, ast.Attribute):
            xs = xs.value
        if not isinstance(xs, ast.Name):
            return None
        stores = [x for st in n.body for x in ast.walk(st) if isinstance(
            x, ast.Name) and isinstance(x.ctx, ast.Store)]
        if any(x.id == xs.id for x in stores) or len(
                [x for x in stores if x.id == i.id]) != 1:
            return None
        for st in n.body:
            if any(isinstance(x, ast.Continue) for x in ast.walk(st)):
                return None
            one = None
            if isinstance(st, ast.AugAssign) and isinstance(
                    st.op, ast.Add) and isinstance(st.target, ast.Name):
                one = st.target, st.value
            elif isinstance(st, ast.Assign) and len(
                    st.targets) == 1 and isinstance(
                        st.targets[0], ast.Name) and isinstance(
                            st.value, ast.BinOp) and isinstance(
                                st.value.op, ast.Add) and isinstance(
                                    st.value.left, ast.Name) and \
                    st.value.left.id == i.id:
                one = st.targets[0], st.value.right
            if one and one[0].id == i.id:
                if not (isinstance(one[1], ast.Constant) and
                        one[1].value == 1 and one[1].value is not True):
                    return None
                break
        else:
            return None
        v = self.stack[-1].env.get(i.id)
        if not (isinstance(v, Conc) and v.v == 0 and v.v is not False):
            return None
        sv = self.ev(bound.args[0])
        if isinstance(sv, AnyV):
            sv = self.need_obj(sv, "len")
        if not isinstance(sv, ObjV):
            return None
        try:
            seq = self.iterate(sv)
        except Unsupported:
            return None
        if seq.conc is not None or seq.desc != "list":
            return None
        return i.id, seq, sv

    counted_loops = {}

    def kindof(self, sv):
        if isinstance(sv, Conc):
            v = sv.v
            if v is None:
                return "none"
            if isinstance(v, bool):
                return "bool"
            if isinstance(v, enum.Enum):
                return ("enum", v.__class__)
            if isinstance(v, int):
                return "int"
            if isinstance(v, str):
                return "str"
            if isinstance(v, Fraction):
                return "real"
            return "?"
        for c, k in ((IntV, "int"), (BoolV, "bool"), (StrV, "str"),
                     (RealV, "real"), (CharV, "char")):
            if isinstance(sv, c):
                return k
        if isinstance(sv, ObjV):
            if isinstance(sv.spec, tuple):
                return sv.spec
            cs = self.classes_of(sv)
            if isinstance(sv.spec, type):
                return sv.spec
            if len(cs) == 1:
                return cs[0]
            return "any"
        if isinstance(sv, AnyV):
            return sv.spec if sv.spec is not None else "any"
        return "?"

    def havoc(self, env_mods, heap_mods):
        env = self.stack[-1].env
        for name in sorted(env_mods):
            kinds = env_mods[name]
            if "?" in kinds:
                env[name] = Unbound()
                continue
            ks = sorted(kinds, key=str)
            if "any" in kinds:
                env[name] = AnyV(self.fresh("hv_" + name, V))
            elif len(ks) == 1:
                t = self.fresh("hv_" + name, V)
                env[name] = self.typed_any(t, ks[0])
            else:
                t = self.fresh("hv_" + name, V)
                sp = ("or",) + tuple(ks)
                self.assume(z3.Or(*[self.loose_formula(t, k) for k in ks]))
                env[name] = AnyV(t, sp)
        for field in sorted(heap_mods):
            refs = heap_mods[field]
            fm = self.fmap(field)
            if refs is None:
                self.heap[field] = FieldMap(
                    self.fresh("hh_" + field, fm.base.sort()))
                if field == "$len":
                    x = z3.Int("x!")
                    self.assume(z3.ForAll([x], z3.Select(
                        self.heap[field].base, x) >= 0))
            else:
                for r, keys in refs:
                    old = self.hread(field, r)
                    if keys is not None and field in ("$map", "$has"):
                        new = old
                        for k in keys:
                            new = z3.Store(new, k, self.fresh(
                                "hk", V if field == "$map"
                                else z3.BoolSort()))
                    else:
                        new = self.fresh("hf_" + field, old.sort())
                        if field == "$len":
                            self.assume(new >= 0)
                    self.heap[field].writes.append((r, new))

    def loose_formula(self, t, k):
        """schema formula not requiring pre-existing objects"""
        if isinstance(k, type):
            return z3.And(V.is_VObj(t), self.prog.isinst(V.vo(t), k))
        if isinstance(k, tuple) and k[0] in ("list", "dict", "set", "odict"):
            c = {"list": list, "set": set}.get(k[0], dict)
            return z3.And(V.is_VObj(t), CLS(V.vo(t)) == self.prog._cls_id(c))
        if isinstance(k, tuple) and k[0] == "or":
            return z3.Or(*[self.loose_formula(t, x) for x in k[1:]])
        if isinstance(k, tuple) and k[0] == "opt":
            return z3.Or(V.is_VNone(t), self.loose_formula(t, k[1]))
        return self.spec_formula(t, k)

    def typed_any(self, t, k):
        self.assume(self.loose_formula(t, k))
        one = self.spec_single(t, k)
        if one is None:
            return AnyV(t, k)
        return one

    def sym_loop(self, n, it):
        isfor = it is not None
        frame = self.stack[-1]
        targets = set()
        if isfor:
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    targets.add(x.id)
        env_mods = {}
        heap_mods = {}
        ln = it.len if isfor else None
        fresh0 = self.fresh_n

        def one(i, invs):
            """run one iteration; returns outcome"""
            self.havoc(env_mods, heap_mods)
            for f in invs:
                g = f[1](self, i)
                if g is not None:
                    self.assume(g)
            before = dict(frame.env)
            if isfor:
                self.assume(z3.And(i >= 0, i < ln))
                self.assign(n.target, it.at(i))
            else:
                if not self.truth(self.ev(n.test)):
                    raise Infeasible()
            mark = len(self.fresh_log)
            try:
                self.block(n.body)
                out = "next"
            except ContinueX:
                out = "next"
            except (BreakX, ReturnX, PyRaise):
                out = "exit"
            return out, before

        # the analysis of the loop is the same on every path that reaches it
        # with the same decisions
        memo_key = (self.ctx, tuple(self.prefix[:self.pos]), id(n),
                    self.counter, self.fresh_n, len(self.pc))
        memo = self.loop_memo.get(memo_key)
        if memo is not None:
            (em, hm, cands, active, cbody, has_exit, i0,
             c_n, f_n, a_n) = memo
            env_mods.update(em)
            heap_mods.update(hm)
            for c in cands:
                c[1](self, z3.IntVal(0) if isfor else None)
            self.counter, self.fresh_n = c_n, f_n
            self.alloc_n = max(self.alloc_n, a_n)
            if i0 is not None:
                self.fresh_log.append(i0)
        else:
            cands, active, cbody, has_exit, i0 = self.loop_analysis(
                n, isfor, targets, env_mods, heap_mods, one, fresh0, it)
            self.loop_memo[memo_key] = (
                dict(env_mods), dict(heap_mods), cands, active, cbody,
                has_exit, i0, self.counter, self.fresh_n, self.alloc_n)

        def cont(j):
            return z3.substitute(cbody, (i0, j))

        # 4. outcomes
        if self.choose(2) == 0:
            # loop ends because the sequence is exhausted/condition false
            self.havoc(env_mods, heap_mods)
            for f in active:
                g = f[1](self, ln)
                if g is not None:
                    self.assume(g)
            if isfor:
                if has_exit or env_mods or heap_mods:
                    self.assume_forall(z3.IntVal(0), ln, cont)
                for t in targets:
                    frame.env[t] = Unbound()
            else:
                if self.truth(self.ev(n.test)):
                    raise Infeasible()
            self.block(n.orelse)
            return
        i = self.fresh("it", z3.IntSort())
        self.havoc(env_mods, heap_mods)
        for f in active:
            g = f[1](self, i)
            if g is not None:
                self.assume(g)
        if isfor:
            self.assume(z3.And(i >= 0, i < ln))
            if has_exit:
                self.assume_forall(z3.IntVal(0), i, cont)
            self.assign(n.target, it.at(i))
        else:
            if not self.truth(self.ev(n.test)):
                raise Infeasible()
            measure = self.specs.loop_measure(self, n)
        try:
            self.block(n.body)
        except ContinueX:
            pass
        except BreakX:
            return
        if not isfor and measure is not None:
            m0, mf = measure
            m1 = mf(self)
            self.prove("loop variant decreases", z3.And(m1 < m0, m0 >= 0),
                       kind="termination")
        raise Infeasible()

    def loop_analysis(self, n, isfor, targets, env_mods, heap_mods, one,
                      fresh0, it):
        """what a loop changes, its invariants, when it goes on"""
        frame = self.stack[-1]
        ln = it.len if isfor else None
        # 1. modification sets
        for _ in range(8):
            def run():
                i = self.fresh("it", z3.IntSort())
                out, before = one(i, ())
                return out, before, dict(frame.env)
            res = self.subexplore(run)
            grew = False
            for (out, before, after), pc, fl, wl, _e in res:
                if out != "next":
                    continue
                for name, val in after.items():
                    if name in targets or before.get(name) is val:
                        continue
                    ks = env_mods.get(name)
                    if ks is None:
                        ks = set()
                        env_mods[name] = ks
                        grew = True
                        if name in frame.env and not isinstance(
                                frame.env[name], Unbound):
                            ks.add(self.kindof(frame.env[name]))
                        else:
                            ks.add("?")
                    k = self.kindof(val)
                    flat = k[1:] if isinstance(k, tuple) and k[0] == "or" \
                        else (k,)
                    for k in flat:
                        if k not in ks:
                            ks.add(k)
                            grew = True
                fl_ids = set(c.get_id() for c in fl)
                keys = {}
                for field, ref, kv in wl:
                    if field == "$key":
                        keys.setdefault(ref.get_id(), []).append(kv)
                for field, ref, kv in wl:
                    if field == "$key":
                        continue
                    if is_fresh(ref) and ref.as_long() < -fresh0:
                        continue        # allocated by this iteration
                    inv = not any(c.get_id() in fl_ids
                                  for c in free_consts(ref))
                    cur = heap_mods.get(field, [])
                    if not inv:
                        if cur is not None:
                            heap_mods[field] = None
                            grew = True
                        continue
                    if cur is None:
                        continue
                    kl = keys.get(ref.get_id())
                    if kl is not None and any(
                            c.get_id() in fl_ids
                            for k in kl for c in free_consts(k)):
                        kl = None
                    hit = [x for x in cur if same(x[0], ref)]
                    if not hit:
                        heap_mods[field] = cur + [(ref, kl)]
                        grew = True
                    elif field in ("$map", "$has") and hit[0][1] is not None:
                        nk = None
                        if kl is not None:
                            nk = list(hit[0][1])
                            for k in kl:
                                if not any(same(k, q) for q in nk):
                                    nk.append(k)
                        if nk is None or len(nk) != len(hit[0][1]):
                            heap_mods[field] = [
                                x if x is not hit[0] else (ref, nk)
                                for x in cur]
                            grew = True
            if not grew:
                break
        else:
            raise Unsupported("loop modifications do not stabilise")

        # 2. invariants (Houdini over candidates)
        entry_env = dict(frame.env)
        cands = self.specs.loop_candidates(self, n, it, env_mods, entry_env)
        active = []
        for c in cands:
            g = c[1](self, z3.IntVal(0) if isfor else None)
            if g is not None and self.valid(g):
                active.append(c)
            elif DEBUG_LOOPS:
                print("loop", n.lineno, "not on entry:", c[0])
        while active:
            def run2():
                i = self.fresh("it", z3.IntSort())
                out, _ = one(i, active)
                if out != "next":
                    raise Infeasible()
                bad = []
                for c in active:
                    g = c[1](self, i + 1 if isfor else None)
                    if g is None or not self.valid(g, 4000):
                        bad.append(c[0])
                return bad
            bad = set()
            for r in self.subexplore(run2):
                bad.update(r[0])
            if not bad:
                break
            if DEBUG_LOOPS:
                print("loop", n.lineno, "not preserved:", sorted(bad))
            active = [c for c in active if c[0] not in bad]

        # 3. continuation condition as a function of the index
        has_exit = True
        cbody = i0 = None
        if isfor:
            i0 = self.fresh("it", z3.IntSort())

            def run3():
                out, _ = one(i0, active)
                return out
            base_n = self.fresh_n
            res = self.subexplore(run3)
            has_exit = any(r[0] != "next" for r in res)
            disj = []
            for r, pc, fl, wl, _e in res:
                if r != "next":
                    continue
                disj.append(self.per_iteration(self.generalise(
                    z3.And(*pc) if pc else z3.BoolVal(True), fl, i0),
                    i0, base_n))
            cbody = z3.simplify(z3.Or(*disj)) if disj else z3.BoolVal(False)

        return cands, active, cbody, has_exit, i0

    def per_iteration(self, f, i0, base_n):
        """objects created in the iteration become functions of it"""
        new = {}
        todo = [f]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if is_fresh(x) and -x.as_long() > base_n:
                new[x.as_long()] = x
            todo.extend(x.children())
        if not new:
            return f
        sub = [(new[k], NEWREF(z3.IntVal(self.next_alloc()), i0))
               for k in sorted(new)]
        facts = [z3.And(y < -1000000000, NEWREF_ID(y) == y.arg(0),
                        NEWREF_IX(y) == i0) for _, y in sub]
        return z3.And(z3.substitute(f, *sub), *facts)

    def generalise(self, f, fresh, i0):
        """Replace constants created in the iteration by functions of i0"""
        sub = []
        for c in fresh:
            if same(c, i0):
                continue
            fn = z3.Function(c.decl().name() + "@", z3.IntSort(), c.sort())
            sub.append((c, fn(i0)))
        return z3.substitute(f, *sub) if sub else f

    def assume_forall(self, lo, hi, cont):
        j = z3.Int(self.fresh_name("j"))
        body = cont(j)
        f = z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), body))
        self.pc.append(f)
        self.add_fact(f)

    # ------------------------------------------------------- comprehensions
    def gen_paths(self, g, want="value"):
        """Summarise generator expression g over a symbolic iterable.
        Returns (it, i0, paths) with paths = [(kind, cond, value)] as
        functions of i0; kind: 'value' | 'skip' | 'raise'."""
        node = g.node
        if len(node.generators) != 1:
            raise Unsupported("nested comprehension over symbolic sequence")
        comp = node.generators[0]
        self.stack.append(self.gen_frame(g))
        try:
            it = self.iterate_any(self.ev(comp.iter))
            i0 = self.fresh("ci", z3.IntSort())

            def run():
                self.assume(z3.And(i0 >= 0, i0 < it.len))
                wl = len(self.writes_log)
                try:
                    self.assign(comp.target, it.at(i0))
                    for c in comp.ifs:
                        if not self.truth(self.ev(c)):
                            return ("skip", None)
                    v = self.ev(node.elt)
                    if want == "truth":
                        return ("value", self.truth_term(v))
                    if want == "v":
                        return ("value", to_v(self.prog, v),
                                self.created())
                    return ("value", v)
                except PyRaise:
                    return ("raise", None)
            base_n = self.fresh_n
            res = self.subexplore(run)
            paths = []
            for r, pc, fl, wl, _e in res:
                k, v = r[:2]
                cond = self.generalise(z3.And(*pc), fl, i0)
                if v is not None and want in ("truth", "v"):
                    v = self.generalise(v, fl, i0)
                if len(r) < 3:
                    paths.append((k, cond, v))
                    continue
                # objects created by the iteration become functions of it
                sub = [(x, NEWREF(z3.IntVal(self.next_alloc()), i0))
                       for x, _ in r[2] if -x.as_long() > base_n]
                facts = []
                for x, fields in r[2]:
                    if -x.as_long() <= base_n:
                        continue
                    y = z3.substitute(x, *sub)
                    facts += [y < -1000000000, NEWREF_ID(y) == y.arg(0),
                              NEWREF_IX(y) == i0]
                    for fname, val in fields:
                        facts.append(z3.Select(
                            self.fmap(fname).base, y) == z3.substitute(
                                self.generalise(val, fl, i0), *sub))
                if sub:
                    cond = z3.substitute(cond, *sub)
                    v = z3.substitute(v, *sub)
                paths.append((k, cond, v, facts))
            return it, i0, paths
        finally:
            self.stack.pop()

    def created(self):
        """references of this run's objects and their fields"""
        last = {}
        for name, fm in self.heap.items():
            for r, v in fm.writes:
                if is_fresh(r):
                    last.setdefault(r.as_long(), {})[name] = v
        return [(z3.IntVal(n), sorted(last.get(n, {}).items()))
                for n in sorted(self.known_cls)]

    def next_alloc(self):
        self.alloc_n += 1
        return self.alloc_n

    def gen_frame(self, g):
        fr = Frame({}, g.frame.modname, g.frame.fn, g.frame.cls, g.frame)
        return fr

    def gen_live(self, g, it, i, must):
        """Execute the comprehension body live at index i (for exceptions
        and safety obligations); must raise unless 'must' is 'any'"""
        node = g.node
        comp = node.generators[0]
        self.stack.append(self.gen_frame(g))
        try:
            self.assign(comp.target, it.at(i))
            for c in comp.ifs:
                if not self.truth(self.ev(c)):
                    raise Infeasible()
            self.ev(node.elt)
        finally:
            self.stack.pop()
        raise Infeasible()

    def gen_concrete(self, g):
        """List of SV if all iterables are statically known, else None"""
        node = g.node
        out = []

        def rec(k):
            if k == len(node.generators):
                out.append(self.ev(node.elt))
                return
            c = node.generators[k]
            it = self.iterate_any(self.ev(c.iter))
            if it.conc is None:
                raise _NotConcrete()
            for x in it.conc:
                self.assign(c.target, x)
                ok = True
                for cond in c.ifs:
                    if not self.truth(self.ev(cond)):
                        ok = False
                        break
                if ok:
                    rec(k + 1)
        self.stack.append(self.gen_frame(g))
        try:
            # the first iterable decides; avoid partial effects
            it = self.iterate_any(self.ev(node.generators[0].iter))
            if it.conc is None:
                return None
            rec(0)
            return out
        except _NotConcrete:
            raise Unsupported("nested comprehension") from None
        finally:
            self.stack.pop()

    def any_all(self, arg, is_any):
        if isinstance(arg, GenV):
            lst = self.short_concrete(arg, is_any)
            if lst is not None:
                return lst
            it, i0, paths = self.gen_paths(arg, "truth")
        else:
            it = self.iterate_any(arg)
            if it.conc is not None:
                ts = [self.truth_term(x) for x in it.conc]
                return BoolV(z3.Or(*ts) if is_any else z3.And(*ts))
            i0 = self.fresh("ci", z3.IntSort())
            paths = [("value", z3.BoolVal(True),
                      self.truth_term(it.at(i0)))]
        hit = z3.Or(*[z3.And(c, v if is_any else z3.Not(v))
                      for k, c, v in paths if k == "value"] or
                    [z3.BoolVal(False)])
        go = z3.Or(*([z3.And(c, z3.Not(v) if is_any else v)
                      for k, c, v in paths if k == "value"] +
                     [c for k, c, v in paths if k == "skip"] or
                     [z3.BoolVal(False)]))

        def f_go(j):
            return z3.substitute(go, (i0, j))
        k = self.choose(3) if any(p[0] == "raise" for p in paths) or \
            isinstance(arg, GenV) else self.choose(2)
        if k == 0:
            self.assume_forall(z3.IntVal(0), it.len, f_go)
            return FALSE if is_any else TRUE
        j = self.fresh("cj", z3.IntSort())
        self.assume(z3.And(j >= 0, j < it.len))
        self.assume_forall(z3.IntVal(0), j, f_go)
        if k == 1:
            self.assume(z3.substitute(hit, (i0, j)))
            if not self.feasible(z3.BoolVal(True)):
                raise Infeasible()
            return TRUE if is_any else FALSE
        return self.gen_live(arg, it, j, "raise")

    def short_concrete(self, g, is_any):
        """any/all over statically known items with short-circuit"""
        node = g.node
        self.stack.append(self.gen_frame(g))
        try:
            if len(node.generators) == 2:
                return self.any_all_nested(g, is_any)
            comp = node.generators[0]
            it = self.iterate_any(self.ev(comp.iter))
            if it.conc is None:
                return None
            for x in it.conc:
                self.assign(comp.target, x)
                if not all(self.truth(self.ev(c)) for c in comp.ifs):
                    continue
                t = self.truth(self.ev(node.elt))
                if t == is_any:
                    return TRUE if is_any else FALSE
            return FALSE if is_any else TRUE
        finally:
            self.stack.pop()

    def any_all_nested(self, g, is_any):
        node = g.node
        inner = ast.GeneratorExp(elt=node.elt, generators=node.generators[1:])
        call = ast.Call(func=ast.Name(id="any" if is_any else "all",
                                      ctx=ast.Load()),
                        args=[inner], keywords=[])
        outer = ast.GeneratorExp(elt=call, generators=node.generators[:1])
        ast.copy_location(outer, node)
        ast.fix_missing_locations(outer)
        return self.any_all(GenV(outer, self.stack[-1]), is_any)

    def materialise(self, g):
        """[elt for ...] as a new list"""
        lst = self.gen_concrete(g)
        if lst is not None:
            return self.new_list(lst)
        saved_n = self.fresh_n
        self.fresh_n = max(saved_n, 1000000) + 1000000
        try:
            it, i0, paths = self.gen_paths(g, "v")
        finally:
            self.fresh_n = saved_n
        if any(p[0] == "skip" for p in paths):
            return self.filtered(it, i0, paths)
        facts = [z3.And(*p[3]) if p[0] == "value" and p[3]
                 else z3.BoolVal(True) for p in paths]
        paths = [p[:3] for p in paths]
        go = z3.Or(*[c for k, c, _ in paths if k == "value"] or
                   [z3.BoolVal(False)])
        has_raise = any(k == "raise" for k, _, _ in paths)
        k = self.choose(2)
        if k == 1:
            j = self.fresh("cj", z3.IntSort())
            self.assume(z3.And(j >= 0, j < it.len))
            if has_raise:
                self.assume_forall(z3.IntVal(0), j,
                                   lambda q: z3.substitute(go, (i0, q)))
            self.gen_live(g, it, j, "raise")
        arr = self.fresh("lc", ARR_IV)

        def f(q):
            return z3.Or(*[
                z3.And(z3.substitute(c, (i0, q)),
                       z3.Select(arr, q) == z3.substitute(v, (i0, q)),
                       z3.substitute(fa, (i0, q)))
                for (kk, c, v), fa in zip(paths, facts) if kk == "value"] or
                [z3.BoolVal(False)])
        self.assume_forall(z3.IntVal(0), it.len, f)
        r = self.new_ref(list)
        self.hwrite("$len", r, it.len)
        self.hwrite("$elem", r, arr)
        return ObjV(r, ("list", None))

    def filtered(self, it, i0, paths):
        """[elt for ... if ...]: the elements at an increasing sequence of
        indices, which are all that satisfy the condition"""
        if any(p[0] == "raise" or (len(p) > 3 and p[3]) for p in paths):
            raise Unsupported("filtered comprehension")
        arr = self.fresh("lc", ARR_IV)
        ii = z3.ArraySort(z3.IntSort(), z3.IntSort())
        idx, at = self.fresh("fidx", ii), self.fresh("fpos", ii)
        n = self.fresh("flen", z3.IntSort())
        sel = z3.Select

        def takes(q):
            return z3.Or(*[z3.substitute(p[1], (i0, q)) for p in paths
                           if p[0] == "value"])

        def elt(q, e):
            return z3.And(*[z3.Implies(z3.substitute(p[1], (i0, q)),
                                       e == z3.substitute(p[2], (i0, q)))
                            for p in paths if p[0] == "value"])
        self.assume(z3.And(n >= 0, n <= it.len))

        def taken(j):
            return z3.And(
                sel(idx, j) >= 0, sel(idx, j) < it.len, takes(sel(idx, j)),
                elt(sel(idx, j), sel(arr, j)), sel(at, sel(idx, j)) == j)

        def complete(q):
            return z3.Implies(takes(q), z3.And(
                sel(at, q) >= 0, sel(at, q) < n, sel(idx, sel(at, q)) == q))

        def increasing(a, b):
            return z3.Implies(z3.And(0 <= a, a < b, b < n),
                              sel(idx, a) < sel(idx, b))

        def instances(js, qs):
            """instances of these facts, on demand"""
            js = list(js) + [sel(at, q) for q in qs]
            qs = list(qs) + [sel(idx, j) for j in js]
            return z3.And(
                *[z3.Implies(z3.And(j >= 0, j < n), taken(j)) for j in js],
                *[z3.Implies(z3.And(q >= 0, q < it.len), complete(q))
                  for q in qs],
                *[increasing(x, y) for x in js for y in js if x is not y])
        r = self.new_ref(list)
        self.hwrite("$len", r, n)
        self.hwrite("$elem", r, arr)
        self.ghost["filtered"] = self.ghost.get("filtered", ()) + (
            (r, idx, n, instances),)
        self.ghost["elem_facts"] = self.ghost.get("elem_facts", ()) + ((
            r, lambda j: z3.Implies(z3.And(j >= 0, j < n), taken(j))),)
        return ObjV(r, ("list", None))

    def count_fact(self, n, p):
        """Integer c counting indices in [0,n) with p(i)"""
        c = self.fresh("count", z3.IntSort())
        i = z3.Int(self.fresh_name("i"))
        k = self.fresh("w1", z3.IntSort())
        k2 = self.fresh("w2", z3.IntSort())
        rng = z3.And(i >= 0, i < n)
        self.assume(z3.And(c >= 0, c <= n))
        w = self.choose(3)
        if w == 0:
            self.assume(c == 0)
            self.assume_forall(z3.IntVal(0), n, lambda j: z3.Not(p(j)))
        elif w == 1:
            self.assume(c == 1)
            self.assume(z3.And(k >= 0, k < n, p(k)))
            self.assume_forall(z3.IntVal(0), n,
                               lambda j: z3.Implies(j != k, z3.Not(p(j))))
        else:
            self.assume(c >= 2)
            self.assume(z3.And(k >= 0, k < k2, k2 < n, p(k), p(k2)))
        if not self.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return IntV(c)

    def iterate_any(self, sv):
        if isinstance(sv, GenV):
            lst = self.gen_concrete(sv)
            if lst is not None:
                return IterV(z3.IntVal(len(lst)), lambda i: lst[i], "gen",
                             lst)
            return self.iterate(self.materialise(sv))
        return self.iterate(sv)

    # ---------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, "e_" + n.__class__.__name__, None)
        if m is None:
            raise Unsupported("expression %s" % n.__class__.__name__)
        return m(n)

    def e_Constant(self, n):
        if isinstance(n.value, (int, str, bool, type(None))):
            return Conc(n.value)
        raise Unsupported("constant %r" % (n.value,))

    def e_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return self.fresh_str("fstr")

    def e_Name(self, n):
        fr = self.stack[-1]
        while fr is not None:
            if n.id in fr.env:
                v = fr.env[n.id]
                if isinstance(v, Unbound):
                    raise Unsupported("possibly unbound %s" % n.id)
                return v
            fr = fr.parent
        mod = self.prog.mods.get(self.stack[-1].modname)
        if mod is not None and hasattr(mod, n.id):
            return self.lift(getattr(mod, n.id))
        if hasattr(builtins, n.id):
            return Conc(getattr(builtins, n.id))
        raise Unsupported("name %s" % n.id)

    def lift(self, v):
        return Conc(v)

    def e_Tuple(self, n):
        return TupV([self.ev(x) for x in n.elts])

    def e_List(self, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            raise Unsupported("starred list")
        return self.new_list([self.ev(x) for x in n.elts])

    def e_Set(self, n):
        return TupV([self.ev(x) for x in n.elts])

    def e_Dict(self, n):
        if any(k is None for k in n.keys):
            raise Unsupported("dict unpacking")
        items = [(self.ev(k), self.ev(v)) for k, v in zip(n.keys, n.values)]
        if not items:
            return self.new_dict()
        if all(isinstance(k, Conc) for k, _ in items):
            return DictLit(items)
        return self.new_dict(items)

    def e_Lambda(self, n):
        fr = self.stack[-1]
        return FuncV(n, fr, fr.modname, "<lambda>", fr.cls)

    def e_IfExp(self, n):
        if self.truth(self.ev(n.test)):
            return self.ev(n.body)
        return self.ev(n.orelse)

    def e_GeneratorExp(self, n):
        return GenV(n, self.stack[-1])

    def e_ListComp(self, n):
        return self.materialise(GenV(n, self.stack[-1]))

    def e_SetComp(self, n):
        lst = self.gen_concrete(GenV(n, self.stack[-1]))
        if lst is None:
            raise Unsupported("set comprehension")
        return self.new_set(lst)

    def e_DictComp(self, n):
        g = GenV(ast.copy_location(ast.GeneratorExp(
            elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()),
            generators=n.generators), n), self.stack[-1])
        lst = self.gen_concrete(g)
        if lst is not None:
            return self.new_dict([tuple(x.items) for x in lst])
        return self.dict_comp_sym(n)

    def dict_comp_sym(self, n):
        """{k: f(v) for k, v in d.items()} over a symbolic dict"""
        fr = self.stack[-1]
        kg = GenV(ast.copy_location(ast.GeneratorExp(
            elt=n.key, generators=n.generators), n), fr)
        vg = GenV(ast.copy_location(ast.GeneratorExp(
            elt=n.value, generators=n.generators), n), fr)
        # evaluate values (may raise) as a list, then keys
        vals = self.materialise(vg)
        keys = self.materialise(kg)
        r = self.new_ref(dict)
        ln = self.len_term(vals)
        ka = self.hread("$elem", keys.t)
        va = self.hread("$elem", vals.t)
        m = self.fresh("dcm", ARR_VV)
        h = self.fresh("dch", ARR_VB)
        # every key is present and carries the value of its last occurrence
        nm = self.fresh_name("dc")
        last = z3.Function(nm + "last", z3.IntSort(), z3.IntSort())
        pos = z3.Function(nm + "pos", V, z3.IntSort())
        gen = n.generators[0]
        distinct = isinstance(gen.target, ast.Tuple) and \
            isinstance(n.key, ast.Name) and \
            isinstance(gen.target.elts[0], ast.Name) and \
            gen.target.elts[0].id == n.key.id and \
            isinstance(gen.iter, ast.Call) and \
            isinstance(gen.iter.func, ast.Attribute) and \
            gen.iter.func.attr == "items"

        def at(q):
            if distinct:
                return z3.And(
                    z3.Select(h, z3.Select(ka, q)),
                    z3.Select(m, z3.Select(ka, q)) == z3.Select(va, q))
            return z3.And(
                z3.Select(h, z3.Select(ka, q)),
                last(q) >= q, last(q) < ln,
                z3.Select(ka, last(q)) == z3.Select(ka, q),
                z3.Select(m, z3.Select(ka, q)) == z3.Select(va, last(q)))
        self.assume_forall(z3.IntVal(0), ln, at)
        kk = z3.Const(self.fresh_name("k"), V)
        self.assume(z3.ForAll([kk], z3.Implies(z3.Select(h, kk), z3.And(
            pos(kk) >= 0, pos(kk) < ln, z3.Select(ka, pos(kk)) == kk))))
        self.hwrite("$len", r, ln)
        self.hwrite("$elem", r, ka)
        self.hwrite("$map", r, m)
        self.hwrite("$has", r, h)
        return ObjV(r, ("dict", None, None))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.ev(x)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.falsy(v)
            if not isand and t:
                return v
        return v

    def falsy(self, v):
        return v

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            t = z3.simplify(z3.Not(self.truth_term(v)))
            return self.mkbool(t)
        v = self.force(v)
        if not self.is_num(v):
            self.safety("numeric operand of unary operator",
                        z3.BoolVal(False))
            raise Infeasible()
        if isinstance(v, Conc):
            return Conc(-v.v if isinstance(n.op, ast.USub) else +v.v)
        t = self.num(v)
        if isinstance(n.op, ast.USub):
            t = -t
        elif not isinstance(n.op, ast.UAdd):
            raise Unsupported("unary operator")
        return self.mknum(t)

    def mknum(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return Conc(t.as_long())
        return IntV(t) if t.sort() == z3.IntSort() else RealV(t)

    def mkbool(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return TRUE
        if z3.is_false(t):
            return FALSE
        return BoolV(t)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        a = self.force(a)
        if isinstance(op, ast.Mod) and self.is_str(a):
            args = b.items if isinstance(b, TupV) else [b]
            for x in args:
                if isinstance(x, GenV):
                    self.iterate_any(x)
            return self.fresh_str("fmt")
        b = self.force(b)
        if isinstance(a, TupV) and isinstance(b, TupV) and \
           isinstance(op, ast.Add):
            return TupV(a.items + b.items)
        if isinstance(a, Conc) and isinstance(b, Conc) and \
           isinstance(a.v, (int, str, Fraction)) and \
           isinstance(b.v, (int, str, Fraction)):
            try:
                r = CONC_OPS[op.__class__](a.v, b.v)
            except (TypeError, ZeroDivisionError) as e:
                self.safety("no %s" % e.__class__.__name__,
                            z3.BoolVal(False))
                raise Infeasible() from None
            if isinstance(r, float):
                raise Unsupported("floating point")
            return Conc(r)
        if isinstance(op, ast.Add) and self.is_str(a) and self.is_str(b):
            if isinstance(a, (CharV, SliceV)) or \
               isinstance(b, (CharV, SliceV)):
                if isinstance(b, CharV) and not isinstance(
                        a, (CharV, SliceV)):
                    return StrV(STRCAT(self.str_t(a), b.t))
                return self.fresh_str("cat")
            return StrV(z3.Concat(self.str_t(a), self.str_t(b)))
        if isinstance(op, ast.Mult) and (self.is_str(a) or self.is_str(b)):
            return self.fresh_str("rep")
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return self.obj_binop(op, a, b)
        if not (self.is_num(a) and self.is_num(b)):
            self.safety("operand types of %s" % op.__class__.__name__,
                        z3.BoolVal(False))
            raise Infeasible()
        bools = [isinstance(x, BoolV) or (isinstance(x, Conc) and
                                          isinstance(x.v, bool))
                 for x in (a, b)]
        if all(bools) and isinstance(op, (ast.BitXor, ast.BitAnd,
                                          ast.BitOr)):
            x, y = self.truth_term(a), self.truth_term(b)
            return self.mkbool({ast.BitXor: z3.Xor, ast.BitAnd: z3.And,
                                ast.BitOr: z3.Or}[op.__class__](x, y))
        x, y = self.num(a), self.num(b)
        real = x.sort() == z3.RealSort() or y.sort() == z3.RealSort()
        if isinstance(op, ast.Pow):
            return self.power(x, y)
        if real:
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        if isinstance(op, ast.Add):
            return self.mknum(x + y)
        if isinstance(op, ast.Sub):
            return self.mknum(x - y)
        if isinstance(op, ast.Mult):
            return self.mknum(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Div)):
            self.safety("no ZeroDivisionError", y != 0)
            if real:
                if isinstance(op, ast.Div):
                    return self.mknum(x / y)
                q = z3.ToInt(x / y)
                if isinstance(op, ast.FloorDiv):
                    return self.mknum(q)
                return self.mknum(x - y * z3.ToReal(q))
            if isinstance(op, ast.Div):
                raise Unsupported("floating point division")
            q = z3.If(y > 0, x / y, (-x) / (-y))
            if isinstance(op, ast.FloorDiv):
                return self.mknum(q)
            # Python: sign of divisor, |r| < |divisor|
            r = z3.If(y > 0, x % y, -((-x) % (-y)))
            return self.mknum(r)
        raise Unsupported("operator %s" % op.__class__.__name__)

    def power(self, x, y):
        if y.sort() != z3.IntSort():
            raise Unsupported("fractional exponent")
        if x.sort() == z3.IntSort():
            self.safety("integer power stays an integer", y >= 0)
            return IntV(POWI(x, y))
        self.safety("no ZeroDivisionError in power",
                    z3.Or(y >= 0, x != 0))
        return RealV(POWR(x, y))

    def obj_binop(self, op, a, b):
        ka = self.kind(a, "op")
        kb = self.kind(b, "op")
        if ka == "list" and kb == "list" and isinstance(op, ast.Add):
            return self.list_concat(a, b)
        raise Unsupported("operator on objects")

    def list_concat(self, a, b):
        na, nb = self.len_term(a), self.len_term(b)
        ea, eb = self.hread("$elem", a.t), self.hread("$elem", b.t)
        r = self.new_ref(list)
        nas, nbs = z3.simplify(na), z3.simplify(nb)
        self.hwrite("$len", r, z3.simplify(na + nb))
        sp = a.spec if isinstance(a.spec, tuple) and a.spec[1] else \
            (b.spec if isinstance(b.spec, tuple) else ("list", None))
        if z3.is_int_value(nas) and nas.as_long() <= 4:
            j = z3.Int(self.fresh_name("lj"))
            body = z3.Select(eb, j - nas)
            for q in reversed(range(nas.as_long())):
                body = z3.If(j == q, z3.simplify(z3.Select(ea, q)), body)
            self.hwrite("$elem", r, z3.Lambda([j], body))
            if not isinstance(b.spec, tuple) or a.spec is None:
                sp = b.spec
            if isinstance(b.spec, tuple) and b.spec[0] == "list" and \
               isinstance(a.spec, tuple) and a.spec[1] is None:
                sp = ("list", None) if not self.fits_spec(
                    ea, nas.as_long(), b.spec[1]) else b.spec
            return ObjV(r, sp)
        arr = self.fresh("cat", ARR_IV)
        self.assume_forall(z3.IntVal(0), na, lambda j:
                           z3.Select(arr, j) == z3.Select(ea, j))
        self.assume_forall(z3.IntVal(0), nb, lambda j:
                           z3.Select(arr, na + j) == z3.Select(eb, j))
        j2 = z3.Int(self.fresh_name("j"))
        f = z3.ForAll([j2], z3.Implies(
            z3.And(j2 >= na, j2 < na + nb),
            z3.Select(arr, j2) == z3.Select(eb, j2 - na)))
        self.assume(f)
        self.hwrite("$elem", r, arr)
        return ObjV(r, sp)

    def fits_spec(self, arr, n, spec):
        """the first n elements are known to satisfy the schema"""
        return all(self.valid(self.spec_formula(z3.simplify(
            z3.Select(arr, q)), spec), 500) for q in range(n))

    def list_extend(self, o, rhs):
        it = self.iterate_any(rhs)
        if it.conc is not None:
            for x in it.conc:
                self.list_append(o, x)
            return
        n = self.hread("$len", o.t)
        old = self.hread("$elem", o.t)
        arr = self.fresh("ext", ARR_IV)
        self.assume_forall(z3.IntVal(0), n, lambda j:
                           z3.Select(arr, j) == z3.Select(old, j))
        self.assume(it.len >= 0)
        self.hwrite("$elem", o.t, arr)
        self.hwrite("$len", o.t, z3.simplify(n + it.len))

    def list_append(self, o, x):
        n = self.hread("$len", o.t)
        self.hwrite("$elem", o.t, z3.Store(self.hread("$elem", o.t), n,
                                           to_v(self.prog, x)))
        self.hwrite("$len", o.t, z3.simplify(n + 1))

    def e_Compare(self, n):
        left = self.ev(n.left)
        acc = []
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c)
            t = self.compare(op, left, right)
            if len(n.ops) == 1:
                return self.mkbool(t)
            acc.append(t)
            if k < len(n.ops) - 1:
                if not self.branch(t):
                    return FALSE
            left = right
        return self.mkbool(acc[-1])

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.py_is(a, b)
        if isinstance(op, ast.IsNot):
            return z3.Not(self.py_is(a, b))
        if isinstance(op, ast.Eq):
            return self.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.py_eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(a, b))
        a, b = self.force(a), self.force(b)
        if isinstance(a, Conc) and isinstance(b, Conc):
            try:
                return z3.BoolVal(CMP_OPS[op.__class__](a.v, b.v))
            except TypeError:
                self.safety("comparable operands", z3.BoolVal(False))
                raise Infeasible() from None
        if not (self.is_num(a) and self.is_num(b)):
            if self.is_str(a) and self.is_str(b):
                raise Unsupported("string ordering")
            self.safety("comparable operands", z3.BoolVal(False))
            raise Infeasible()
        x, y = self.num(a), self.num(b)
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[
                    op.__class__]()

    def contains(self, a, b):
        """a in b"""
        if isinstance(b, (TupV, DictLit)):
            items = b.items if isinstance(b, TupV) else \
                [k for k, _ in b.items]
            if not items:
                return z3.BoolVal(False)
            return z3.Or(*[self.py_eq(a, x) for x in items])
        if isinstance(b, Conc):
            if isinstance(b.v, str):
                a = self.force(a)
                if isinstance(a, CharV):
                    if not b.v:
                        return z3.BoolVal(False)
                    return z3.Or(*[a.t == ord(c) for c in set(b.v)])
                if isinstance(a, Conc):
                    if not isinstance(a.v, str):
                        self.safety("'in <string>' requires string",
                                    z3.BoolVal(False))
                        raise Infeasible()
                    return z3.BoolVal(a.v in b.v)
                return z3.Contains(mkstr(b.v), self.str_t(a))
            if isinstance(b.v, (tuple, list, set, frozenset, dict)):
                xs = sorted(b.v, key=str)
                if isinstance(a, SliceV):
                    return z3.Or(*[self.str_eq(a, Conc(x)) for x in xs])
                a = self.force(a)
                if not xs:
                    return z3.BoolVal(False)
                return z3.Or(*[self.py_eq(a, Conc(x)) for x in xs])
            if isinstance(b.v, range):
                raise Unsupported("in range")
        if isinstance(b, AnyV):
            b = self.need_obj(b, "in")
        if self.is_str(b):
            a = self.force(a)
            if not self.is_str(a):
                self.safety("'in <string>' requires string",
                            z3.BoolVal(False))
                raise Infeasible()
            return z3.Contains(self.str_t(b), self.str_t(a))
        if isinstance(b, ObjV):
            k = self.kind(b, "in")
            if k in ("dict", "set"):
                return z3.Select(self.hread("$has", b.t),
                                 to_v(self.prog, self.deconst(a)))
            if k == "list":
                it = self.iterate(b)
                if it.conc is not None:
                    if not it.conc:
                        return z3.BoolVal(False)
                    return z3.Or(*[self.py_eq(a, x) for x in it.conc])
                return self.list_contains(a, b, it)
            # __contains__
            cs = self.feasible_classes(b)
            fs = set(mro_find(c, "__contains__")[1] for c in cs)
            if len(fs) == 1 and None not in fs:
                r = self.call_function(list(fs)[0], [b, a], {})
                return self.truth_term(r)
        raise Unsupported("in %s" % b.__class__.__name__)

    def deconst(self, a):
        if isinstance(a, SliceV):
            raise Unsupported("slice as key")
        return a

    def list_contains(self, a, b, it):
        """x in list over symbolic list: exists i: list[i] == x"""
        i0 = self.fresh("ci", z3.IntSort())

        def run():
            self.assume(z3.And(i0 >= 0, i0 < it.len))
            return self.py_eq(it.at(i0), a)
        res = self.subexplore(run)
        p = z3.Or(*[self.generalise(z3.And(*(pc + [v])), fl, i0)
                    for v, pc, fl, wl, _ in res] or [z3.BoolVal(False)])
        if self.choose(2) == 0:
            self.assume_forall(z3.IntVal(0), it.len, lambda j: z3.Not(
                z3.substitute(p, (i0, j))))
            return z3.BoolVal(False)
        j = self.fresh("cj", z3.IntSort())
        self.assume(z3.And(j >= 0, j < it.len))
        self.assume(z3.substitute(p, (i0, j)))
        if not self.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return z3.BoolVal(True)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(o, n.slice)
        k = self.ev(n.slice)
        return self.subscript(o, k)

    def subscript(self, o, k):
        o = self.need_obj(o, "subscript")
        if isinstance(o, TupV):
            k = self.force(k)
            if isinstance(k, Conc):
                if -len(o.items) <= k.v < len(o.items):
                    return o.items[k.v]
                self.safety("tuple index in range", z3.BoolVal(False))
                raise Infeasible()
            raise Unsupported("symbolic tuple index")
        if isinstance(o, IterV) and o.conc is not None and \
           isinstance(k, Conc):
            return o.conc[k.v]
        if isinstance(o, DictLit):
            conds = []
            for kk, vv in o.items:
                c = self.py_eq(k, kk)
                if self.branch(c):
                    return vv
            self.safety("key present in dictionary", z3.BoolVal(False))
            raise Infeasible()
        if isinstance(o, Conc) and isinstance(o.v, dict):
            for kk in o.v:
                if self.branch(self.py_eq(k, Conc(kk))):
                    return Conc(o.v[kk])
            self.safety("key present in dictionary", z3.BoolVal(False))
            raise Infeasible()
        if isinstance(o, TextV):
            i = self.num(self.force(k))
            self.safety("text index in range",
                        z3.And(i >= -o.len, i < o.len))
            i = z3.simplify(z3.If(i < 0, i + o.len, i))
            c = z3.Select(o.arr, i)
            self.assume(z3.And(c >= 0, c < 0x110000))
            return CharV(c)
        if isinstance(o, ObjV):
            kd = self.kind(o, "subscript")
            if kd == "dict":
                kv = to_v(self.prog, k)
                self.safety("key present in dictionary",
                            z3.Select(self.hread("$has", o.t), kv))
                return self.dict_get(o, k)
            if kd == "list":
                k = self.force(k)
                if not (isinstance(k, IntV) or (isinstance(k, Conc) and
                                                isinstance(k.v, int))):
                    self.safety("integer list index", z3.BoolVal(False))
                    raise Infeasible()
                i = self.num(k)
                ln = self.len_term(o)
                self.safety("list index in range",
                            z3.And(i >= -ln, i < ln))
                i = z3.simplify(z3.If(i < 0, i + ln, i))
                return self.list_get(o, i)
            self.safety("subscriptable object", z3.BoolVal(False))
            raise Infeasible()
        if isinstance(o, StrV):
            i = self.num(self.force(k))
            ln = z3.Length(o.t)
            self.safety("string index in range", z3.And(i >= -ln, i < ln))
            i = z3.simplify(z3.If(i < 0, i + ln, i))
            return CharV(STRCH(o.t, i))
        if self.is_str(o):
            raise Unsupported("string index")
        raise Unsupported("subscript of %s" % o.__class__.__name__)

    def slice(self, o, s):
        o = self.need_obj(o, "slice")
        if s.step is not None:
            raise Unsupported("slice step")
        lo = self.force(self.ev(s.lower)) if s.lower else None
        hi = self.force(self.ev(s.upper)) if s.upper else None
        if isinstance(o, TupV):
            if all(x is None or isinstance(x, Conc) for x in (lo, hi)):
                return TupV(o.items[slice(lo.v if lo else None,
                                          hi.v if hi else None)])
            raise Unsupported("slice")
        if isinstance(o, TextV) or isinstance(o, SliceV):
            base = o if isinstance(o, TextV) else o.text
            off = z3.IntVal(0) if isinstance(o, TextV) else o.a
            ln = o.len if isinstance(o, TextV) else o.b - o.a

            def norm(x, d):
                if x is None:
                    return d
                t = self.num(x)
                t = z3.If(t < 0, z3.If(t + ln < 0, z3.IntVal(0), t + ln), t)
                return z3.If(t > ln, ln, t)
            a = norm(lo, z3.IntVal(0))
            b = norm(hi, ln)
            b = z3.If(b < a, a, b)
            return SliceV(base, z3.simplify(off + a), z3.simplify(off + b))
        if isinstance(o, StrV):
            ts = [z3.IntVal(d) if x is None else self.num(x)
                  for x, d in ((lo, 0), (hi, NO_BOUND))]
            return StrV(STRSUB(o.t, *ts))
        if isinstance(o, ObjV) and self.kind(o, "slice") == "list":
            n = self.len_term(o)
            if hi is None and isinstance(lo, Conc) and lo.v >= 0:
                k = lo.v
                el = self.hread("$elem", o.t)
                r = self.new_ref(list)
                nl = z3.simplify(z3.If(n >= k, n - k, z3.IntVal(0)))
                arr = self.fresh("slc", ARR_IV)
                self.assume_forall(z3.IntVal(0), nl, lambda j:
                                   z3.Select(arr, j) ==
                                   z3.Select(el, j + k))
                self.hwrite("$len", r, nl)
                self.hwrite("$elem", r, arr)
                return ObjV(r, o.spec)
        if isinstance(o, (StrV,)) or (isinstance(o, Conc) and
                                      isinstance(o.v, str)):
            if isinstance(o, Conc) and all(
                    x is None or isinstance(x, Conc) for x in (lo, hi)):
                return Conc(o.v[slice(lo.v if lo else None,
                                      hi.v if hi else None)])
            return self.fresh_str("slice")
        raise Unsupported("slice")

    # ------------------------------------------------------------ attribute
    def e_Attribute(self, n):
        # x.__class__.__name__ only appears in messages
        if n.attr == "__name__" and isinstance(n.value, ast.Attribute) and \
           n.value.attr == "__class__":
            self.ev(n.value.value)
            return self.fresh_str("clsname")
        return self.getattr(self.ev(n.value), n.attr)

    def getattr(self, o, name):
        o = self.need_obj(o, name)
        if isinstance(o, Conc):
            v = o.v
            if isinstance(v, (str, int, Fraction)) and \
               not isinstance(v, enum.Enum):
                return BoundV(o, name)
            if inspect.ismodule(v) or isinstance(v, type) or \
               isinstance(v, enum.Enum):
                if hasattr(v, name):
                    r = getattr(v, name)
                    if isinstance(v, type) and inspect.isfunction(r):
                        return Conc(r)
                    return Conc(r)
                self.safety("attribute %s" % name, z3.BoolVal(False))
                raise Infeasible()
            if isinstance(v, tuple) and v and v[0] == "exc":
                return self.fresh_str("excattr")
            return BoundV(o, name)
        if isinstance(o, ObjV):
            return self.obj_attr(o, name)
        if isinstance(o, SuperV):
            return BoundV(o, name)
        if isinstance(o, EnumV) and name == "name":
            return self.fresh_str("enumname")
        return BoundV(o, name)

    def obj_attr(self, o, name):
        g = self.ghost.get(("attr", str(o.t), name)) \
            if "has_attr" in self.ghost else None
        if g is not None:
            return g
        if name == "__class__":
            cs = self.feasible_classes(o)
            for c in cs[:-1]:
                if self.branch(CLS(o.t) == self.prog._cls_id(c)):
                    return Conc(c)
            self.assume(CLS(o.t) == self.prog._cls_id(cs[-1]))
            return Conc(cs[-1])
        cs = self.classes_of(o)
        if cs and all(c in (list, dict, set) for c in cs):
            return BoundV(o, name)
        members = [mro_find(c, name)[1] for c in cs]
        if all(m is not None for m in members):
            m = members[0]
            if isinstance(m, (types.FunctionType, classmethod,
                              staticmethod)):
                return BoundV(o, name)
            if isinstance(m, property):
                if len(set(members)) == 1:
                    return self.call_function(m.fget, [o], {})
                raise Unsupported("property %s" % name)
            if len(set(id(x) for x in members)) == 1 and \
               not self.specs.has_field(self, cs, name):
                return Conc(m)
            if all(c in (list, dict, set) for c in cs):
                return BoundV(o, name)
        elif any(isinstance(m, types.FunctionType) for m in members):
            return BoundV(o, name)
        if cs and all(c in (list, dict, set) for c in cs):
            return BoundV(o, name)
        return self.read_field(o, name, cs)

    def read_field(self, o, name, cs):
        if is_fresh(o.t):
            fm = self.fmap(name)
            for r, v in reversed(fm.writes):
                if same(r, o.t):
                    return self.respec(from_v(self.prog, v), o, name)
            known = self.known_cls.get(o.t.as_long())
            if not any(z3.is_int_value(r) is False for r, _ in fm.writes) \
               and fm.base.decl().name().startswith("H_"):
                self.safety("attribute %s is set" % name, z3.BoolVal(False))
                raise Infeasible()
            return from_v(self.prog, self.hread(name, o.t))
        # pre-existing object: type schema of the field per class
        groups = {}
        for c in cs:
            sp = self.specs.field_spec(c, name)
            groups.setdefault(repr(sp), (sp, []))[1].append(c)
        if len(groups) == 1:
            sp = list(groups.values())[0][0]
            if sp is None:
                raise Unsupported("no schema for field %s of %s" %
                                  (name, cs[0].__name__ if cs else "?"))
        else:
            gl = sorted(groups.items())
            chosen = None
            for key, (sp, cl) in gl:
                cond = z3.Or(*[CLS(o.t) == self.prog._cls_id(c)
                               for c in cl])
                if sp is None:
                    # classes without this attribute
                    nofield = [c for c in cl
                               if not self.specs.field_unknown(c, name)]
                    cond2 = z3.Or(*[CLS(o.t) == self.prog._cls_id(c)
                                    for c in cl])
                    if not self.feasible(cond2):
                        continue
                    if self.branch(cond2):
                        self.safety("attribute %s exists" % name,
                                    z3.BoolVal(False))
                        raise Infeasible()
                    continue
                if self.branch(cond):
                    chosen = sp
                    break
            if chosen is None:
                raise Infeasible()
            sp = chosen
        self.mark_old(o.t)
        g = self.specs.field_ghost(self, o, name)
        if g is not None:
            return g
        v = self.hread(name, o.t)
        s = from_v(self.prog, v)
        if not isinstance(s, AnyV):
            if not (isinstance(s, ObjV) and not is_fresh(s.t)):
                return s
        return self.typed(v, sp)

    def respec(self, sv, o, name):
        """attach schema of field to a container read from a fresh object"""
        if isinstance(sv, ObjV) and sv.spec is None:
            c = self.known_cls.get(o.t.as_long()) if is_fresh(o.t) else None
            if is_fresh(sv.t):
                k = self.known_cls.get(sv.t.as_long())
                if k is not None:
                    sv.spec = k if k not in (list, dict, set) else \
                        {list: ("list", None), dict: ("dict", None, None),
                         set: ("set", None)}[k]
            elif c is not None:
                sp = self.specs.field_spec(c, name)
                if sp is not None and sp != "any":
                    one = sp[1] if isinstance(sp, tuple) and \
                        sp[0] == "opt" else sp
                    if isinstance(one, type) or (
                            isinstance(one, tuple) and
                            one[0] in ("list", "dict", "set", "odict")):
                        sv.spec = one
        elif isinstance(sv, AnyV) and sv.spec is None:
            c = self.known_cls.get(o.t.as_long()) if is_fresh(o.t) else None
        return sv

    # ---------------------------------------------------------------- calls
    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and \
           not n.args:
            fr = self.stack[-1]
            while fr.cls is None and fr.parent is not None:
                fr = fr.parent
            selfname = fr.node.args.args[0].arg
            return SuperV(fr.env[selfname], fr.cls)
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iterate_any(self.ev(a.value))
                if it.conc is None:
                    raise Unsupported("*args")
                args.extend(it.conc)
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kwargs[k.arg] = self.ev(k.value)
        self.line = n.lineno if hasattr(n, "lineno") else self.line
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, AnyV):
            f = self.force(f)
        if isinstance(f, FuncV):
            return self.call_def(f.node, f.modname, args, kwargs, f.cls,
                                 f.env)
        if isinstance(f, BoundV):
            return self.call_method(f.obj, f.name, args, kwargs)
        if isinstance(f, Conc):
            v = f.v
            if isinstance(v, types.MethodType):
                # classmethod bound to a class
                return self.call_function(v.__func__,
                                          [Conc(v.__self__)] + args, kwargs)
            if isinstance(v, types.FunctionType) and \
               self.prog.func_def(v) is not None:
                return self.call_function(v, args, kwargs)
            if isinstance(v, type) and v in self.prog.cls_ids and \
               v not in (list, dict, set, tuple, type, object):
                return self.new_object(v, args, kwargs)
            if isinstance(v, type) and issubclass(v, BaseException):
                return Conc(("exc", v, args, kwargs))
            return self.call_builtin(v, args, kwargs)
        raise Unsupported("call of %s" % f.__class__.__name__)

    def call_method(self, o, name, args, kwargs):
        if isinstance(o, SuperV):
            mro = o.cls.__mro__
            for k in mro[1:]:
                if name in k.__dict__:
                    m = k.__dict__[name]
                    if k is object:
                        return NONE
                    if isinstance(m, types.FunctionType):
                        c = self.specs.contract_for(m)
                        return self.call_function(m, [o.obj] + args, kwargs,
                                                  k)
            raise Unsupported("super().%s" % name)
        if isinstance(o, ObjV):
            cs = self.classes_of(o)
            if any(c in (list, dict, set) for c in cs):
                kd = self.kind(o, name)
                if kd != "obj":
                    return self.container_method(o, kd, name, args, kwargs)
                cs = [c for c in cs if c not in (list, dict, set)]
            vc = self.specs.virtual_contract(cs, name, self, o)
            if vc is not None:
                return vc.apply(self, [o] + args, kwargs)
            groups = {}
            for c in cs:
                k, m = mro_find(c, name)
                groups.setdefault(id(m), (m, k, []))[2].append(c)
            gl = list(groups.values())
            if len(gl) > 1:
                gl = [g for g in gl if self.feasible(
                    z3.Or(*[CLS(o.t) == self.prog._cls_id(c)
                            for c in g[2]]))]
            if not gl:
                raise Infeasible()
            for m, k, cl in gl[:-1]:
                if self.branch(z3.Or(*[CLS(o.t) == self.prog._cls_id(c)
                                       for c in cl])):
                    return self.dispatch(o, m, k, name, args, kwargs)
            m, k, cl = gl[-1]
            self.assume(z3.Or(*[CLS(o.t) == self.prog._cls_id(c)
                                for c in cl]))
            return self.dispatch(o, m, k, name, args, kwargs)
        return self.value_method(o, name, args, kwargs)

    def dispatch(self, o, m, k, name, args, kwargs):
        if m is None:
            self.safety("method %s exists" % name, z3.BoolVal(False))
            raise Infeasible()
        if isinstance(m, staticmethod):
            return self.call_function(m.__func__, args, kwargs, k)
        if isinstance(m, classmethod):
            raise Unsupported("classmethod via instance")
        if isinstance(m, types.FunctionType):
            return self.call_function(m, [o] + args, kwargs, k)
        raise Unsupported("method %s" % name)

    # ------------------------------------------------------------- builtins
    def container_method(self, o, kd, name, args, kwargs):
        if kd == "list":
            if name == "append":
                self.list_append(o, args[0])
                return NONE
            if name == "extend":
                self.list_extend(o, args[0])
                return NONE
            if name == "count":
                it = self.iterate(o)
                x = args[0]
                if it.conc is not None:
                    t = z3.IntVal(0)
                    for y in it.conc:
                        t = t + z3.If(self.py_eq(y, x), z3.IntVal(1),
                                      z3.IntVal(0))
                    return self.mknum(t)
                i0 = self.fresh("ci", z3.IntSort())

                def run():
                    self.assume(z3.And(i0 >= 0, i0 < it.len))
                    return self.py_eq(it.at(i0), x)
                res = self.subexplore(run)
                p = z3.Or(*[self.generalise(z3.And(*(pc + [v])), fl, i0)
                            for v, pc, fl, wl, _ in res] or
                          [z3.BoolVal(False)])
                return self.count_fact(
                    it.len, lambda j: z3.substitute(p, (i0, j)))
            if name == "pop" and not args:
                n = self.len_term(o)
                self.safety("pop from non-empty list", n > 0)
                v = self.list_get(o, z3.simplify(n - 1))
                self.hwrite("$len", o.t, z3.simplify(n - 1))
                return v
            if name == "copy":
                return self.copy_obj(o)
        if kd == "dict":
            if name in ("values", "keys", "items"):
                n = z3.simplify(self.len_term(o))
                if z3.is_int_value(n) and n.as_long() <= 12:
                    ks = [self.list_get_k(o, z3.IntVal(i), "dict")
                          for i in range(n.as_long())]
                    if name == "keys":
                        its = ks
                    elif name == "values":
                        its = [self.dict_get(o, k) for k in ks]
                    else:
                        its = [TupV([k, self.dict_get(o, k)]) for k in ks]
                    return IterV(n, lambda i: its[i], name, its)

                def at(i):
                    k = self.list_get_k(o, i, "dict")
                    if name == "keys":
                        return k
                    v = self.dict_get(o, k)
                    return v if name == "values" else TupV([k, v])
                return IterV(n, at, name)
            if name == "get":
                k = args[0]
                c = z3.Select(self.hread("$has", o.t), to_v(self.prog, k))
                if self.branch(c):
                    return self.dict_get(o, k)
                return args[1] if len(args) > 1 else NONE
            if name == "copy":
                return self.copy_obj(o)
        if kd == "set":
            if name == "add":
                self.set_add(o, args[0])
                return NONE
        raise Unsupported("%s.%s" % (kd, name))

    def copy_obj(self, o):
        k = self.kind(o, "copy")
        cls = {"list": list, "dict": dict, "set": set}.get(k)
        if cls is None:
            raise Unsupported("copy of object")
        r = self.new_ref(cls)
        for f in ("$len", "$elem", "$map", "$has"):
            if k == "list" and f in ("$map", "$has"):
                continue
            self.hwrite(f, r, self.hread(f, o.t))
        self.assume(self.hread("$len", o.t) >= 0)
        return ObjV(r, o.spec)

    def value_method(self, o, name, args, kwargs):
        o = self.force(o)
        if isinstance(o, Conc) and isinstance(o.v, str) and \
                all(isinstance(a, Conc) for a in args) and not kwargs:
            r = getattr(o.v, name)(*[a.v for a in args])
            if isinstance(r, (str, int, bool)):
                return Conc(r)
            return TupV([Conc(x) for x in r])
        if isinstance(o, CharV):
            f = {"isspace": ch_isspace, "isalpha": ch_isalpha,
                 "isdigit": ch_isdigit, "isalnum": ch_isalnum,
                 "isascii": ch_isascii}.get(name)
            if f is not None:
                return BoolV(f(o.t))
        if isinstance(o, Conc) and isinstance(o.v, str) and name == "join":
            it = self.iterate_any(args[0])
            return self.fresh_str("join")
        if isinstance(o, SliceV):
            if name in ("startswith", "endswith") and \
               isinstance(args[0], Conc):
                s = args[0].v
                alts = s if isinstance(s, tuple) else (s,)
                fs = []
                for x in alts:
                    n = len(x)
                    off = o.a if name == "startswith" else o.b - n
                    fs.append(z3.And(o.b - o.a >= n, *[
                        z3.Select(o.text.arr, off + k) == ord(c)
                        for k, c in enumerate(x)]))
                return self.mkbool(z3.Or(*fs))
            if name in ("replace", "strip", "rstrip", "lstrip") and \
               o.text.key is not None:
                return self.value_method(StrV(self.str_t(o)), name, args, {})
            if name in ("replace", "strip", "rstrip", "lstrip"):
                return self.fresh_str("strop")
            if name == "count" and isinstance(args[0], Conc) and \
               len(args[0].v) == 1:
                return self.specs.text_count(self, o, args[0].v)
        if self.is_str(o) and not isinstance(o, (CharV, SliceV)):
            t = self.str_t(o)
            if name == "startswith":
                a = self.force(args[0])
                if not self.is_str(a):
                    if isinstance(a, TupV):
                        return self.mkbool(z3.Or(*[z3.PrefixOf(
                            self.str_t(x), t) for x in a.items]))
                    self.safety("startswith argument", z3.BoolVal(False))
                    raise Infeasible()
                return self.mkbool(z3.PrefixOf(self.str_t(a), t))
            if name == "endswith":
                a = self.force(args[0])
                if not self.is_str(a):
                    self.safety("endswith argument", z3.BoolVal(False))
                    raise Infeasible()
                return self.mkbool(z3.SuffixOf(self.str_t(a), t))
            if name == "lower":
                return StrV(LOWER(t))
            if name == "replace":
                return StrV(REPLACE(t, self.str_t(args[0]),
                                    self.str_t(args[1])))
            if name in ("strip", "rstrip", "lstrip") and not args:
                return StrV(STRIPS[name](t))
            if name in ("strip", "rstrip", "lstrip", "upper", "join",
                        "format", "capitalize"):
                for a in args:
                    if isinstance(a, GenV):
                        self.iterate_any(a)
                return self.fresh_str("strop")
            if name == "splitlines" and self.specs.splitlines and not args:
                return self.specs.splitlines(self, t)
            if name == "splitlines":
                l = self.fresh_any("lines", ("list", "str"))
                return l
        if isinstance(o, Conc) and inspect.isbuiltin(getattr(
                o.v, name, None)):
            raise Unsupported("builtin method %s" % name)
        if isinstance(o, (IntV, BoolV, RealV, StrV, EnumV)) or \
           isinstance(o, Conc):
            if not hasattr(str, name) and not hasattr(int, name) and \
               not hasattr(Fraction, name):
                self.safety("attribute %s exists" % name, z3.BoolVal(False))
                raise Infeasible()
        if isinstance(o, DictLit) and name == "get" and not kwargs and \
           1 <= len(args) <= 2:
            for kk, vv in o.items:
                if self.branch(self.py_eq(args[0], kk)):
                    return vv
            return args[1] if len(args) == 2 else NONE
        raise Unsupported("method %s of %s" % (name, o.__class__.__name__))

    def isinstance_term(self, sv, k):
        """Boolean term for isinstance(sv, k); k python class or tuple"""
        ks = k if isinstance(k, tuple) else (k,)
        flat = []
        for x in ks:
            if isinstance(x, tuple):
                flat.extend(x)
            else:
                flat.append(x)
        ks = tuple(flat)
        if isinstance(sv, Conc):
            if isinstance(sv.v, tuple) and sv.v and sv.v[0] == "exc":
                return z3.BoolVal(issubclass(sv.v[1], ks))
            return z3.BoolVal(isinstance(sv.v, ks))
        if isinstance(sv, (FuncV, BoundV)):
            return z3.BoolVal(False)
        if isinstance(sv, TupV):
            return z3.BoolVal(tuple in ks)
        if isinstance(sv, DictLit):
            return z3.BoolVal(dict in ks)
        if isinstance(sv, IntV):
            return z3.BoolVal(int in ks or object in ks)
        if isinstance(sv, BoolV):
            return z3.BoolVal(int in ks or bool in ks)
        if isinstance(sv, RealV):
            return z3.BoolVal(Fraction in ks)
        if isinstance(sv, (StrV, CharV, SliceV, TextV)):
            return z3.BoolVal(str in ks)
        if isinstance(sv, EnumV):
            e = [x for x in self.prog.enum_ids if isinstance(x, ks)]
            return z3.Or(*[sv.t == self.prog.enum_ids[x] for x in e]) \
                if e else z3.BoolVal(False)
        if isinstance(sv, ObjV):
            cs = self.classes_of(sv)
            sub = [issubclass(c, ks) for c in cs]
            if all(sub):
                return z3.BoolVal(True)
            if not any(sub):
                return z3.BoolVal(False)
            return z3.Or(*[CLS(sv.t) == self.prog._cls_id(c)
                           for c, s in zip(cs, sub) if s])
        if isinstance(sv, AnyV):
            t = sv.t
            fs = []
            if int in ks:
                fs += [V.is_VInt(t), V.is_VBool(t)]
            if bool in ks:
                fs += [V.is_VBool(t)]
            if str in ks:
                fs += [V.is_VStr(t), V.is_VChar(t)]
            if Fraction in ks:
                fs += [V.is_VFrac(t)]
            ids = self.prog.leafs(ks)
            if ids:
                fs.append(z3.And(V.is_VObj(t), z3.Or(
                    *[CLS(V.vo(t)) == i for i in ids])))
            es = [x for x in self.prog.enum_ids if isinstance(x, ks)]
            if es:
                fs.append(z3.And(V.is_VEnum(t), z3.Or(
                    *[V.ve(t) == self.prog.enum_ids[x] for x in es])))
            return z3.Or(*fs) if fs else z3.BoolVal(False)
        raise Unsupported("isinstance of %s" % sv.__class__.__name__)

    def pyclasses(self, sv):
        if isinstance(sv, TupV):
            return tuple(self.pyclasses(x) for x in sv.items)
        if isinstance(sv, Conc) and isinstance(sv.v, (type, tuple)):
            return sv.v
        raise Unsupported("symbolic class in isinstance")

    def call_builtin(self, f, args, kwargs):
        if f is isinstance:
            k = self.pyclasses(args[1])
            return self.mkbool(self.isinstance_term(args[0], k))
        if f is hasattr:
            raise Unsupported("hasattr")
        if f in (int, Fraction) and f in self.specs.externals and args and \
           self.is_str(self.force(args[0])):
            r = self.specs.external(self, f, args, kwargs)
            if r is not None:
                return r
        if f is len:
            return self.b_len(args[0])
        if f is bool:
            return self.mkbool(self.truth_term(args[0]))
        if f is abs:
            v = self.force(args[0])
            if not self.is_num(v):
                self.safety("numeric argument of abs", z3.BoolVal(False))
                raise Infeasible()
            if isinstance(v, Conc):
                return Conc(abs(v.v))
            t = self.num(v)
            return self.mknum(z3.If(t >= 0, t, -t))
        if f in (min, max):
            vs = [self.force(a) for a in args]
            if len(vs) == 1:
                raise Unsupported("min/max of iterable")
            t = self.num(vs[0])
            for x in vs[1:]:
                y = self.num(x)
                t = z3.If((y < t) if f is min else (y > t), y, t)
            return self.mknum(t)
        if f in (any, all):
            return self.any_all(args[0], f is any)
        if f is sum:
            return self.b_sum(args[0])
        if f is str or f is repr:
            if not args:
                return Conc("")
            v = self.force(args[0]) if not isinstance(args[0], AnyV) \
                else args[0]
            if self.is_str(v) and f is str:
                return v
            return self.fresh_str("str")
        if f is print and print not in self.specs.externals:
            return NONE
        if f is list:
            if not args:
                return self.new_list([])
            a = args[0]
            if isinstance(a, GenV):
                return self.materialise(a)
            it = self.iterate_any(a)
            if it.conc is not None:
                return self.new_list(it.conc)
            r = self.new_ref(list)
            if isinstance(a, AnyV):
                a = self.need_obj(a, "iteration")
            if isinstance(a, ObjV) and it.desc == "list":
                el = self.hread("$elem", a.t)
                self.hwrite("$len", r, it.len)
                self.hwrite("$elem", r, el)
                self.ghost["copies"] = self.ghost.get("copies", ()) + (
                    (r, a, el),)
                return ObjV(r, a.spec if isinstance(a.spec, tuple)
                            else ("list", None))
            i0 = self.fresh("ci", z3.IntSort())

            def run():
                self.assume(z3.And(i0 >= 0, i0 < it.len))
                return to_v(self.prog, it.at(i0))
            res = self.subexplore(run)
            arr = self.fresh("lst", ARR_IV)
            body = z3.Or(*[self.generalise(
                z3.And(*(pc + [z3.Select(arr, i0) == v])), fl, i0)
                for v, pc, fl, wl, _ in res] or [z3.BoolVal(False)])
            self.assume_forall(z3.IntVal(0), it.len, lambda j:
                               z3.substitute(body, (i0, j)))
            self.hwrite("$len", r, it.len)
            self.hwrite("$elem", r, arr)
            return ObjV(r, ("list", None))
        if f in (dict, OrderedDict) and not args and not kwargs:
            return self.new_dict()
        if f is set:
            if not args:
                return self.new_set()
            it = self.iterate_any(args[0])
            if it.conc is not None:
                return self.new_set(it.conc)
            raise Unsupported("set of symbolic sequence")
        if f in (tuple, frozenset):
            if not args:
                return TupV([])
            it = self.iterate_any(args[0])
            if it.conc is not None:
                return TupV(it.conc)
            raise Unsupported("tuple of symbolic sequence")
        if f is range:
            vs = [self.force(a) for a in args]
            if all(isinstance(v, Conc) for v in vs):
                return Conc(range(*[v.v for v in vs]))
            ts = [self.num(v) for v in vs]
            if len(ts) == 1:
                lo, hi = z3.IntVal(0), ts[0]
            elif len(ts) == 2:
                lo, hi = ts
            else:
                st = z3.simplify(ts[2])
                if z3.is_int_value(st) and st.as_long() == -1:
                    n = z3.If(ts[0] > ts[1], ts[0] - ts[1], z3.IntVal(0))
                    return IterV(n, lambda i: IntV(ts[0] - i), "range")
                raise Unsupported("range step")
            n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            return IterV(n, lambda i: self.mknum(lo + i), "range")
        if f is enumerate:
            it = self.iterate_any(args[0])
            if it.conc is not None:
                its = [TupV([Conc(i), x]) for i, x in enumerate(it.conc)]
                return IterV(it.len, lambda i: its[i], "enum", its)
            return IterV(it.len, lambda i: TupV([self.mknum(i), it.at(i)]),
                         "enumerate")
        if f is reversed:
            it = self.iterate_any(args[0])
            if it.conc is not None:
                its = list(reversed(it.conc))
                return IterV(it.len, lambda i: its[i], "rev", its)
            return IterV(it.len, lambda i: it.at(
                z3.simplify(it.len - 1 - i)), "reversed")
        if f is zip:
            its = [self.iterate_any(a) for a in args]
            if all(i.conc is not None for i in its):
                xs = [TupV(list(t)) for t in zip(*[i.conc for i in its])]
                return IterV(z3.IntVal(len(xs)), lambda i: xs[i], "zip", xs)
            raise Unsupported("zip")
        if f is Fraction:
            vs = [self.force(a) for a in args]
            if all(isinstance(v, Conc) for v in vs):
                return Conc(Fraction(*[v.v for v in vs]))
            if len(vs) == 1 and self.is_num(vs[0]):
                t = self.num(vs[0])
                return RealV(z3.ToReal(t) if t.sort() == z3.IntSort()
                             else t)
            if len(vs) == 2 and all(self.is_num(v) for v in vs):
                a, b = [self.num(v) for v in vs]
                a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
                b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
                self.safety("no ZeroDivisionError", b != 0)
                return RealV(a / b)
            if len(vs) == 1 and self.is_str(vs[0]):
                return RealV(self.fresh("frac", z3.RealSort()))
            self.safety("argument of Fraction", z3.BoolVal(False))
            raise Infeasible()
        if f is int:
            v = self.force(args[0])
            if len(args) == 1 and not kwargs and self.is_num(v):
                t = self.num(v)
                if t.sort() == z3.IntSort():
                    return self.mknum(t)
                return self.mknum(z3.If(t >= 0, z3.ToInt(t),
                                        -z3.ToInt(-t)))
            if self.is_str(v):
                return IntV(self.fresh("int", z3.IntSort()))
            raise Unsupported("int()")
        if f is pymath.floor or f is pymath.ceil or f is round or \
           f is pymath.trunc:
            v = self.force(args[0])
            if len(args) > 1 or not self.is_num(v):
                raise Unsupported("rounding")
            if isinstance(v, Conc):
                return Conc(f(v.v))
            t = self.num(v)
            if t.sort() == z3.IntSort():
                return self.mknum(t)
            if f is pymath.floor:
                return self.mknum(z3.ToInt(t))
            if f is pymath.ceil:
                return self.mknum(-z3.ToInt(-t))
            if f is pymath.trunc:
                return self.mknum(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
            fl = z3.ToInt(t)
            d = t - z3.ToReal(fl)
            half = z3.RealVal("1/2")
            return self.mknum(z3.If(
                d < half, fl, z3.If(d > half, fl + 1, z3.If(
                    fl % 2 == 0, fl, fl + 1))))
        if f is copymod.copy:
            v = self.need_obj(args[0], "copy")
            if isinstance(v, ObjV):
                return self.copy_obj(v)
            return v
        if f is difflib.get_close_matches:
            return self.fresh_any("close", ("list", "str"))
        if getattr(f, "__module__", "") == "re" and \
           getattr(f, "__name__", "") == "match":
            p, s = self.str_t(args[0]), self.str_t(args[1])
            if self.branch(REMATCH(p, s)):
                return ObjV(self.new_ref(object), object)
            return NONE
        if f is type and len(args) == 1:
            return self.getattr(args[0], "__class__")
        if f is id or f is hash:
            return IntV(self.fresh("id", z3.IntSort()))
        if f is sorted:
            raise Unsupported("sorted")
        if f is getattr:
            if isinstance(args[1], Conc):
                return self.getattr(args[0], args[1].v)
        if getattr(f, "__module__", "") in ("_operator", "operator"):
            nm = f.__name__
            ops = {"lt": ast.Lt(), "le": ast.LtE(), "gt": ast.Gt(),
                   "ge": ast.GtE(), "eq": ast.Eq(), "ne": ast.NotEq()}
            if nm in ops:
                return self.mkbool(self.compare(ops[nm], args[0], args[1]))
            bops = {"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult(),
                    "floordiv": ast.FloorDiv(), "truediv": ast.Div(),
                    "mod": ast.Mod(), "pow": ast.Pow(),
                    "xor": ast.BitXor()}
            if nm in bops:
                return self.binop(bops[nm], args[0], args[1])
            if nm == "neg":
                v = self.force(args[0])
                return self.mknum(-self.num(v))
        r = self.specs.external(self, f, args, kwargs)
        if r is not None:
            return r
        raise Unsupported("builtin %s" % getattr(f, "__name__", f))

    def b_len(self, v):
        v = self.need_obj(v, "len")
        if isinstance(v, ObjV):
            k = self.kind(v, "len")
            if k == "obj":
                self.safety("object has a length", z3.BoolVal(False))
                raise Infeasible()
            return self.mknum(self.len_term(v))
        if isinstance(v, (TupV, DictLit)):
            return Conc(len(v.items))
        if isinstance(v, Conc) and hasattr(v.v, "__len__"):
            return Conc(len(v.v))
        if isinstance(v, StrV):
            return IntV(z3.Length(v.t))
        if isinstance(v, TextV):
            return self.mknum(v.len)
        if isinstance(v, SliceV):
            return self.mknum(v.b - v.a)
        if isinstance(v, CharV):
            return Conc(1)
        if isinstance(v, IterV):
            return self.mknum(v.len)
        self.safety("object has a length", z3.BoolVal(False))
        raise Infeasible()

    def b_sum(self, a):
        if isinstance(a, GenV):
            lst = self.gen_concrete(a)
            if lst is None:
                elt = a.node.elt
                # sum of booleans / of ones under a filter: a count
                if isinstance(elt, ast.Constant) and elt.value == 1:
                    it, i0, paths = self.gen_paths(a, "truth")
                    if any(k == "raise" for k, _, _ in paths):
                        raise Unsupported("sum over raising generator")
                    p = z3.Or(*[c for k, c, _ in paths if k == "value"] or
                              [z3.BoolVal(False)])
                    return self.count_fact(
                        it.len, lambda j: z3.substitute(p, (i0, j)))
                raise Unsupported("sum")
        else:
            it = self.iterate_any(a)
            if it.conc is None:
                raise Unsupported("sum")
            lst = it.conc
        t = z3.IntVal(0)
        for x in lst:
            t = t + self.num(self.force(x))
        return self.mknum(t)


class _NotConcrete(Exception):
    pass


def to_load(t):
    t = copymod.copy(t)
    t.ctx = ast.Load()
    return t


CONC_OPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
    ast.Mult: lambda a, b: a * b, ast.FloorDiv: lambda a, b: a // b,
    ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b,
    ast.Div: lambda a, b: a / b, ast.BitXor: lambda a, b: a ^ b,
    ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
}
CMP_OPS = {
    ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
    ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
}
