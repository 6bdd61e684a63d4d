"""Specification registry: field schemas, contracts and loop invariants.

Everything the verifier assumes at call sites is declared here or in the
sibling modules; each entry says whether it is proved elsewhere or trusted.
"""
import ast
import types

import z3

from pyvc.core import (V, AnyV, BoolV, Conc, Infeasible, IntV, NONE, ObjV,
                       PyRaise, StrV, TextV, Unsupported, mro_find, to_v)

ARR_VV = z3.ArraySort(V, V)
B = z3.BoolSort()
I = z3.IntSort()

# Uninterpreted meaning of a (sub)expression: evaluation outcome in a context
# given by (static?, name -> value map).
ER = z3.Function("eval_reports_error", I, B, ARR_VV, B)
EV = z3.Function("eval_value", I, B, ARR_VV, V)
EVT = z3.Function("eval_value_type", I, B, ARR_VV, V)


class Contract:
    """A callee contract: apply() transforms the caller's state"""

    def __init__(self, name, fn, status="proved elsewhere"):
        self.name = name
        self.fn = fn
        self.status = status
        self.used = 0

    def apply(self, interp, args, kwargs):
        self.used += 1
        interp.used_contracts[self.name] = self.status
        return self.fn(interp, args, kwargs)


class Specs:
    def __init__(self, prog):
        self.prog = prog
        self.A = prog.mods.get("trlc.ast")
        self.E = prog.mods.get("trlc.errors")
        self.L = prog.mods.get("trlc.lexer")
        self.P = prog.mods.get("trlc.parser")
        self.fields = {}
        self.contracts = {}          # (module, qualname) -> Contract
        self.virtuals = []           # (base class, method name, Contract)
        self.ctors = {}
        self.targets = set()         # (module, qualname) verified now
        self.ghost_fields = {}
        self.externals = {}
        self.splitlines = None
        self.invariants = []
        from . import schema
        schema.declare(self)

    # ---- interface used by the engine
    def key(self, fn):
        return (getattr(fn, "__module__", None),
                getattr(fn, "__qualname__", None))

    def contract_for(self, fn):
        return self.contracts.get(self.key(fn))

    def is_target(self, fn, interp):
        # only the outermost activation is the body under proof
        return self.key(fn) in self.targets and not any(
            getattr(f, "key", None) == self.key(fn) for f in interp.stack)

    def ctor_contract(self, cls):
        return self.ctors.get(cls)

    def virtual_contract(self, classes, name, interp, o):
        if not classes:
            return None
        for base, n, c in self.virtuals:
            if n != name or not any(issubclass(k, base) for k in classes):
                continue
            if all(issubclass(k, base) for k in classes) or \
               interp.valid(self.prog.isinst(o.t, base)):
                return c
        return None

    def field_spec(self, cls, name):
        for k in cls.__mro__:
            s = self.fields.get((k, name))
            if s is not None:
                return s
        return None

    def has_field(self, interp, cs, name):
        return any(self.field_spec(c, name) is not None for c in cs)

    def field_unknown(self, cls, name):
        return False

    def field_ghost(self, interp, obj, name):
        for c in interp.classes_of(obj):
            for k in c.__mro__:
                g = self.ghost_fields.get((k, name))
                if g is not None:
                    return g(interp, obj)
        return None

    def loop_candidates(self, interp, node, it, env_mods, entry_env):
        out = []
        for f in self.invariants:
            out.extend(f(interp, node, it, env_mods, entry_env))
        return out

    def loop_measure(self, interp, node):
        return None

    def external(self, interp, f, args, kwargs):
        g = self.externals.get(f)
        if g is None:
            return None
        return g(interp, args, kwargs)

    def text_count(self, interp, sl, ch):
        raise Unsupported("count in text")

    # ---- helpers for declarations
    def contract(self, cls, name, fn, status="proved elsewhere"):
        k, m = mro_find(cls, name)
        m = m.__func__ if isinstance(m, (classmethod, staticmethod)) else m
        c = Contract("%s.%s" % (cls.__name__, name), fn, status)
        self.contracts[self.key(m)] = c
        return c

    def virtual(self, cls, name, fn, status="proved elsewhere"):
        c = Contract("%s.%s (all subclasses)" % (cls.__name__, name), fn,
                     status)
        self.virtuals.append((cls, name, c))
        return c
