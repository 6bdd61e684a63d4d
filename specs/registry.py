"""All deductive targets and the properties their obligations decide."""
from pyvc.core import Program
from pyvc.execpy import Exec
from pyvc.verify import verify

import importlib

from . import base, evalspec, evaltargets

MODULES = ["trlc.ast", "trlc.math", "trlc.errors", "trlc.lexer",
           "trlc.parser", "trlc.lint", "trlc.trlc"]

# further modules with declare(S) and targets(S)
MORE = ["evalmore", "msgspec", "resultspec", "symspec", "dataspec", "typespec",
        "parsespec", "markupspec", "valuespec",
        "objspec", "lexspec", "declspec", "filespec"]

_state = {}

ARITH = {"MINUS", "PLUS", "ABSOLUTE_VALUE", "TIMES", "DIVIDE", "REMAINDER",
         "POWER", "COMP_LT", "COMP_LEQ", "COMP_GT", "COMP_GEQ",
         "CONVERSION_TO_INT", "CONVERSION_TO_DECIMAL"}
LOGIC = {"LOGICAL_AND", "LOGICAL_OR", "LOGICAL_XOR", "LOGICAL_IMPLIES",
         "LOGICAL_NOT"}


def op_property(name):
    if "[" in name:
        op = name[name.index("[") + 1:-1]
        if op in ARITH:
            return "A01"
        if op in LOGIC:
            return "A02"
        return "A05"
    if name.startswith("Range_Test"):
        return "A02"
    if name.startswith(("Integer_Lit", "Decimal_Lit")):
        return "A01"
    if name.startswith("Boolean_Lit"):
        return "A02"
    return "A05"


def eval_props(name):
    p = op_property(name)

    def f(ob):
        if ob.name.startswith("null:"):
            return {"A03", p}
        if ob.kind in ("value",):
            return {p}
        if ob.kind == "err":
            return {p, "A03"}
        return {"A04"}
    return f


def load():
    if not _state:
        P = Program(MODULES)
        S = base.Specs(P)
        evalspec.declare(S)
        mods = [importlib.import_module("specs." + m) for m in MORE]
        for m in mods:
            m.declare(S)
        ts = {}
        for t in evaltargets.targets(S):
            t.props_of = eval_props(t.name)
            t.may = {op_property(t.name), "A03", "A04"}
            t.keys = [t.key]
            t.setup = t.teardown = None
            ts[t.name] = t
        for m in mods:
            for t in m.targets(S):
                if t.name in ts:
                    raise RuntimeError("duplicate target " + t.name)
                ts[t.name] = t
        _state.update(P=P, S=S, targets=ts)
    return _state


def names_for(prop):
    return [n for n, t in load()["targets"].items() if prop in t.may]


def run_target(name, prop, budget=300):
    st = load()
    t = st["targets"][name]
    interp = Exec(st["P"], st["S"])
    st["S"].targets = set(t.keys)
    if t.setup:
        t.setup(st["S"])
    try:
        r = verify(t, interp, budget)
    finally:
        if t.teardown:
            t.teardown(st["S"])
    r.obligations = [o for o in r.obligations if prop in t.props_of(o)]
    return r
