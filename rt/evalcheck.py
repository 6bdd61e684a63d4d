"""Bounded contract check: parse + evaluate real expressions and compare
with the reference semantics (exprs.py)."""
import random
from fractions import Fraction

from . import run
from .exprs import (BOOL, Evaluator, Gen, ObjGen, Reject, RunErr, Schema,
                    Typer, render)


class Mismatch(Exception):
    def __init__(self, kind, what, files, detail):
        super().__init__(what)
        self.kind = kind          # reject|accept|value|error|crash|type|tree
        self.what = what
        self.files = files
        self.detail = detail


def decode(A, v, sch, ids):
    """Real Value -> reference value"""
    x = v.value
    return decode_raw(A, x, v.typ, sch, ids)


def decode_raw(A, x, typ, sch, ids):
    if x is None:
        return None
    if isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, list):
        return ("arr", [decode(A, y, sch, ids) for y in x])
    if isinstance(x, A.Enumeration_Literal_Spec):
        return ("enum", x.n_typ.name, x.name)
    if isinstance(x, dict):
        if id(x) in ids:
            return ("ref", ids[id(x)])
        if isinstance(typ, A.Tuple_Type):
            return ("tup", typ.name, {k: decode(A, y, sch, ids)
                                      for k, y in x.items()})
    return ("?", repr(x))


def static_type(A, t):
    """Real static type -> comparable description"""
    if t is None:
        return None
    if isinstance(t, A.Array_Type):
        return ("array", static_type(A, t.element_type), t.lower_bound,
                t.upper_bound)
    if isinstance(t, A.Union_Type):
        return ("union", tuple(x.name for x in t.types))
    if isinstance(t, A.Enumeration_Type):
        return ("enum", t.name)
    if isinstance(t, A.Tuple_Type):
        return ("tuple", t.name)
    if isinstance(t, A.Record_Type):
        return ("rec", t.name)
    return t.name


def ref_type(t):
    if t is None or isinstance(t, str):
        return t
    if t[0] == "array":
        return ("array", ref_type(t[2]), t[3], t[4])
    if t[0] == "union":
        return ("union", tuple(t[2]))
    return t


def fits(sch, t, v):
    """value belongs to the static type"""
    if v is None:
        return True
    if t == "Integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "Decimal":
        return isinstance(v, Fraction)
    if t == "Boolean":
        return isinstance(v, bool)
    if t in ("String", "Markup_String"):
        return isinstance(v, str)
    if v.__class__ is not tuple:
        return False
    if t[0] == "array":
        return v[0] == "arr"
    if t[0] == "tuple":
        return v[0] == "tup" and v[1] == t[1]
    if t[0] == "enum":
        return v[0] == "enum" and v[1] == t[1]
    return v[0] == "ref"


class Batch:
    """One rsl file with many one-line check blocks and some objects"""

    def __init__(self, sch, objgen, exprs, texts=None):
        self.sch = sch
        self.og = objgen
        self.exprs = exprs
        self.texts = texts or [render(e) for e in exprs]

    def files(self, which=None):
        base = self.sch.text()
        n0 = base.count("\n")
        lines = []
        for k, t in enumerate(self.texts):
            if which is None or k in which:
                lines.append('checks T { %s, error "m" }' % (
                    t if self.is_bool[k] else "(%s) == null" % t))
            else:
                lines.append("")
        self.first = n0 + 1
        return {"t.rsl": base + "\n".join(lines) + "\n",
                "t.trlc": self.og.text()}

    def load(self):
        """(expression objects by index, messages by index)"""
        typer = Typer(self.sch)
        self.types = []
        self.is_bool = []
        for e in self.exprs:
            if e is None:        # not in the language
                self.types.append(("reject", None))
                self.is_bool.append(True)
                continue
            try:
                t = typer.typ(e, {})
                self.types.append(("ok", t))
                self.is_bool.append(t == BOOL)
            except Reject:
                self.types.append(("reject", None))
                self.is_bool.append(True)
        r = run.process(self.files(), checks=False)
        import trlc.ast as A
        self.A = A
        self.r = r
        exprs = {}
        if r.sm is not None:
            T = self.find_type(r.sm.stab)
            if T is not None:
                for c in T.checks:
                    exprs[c.location.line_no - self.first] = c.n_expr
        msgs = {}
        for m in r.msgs:
            if m.file == "t.rsl" and m.line is not None:
                msgs.setdefault(m.line - self.first, []).append(m)
        return r, exprs, msgs

    def find_type(self, stab):
        try:
            return stab.table["Pkg".lower()].symbols.table["t"]
        except KeyError:
            pass
        for p in stab.values():
            if p.name == "Pkg":
                for x in p.symbols.values():
                    if x.name == "T":
                        return x
        return None


def get_objs(A, stab):
    out = {}
    for pk in stab.values(A.Package):
        for o in pk.symbols.values(A.Record_Object):
            out[o.name] = o
    return out


KINDS = {"null": "null", "div": "division by zero", "index": ""}


def check_batch(b, report, stats, structure=False):
    """report(kind, idx, objname, what)"""
    r, exprs, msgs = b.load()
    A = b.A
    if r.exc:
        report("crash", None, None, r.exc)
        return
    if any(m.file == "t.trlc" and m.kind == "error" for m in r.msgs):
        report("objects", None, None, repr(r.msgs[:3]))
        return
    objs = get_objs(A, r.sm.stab)
    ids = {id(o.field): n for n, o in objs.items()}
    from trlc.errors import TRLC_Error
    targets = [n for n in b.og.order if b.og.objs[n][0] == "T"]
    for k, e in enumerate(b.exprs):
        st, t = b.types[k]
        stats["exprs"] += 1
        if st == "reject":
            stats["rejected"] += 1
            if k in exprs:
                report("accept", k, None,
                       "accepted although not permitted")
            elif not msgs.get(k):
                report("accept", k, None, "rejected without a message")
            continue
        if k not in exprs:
            report("reject", k, None, "rejected: %s" % msgs.get(k))
            continue
        n = exprs[k]
        if not b.is_bool[k]:
            n = n.n_lhs
        if static_type(A, n.typ) != ref_type(t):
            report("type", k, None, "static type %s instead of %s" % (
                static_type(A, n.typ), ref_type(t)))
        if structure:
            d = tree_diff(A, n, b.exprs[k])
            if d:
                report("tree", k, None, d)
        for name in targets:
            stats["evals"] += 1
            o = objs[name]
            try:
                want = ("value", Evaluator(b.sch, b.og.objs,
                                           b.og.objs[name][1]).ev(e, {}))
            except RunErr as err:
                want = ("error", err.kind)
            n0 = len(r.mh.recorded)
            e0 = r.mh.errors
            try:
                v = n.evaluate(r.mh, dict(o.field), r.sm.stab)
                got = ("value", decode(A, v, b.sch, ids))
                if (v.typ is None) != (v.value is None):
                    report("type", k, name, "value/type null mismatch")
            except TRLC_Error:
                got = ("error", None)
                if r.mh.errors != e0 + 1 or len(r.mh.recorded) != n0 + 1:
                    report("count", k, name, "error raised but not counted "
                           "or emitted once")
            except Exception as ex:      # pylint: disable=broad-except
                report("crash", k, name, "%s: %s" % (
                    ex.__class__.__name__, ex))
                continue
            if want[0] != got[0]:
                report("error", k, name, "expected %s, got %s" % (want, got))
            elif want[0] == "value":
                if not same(want[1], got[1]):
                    report("value", k, name, "expected %r, got %r" % (
                        want[1], got[1]))
                if not fits(b.sch, t, got[1]):
                    report("fits", k, name, "value %r is not of type %s" % (
                        got[1], ref_type(t)))
                stats["vals"] += 1
            else:
                stats["errs"] += 1
                m = r.mh.recorded[-1].text
                if want[1] == "null" and "null" not in m or \
                   want[1] == "div" and "zero" not in m or \
                   want[1] == "index" and "null" in m.split(" in ")[0]:
                    report("errkind", k, name, "expected a %s error, got %s"
                           % (want[1], m))


def same(a, b):
    if a.__class__ is not b.__class__:
        return False
    if isinstance(a, tuple) or isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


UN = {"-": "MINUS", "+": "PLUS", "abs": "ABSOLUTE_VALUE",
      "not": "LOGICAL_NOT"}
BIN = {"and": "LOGICAL_AND", "or": "LOGICAL_OR", "xor": "LOGICAL_XOR",
       "implies": "LOGICAL_IMPLIES", "==": "COMP_EQ", "!=": "COMP_NEQ",
       "<": "COMP_LT", "<=": "COMP_LEQ", ">": "COMP_GT", ">=": "COMP_GEQ",
       "+": "PLUS", "-": "MINUS", "*": "TIMES", "/": "DIVIDE",
       "%": "REMAINDER", "**": "POWER"}
FN2 = {"startswith": "STRING_STARTSWITH", "endswith": "STRING_ENDSWITH",
       "matches": "STRING_REGEX"}


def tree_diff(A, n, e):
    """Compare a real expression tree with the reference one"""
    k = e[0]

    def bad(why):
        return "expected %s, got %s" % (render(e), why)

    def want(cls):
        return n.__class__.__name__ == cls
    if k == "int":
        return None if want("Integer_Literal") and n.value == e[1] \
            else bad(n.to_string())
    if k == "dec":
        return None if want("Decimal_Literal") and n.value == e[1] \
            else bad(n.to_string())
    if k == "str":
        return None if want("String_Literal") and n.value == e[1] \
            else bad(n.to_string())
    if k == "bool":
        return None if want("Boolean_Literal") and n.value is e[1] \
            else bad(n.to_string())
    if k == "null":
        return None if want("Null_Literal") else bad(n.to_string())
    if k == "enum":
        return None if want("Enumeration_Literal") and \
            n.value.name == e[2] and n.value.n_typ.name == e[1] \
            else bad(n.to_string())
    if k == "name":
        return None if want("Name_Reference") and n.entity.name == e[1] \
            else bad(n.to_string())
    if k == "field":
        if not want("Field_Access_Expression") or n.n_field.name != e[2]:
            return bad(n.to_string())
        return tree_diff(A, n.n_prefix, e[1])

    def binop(op, x, y):
        if not want("Binary_Expression") or n.operator.name != op:
            return bad(n.to_string())
        return tree_diff(A, n.n_lhs, x) or tree_diff(A, n.n_rhs, y)
    if k == "index":
        return binop("INDEX", e[1], e[2])
    if k == "un":
        if not want("Unary_Expression") or n.operator.name != UN[e[1]]:
            return bad(n.to_string())
        return tree_diff(A, n.n_operand, e[2])
    if k == "notin" or k == "range" and not e[1]:
        if not want("Unary_Expression") or n.operator.name != "LOGICAL_NOT":
            return bad(n.to_string())
        e2 = ("range", True) + e[2:] if k == "range" else \
            ("bin", "in", e[1], e[2])
        return tree_diff(A, n.n_operand, e2)
    if k == "range":
        if not want("Range_Test"):
            return bad(n.to_string())
        return tree_diff(A, n.n_lhs, e[2]) or \
            tree_diff(A, n.n_lower, e[3]) or tree_diff(A, n.n_upper, e[4])
    if k == "bin":
        if e[1] == "in":
            if not want("Binary_Expression") or n.operator.name not in (
                    "STRING_CONTAINS", "ARRAY_CONTAINS"):
                return bad(n.to_string())
            return tree_diff(A, n.n_lhs, e[2]) or \
                tree_diff(A, n.n_rhs, e[3])
        return binop(BIN[e[1]], e[2], e[3])
    if k == "call":
        if e[1] in FN2:
            return binop(FN2[e[1]], e[2][0], e[2][1])
        if e[1] == "oneof":
            if not want("OneOf_Expression") or \
               len(n.choices) != len(e[2]):
                return bad(n.to_string())
            for x, y in zip(n.choices, e[2]):
                d = tree_diff(A, x, y)
                if d:
                    return d
            return None
        ops = {"len": ("STRING_LENGTH", "ARRAY_LENGTH"),
               "Integer": ("CONVERSION_TO_INT",),
               "Decimal": ("CONVERSION_TO_DECIMAL",)}[e[1]]
        if not want("Unary_Expression") or n.operator.name not in ops:
            return bad(n.to_string())
        return tree_diff(A, n.n_operand, e[2][0])
    if k == "if":
        if not want("Conditional_Expression") or \
           len(n.actions) != len(e[1]):
            return bad(n.to_string())
        for a, (c, x) in zip(n.actions, e[1]):
            d = tree_diff(A, a.n_cond, c) or tree_diff(A, a.n_expr, x)
            if d:
                return d
        return tree_diff(A, n.else_expr, e[2])
    if k == "quant":
        if not want("Quantified_Expression") or n.universal != e[1] or \
           n.n_var.name != e[2] or n.n_source.entity.name != e[3]:
            return bad(n.to_string())
        return tree_diff(A, n.n_expr, e[4])
    return bad("?")


def random_batch(seed, n=60, depth=3, wild=0.0, nobj=4, types=None,
                 wrap=None):
    rng = random.Random(seed)
    sch = Schema()
    g = Gen(sch, rng, wild=wild)
    og = ObjGen(sch, rng)
    og.basics()
    for k in range(nobj):
        og.add("ot%d" % k, "T", [0.0, 0.3, 0.6, 1.0][k % 4])
    exprs = []
    for _ in range(n):
        t = BOOL
        if types:
            t = types[rng.randrange(len(types))]
        elif rng.random() < 0.4:
            t = g.any_type()
        e = g.expr(t, rng.randint(1, depth))
        exprs.append(e)
    return Batch(sch, og, exprs)
