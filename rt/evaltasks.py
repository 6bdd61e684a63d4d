"""Bounded tasks for the expression properties (A01-A05, B01, B02)."""
import collections
import random

from . import evalcheck
from .exprs import (BOOL, DEC, INT, MU, STR, Gen, ObjGen, Schema, render)

FOCUS = {
    "A01": (["arith", "un", "conv", "pow", "rem", "cmp", "leaf"],
            [INT, DEC, INT, DEC, BOOL], ("value", "error", "crash", "fits",
                                         "errkind")),
    "A02": (["logic", "not", "range", "lurk", "leaf", "cmp", "nulleq",
             "quant", "oneof", "in", "eq"],
            [BOOL], ("value", "error", "crash", "fits", "errkind")),
    "A03": (None, None, ("null",)),
    "A04": (None, None, ("crash", "fits", "count", "objects")),
    "A05": (["if", "quant", "oneof", "index", "len", "in", "strfn",
             "matches", "eq", "nulleq", "cat", "leaf"], None,
            ("value", "error", "crash", "fits", "errkind")),
    "B01": (None, None, ("accept", "reject", "type", "crash")),
    "B02": (None, None, ("tree", "reject", "crash")),
}

RULE = ("random well-typed (B01: also ill-typed) check expressions over a "
        "fixed package with enums, tuples, arrays, records, extensions and "
        "unions, evaluated on random objects by the real code and by the "
        "reference semantics; non-trivial: expression with at least one "
        "operator, distinct by text")


def run_unit(prop, seed, n=60, depth=3, nobj=4):
    """One batch; returns (stats, samples, violations)"""
    focus, types, kinds = FOCUS[prop]
    rng = random.Random("%s-%s" % (prop, seed))
    sch = Schema()
    wild = 0.0
    if prop == "B01":
        wild = rng.choice([0.03, 0.1, 0.3])
        depth = 2
    if prop == "B02":
        depth = 4
        nobj = 1
    g = Gen(sch, rng, wild=wild, focus=focus)
    og = ObjGen(sch, rng)
    og.basics()
    for k in range(nobj):
        og.add("ot%d" % k, "T", [0.0, 0.3, 0.6, 1.0][k % 4])
    exprs = []
    for _ in range(n):
        t = rng.choice(types) if types else (
            BOOL if rng.random() < 0.6 else g.any_type())
        exprs.append(g.expr(t, rng.randint(1, depth)))
    return run_exprs(prop, sch, og, exprs, seed, kinds)


def run_exprs(prop, sch, og, exprs, seed, kinds, texts=None):
    b = evalcheck.Batch(sch, og, exprs, texts)
    st = collections.Counter()
    viol = []

    def report(kind, k, name, what):
        k2 = kind
        if "null" in kinds:
            if kind == "error" and "null" in what or kind == "errkind" or \
               kind == "value" and (what.startswith("expected None") or
                                    what.endswith("got None")):
                k2 = "null"
        if k2 not in kinds and not (kind == "crash" and k is None):
            return
        if len(viol) < 5:
            viol.append({
                "what": "%s: %s" % (kind, what),
                "expression": None if k is None else b.texts[k],
                "object": name,
                "files": b.files(None if k is None else {k}),
                "unit": [prop, seed]})
    evalcheck.check_batch(b, report, st, structure=(prop == "B02"))
    texts = {t for t, e in zip(b.texts, exprs)
             if e is None or e[0] not in ("int", "dec", "bool", "str", "null", "name",
                             "enum")}
    return {"evaluations": st["evals"] + st["exprs"],
            "distinct": texts, "samples": b.texts[:2],
            "detail": dict(st)}, viol


POOL = ["and", "or", "xor", "implies", "not", "in", "==", "!=", "<", ">",
        "+", "-", "*", "/", "%", "**", "(", ")", "[", "]", ",", ".", "..",
        "=>", "abs", "if", "then", "else", "elsif", "forall", "exists",
        "null", "true", "i", "b", "1", "2.5", '"a"', "ai", "len", "q", "x"]


def mutate_unit(prop, seed, n=80):
    """token-level mutations of expressions against the reference parser"""
    from . import refparse
    rng = random.Random("mut-%s" % seed)
    sch = Schema()
    g = Gen(sch, rng)
    og = ObjGen(sch, rng)
    og.basics(1)
    og.add("ot0", "T", 0.3)
    exprs, texts = [], []
    for _ in range(n):
        e = g.expr(BOOL, rng.randint(1, 3))
        toks = [v for _, v in refparse.tokens(render(e))]
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            p = rng.randrange(len(toks) + 1)
            k = rng.randrange(5)
            if k == 0 and len(toks) > 1:
                del toks[min(p, len(toks) - 1)]
            elif k == 1:
                toks.insert(p, rng.choice(POOL))
            elif k == 2 and p < len(toks):
                toks[p] = rng.choice(POOL)
            elif k == 3 and p + 1 < len(toks):
                toks[p], toks[p + 1] = toks[p + 1], toks[p]
            elif p < len(toks):
                toks.insert(p, toks[p])
        text = " ".join(toks)
        try:
            x = refparse.parse(text, sch.enums)
        except refparse.Bad:
            x = None
        if has_big_power(x):
            continue
        exprs.append(x)
        texts.append(text)
    return run_exprs(prop, sch, og, exprs, "mut%s" % seed, (
        "tree", "reject", "crash", "accept"), texts)


def has_big_power(e):
    """avoid exponents that only cost time"""
    if not isinstance(e, (tuple, list)):
        return False
    if len(e) == 4 and e[0] == "bin" and e[1] == "**":
        if render(e[3]) not in ("0", "1", "2", "3", "4", "-1", "-2", "5"):
            return "1" in render(e[3]) or "5" in render(e[3])
    return any(has_big_power(x) for x in e)


# ------------------------------------------------ exhaustive operator tables
def typed_operands(sch):
    """one expression per static type (and null)"""
    out = [("null", ("null",))]
    seen = set()
    for c in sch.tcomp.values():
        t = c.typ
        key = t if isinstance(t, str) else (t[0], c.name if t[0] in (
            "array", "union") else t[1])
        if key in seen:
            continue
        seen.add(key)
        out.append((str(key), ("name", c.name)))
    out.append(("rec C via field", ("field", ("name", "q"), "nx")))
    for lit in (("int", 1), ("dec", __import__("fractions").Fraction(1, 2)),
                ("str", "a"), ("bool", True), ("enum", "Ea", "e1"),
                ("enum", "Fa", "e1")):
        out.append((lit[0], lit))
    return out


def table_exprs():
    """every operator and function applied to every operand type pair"""
    sch = Schema()
    ops = typed_operands(sch)
    out = []
    for _, a in ops:
        for op in ("not", "abs", "-", "+"):
            out.append(("un", op, a))
        for fn in ("len", "oneof", INT, DEC):
            out.append(("call", fn, [a]))
        out.append(("field", a, "x") if a[0] in ("name", "field") else
                   ("un", "not", a))
        out.append(("bin", "**", a, ("int", 2)))
        out.append(("bin", "**", ("int", 2), a))
        out.append(("bin", "**", ("name", "d"), a))
        out.append(("call", "matches", [a, ("str", "a")]))
        out.append(("call", "matches", [("str", "a"), a]))
        out.append(("if", [(a, ("int", 1))], ("int", 2)))
        out.append(("quant", True, "qq", "ai", a))
        for f in ("len", "startswith", "endswith", "matches", INT, DEC):
            if f != "matches":
                out.append(("call", f, []))
            out.append(("call", f, [a, a, a]))
        out.append(("call", "len", [a, a]))
        out.append(("call", INT, [a, a]))
        out.append(("call", "startswith", [a]))
        for _, b in ops:
            for op in ("and", "or", "xor", "implies", "==", "!=", "<", "<=",
                       ">", ">=", "+", "-", "*", "/", "%", "in"):
                out.append(("bin", op, a, b))
            for fn in ("startswith", "endswith", "oneof"):
                out.append(("call", fn, [a, b]))
            out.append(("range", True, a, b, ("int", 1)))
            out.append(("range", True, a, ("name", "i"), b))
            out.append(("range", True, a, ("name", "d"), b))
            out.append(("range", False, ("name", "d"), a, b))
            out.append(("notin", a, b))
            if a[0] in ("name", "field"):
                out.append(("index", a, b))
            out.append(("if", [(("name", "b"), a)], b))
            out.append(("if", [(("name", "b"), ("int", 1)),
                               (a, ("int", 2))], b))
            out.append(("if", [(("name", "b"), a), (("name", "b"), b)], a))
    # the empty argument list of oneof, unknown names
    out.append(("call", "oneof", []))
    out.append(("name", "nosuch"))
    out.append(("enum", "Ea", "nosuch"))
    return [e for e in out if not (e[0] == "call" and not e[2] and
                                   e[1] == "matches")]


def table_unit(prop, shard, nshards):
    sch = Schema()
    rng = random.Random("table")
    og = ObjGen(sch, rng)
    og.basics(1)
    og.add("ot0", "T", 0.0)
    exprs = table_exprs()[shard::nshards]
    out_st, out_v = None, []
    for k in range(0, len(exprs), 150):
        st, v = run_exprs(prop, sch, og, exprs[k:k + 150],
                          "table%d.%d" % (shard, k), FOCUS[prop][2])
        out_v += v
        if out_st is None:
            out_st = st
        else:
            out_st["evaluations"] += st["evaluations"]
            out_st["distinct"] |= st["distinct"]
    return out_st, out_v
