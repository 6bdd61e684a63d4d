"""References in markup strings (H01): every name between double square
brackets is recorded, once, in the order in which it is written, with the
package it is looked up in and the place where it stands."""
import z3

from pyvc.core import V, AnyV, Conc, NONE, ObjV, PyRaise, to_v
from . import parsespec
from .base import Contract
from .dataspec import bind, h0
from .evalspec import isnone
from .kit import And, F, I, If, Implies, Not, Or, target
from .parsespec import (NTOK, TOKAT, as_sv, c_advance, cursor, is_kind,
                        known, pos, setpos, token, value_of, visible, vs)
from .symspec import FIND, SIMPLE, CHAIN

P = "H01"
# the reference whose first identifier is the n-th token
REFAT = z3.Function("markup_reference_at", I, I, I)
QE = z3.Function("markup_name_end", I, I, I)
# the list that opens at n: the position of its j-th name, its length, end
NP = z3.Function("markup_name_of_list", I, I, I, I)
LN = z3.Function("markup_list_length", I, I, I)
LE = z3.Function("markup_list_end", I, I, I)
# number of references when all is read from n on, given that len are known
FINAL = z3.Function("markup_references_in_all", I, I, I, I)


def facts(i, p, n):
    t = TOKAT(p, n)
    M = i.specs.P.Markup_Token
    kind = h0("kind", V.vo(t))
    return And(
        Or(isnone(t), And(
            V.is_VObj(t), V.vo(t) >= 0, i.prog.isinst(V.vo(t), M),
            Or(*[kind == vs(k) for k in M.KIND]),
            V.is_VStr(value_of(t)))),
        If(isnone(t), Or(n < 0, n >= NTOK(p)), And(n >= 0, n < NTOK(p))))


def references(i, p):
    return V.vo(h0("references", p))


def appended(i, p, lst, m):
    """m references are appended that are read from here"""


def c_name(i, a, kw):
    p = a[0].t
    n = pos(i, p)
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    r = REFAT(p, n)
    i.mark_old(r)
    i.assume(And(r >= 0, i.prog.isinst(r, i.specs.A.Record_Reference)))
    e = QE(p, n)
    t = token(i, p, n)
    i.assume(is_kind(t, "REFLIST_IDENTIFIER"))
    i.assume(Or(e == n + 1, e == n + 3))
    i.assume(is_kind(token(i, p, e - 1), "REFLIST_IDENTIFIER"))
    i.list_append(ObjV(references(i, p), list), ObjV(
        r, i.specs.A.Record_Reference))
    setpos(i, p, e)
    return NONE


def c_list(i, a, kw):
    p = a[0].t
    n = pos(i, p)
    t = token(i, p, n)
    if i.branch(Not(is_kind(t, "REFLIST_BEGIN"))):
        raise PyRaise(i.specs.E.TRLC_Error)
    if i.choose(2) == 0:
        raise PyRaise(i.specs.E.TRLC_Error)
    lst = references(i, p)
    ln, el = i.hread("$len", lst), i.hread("$elem", lst)
    m, e = LN(p, n), LE(p, n)
    i.assume(And(m >= 1, e >= n + 3))
    i.assume(is_kind(token(i, p, e - 1), "REFLIST_END"))
    new = i.fresh("els", el.sort())
    q = z3.Int("q_ref")
    i.assume(z3.ForAll([q], z3.Select(new, q) == If(
        And(q >= ln, q < ln + m), V.VObj(REFAT(p, NP(p, n, q - ln))),
        z3.Select(el, q))))
    i.hwrite("$elem", lst, new)
    i.hwrite("$len", lst, ln + m)
    setpos(i, p, e)
    return NONE


# ------------------------------------------------------------------ targets
def parser(k):
    o = k.obj("self", k.S.P.Markup_Parser)
    at = k.h0("$pos", o.t)
    k.i.assume(And(V.is_VInt(at), V.vi(at) >= 0))
    n = V.vi(at)
    token(k.i, o.t, n)
    k.i.ghost["parser"] = o.t
    k.i.ghost["plain_branch"] = True
    lst = references(k.i, o.t)
    k.i.assume(And(V.is_VObj(h0("references", o.t)), lst >= 0, h0(
        "$len", lst) >= 0, k.isa(V.VObj(lst), list)))
    return o, n, lst


def name(k):
    o, n, lst = parser(k)
    p = o.t
    A = k.A
    par = k.o0("parent", p)
    cu = k.o0("cu", par)
    t = token(k.i, p, n)
    dot = is_kind(token(k.i, p, n + 1), "REFLIST_DOT")
    own = h0("package", cu)
    k.i.assume(k.isa(own, A.Package))
    imp = h0("imports", cu)
    k.i.assume(k.isa(imp, set))
    out, rv = k.call(k.S.P.Markup_Parser, "parse_qualified_name", [o])
    named = FIND(k.o0("stab", par), SIMPLE(V.vs(value_of(t))))
    pkg = If(dot, named, own)
    if out == "err":
        return
    ln0, ln1 = h0("$len", lst), k.h1("$len", lst)
    q = z3.Int("q")
    ref = V.vo(z3.Select(k.h1("$elem", lst), ln0))
    last = token(k.i, p, If(dot, n + 2, n))
    k.prove(P, "value:exactly one reference is added, at the end", And(
        ln1 == ln0 + 1, k.i.prog.isinst(ref, A.Record_Reference),
        z3.ForAll([q], Implies(q < ln0, z3.Select(k.h1("$elem", lst), q)
                               == z3.Select(h0("$elem", lst), q)))))
    k.prove(P, "value:it has the name that is written", And(
        is_kind(last, "REFLIST_IDENTIFIER"),
        k.h1("name", ref) == value_of(last)))
    k.prove(P, "value:it stands where the name is written",
            k.h1("location", ref) == h0("location", V.vo(last)))
    k.prove(P, "value:it is looked up in the package that is named, else in "
            "that of the file", And(k.h1("package", ref) == pkg,
                                    k.isa(pkg, A.Package)))
    k.prove(P, "value:the package named is spelled as declared and visible",
            Implies(dot, And(h0("name", V.vo(named)) == value_of(t),
                             visible(k.i, cu, named))))
    k.prove(P, "value:it is not resolved yet, to any type", And(
        isnone(k.h1("target", ref)), isnone(k.h1("typ", ref))))
    k.prove(P, "value:exactly the tokens of the name are consumed", And(
        is_kind(t, "REFLIST_IDENTIFIER"),
        pos(k.i, p) == If(dot, n + 3, n + 1)))
    k.frame(P, lambda f, r: f == "ast_link" or (
        z3.eq(r, p) and f == "$pos") or (z3.eq(z3.simplify(r), z3.simplify(
            lst)) and f in ("$len", "$elem")))


def inv_list(i, node, it, env_mods, entry_env):
    st = i.ghost.get("reflist")
    if st is None or it is not None:
        return []
    p, n, lst = st
    ln0, el0 = h0("$len", lst), h0("$elem", lst)

    def so_far(ip, idx):
        m = ip.hread("$len", lst) - ln0
        at = NP(p, n, m - 1)
        ip.assume(NP(p, n, m) == QE(p, at) + 1)
        return And(m >= 1, pos(ip, p) == QE(p, at), at > n,
                   Or(QE(p, at) == at + 1, QE(p, at) == at + 3),
                   Not(isnone(token(ip, p, pos(ip, p) - 1))))

    def elems(ip, idx):
        m = ip.hread("$len", lst) - ln0
        q = z3.Int("q_inv")
        return z3.ForAll([q], z3.Select(ip.hread("$elem", lst), q) == If(
            And(q >= ln0, q < ln0 + m), V.VObj(REFAT(p, NP(
                p, n, q - ln0))), z3.Select(el0, q)))

    def commas(ip, idx):
        return every_comma(p, n, ip.hread("$len", lst) - ln0 - 1)
    return [("names-so-far", so_far), ("references-so-far", elems),
            ("commas-so-far", commas)]


def every_comma(p, n, m):
    q = z3.Int("q_comma")
    return z3.ForAll([q], Implies(And(q >= 0, q < m), is_kind(
        TOKAT(p, QE(p, NP(p, n, q))), "REFLIST_COMMA")))


def ref_list(k):
    o, n, lst = parser(k)
    p = o.t
    k.i.ghost["reflist"] = (p, n, lst)
    k.i.assume(NP(p, n, z3.IntVal(0)) == n + 1)
    out, rv = k.call(k.S.P.Markup_Parser, "parse_ref_list", [o])
    if out == "err":
        return
    ln0 = h0("$len", lst)
    m = k.h1("$len", lst) - ln0
    q = z3.Int("q")
    k.prove(P, "value:a reference for every name, in order, after those "
            "before", And(m >= 1, z3.ForAll([q], z3.Select(
                k.h1("$elem", lst), q) == If(And(q >= ln0, q < ln0 + m),
                                             V.VObj(REFAT(p, NP(
                                                 p, n, q - ln0))),
                                             z3.Select(h0(
                                                 "$elem", lst), q)))))
    e = QE(p, NP(p, n, m - 1))
    k.prove(P, "value:commas separate the names", every_comma(p, n, m - 1))
    k.prove(P, "value:the list is closed after the last name", And(
        is_kind(token(k.i, p, n), "REFLIST_BEGIN"),
        is_kind(token(k.i, p, e), "REFLIST_END"), pos(k.i, p) == e + 1))
    k.frame(P, lambda f, r: (z3.eq(r, p) and f == "$pos") or (z3.eq(
        z3.simplify(r), z3.simplify(lst)) and f in ("$len", "$elem")))


def final(i, p, n, ln):
    """FINAL unfolded once"""
    t = token(i, p, n)
    i.assume(FINAL(p, n, ln) == If(isnone(t), ln, If(
        is_kind(t, "CHARACTER"), FINAL(p, n + 1, ln),
        FINAL(p, LE(p, n), ln + LN(p, n)))))
    return FINAL(p, n, ln)


def inv_all(i, node, it, env_mods, entry_env):
    st = i.ghost.get("all refs")
    if st is None or it is not None:
        return []
    p, n, lst = st
    ln0, el0 = h0("$len", lst), h0("$elem", lst)

    def same_end(ip, idx):
        ln = ip.hread("$len", lst)
        return And(ln >= ln0, pos(ip, p) >= n,
                   final(ip, p, pos(ip, p), ln) == FINAL(p, n, ln0))

    def kept(ip, idx):
        q = z3.Int("q_kept")
        return z3.ForAll([q], Implies(q < ln0, z3.Select(ip.hread(
            "$elem", lst), q) == z3.Select(el0, q)))
    return [("the-same-number-in-all", same_end), ("none-is-lost", kept)]


def all_refs(k):
    o, n, lst = parser(k)
    p = o.t
    k.i.ghost["all refs"] = (p, n, lst)
    final(k.i, p, n, h0("$len", lst))
    out, rv = k.call(k.S.P.Markup_Parser, "parse_all_references", [o])
    if out == "err":
        return
    q = z3.Int("q")
    k.prove(P, "value:every list is read, to the end of the string", And(
        isnone(token(k.i, p, pos(k.i, p))),
        k.h1("$len", lst) == FINAL(p, n, h0("$len", lst))))
    k.prove(P, "value:no reference is removed or changed", z3.ForAll(
        [q], Implies(q < h0("$len", lst), z3.Select(k.h1(
            "$elem", lst), q) == z3.Select(h0("$elem", lst), q))))
    k.prove(P, "value:the references of the string literal are given",
            k.v(rv) == V.VObj(lst))
    k.frame(P, lambda f, r: (z3.eq(r, p) and f == "$pos") or (z3.eq(
        z3.simplify(r), z3.simplify(lst)) and f in ("$len", "$elem")))


def measure(i, node):
    p = i.ghost.get("parser")
    m = lambda ip: NTOK(p) - pos(ip, p)
    return m(i), m


def setup(S):
    PB = S.P.Parser_Base
    tok = S.P.Markup_Token
    for f, d in (("nt", 0), ("ct", 1)):
        S.ghost_fields[(PB, f)] = lambda i, o, d=d: as_sv(i, token(
            i, o.t, pos(i, o.t) - d), tok)
    parsespec.LANG.update(facts=facts, kinds=tok.KIND)
    parsespec._tok.clear()
    S._measure = S.loop_measure
    S.loop_measure = measure


def teardown(S):
    for f in ("nt", "ct"):
        S.ghost_fields.pop((S.P.Parser_Base, f))
    parsespec.LANG.clear()
    parsespec._tok.clear()
    S.loop_measure = S._measure


def declare(S):
    P_ = S.P
    S.fields[(P_.Markup_Parser, "parent")] = P_.Parser
    S.fields[(P_.Markup_Parser, "references")] = (
        "list", S.A.Record_Reference)
    S.contract(P_.Markup_Parser, "parse_qualified_name", c_name)
    S.contract(P_.Markup_Parser, "parse_ref_list", c_list)
    S.invariants.append(inv_list)
    S.invariants.append(inv_all)


def targets(S):
    def tg(m, f):
        return target("Markup_Parser.%s" % m,
                      "trlc.parser.Markup_Parser.%s" % m, "H01,J01", f,
                      [("trlc.parser", "Markup_Parser.%s" % m)], setup,
                      teardown)
    return [tg("parse_qualified_name", name), tg("parse_ref_list", ref_list),
            tg("parse_all_references", all_refs)]
