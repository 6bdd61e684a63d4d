"""Bounded contract check of the lexer (C01, C02, C03) against an independent
reference built from the lexical grammar of the manual."""
import io
import itertools
import os
import random
import re
from fractions import Fraction

from . import run

KEYWORDS = set("""abs abstract and checks else elsif enum error exists
extends false fatal final forall freeze if implies import in not null optional
or package section separator then true tuple type warning xor""".split())

SINGLE = {"(": "BRA", ")": "KET", "{": "C_BRA", "}": "C_KET", "[": "S_BRA",
          "]": "S_KET", ",": "COMMA", "@": "AT", ":": "COLON",
          ";": "SEMICOLON"}

TOKEN = re.compile(r"""
    (?P<comment>//[^\n]*|/\*(?:(?!\*/)[\s\S])*(?:\*/|\Z))
  | (?P<ident>[A-Za-z][A-Za-z0-9_]*)
  | (?P<tq>\"\"\"|''')
  | (?P<dq>\"(?:\\\"|[^\"\n])*\")
  | (?P<num>[0-9])
  | (?P<op>\*\*|==|!=|<=|>=|[<>*/%+-])
  | (?P<arrow>=>)
  | (?P<range>\.\.)
  | (?P<dot>\.)
  | (?P<assign>=)
  | (?P<single>[(){}\[\],@:;])
""", re.X)

NUM = {10: re.compile(r"[0-9]+(?:_[0-9]+)*"),
       2: re.compile(r"0b[01]+(?:_[01]+)*"),
       16: re.compile(r"0x[0-9a-fA-F]+(?:_[0-9a-fA-F]+)*")}


class Bad(Exception):
    pass


def dq_end(text, p):
    """end of the double-quoted literal starting at p (exclusive)"""
    i = p + 1
    n = len(text)
    while i < n:
        if text[i] == '"':
            return i + 1
        if text[i] == "\n":
            raise Bad(p)
        if text[i] == "\\" and i + 1 < n and text[i + 1] == '"':
            i += 2
        else:
            i += 1
    raise Bad(p)


def number(text, p):
    base = {"0b": 2, "0x": 16}.get(text[p:p + 2], 10)
    m = NUM[base].match(text, p)
    if not m:
        raise Bad(p)
    e = m.end()
    kind, value = "INTEGER", int(m.group().replace("_", ""), base)
    nxt = text[e:e + 1]
    if nxt == "." and text[e + 1:e + 2] != ".":
        if base != 10:
            raise Bad(e)
        f = NUM[10].match(text, e + 1)
        if not f:
            raise Bad(e)
        frac = f.group().replace("_", "")
        kind = "DECIMAL"
        value = value + Fraction(int(frac), 10 ** len(frac))
        e = f.end()
        nxt = text[e:e + 1]
        if nxt == "." and text[e + 1:e + 2] != ".":
            raise Bad(e)
    if nxt and (nxt == "_" or nxt in "0123456789abcdefABCDEF"):
        raise Bad(e)
    return kind, value, e


def tq_value(body):
    """value of a triple-quoted literal from the text between its quotes"""
    lines = body.strip().splitlines()
    if not lines:
        return ""
    rest = lines[1:]
    lead = [l[:len(l) - len(l.lstrip())] for l in rest if l.strip()]
    pre = len(os.path.commonprefix(lead)) if lead else 0
    return "\n".join([lines[0].rstrip()] + [l[pre:].rstrip() for l in rest])


def reference(text):
    """(tokens [(kind, start, end, value)], error position or None)"""
    out = []
    p, n = 0, len(text)
    try:
        while True:
            while p < n and text[p].isspace():
                p += 1
            if p == n:
                return out, None
            m = TOKEN.match(text, p)
            if text[p] == "'" and not text.startswith("'''", p):
                raise Bad(p)
            if text[p] == '"' and not text.startswith('"""', p):
                e = dq_end(text, p)
                v = text[p + 1:e - 1].replace('\\"', '"')
                out.append(("STRING", p, e, v))
                p = e
                continue
            if not m:
                raise Bad(p)
            g = m.lastgroup
            s = m.group()
            e = m.end()
            if g == "comment":
                v = s[2:]
                if s.startswith("/*") and v.endswith("*/"):
                    v = v[:-2]
                out.append(("COMMENT", p, e, v.strip()))
            elif g == "ident":
                out.append(("KEYWORD" if s in KEYWORDS else "IDENTIFIER",
                            p, e, s))
            elif g == "tq":
                q = text.find(s, p + 3)
                if q < 0:
                    raise Bad(p)
                e = q + 3
                out.append(("STRING", p, e, tq_value(text[p + 3:q])))
            elif g == "num":
                k, v, e = number(text, p)
                out.append((k, p, e, v))
            elif g == "op":
                out.append(("OPERATOR", p, e, s))
            else:
                k = {"arrow": "ARROW", "range": "RANGE", "dot": "DOT",
                     "assign": "ASSIGN"}.get(g) or SINGLE[s]
                # longest match of => and == against =
                if g == "assign" and text[p:p + 2] in ("==", "=>"):
                    raise AssertionError
                out.append((k, p, e, None))
            p = e
    except Bad as err:
        return out, err.args[0]


_env = {}


def env():
    if not _env:
        import trlc.lexer as L
        E, _ = run._mods()
        _env.update(L=L, E=E)
    return _env["L"], _env["E"]


def real(text):
    """(tokens, error location or None, exception text)"""
    L, E = env()
    mh = run.handler_class()(brief=True, out=io.StringIO())
    out = []
    try:
        lx = L.TRLC_Lexer(mh, "t.rsl", text)
        while True:
            t = lx.token()
            if t is None:
                break
            out.append(t)
            if len(out) > len(text) + 1:
                return out, None, "more tokens than characters"
    except E.TRLC_Error as err:
        return out, mh.recorded[-1].location if mh.recorded else err, None
    except Exception as ex:            # pylint: disable=broad-except
        return out, None, "%s: %s" % (ex.__class__.__name__, ex)
    return out, None, None


def line_col(text, p):
    b = text.rfind("\n", 0, p)
    return text.count("\n", 0, p) + 1, p - b


def compare(text, kinds, report):
    want, werr = reference(text)
    got, gerr, exc = real(text)
    if exc:
        report("crash", text, exc)
        return
    if "tokens" in kinds:
        if (werr is None) != (gerr is None):
            report("tokens", text, "expected %s, got %s" % (
                "tokens" if werr is None else "an error at offset %d" % werr,
                "an error" if gerr is not None else "tokens"))
            return
        a = [(k, v) for k, _, _, v in want]
        b = [(t.kind, t.value) for t in got]
        if gerr is not None:
            a = a[:len(b)] if len(b) <= len(a) else a
        if "strings" not in kinds:
            a = [x if x[0] != "STRING" else ("STRING", 0) for x in a]
            b = [x if x[0] != "STRING" else ("STRING", 0) for x in b]
        if a != b or [type(v) for _, v in a] != [type(v) for _, v in b]:
            report("tokens", text, "expected %r, got %r" % (a, b))
            return
    if "strings" in kinds and gerr is None and werr is None:
        a = [v for k, _, _, v in want if k == "STRING"]
        b = [t.value for t in got if t.kind == "STRING"]
        if a != b:
            report("strings", text, "expected %r, got %r" % (a, b))
    if "pos" in kinds:
        prev = 0
        for t in got:
            loc = t.location
            s, e = loc.start_pos, loc.end_pos + 1
            if not (prev <= s < e <= len(text)) or text[prev:s].strip():
                report("pos", text, "token %r at %d..%d after %d" % (
                    t, s, e, prev))
                return
            if (loc.line_no, loc.col_no) != line_col(text, s):
                report("pos", text, "token %r: line/column %s, expected %s" %
                       (t, (loc.line_no, loc.col_no), line_col(text, s)))
                return
            if loc.text() != text[s:e]:
                report("pos", text, "token %r: text %r" % (t, loc.text()))
                return
            if t.kind not in ("COMMENT", "STRING") and \
               any(c.isspace() for c in text[s:e]):
                report("pos", text, "token %r spans whitespace" % t)
                return
            prev = e
        if gerr is None and text[prev:].strip():
            report("pos", text, "text after offset %d is lost" % prev)
        if gerr is None and werr is None:
            a = [(s, e) for _, s, e, _ in want]
            b = [(t.location.start_pos, t.location.end_pos + 1) for t in got]
            if a != b:
                report("pos", text, "expected spans %r, got %r" % (a, b))
        if gerr is not None:
            nl = text.count("\n") + 1
            s, e = getattr(gerr, "start_pos", 0), getattr(gerr, "end_pos", 0)
            if not (1 <= gerr.line_no <= nl and 0 <= s <= e < len(text)):
                report("pos", text, "error located at line %s, %s..%s" % (
                    gerr.line_no, s, e))
            else:
                lines = text.split("\n")
                if not 1 <= gerr.col_no <= len(lines[gerr.line_no - 1]) + 1:
                    report("pos", text, "error at column %s of line %s" % (
                        gerr.col_no, gerr.line_no))


KINDS = {"C01": ("pos",), "C02": ("tokens",), "C03": ("strings",)}
RULE = ("source texts: all strings up to a length bound over small alphabets "
        "plus random token soup with all literal forms, whitespace, "
        "comments and non-ASCII characters; non-trivial: at least two "
        "characters that are not whitespace; distinct by text")

ALPHABETS = [
    ("a_10bx.- \n", 6),
    ("'\"\\a\n ", 7),
    ("/*\na ", 8),
    ("=<>!*.1a/", 6),
    ("0bxaf_.1g", 6),
    ("aB_1\u00e9\u00a0\u0661 ", 6),
]


def exhaustive_unit(prop, alpha, part, nparts, cut=0):
    """all texts over an alphabet up to its length bound, one shard"""
    letters, bound = ALPHABETS[alpha]
    bound -= cut
    st = dict(evaluations=0, distinct=set(), samples=[], detail={})
    viol = []

    def report(kind, text, what):
        if len(viol) < 5:
            viol.append({"what": "%s: %s" % (kind, what), "text": text})
    k = 0
    for n in range(0, bound + 1):
        for tup in itertools.product(letters, repeat=n):
            k += 1
            if k % nparts != part:
                continue
            text = "".join(tup)
            compare(text, KINDS[prop], report)
            st["evaluations"] += 1
            if len(text.replace(" ", "").replace("\n", "")) >= 2:
                st["distinct"].add(hash(text))
    st["samples"] = ["alphabet %r up to length %d" % (letters, bound)]
    st["detail"] = {"exhaustive_texts": st["evaluations"]}
    return st, viol


PIECES = ["abs", "abstract", "xor", "in", "inn", "_a", "A_b__c1", "a1", "0",
          "00", "007", "1_0", "1__0", "1_", "0b101", "0b1_0", "0b2", "0b",
          "0xFf", "0x_f", "0xg", "0x1.2", "1.5", "1.5_0", "1_0.0_1", "1.",
          "1..2", "1...2", "1.2..3", "1.2.3", ".5", "12a", "12g", "1e5",
          "0.000000000000000000000001", "123456789012345678901234567890",
          '""', '"a"', '"\\""', '"\\\\"', '"\\n"', '"a\\"b"', '"', "'''",
          '"""', "''", "'''a'''", '"""b"""', "''''''", '""""""',
          '"""a""b"""', "'''\n  a\n b'''", '"""x\\"""', "// c\n", "//",
          "/* c */", "/**/", "/*/ */", "/***/", "/*", "*/", "+", "-", "*",
          "**", "***", "/", "%", "=", "==", "=>", "===", "==>", "<", "<=",
          "<=>", ">", ">=", "!", "!=", "!==", "(", ")", "{", "}", "[", "]",
          ",", "@", ":", ";", ".", "..", "...", "\u00e9", "\u0661", "#", "$",
          "?", "\\", "&", "|", "~", "^", "`", "\x00", "\ufeff"]
SPACES = ["", "", "", " ", " ", "  ", "\n", "\n\n", "\t", " \n ", "\r\n",
          "\u00a0", "\x0c", "\u2028", "\r", "\v"]
TQ = ["", "a", "b  ", "  c", "\t", " ", "\n", "\n\n", "\n  ", "\n\t", "\n ",
      "x y", "\\", '\\"', "'", '"', "''", "\u00e9", "\n   \n", "\n    z",
      "\n \td", "  \n", "[[q]]", "\r\n", "\u2028", "\x0b", "\x1c"]


def random_text(rng, prop):
    if prop == "C03" or rng.random() < 0.2:
        out = []
        for _ in range(rng.randint(1, 3)):
            q = rng.choice(["'''", '"""', '"'])
            body = "".join(rng.choice(TQ) for _ in range(rng.randint(0, 9)))
            if q == '"':
                body = body.replace("\n", "").replace("\r", "")
                body = body.replace("\\\"", "\0").replace('"', "")
                body = body.replace("\0", '\\"')
                if rng.random() < 0.7:
                    body = body.rstrip("\\")
            elif rng.random() < 0.8:
                while q in body or body.endswith(q[0]):
                    body = body.replace(q, "").rstrip(q[0])
            out.append(rng.choice(["", " ", "\n", "x = "]) + q + body + q)
        return "".join(out) + rng.choice(["", "\n", " "])
    return "".join(rng.choice(SPACES) + rng.choice(PIECES)
                   for _ in range(rng.randint(1, 12))) + rng.choice(SPACES)


def random_unit(prop, seed, n=3000):
    rng = random.Random("lex-%s-%s" % (prop, seed))
    st = dict(evaluations=0, distinct=set(), samples=[], detail={})
    viol = []

    def report(kind, text, what):
        if len(viol) < 5:
            viol.append({"what": "%s: %s" % (kind, what), "text": text})
    for _ in range(n):
        text = random_text(rng, prop)
        compare(text, KINDS[prop], report)
        st["evaluations"] += 1
        if len("".join(text.split())) >= 2:
            st["distinct"].add(hash(text))
        if len(st["samples"]) < 2:
            st["samples"].append(text)
    st["detail"] = {"random_texts": n}
    return st, viol


def file_unit(prop, seed, n=40):
    """the same values arrive in the API export of a processed file"""
    rng = random.Random("lexfile-%s-%s" % (prop, seed))
    st = dict(evaluations=0, distinct=set(), samples=[], detail={})
    viol = []
    lits = []
    while len(lits) < n:
        t = random_text(rng, "C03").replace("x = ", "").strip(" \n")
        t = t.replace("\r\n", "\n").replace("\r", "\n")
        toks, err = reference(t)
        if err is None and len(toks) == 1 and toks[0][0] == "STRING" and \
           toks[0][1] == 0 and toks[0][2] == len(t):
            lits.append((t, toks[0][3]))
    text = "package P\n" + "\n".join(
        "T o%d { s = %s }" % (k, t) for k, (t, _) in enumerate(lits)) + "\n"
    files = {"a.rsl": "package P\ntype T { s String }\n", "a.trlc": text}
    r = run.process(files)
    got = {}
    if r.stab is not None:
        got = {o.name: o.to_python_dict() for o in
               r.stab.iter_record_objects()}
    for k, (t, v) in enumerate(lits):
        st["evaluations"] += 1
        st["distinct"].add(hash(t))
        g = got.get("o%d" % k, {}).get("s")
        if g != v and len(viol) < 5:
            viol.append({"what": "export: %r instead of %r %s" % (
                g, v, r.exc or ""), "text": t,
                "files": {"a.rsl": files["a.rsl"],
                          "a.trlc": "package P\nT o { s = %s }\n" % t}})
    run.clear_files()
    st["samples"] = [lits[0][0]]
    return st, viol
