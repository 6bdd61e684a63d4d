"""Markup strings: references and their positions (H01)."""
import random

from . import run
from .modeltasks import Unit

RULE = ("random Markup_String literals in both quoting styles (escaped "
        "quotes, line breaks, single brackets, non-ASCII text) as "
        "components, array elements, tuple fields, in two packages; "
        "expected references, targets and exact file positions computed by "
        "the generator; and single faults in such literals; distinct by "
        "literal")

RSL = """package Lib
type T { }
package_dummy"""

FILES = {
    "lib.rsl": "package Lib\ntype T { n optional Integer }\n"
               "enum E { lit }\n",
    "lib.trlc": "package Lib\nT obj { }\nT a1 { }\nT Long_Name_9 { }\n"
                "T X { }\n",
    "other.rsl": "package Other\ntype O { }\n",
    "other.trlc": "package Other\nO thing { }\n",
    "p.rsl": "package P\nimport Lib\n"
             "tuple U {\n  m Markup_String\n  separator :\n"
             "  k optional Integer\n}\n"
             "type R {\n  s optional Markup_String\n"
             "  a optional Markup_String [0..*]\n  u optional U\n"
             "  f optional Markup_String\n}\n",
}
LOCAL = ["one", "two", "Three_3", "x", "a1"]
LIB = ["obj", "a1", "Long_Name_9", "X"]


class Lit:
    def __init__(self, rng, fault=None):
        self.rng = rng
        self.q = rng.choice(['"', '"', '"""', "'''"])
        self.parts = []           # raw text pieces
        self.pos = len(self.q)
        self.refs = []            # (package, name, offset in the literal)
        self.bad = None           # offset of the fault, or (lo, hi)
        n = rng.randint(0, 5)
        at = rng.randint(0, n) if fault else -1
        for k in range(n + 1):
            if k == at:
                self.fault(fault)
            elif rng.random() < 0.5:
                self.plain()
            else:
                self.reflist()
        self.add(rng.choice(["", "", ".", "z"]))
        self.text = self.q + "".join(self.parts) + self.q

    def add(self, t):
        self.parts.append(t)
        self.pos += len(t)

    def multi(self):
        return len(self.q) == 3

    def ws(self):
        r = self.rng
        c = [" ", "  ", "\t", "", "", ""]
        if self.multi():
            c += ["\n", "\n  ", " \n\t "]
        return r.choice(c)

    def plain(self):
        r = self.rng
        for _ in range(r.randint(1, 6)):
            c = r.choice(["a", "b ", " ", "\u00e9", ",", ".", "[ ", "] ", "x_",
                          "//", "/* ", "'", "7", "\t", "\\n"])
            if not self.multi() and r.random() < 0.25:
                c = '\\"'
            if self.multi():
                if r.random() < 0.25:
                    c = r.choice(["\n", "\n\n", "\n   ", ' " ', " ' ",
                                  '\\" '])
                elif c == "'":
                    c = "' "
            self.add(c)

    def name(self):
        r = self.rng
        if self.refs and r.random() < 0.25:
            # the name of the reference before, once more
            pkg, n, _ = self.refs[-1]
            if pkg != "P":
                self.add(pkg + ".")
            self.refs.append((pkg, n, self.pos))
        elif r.random() < 0.4:
            self.add("Lib")
            self.add(self.ws())
            self.add(".")
            self.add(self.ws())
            n = r.choice(LIB)
            self.refs.append(("Lib", n, self.pos))
        else:
            n = r.choice(LOCAL)
            self.refs.append(("P", n, self.pos))
        self.add(n)

    def reflist(self):
        r = self.rng
        if self.parts and self.parts[-1].endswith(("[", "]")) and \
           not self.parts[-1].endswith("]]"):
            self.add(" ")
        self.add("[[")
        for k in range(r.choice([1, 1, 1, 2, 3, 6])):
            if k:
                self.add(",")
            self.add(self.ws())
            self.name()
            self.add(self.ws())
        self.add("]]")

    def fault(self, f):
        self.add(" ")
        lo = self.pos
        if f == "unknown":
            self.add("[[ one , ")
            self.bad = self.pos
            self.add(self.rng.choice(["nobody", "One", "onE", "two_"]))
            self.add(" ]]")
            return
        if f == "unknown-lib":
            self.add("[[ Lib.")
            self.bad = self.pos
            self.add(self.rng.choice(["nobody", "thing", "one", "T9"]))
            self.add(" ]]")
            return
        if f == "unqualified":
            self.add("[[")
            self.bad = self.pos
            self.add(self.rng.choice(["obj", "X", "Long_Name_9", "thing"]))
            self.add("]]")
            return
        if f == "type":
            self.add("[[")
            n = self.rng.choice(["R", "U", "Lib.T", "Lib.E"])
            self.bad = self.pos + (4 if "." in n else 0)
            self.add(n + "]]")
            return
        if f == "unimported":
            self.add("[[ ")
            self.bad = self.pos
            self.add(self.rng.choice(["Other.thing", "Nowhere.x", "lib.obj",
                                      "one.two"]) + "]]")
            return
        texts = {
            "nest": ["[[one [[two]]", "[[ [[one]] ]]", "[[[one]]"],
            "close": ["one]]", " ]] "],
            "empty": ["[[]]", "[[ ]]", "[[one,]]", "[[,one]]",
                      "[[one,,two]]"],
            "junk": ["[[one two]]", "[[1one]]", "[[one-two]]", "[[one;two]]",
                     "[[one.]]", "[[.one]]", "[[Lib.obj.x]]", "[[one]",
                     "[[on\u00e9]]", "[[_one]]", "[[one] ]]", "[[\"]]"],
            "open": ["[[one", "[[", "[[one,", "[[Lib."],
        }[f]
        t = self.rng.choice(texts)
        if '"' in t and not self.multi():
            t = t.replace('"', '\\"')
        self.add(t)
        self.bad = (lo, None if f == "open" else self.pos + 2)
        # or the text behind it might complete a reference
        self.add(" ")
        if f == "open":
            # nothing may close it any more
            self.plain = lambda: self.add(" ")
            self.reflist = lambda: self.add(" ")


class File:
    def __init__(self):
        self.text = "package P\nimport Lib\n"

    def add(self, t):
        self.text += t

    def place(self, lit):
        lit.start = len(self.text)
        self.add(lit.text)


def linecol(text, pos):
    return text.count("\n", 0, pos) + 1, pos - (text.rfind("\n", 0, pos) + 1) \
        + 1


def build(rng, fault=None):
    f = File()
    objs = []
    for n in LOCAL:
        f.add("%s %s%s" % ("R", n, rng.choice([" {", "{", "\n{"])))
        lits = {}
        which = rng.choice(LOCAL) == n or not fault
        for c in ("s", "f"):
            if rng.random() < 0.7:
                f.add("\n  %s%s=%s" % (c, " " * rng.randint(0, 3),
                                       " " * rng.randint(0, 3)))
                l = Lit(rng)
                f.place(l)
                lits[c] = [l]
        if rng.random() < 0.5:
            f.add("\n  a = [")
            lits["a"] = []
            for k in range(rng.randint(0, 3)):
                if k:
                    f.add(", ")
                l = Lit(rng)
                f.place(l)
                lits["a"].append(l)
            f.add("]")
        if rng.random() < 0.5:
            f.add("\n  u = ")
            l = Lit(rng)
            f.place(l)
            lits["u"] = [l]
            f.add(rng.choice(["", " : 3"]))
        f.add("\n}\n")
        objs.append((n, lits))
        del which
    bad = None
    if fault:
        f.add("R culprit {\n  ")
        k = rng.randint(0, 2)
        f.add(["s = ", "a = [", "u = "][k])
        bad = Lit(rng, fault)
        f.place(bad)
        f.add(["", "]", ""][k] + "\n}\n")
    return f, objs, bad


def refs_of(v):
    return [(r.package.name, r.name, r.location) for r in v.references], v


def valid_unit(prop, seed, n=40):
    rng = random.Random("mk-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        f, objs, _ = build(rng)
        files = dict(FILES)
        files["p.trlc"] = f.text
        r = run.process(files)
        u.st["evaluations"] += 1
        if r.exc or r.msgs or r.stab is None:
            u.bad("valid markup rejected: %s" % (r.exc or r.msgs[:3]), files)
            run.clear_files()
            continue
        table = {o.fully_qualified_name(): o
                 for o in r.stab.iter_record_objects()}
        for name, lits in objs:
            o = table["P." + name]
            for c, ls in lits.items():
                v = o.field[c]
                vs = v.value if c == "a" else \
                    [v.value["m"]] if c == "u" else [v]
                for l, x in zip(ls, vs):
                    u.st["distinct"].add(hash(l.text))
                    compare(u, f, files, l, x, table)
        if len(u.st["samples"]) < 2:
            u.st["samples"].append(f.text[:300])
        run.clear_files()
    return u.result()


def compare(u, f, files, l, x, table):
    want = l.refs
    got = list(x.references)
    if [(p, n) for p, n, _ in want] != [(g.package.name, g.name)
                                        for g in got]:
        u.bad("references %r instead of %r in %r" % (
            [g.name for g in got], [n for _, n, _ in want], l.text), files)
        return
    u.count("references", len(got))
    for (p, n, off), g in zip(want, got):
        pos = l.start + off
        line, col = linecol(f.text, pos)
        loc = g.location
        if (loc.line_no, loc.col_no, loc.start_pos, loc.end_pos) != (
                line, col, pos, pos + len(n) - 1):
            u.bad("%s.%s at %r instead of %r in %r" % (
                p, n, (loc.line_no, loc.col_no, loc.start_pos, loc.end_pos),
                (line, col, pos, pos + len(n) - 1), l.text), files)
            return
        if g.target is not table["%s.%s" % (p, n)]:
            u.bad("%s.%s denotes %r" % (p, n, g.target), files)
            return


FAULTS = ["unknown", "unknown-lib", "unqualified", "type", "unimported",
          "nest", "close", "empty", "junk", "open"]


def fault_unit(prop, seed, n=40):
    rng = random.Random("mkf-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        kind = rng.choice(FAULTS)
        f, _objs, bad = build(rng, kind)
        files = dict(FILES)
        files["p.trlc"] = f.text
        r = run.process(files)
        u.st["evaluations"] += 1
        u.st["distinct"].add(hash(bad.text))
        u.count(kind)
        if r.exc:
            u.bad("internal exception " + r.exc[-600:], files)
        elif not r.errors or r.stab is not None:
            u.bad("%s not reported: %r" % (kind, bad.text), files)
        else:
            at = [(m.line, m.col) for m in r.errors if m.file == "p.trlc"]
            if isinstance(bad.bad, tuple):
                lo = bad.start + bad.bad[0]
                hi = bad.start + (len(bad.text) if bad.bad[1] is None
                                  else bad.bad[1] + 12)
                ok = any(linecol(f.text, lo) <= a <= linecol(f.text, hi)
                         for a in at)
            else:
                ok = linecol(f.text, bad.start + bad.bad) in at
            if not ok:
                u.bad("%s in %r reported at %r" % (kind, bad.text,
                                                   r.errors[:3]), files)
        run.clear_files()
    return u.result()
