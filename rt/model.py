"""Random whole models (packages, types, objects, checks) with their meaning.

The generator produces a model together with what the manual says about it:
exported values, messages of checks, section order.  Single faults can be
injected; a fault names the node on whose line an error has to appear.
"""
import copy
import random
from fractions import Fraction

BUILTIN = ["Integer", "Decimal", "Boolean", "String", "Markup_String", "len",
           "startswith", "endswith", "matches", "oneof"]
KEYWORDS = set("""abs abstract and checks else elsif enum error exists
extends false fatal final forall freeze if implies import in not null optional
or package section separator then true tuple type warning xor""".split())


class Node:
    def __init__(self, **k):
        self.line = None
        self.file = None
        self.__dict__.update(k)

    def __deepcopy__(self, memo):
        n = Node()
        memo[id(self)] = n
        for k, v in self.__dict__.items():
            setattr(n, k, copy.deepcopy(v, memo))
        return n


def simple(n):
    return n.lower().replace("_", "")


WORDS = ["alpha", "beta", "gamma", "delta", "req", "item", "part", "unit",
         "node", "leaf", "x", "y", "zeta", "link", "kind", "size"]


class Names:
    """Sufficiently distinct names"""
    def __init__(self, rng, taken=()):
        self.rng = rng
        self.used = {simple(t) for t in taken}

    def fresh(self, cap=False):
        while True:
            w = self.rng.choice(WORDS)
            r = self.rng.random()
            if r < 0.5:
                w += self.rng.choice(["_", ""]) + str(self.rng.randint(0, 9))
            if r < 0.15:
                w += "_" + self.rng.choice(WORDS)
            if cap:
                w = w[0].upper() + w[1:]
            elif self.rng.random() < 0.2:
                w = w.upper()
            if simple(w) not in self.used and w not in KEYWORDS:
                self.used.add(simple(w))
                return w


# ------------------------------------------------------------------- types
# "int" "dec" "bool" "str" "mstr" | ("enum", E) | ("tup", T) | ("rec", R)
# | ("union", [R..]) | ("arr", elt, lo, hi)
def is_node(t, k):
    return isinstance(t, tuple) and t[0] == k


def subtypes(r, base):
    while r is not None:
        if r is base:
            return True
        r = r.parent
    return False


class Gen:
    def __init__(self, rng, npkg=None, checks=True, refs=True, markup=True):
        self.rng = rng
        self.pkgs = []
        self.checks = checks
        self.markup = markup
        self.msg = 0
        self.build(npkg or rng.randint(1, 3))

    # ---------------------------------------------------------- declarations
    def build(self, npkg):
        rng = self.rng
        pn = Names(rng, BUILTIN)
        for k in range(npkg):
            p = Node(kind="pkg", name="P" + pn.fresh(True), imports=[], types=[],
                     late=False)
            p.names = Names(rng, BUILTIN)
            for q in self.pkgs:
                if not q.late and rng.random() < 0.6:
                    p.imports.append(q)
            if k and rng.random() < 0.15:
                p.late = True       # declared by its trlc file only
                p.imports = []
            self.pkgs.append(p)
            if not p.late:
                for _ in range(rng.randint(3, 7)):
                    self.add_type(p)
                p.blocks = []
                if self.checks:
                    self.add_checks(p)
            else:
                p.blocks = []
        self.objs = []
        self.files = []
        self.add_objects()

    def visible(self, p, kind):
        out = []
        for q in [p] + p.imports:
            out += [t for t in q.types if t.kind == kind]
        return out

    def pick_type(self, p, depth, in_tuple=False, cur=None):
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            t = rng.choice(["int", "dec", "bool", "str", "str", "int",
                            "mstr" if self.markup else "str"])
        elif r < 0.58:
            e = self.visible(p, "enum")
            t = ("enum", rng.choice(e)) if e else "bool"
        elif r < 0.72:
            e = self.visible(p, "tuple")
            t = ("tup", rng.choice(e)) if e else "int"
        elif r < 0.86:
            e = self.visible(p, "rec") + ([cur] if cur else [])
            t = ("rec", rng.choice(e)) if e else "str"
        else:
            e = self.visible(p, "rec")
            t = ("union", rng.sample(e, rng.randint(1, min(3, len(e))))) \
                if e else "dec"
        if not in_tuple and rng.random() < 0.25:
            lo = rng.choice([0, 0, 1, 2])
            hi = rng.choice([None, lo, lo + 1, lo + 2, 0 if lo == 0 else 5])
            t = ("arr", t, lo, hi)
        return t

    def add_type(self, p):
        rng = self.rng
        k = rng.random()
        if k < 0.2:
            nm = Names(rng)
            t = Node(kind="enum", name=p.names.fresh(True), pkg=p,
                     lits=[nm.fresh() for _ in range(rng.randint(1, 4))])
        elif k < 0.4:
            t = self.new_tuple(p)
        else:
            t = self.new_record(p)
        t.checks = []
        p.types.append(t)

    def new_tuple(self, p):
        rng = self.rng
        nm = Names(rng, ["by", "of"])
        n = rng.randint(1, 4)
        t = Node(kind="tuple", name=p.names.fresh(True), pkg=p, comps=[],
                 seps=None)
        if n > 1 and rng.random() < 0.6:
            t.seps = [rng.choice(["@", ":", ";", "by", "of"])
                      for _ in range(n - 1)]
        opt = False
        for k in range(n):
            ty = self.pick_type(p, 0, in_tuple=True)
            if t.seps and is_node(ty, "tup") and ty[1].seps:
                ty = "int"
            if t.seps and k and not opt and rng.random() < 0.4:
                opt = True
            t.comps.append(Node(kind="comp", name=nm.fresh(), typ=ty,
                                optional=opt, owner=t))
        return t

    def new_record(self, p):
        rng = self.rng
        base = [r for r in self.visible(p, "rec")]
        parent = rng.choice(base) if base and rng.random() < 0.5 else None
        t = Node(kind="rec", name=p.names.fresh(True), pkg=p, parent=parent,
                 comps=[], freezes=[], abstract=False, final=False)
        r = rng.random()
        if r < 0.2:
            t.abstract = True
        elif r < 0.3:
            t.final = True
        t.eff_final = t.final or (parent is not None and parent.eff_final)
        nm = Names(rng, [c.name for c in self.all_comps(parent)])
        if not (parent is not None and parent.eff_final):
            for _ in range(rng.randint(0, 4)):
                t.comps.append(Node(
                    kind="comp", name=nm.fresh(),
                    typ=self.pick_type(p, 0, cur=t),
                    optional=rng.random() < 0.4, owner=t))
        # freezing needs values without references to objects
        frozen = self.frozen(t)
        for c in self.all_comps(t):
            if c.name not in frozen and rng.random() < 0.15 and \
               not self.has_ref(c.typ):
                try:
                    t.freezes.append(Node(kind="freeze", comp=c,
                                          value=self.value(c.typ, p, None)))
                except self.NoValue:
                    pass
        return t

    def has_ref(self, ty):
        if isinstance(ty, str):
            return False
        if ty[0] == "arr":
            return self.has_ref(ty[1])
        if ty[0] == "tup":
            return any(self.has_ref(c.typ) for c in ty[1].comps)
        return ty[0] in ("rec", "union")

    @staticmethod
    def all_comps(r):
        out = []
        while r is not None:
            out = list(r.comps) + out
            r = r.parent if r.kind == "rec" else None
        return out

    @staticmethod
    def frozen(r):
        """component name -> value node of the nearest freezing type"""
        out = {}
        while r is not None:
            for f in r.freezes:
                out.setdefault(f.comp.name, f.value)
            r = r.parent
        return out

    # ---------------------------------------------------------------- checks
    def add_checks(self, p):
        rng = self.rng
        self.cur = p
        for t in p.types:
            if t.kind == "enum":
                continue
            for _ in range(rng.choice([0, 1, 1, 2])):
                b = Node(kind="block", typ=t, checks=[])
                for _ in range(rng.randint(1, 3)):
                    b.checks.append(self.new_check(t))
                t.checks += b.checks
                p.blocks.append(b)

    def new_check(self, t):
        rng = self.rng
        self.msg += 1
        comps = self.all_comps(t)
        # an unqualified name denotes a component before it denotes a type
        self.shadow = {simple(c.name) for c in comps}
        cand = [("const", True), ("const", False)]
        for c in comps:
            for _ in range(2):
                cand += self.atoms(("c", c.name), c.typ, c.optional)
        e = rng.choice(cand)
        return Node(kind="check", expr=e,
                    sev=rng.choice(["warning", "error", "fatal", None,
                                    "error"]),
                    msg="msg %d %s" % (self.msg, rng.choice(["", "x\u00e9",
                                                             "a/b"])),
                    extra=("info %d" % self.msg if rng.random() < 0.4
                           else None),
                    anchor=(rng.choice(comps) if comps and
                            rng.random() < 0.5 else None))

    def atoms(self, ref, ty, optional):
        rng = self.rng
        out = []
        if optional:
            out += [("null", ref), ("not", ("null", ref))]
        if ty == "int":
            a = ("gt", ref, rng.randint(-3, 3))
        elif ty == "dec":
            a = ("gtd", ref, Fraction(rng.randint(-30, 30), 10))
        elif ty == "bool":
            a = ("is", ref)
        elif ty in ("str", "mstr"):
            a = ("len", ref, rng.randint(0, 4))
        elif is_node(ty, "arr"):
            a = ("len", ref, rng.randint(0, 3))
        elif is_node(ty, "enum") and \
                self.can_name(ty[1], self.cur, None) and \
                simple(self.qual(ty[1], self.cur).split(".")[0]) \
                not in self.shadow:
            a = ("enum", ref, ty[1], rng.choice(ty[1].lits))
        elif is_node(ty, "tup") and ref[0] == "c":
            out2 = []
            for f in ty[1].comps:
                out2 += self.atoms(("f", ref[1], f.name), f.typ, f.optional)
            a = rng.choice(out2) if out2 else None
        else:
            a = None
        if a is not None:
            if optional and rng.random() < 0.7:
                a = ("guard", ref, a)
            out.append(a)
            if rng.random() < 0.3:
                out.append(("not", a))
        return out

    def expr_text(self, e, p):
        k = e[0]
        if k == "const":
            return "true" if e[1] else "false"
        if k == "not":
            return "not (%s)" % self.expr_text(e[1], p)
        if k == "guard":
            return "%s != null implies %s" % (self.ref_text(e[1]),
                                              "(%s)" % self.expr_text(e[2],
                                                                      p))
        r = self.ref_text(e[1])
        if k == "null":
            return "%s == null" % r
        if k == "gt":
            return "%s > %d" % (r, e[2])
        if k == "gtd":
            return "%s > %s" % (r, dec_text(e[2]))
        if k == "is":
            return r
        if k == "len":
            return "len(%s) > %d" % (r, e[2])
        if k == "enum":
            return "%s == %s.%s" % (r, self.qual(e[2], p), e[3])
        raise AssertionError

    @staticmethod
    def ref_text(r):
        return r[1] if r[0] == "c" else "%s.%s" % (r[1], r[2])

    class Err(Exception):
        pass

    def truth(self, e, vals):
        k = e[0]
        if k == "const":
            return e[1]
        if k == "not":
            return not self.truth(e[1], vals)
        if k == "guard":
            return self.get(e[1], vals) is None or self.truth(e[2], vals)
        v = self.get(e[1], vals)
        if k == "null":
            return v is None
        if v is None and k != "enum":
            raise self.Err()
        if k in ("gt", "gtd"):
            return v > e[2]
        if k == "is":
            return v
        if k == "len":
            return len(v) > e[2]
        if k == "enum":
            return v == e[3]
        raise AssertionError

    def get(self, r, vals):
        v = vals[r[1]]
        if r[0] == "f":
            if v is None:
                raise self.Err()
            v = v[r[2]]
        return v

    # --------------------------------------------------------------- objects
    def add_objects(self):
        rng = self.rng
        plan = []
        for p in self.pkgs:
            for fno in range(rng.randint(1, 2)):
                f = Node(kind="tfile", pkg=p, imports=[], items=[],
                         name="%s%d_%d.trlc" % (rng.choice("abcxyz"), fno,
                                                self.pkgs.index(p)))
                for q in self.pkgs:
                    if q is not p and rng.random() < 0.6:
                        f.imports.append(q)
                self.files.append(f)
                for _ in range(rng.randint(1, 5)):
                    types = [t for q in [p] + f.imports for t in q.types
                             if t.kind == "rec" and not t.abstract]
                    if not types:
                        continue
                    o = Node(kind="obj", name=p.names.fresh(
                        rng.random() < 0.3), typ=rng.choice(types),
                        pkg=p, file_=f, assigns=[], section=None)
                    plan.append(o)
                    f.items.append(o)
        self.objs = plan
        drop = []
        for o in plan:
            if not self.fill(o):
                drop.append(o)
        # objects whose mandatory references cannot be satisfied disappear,
        # with everything that refers to them
        while drop:
            gone = drop
            drop = []
            for o in gone:
                if o in self.objs:
                    self.objs.remove(o)
                    o.file_.items.remove(o)
            for o in self.objs:
                if any(self.mentions(v, gone) for _, v in o.assigns):
                    if not self.fill(o):
                        drop.append(o)
        for f in self.files:
            self.sections(f)

    def mentions(self, v, objs):
        k = v.kind
        if k == "ref":
            return any(v.obj is o for o in objs)
        if k == "arr":
            return any(self.mentions(x, objs) for x in v.elts)
        if k == "tup":
            return any(self.mentions(x, objs) for x in v.elts
                       if x is not None)
        return False

    class NoValue(Exception):
        pass

    def fill(self, o):
        rng = self.rng
        o.assigns = []
        frozen = self.frozen(o.typ)
        comps = self.all_comps(o.typ)
        rng.shuffle(comps)
        for c in comps:
            if c.name in frozen:
                continue
            if c.optional and rng.random() < 0.4:
                continue
            try:
                v = self.value(c.typ, o.pkg, o)
            except self.NoValue:
                if c.optional:
                    continue
                return False
            o.assigns.append((c, v))
        return True

    def sections(self, f):
        """distribute the items of a file over nested sections"""
        rng = self.rng
        for o in f.items:
            o.section = []
        if rng.random() < 0.5 or not f.items:
            return
        cur = []
        for o in f.items:
            r = rng.random()
            if r < 0.3 and len(cur) < 3:
                cur = cur + [Node(kind="section", name="S %d" %
                                  rng.randint(0, 3))]
            elif r < 0.45 and cur:
                cur = cur[:-1]
            elif r < 0.55 and cur:
                cur = cur[:-1] + [Node(kind="section", name="T %d" %
                                       rng.randint(0, 3))]
            o.section = cur

    # ---------------------------------------------------------------- values
    def value(self, ty, p, o):
        rng = self.rng
        if ty == "int":
            n = rng.choice([0, 1, 2, 3, 10, 255, 10 ** 20,
                            rng.randint(0, 5)])
            t = rng.choice([str(n), str(n), hex(n), bin(n),
                            "_".join(str(n)), "0" + str(n)])
            s = rng.choice(["", "", "-", "+", "- "])
            return Node(kind="lit", text=s + t, py=-n if "-" in s else n)
        if ty == "dec":
            t = rng.choice(["0.0", "1.5", "2.50", "0.125", "12.3_4",
                            "1_0.0", "3.1", "0.1"])
            s = rng.choice(["", "", "-", "+"])
            x = Fraction(t.replace("_", ""))
            return Node(kind="lit", text=s + t, py=-x if s == "-" else x)
        if ty == "bool":
            b = rng.random() < 0.5
            return Node(kind="lit", text="true" if b else "false", py=b)
        if ty in ("str", "mstr"):
            s = rng.choice(["", "a", "abc", "x y", "q\u00e9z", "1 // 2",
                            "/* no", "a\\n", "it's"])
            if rng.random() < 0.25 and s.strip() == s and s and \
               "'" not in s:
                t = "'''%s'''" % s
            elif rng.random() < 0.2:
                t, s = '"say \\"%s\\""' % s, 'say "%s"' % s
            else:
                t = '"%s"' % s
            return Node(kind="lit", text=t, py=s)
        if ty[0] == "enum":
            l = rng.choice(ty[1].lits)
            if not self.can_name(ty[1], p, o):
                raise self.NoValue()
            return Node(kind="enum", enum=ty[1], lit=l, py=l)
        if ty[0] == "arr":
            lo, hi = ty[2], ty[3]
            n = rng.randint(lo, lo + 2 if hi is None else hi)
            elts = []
            for _ in range(n):
                elts.append(self.value(ty[1], p, o))
            return Node(kind="arr", elts=elts, trailing=rng.random() < 0.2)
        if ty[0] == "tup":
            elts = []
            stop = False
            for c in ty[1].comps:
                if c.optional and (stop or rng.random() < 0.4):
                    stop = True
                    elts.append(None)
                else:
                    elts.append(self.value(c.typ, p, o))
            return Node(kind="tup", typ=ty[1], elts=elts)
        bases = ty[1] if ty[0] == "union" else [ty[1]]
        cand = [x for x in self.objs
                if any(subtypes(x.typ, b) for b in bases) and
                (x.pkg is p or o is not None and x.pkg in o.file_.imports)]
        if not cand:
            raise self.NoValue()
        return Node(kind="ref", obj=rng.choice(cand))

    def can_name(self, t, p, o):
        return t.pkg is p or t.pkg in (p.imports if o is None
                                       else o.file_.imports)

    # ------------------------------------------------------------- rendering
    @staticmethod
    def qual(t, p):
        return t.name if t.pkg is p else "%s.%s" % (t.pkg.name, t.name)

    def type_text(self, ty, p):
        base = {"int": "Integer", "dec": "Decimal", "bool": "Boolean",
                "str": "String", "mstr": "Markup_String"}
        if isinstance(ty, str):
            return base.get(ty, ty)
        if ty[0] == "arr":
            return "%s [%d..%s]" % (self.type_text(ty[1], p), ty[2],
                                    "*" if ty[3] is None else ty[3])
        if ty[0] == "union":
            return "[" + ", ".join(self.qual(r, p) for r in ty[1]) + "]"
        return self.qual(ty[1], p)

    def val_text(self, v, p):
        k = v.kind
        if k == "lit":
            return v.text
        if k == "raw":
            return v.text
        if k == "enum":
            return "%s.%s" % (self.qual(v.enum, p), v.lit)
        if k == "arr":
            return "[" + ", ".join(self.val_text(x, p) for x in v.elts) + \
                (", " if v.trailing and v.elts else "") + "]"
        if k == "ref":
            return v.obj.name if v.obj.pkg is p else "%s.%s" % (
                v.obj.pkg.name, v.obj.name)
        t = v.typ
        parts = [None if x is None else self.val_text(x, p) for x in v.elts]
        if getattr(v, "raw", None):
            return v.raw(parts)
        if not t.seps:
            return "(" + ", ".join(parts) + ")"
        out = parts[0]
        for s, x in zip(t.seps, parts[1:]):
            if x is None:
                break
            if s.isalpha():
                out += " %s %s" % (s, x)
            else:
                out += "%s%s%s" % (self.sp(), s, self.sp()) + x
        return out

    def sp(self):
        return " "

    def render(self):
        """file name -> text; sets .line/.file of every node"""
        out = {}
        for p in self.pkgs:
            if p.late:
                continue
            L = []
            fn = getattr(p, "fname", None) or p.name.lower() + ".rsl"

            def add(node, text):
                L.append(text)
                if node is not None:
                    node.line = len(L)
                    node.file = fn
            add(p, "package " + p.name)
            for q in p.imports:
                add(None, "import " + q.name)
            for x in getattr(p, "extra_lines", []):
                add(x, x.text)
            for t in p.types:
                self.render_type(t, p, add)
            for b in p.blocks:
                add(b, "checks %s {" % (b.tname if hasattr(b, "tname")
                                        else b.typ.name))
                for c in b.checks:
                    s = "  " + (c.text if hasattr(c, "text")
                                else self.expr_text(c.expr, p))
                    s += ", " + (c.sev + " " if c.sev else "") + \
                        '"%s"' % c.msg
                    if c.extra is not None:
                        s += ', "%s"' % c.extra
                    if c.anchor is not None:
                        s += ", " + c.anchor.name
                    add(c, s)
                add(None, "}")
            out[fn] = "\n".join(L) + "\n"
        for f in self.files:
            out[f.name] = self.render_tfile(f)
        return out

    def render_type(self, t, p, add):
        if t.kind == "raw":
            add(t, t.text)
            return
        if t.kind == "enum":
            add(t, "enum %s {" % t.name)
            for l in t.lits:
                if isinstance(l, str):
                    add(None, "  " + l)
                else:
                    add(l, "  " + l.name)
            add(None, "}")
            return
        if t.kind == "tuple":
            add(t, "tuple %s {" % t.name)
            seps = list(t.seps or [])
            for k, c in enumerate(t.comps):
                if k and t.seps and k - 1 < len(seps):
                    add(None, "  separator " + seps[k - 1])
                add(c, "  %s %s%s" % (c.name,
                                      "optional " if c.optional else "",
                                      self.type_text(c.typ, p)))
            add(None, "}")
            return
        mod = "abstract " if t.abstract else "final " if t.final else ""
        ext = ""
        if t.parent is not None:
            ext = " extends " + self.qual(t.parent, p)
        if getattr(t, "ext_text", None):
            ext = " extends " + t.ext_text
        add(t, "%stype %s%s {" % (mod, t.name, ext))
        for c in t.comps:
            add(c, "  %s %s%s" % (c.name, "optional " if c.optional else "",
                                  self.type_text(c.typ, p)))
        for f in t.freezes:
            add(f, "  freeze %s = %s" % (f.cname if hasattr(f, "cname")
                                         else f.comp.name,
                                         self.val_text(f.value, p)))
            mark(f.value, f)
        add(None, "}")

    def render_tfile(self, f):
        L = []
        p = f.pkg

        def add(node, text):
            L.append(text)
            if node is not None:
                node.line = len(L)
                node.file = f.name
        add(f, "package " + p.name)
        for q in f.imports:
            add(None, "import " + (q if isinstance(q, str) else q.name))
        cur = []
        for o in f.items:
            sec = o.section or []
            n = 0
            while n < len(cur) and n < len(sec) and cur[n] is sec[n]:
                n += 1
            for _ in cur[n:]:
                add(None, "}")
            for s in sec[n:]:
                add(s, 'section "%s" {' % s.name)
            cur = sec
            add(o, "%s %s {" % (o.tname if hasattr(o, "tname")
                                else self.qual(o.typ, p), o.name))
            for c, v in o.assigns:
                add(v, "  %s = %s" % (c if isinstance(c, str) else c.name,
                                      self.val_text(v, p)))
                mark(v, v)
            add(None, "}")
        for _ in cur:
            add(None, "}")
        return "\n".join(L) + "\n"

    # ------------------------------------------------------------- semantics
    def py(self, v):
        """value as exported (decimals stay exact)"""
        if v is None:
            return None
        if v.kind in ("lit", "enum"):
            return v.py
        if v.kind == "arr":
            return [self.py(x) for x in v.elts]
        if v.kind == "tup":
            return {c.name: self.py(x)
                    for c, x in zip(v.typ.comps, v.elts)}
        return "%s.%s" % (v.obj.pkg.name, v.obj.name)

    def obj_values(self, o):
        """component name -> value node or None"""
        out = {c.name: None for c in self.all_comps(o.typ)}
        out.update(self.frozen(o.typ))
        for c, v in o.assigns:
            out[c.name] = v
        return out

    def export(self):
        out = {}
        for o in self.objs:
            out["%s.%s" % (o.pkg.name, o.name)] = {
                n: None if v is None else self.py(v)
                for n, v in self.obj_values(o).items()}
        return out

    def iter_checks(self, t):
        chain = []
        r = t
        while r is not None:
            chain.insert(0, r)
            r = r.parent if r.kind == "rec" else None
        for r in chain:
            yield from r.checks

    class Fatal(Exception):
        pass

    def messages(self, order=True):
        """expected check messages: per object a list of
        (kind, file, line, message, extra)"""
        out = []
        for p in sorted(self.pkgs, key=lambda x: simple(x.name)):
            for o in sorted((x for x in self.objs if x.pkg is p),
                            key=lambda x: simple(x.name)):
                cur = []
                try:
                    vals = self.obj_values(o)
                    for c in self.all_comps(o.typ):
                        self.tuple_checks(vals[c.name], cur)
                    self.run_checks(o.typ, o, vals,
                                    {n: self.py(v)
                                     for n, v in vals.items()}, cur)
                except self.Fatal:
                    pass
                out.append((o, cur))
        return out

    def tuple_checks(self, v, out):
        if v is None:
            return
        if v.kind == "arr":
            for x in v.elts:
                self.tuple_checks(x, out)
        elif v.kind == "tup":
            for x in v.elts:
                self.tuple_checks(x, out)
            self.run_checks(v.typ, v,
                            {c.name: x for c, x in zip(v.typ.comps, v.elts)},
                            self.py(v), out)

    def run_checks(self, t, where, vals, pyvals, out):
        for c in self.iter_checks(t):
            try:
                ok = self.truth(c.expr, pyvals)
            except self.Err:
                out.append(("error", None, None, None, None))
                raise self.Fatal()
            if ok:
                continue
            loc = where
            if c.anchor is not None and vals[c.anchor.name] is not None:
                loc = vals[c.anchor.name]
            out.append(("check warning" if c.sev == "warning"
                        else "check error", loc, None, c.msg, c.extra))
            if c.sev == "fatal":
                raise self.Fatal()

    def section_items(self):
        """expected sequence of iter_record_objects_by_section, for the
        files in name order: file names, sections, objects"""
        out = []
        for f in sorted(self.files, key=lambda x: x.name):
            cur = []
            if f.items:
                out.append(("file", f.name))
            for o in f.items:
                sec = o.section or []
                n = 0
                while n < len(cur) and n < len(sec) and cur[n] is sec[n]:
                    n += 1
                for k in range(n, len(sec)):
                    out.append(("section", sec[k].name, k))
                cur = sec
                out.append(("object", "%s.%s" % (o.pkg.name, o.name),
                            max(len(sec) - 1, 0)))
        return out


def mark(v, at):
    """a value and everything in it sits on the line of `at`"""
    v.line, v.file = at.line, at.file
    for x in getattr(v, "elts", ()):
        if x is not None:
            mark(x, at)


def dec_text(x):
    s = "-" if x < 0 else ""
    x = abs(x)
    return "%s%d.%d" % (s, int(x), int(x * 10) % 10)
