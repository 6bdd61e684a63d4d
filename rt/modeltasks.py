"""Bounded tasks over whole random models (D01-D04, E01, F01, I01)."""
import copy
import random
import re
from fractions import Fraction

from . import model, run
from .model import BUILTIN, KEYWORDS, Gen, Node, is_node, mark, subtypes

RULE = ("random models of one to three packages (enums, tuples with and "
        "without separators, record hierarchies with abstract, final and "
        "freeze, unions, bounded arrays, forward and cross-package "
        "references, checks, sections); D01-D04 additionally inject one "
        "fault per run, which has to be reported on its line; non-trivial: "
        "at least one object or fault; distinct by rendered text")


def as_float(x):
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, list):
        return [as_float(y) for y in x]
    if isinstance(x, dict):
        return {k: as_float(v) for k, v in x.items()}
    return x


def same(a, b):
    """equal, and of the same kinds (True is not 1)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(sorted(a)) == list(sorted(b)) and \
            all(same(a[k], b[k]) for k in a)
    return a == b


# errors after which process() still returns the symbol table: see the
# finding for E02, which is the only property this concerns
KNOWN = re.compile(
    r"^(this array requires at (least|most) \d+ elements? \(|"
    r"comma separating array elements is missing|"
    r"duplicate type .* in union|"
    r"error message must not contain a newline)")


def only_known(r):
    return all(KNOWN.match(m.text) and not m.fatal for m in r.errors)


class Unit:
    def __init__(self, name):
        self.st = dict(evaluations=0, distinct=set(), samples=[], detail={})
        self.viol = []
        self.name = name

    def count(self, what, n=1):
        self.st["detail"][what] = self.st["detail"].get(what, 0) + n

    def add(self, files):
        self.st["evaluations"] += 1
        self.st["distinct"].add(hash(tuple(sorted(files.items()))))
        if len(self.st["samples"]) < 1:
            self.st["samples"].append(str(files)[:600])

    def bad(self, what, files, **k):
        key = k.get("key")
        same_kind = [v for v in self.viol if v.get("key") == key]
        if len(same_kind) < (1 if key else 4):
            self.viol.append(dict(what=what, files=files, unit=self.name,
                                  **k))

    def result(self):
        run.clear_files()
        return self.st, self.viol


def exported(r):
    return {o.fully_qualified_name(): o.to_python_dict()
            for o in r.stab.iter_record_objects()}


def sections_of(r):
    out = []
    for x in r.stab.iter_record_objects_by_section():
        if isinstance(x, str):
            out.append(("file", x))
        elif isinstance(x[0], str):
            out.append(("section", x[0], x[1]))
        else:
            out.append(("object", x[0].fully_qualified_name(), x[1]))
    return out


def by_file(items):
    out = []
    for x in items:
        if x[0] == "file" or not out:
            out.append([])
        out[-1].append(x)
    return sorted(out, key=str)


def check_clean(u, g, files, r):
    """a valid model without checks: no message, exact data"""
    if r.exc or r.msgs or r.stab is None:
        u.bad("valid model rejected: %s" % (r.exc or r.msgs[:3] or
                                            "no result"), files)
        return False
    got, want = exported(r), as_float(g.export())
    if not same(got, want):
        for k in want:
            if not same(got.get(k), want[k]):
                u.bad("object %s is %r instead of %r" % (
                    k, got.get(k), want[k]), files)
                return False
        u.bad("objects %r instead of %r" % (sorted(got), sorted(want)),
              files)
        return False
    for o in r.stab.iter_record_objects():
        if not check_targets(u, r, o, files):
            return False
    return True


def check_targets(u, r, obj, files):
    """references denote the very objects of the symbol table"""
    for _, v in obj.field.items():
        todo = [v]
        while todo:
            x = todo.pop()
            t = getattr(x, "target", None)
            if t is not None:
                q = r.stab.table.get(model.simple(t.n_package.name))
                if q is None or q.symbols.table.get(
                        model.simple(t.name)) is not t:
                    u.bad("reference to an object that is not in the symbol "
                          "table: %s" % t.name, files)
                    return False
            y = getattr(x, "value", None)
            if isinstance(y, (list, tuple)):
                todo += y
            elif isinstance(y, dict):
                todo += y.values()
    return True


def clean_unit(prop, seed, n=40):
    rng = random.Random("clean-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        g = Gen(rng, checks=False)
        files = g.render()
        r = run.process(files)
        u.add(files)
        u.count("objects", len(g.objs))
        if check_clean(u, g, files, r) and prop == "I01":
            for _ in (1, 2):
                # the order of the files is not prescribed
                got, want = by_file(sections_of(r)), by_file(
                    g.section_items())
                if got != want:
                    u.bad("by section: %r instead of %r" % (got, want),
                          files)
                    break
        run.clear_files()
    return u.result()


# ------------------------------------------------------------------ E01
def wanted_messages(g):
    out = []
    for _, l in g.messages():
        for k, loc, _x, m, e in l:
            if k == "error":
                out.append(("error", None, None, None, None))
            else:
                out.append((k, loc.file, loc.line, m, e))
    return out


def got_messages(r):
    return [("error", None, None, None, None) if m.kind == "error" else
            (m.kind, m.file, m.line, m.text, m.extra) for m in r.msgs]


def check_unit(prop, seed, n=40):
    rng = random.Random("chk-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        g = Gen(rng)
        files = g.render()
        r = run.process(files)
        u.add(files)
        want, got = wanted_messages(g), got_messages(r)
        u.count("check messages", len(want))
        u.count("objects", len(g.objs))
        if r.exc or want != got:
            d = [(a, b) for a, b in zip(want + [None] * 9, got + [None] * 9)
                 if a != b]
            u.bad("messages differ: expected, reported: %s" % (
                r.exc or d[:2]), files)
        elif (r.stab is None) != any(w[0] != "check warning" for w in want):
            u.bad("result %s after messages %r" % (
                "missing" if r.stab is None else "present", got[:5]), files)
        run.clear_files()
    return u.result()


# ------------------------------------------------------------------ F01
def outcome(r):
    if r.exc:
        return ("crash", r.exc[-300:])
    return (sorted(str((m.kind, m.file, m.line, m.col, m.text))
                   for m in r.msgs),
            None if r.stab is None else exported(r))


def order_unit(prop, seed, n=20):
    rng = random.Random("order-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        g = Gen(rng, checks=rng.random() < 0.7)
        base = None
        for k in range(6):
            if k >= 3:
                # other names of packages and files: the meaning stays
                names = list(range(10, 60))
                rng.shuffle(names)
                for p in g.pkgs:
                    p.name = rng.choice("QWZ") + "k%d" % names.pop()
                    p.fname = rng.choice("abyz") + "k%d.rsl" % names.pop()
                for f in g.files:
                    f.name = rng.choice("abyz") + "k%d.trlc" % names.pop()
            files = g.render()
            order = list(files)
            if k != 0:
                rng.shuffle(order)
            r = run.process(files, order)
            u.add(dict(files, order=str(order)))
            o = outcome(r)
            if k == 0:
                base = o
            if k < 3 and o != base:
                u.bad("order %r changes the outcome from %r to %r" % (
                    order, base, o), files, order=order)
                break
            if r.exc or wanted_messages(g) != got_messages(r):
                u.bad("messages of a valid model: %s instead of %s" % (
                    r.exc or got_messages(r)[:3], wanted_messages(g)[:3]),
                    files, order=order)
                break
            if r.stab is not None and not same(exported(r),
                                               as_float(g.export())):
                u.bad("values differ", files, order=order)
                break
            run.clear_files()
        run.clear_files()
    return u.result()


# ----------------------------------------------------------- fault injection
def variant(name, rng, same_ok=True):
    for _ in range(20):
        r = rng.random()
        if r < 0.2 and same_ok:
            v = name
        elif r < 0.4:
            v = name.upper()
        elif r < 0.55:
            v = name.lower()
        elif r < 0.75:
            v = name.replace("_", "")
        elif r < 0.9 and len(name) > 1:
            k = rng.randint(1, len(name) - 1)
            v = name[:k] + "_" + name[k:]
        else:
            v = name.swapcase()
        if v not in KEYWORDS and (same_ok or v != name):
            return v
    return name + "_" if same_ok else name + "x9"


def pick(rng, xs):
    xs = list(xs)
    return rng.choice(xs) if xs else None


def types_of(g, *kinds):
    return [t for p in g.pkgs for t in p.types if t.kind in kinds]


def assigns(g, pred=lambda c, v: True):
    """(object, index, component, value) of top-level assignments"""
    return [(o, k, c, v) for o in g.objs
            for k, (c, v) in enumerate(o.assigns) if pred(c, v)]


def raw(text):
    return Node(kind="raw", text=text)


def positions(g, want):
    """(holder, index, type, value, assignment value): places inside values
    whose type satisfies want"""
    out = []

    def walk(holder, idx, ty, v, top, o):
        if v is None:
            return
        if want(ty, v):
            out.append((holder, idx, ty, v, top, o))
        if v.kind == "arr":
            for k, x in enumerate(v.elts):
                walk(v.elts, k, ty[1], x, top, o)
        elif v.kind == "tup":
            for k, (c, x) in enumerate(zip(v.typ.comps, v.elts)):
                walk(v.elts, k, c.typ, x, top, o)
    for o in g.objs:
        for k, (c, v) in enumerate(o.assigns):
            holder = _AssignSlot(o, k)
            walk(holder, 0, c.typ, v, (o, k), o)
    return out


class _AssignSlot:
    def __init__(self, o, k):
        self.o, self.k = o, k

    def __setitem__(self, _i, v):
        self.o.assigns[self.k] = (self.o.assigns[self.k][0], v)


def replace(pos, new):
    pos[0][pos[1]] = new
    o, k = pos[4]
    return [_Top(o, k)]


class _Top:
    """line of an assignment, known after rendering"""
    def __init__(self, o, k):
        self.o, self.k = o, k

    @property
    def line(self):
        return self.o.assigns[self.k][1].line

    @property
    def file(self):
        return self.o.assigns[self.k][1].file


def d01_dup_type(g, rng):
    p = pick(rng, [p for p in g.pkgs if p.types])
    if p is None:
        return None
    t = rng.choice(p.types)
    n = Node(kind="raw", text=rng.choice(
        ["enum %s { q9 }", "type %s { }", "tuple %s { q9 Integer }"]) %
        variant(t.name, rng))
    k = rng.randint(0, len(p.types))
    after = k > p.types.index(t)
    p.types.insert(k, n)
    return [n if after else t]


def d01_builtin_type(g, rng):
    p = pick(rng, [p for p in g.pkgs if p.types])
    if p is None:
        return None
    v = variant(rng.choice(BUILTIN), rng)
    n = Node(kind="raw", text=rng.choice(
        ["enum %s { q9 }", "type %s { }", "tuple %s { q9 Integer }"]) % v)
    p.types.insert(rng.randint(0, len(p.types)), n)
    return [n]


def d01_dup_comp(g, rng):
    t = pick(rng, [t for t in types_of(g, "rec") if g.all_comps(t) and not (
        t.parent and t.parent.eff_final)] +
        [t for t in types_of(g, "tuple") if not t.seps])
    if t is None:
        return None
    c = rng.choice(g.all_comps(t))
    n = Node(kind="comp", name=variant(c.name, rng), typ="int",
             optional=t.kind == "rec", owner=t)
    if c in t.comps and rng.random() < 0.5:
        t.comps.insert(t.comps.index(c), n)
        return [c]
    t.comps.append(n)
    return [n]


def d01_dup_comp_late(g, rng):
    """an extension declared elsewhere clashes with a distant base"""
    t = pick(rng, [t for t in types_of(g, "rec") if t.parent and
                   g.all_comps(t.parent) and not t.parent.eff_final])
    if t is None:
        return None
    c = rng.choice(g.all_comps(t.parent))
    n = Node(kind="comp", name=variant(c.name, rng), typ="str",
             optional=True, owner=t)
    t.comps.insert(rng.randint(0, len(t.comps)), n)
    return [n]


def d01_dup_lit(g, rng):
    t = pick(rng, types_of(g, "enum"))
    if t is None:
        return None
    l = rng.choice(t.lits)
    n = Node(kind="lit", name=variant(l, rng))
    t.lits.append(n)
    return [n]


def d01_dup_obj(g, rng):
    o2 = pick(rng, g.objs)
    if o2 is None:
        return None
    other = [o for o in g.objs if o.pkg is o2.pkg]
    if o2.pkg.types and rng.random() < 0.3:
        o1 = rng.choice(o2.pkg.types)
    else:
        o1 = rng.choice(other)
    n = Node(kind="obj", name=variant(o1.name, rng), typ=o2.typ, pkg=o2.pkg,
             file_=o2.file_, assigns=[(c, copy.copy(v))
                                      for c, v in o2.assigns],
             section=o2.section)
    items = o2.file_.items
    items.insert(items.index(o2) + 1, n)
    if o1.kind == "obj":
        if o1.file_ is n.file_:
            later = max(o1, n, key=items.index)
        else:
            later = max(o1, n, key=lambda x: x.file_.name)
        return [later]
    return [n]


def d01_spell_type(g, rng):
    o = pick(rng, g.objs)
    if o is None:
        return None
    v = variant(o.typ.name, rng, False)
    o.tname = v if o.typ.pkg is o.pkg else "%s.%s" % (o.typ.pkg.name, v)
    return [o]


def d01_spell_pkg(g, rng):
    o = pick(rng, [o for o in g.objs if o.typ.pkg is not o.pkg])
    if o is None:
        return None
    o.tname = "%s.%s" % (variant(o.typ.pkg.name, rng, False), o.typ.name)
    return [o]


def d01_spell_comp(g, rng):
    a = pick(rng, assigns(g))
    if a is None:
        return None
    o, k, c, v = a
    o.assigns[k] = (variant(c.name, rng, False), v)
    return [v]


def d01_spell_enum(g, rng):
    p = pick(rng, positions(g, lambda t, v: is_node(t, "enum")))
    if p is None:
        return None
    e, l = p[3].enum, p[3].lit
    q = g.qual(e, p[5].pkg)
    r = rng.random()
    if r < 0.4:
        text = "%s.%s" % (q, variant(l, rng, False))
    elif r < 0.7:
        text = "%s.%s" % (variant(e.name, rng, False) if e.pkg is p[5].pkg
                          else e.pkg.name + "." +
                          variant(e.name, rng, False), l)
    else:
        text = "%s.q9" % q
    return replace(p, raw(text))


def d01_spell_ref(g, rng):
    p = pick(rng, positions(g, lambda t, v: v.kind == "ref"))
    if p is None:
        return None
    o = p[3].obj
    v = variant(o.name, rng, False)
    return replace(p, raw(v if o.pkg is p[5].pkg else "%s.%s" % (
        o.pkg.name, v)))


def d01_spell_ext(g, rng):
    t = pick(rng, [t for t in types_of(g, "rec") if t.parent])
    if t is None:
        return None
    v = variant(t.parent.name, rng, False)
    t.ext_text = v if t.parent.pkg is t.pkg else "%s.%s" % (
        t.parent.pkg.name, v)
    return [t]


def d01_spell_freeze(g, rng):
    t = pick(rng, [t for t in types_of(g, "rec") if t.freezes])
    if t is None:
        return None
    f = rng.choice(t.freezes)
    f.cname = variant(f.comp.name, rng, False)
    return [f]


def d01_kind_ext(g, rng):
    t = pick(rng, [t for t in types_of(g, "rec")])
    if t is None:
        return None
    k = t.pkg.types.index(t)
    b = pick(rng, [x.name for x in t.pkg.types[:k]
                   if x.kind in ("enum", "tuple")] + ["Integer", "String",
                                                      t.name, t.pkg.name])
    t.ext_text = b
    return [t]


def d01_kind_obj(g, rng):
    o = pick(rng, g.objs)
    if o is None:
        return None
    b = [x.name for x in o.pkg.types if x.kind in ("enum", "tuple")] + \
        [x.name for x in g.objs if x.pkg is o.pkg] + ["Integer", o.pkg.name,
                                                      "Undeclared9"]
    o.tname = rng.choice(b)
    return [o]


def d01_kind_ref(g, rng):
    p = pick(rng, positions(g, lambda t, v: v.kind == "ref"))
    if p is None:
        return None
    b = [x.name for x in p[5].pkg.types] + ["Undeclared9", "Integer",
                                            p[5].pkg.name]
    return replace(p, raw(rng.choice(b)))


def d01_unimported(g, rng):
    c = []
    for o in g.objs:
        for q in g.pkgs:
            if q is not o.pkg and q not in o.file_.imports:
                c += [(o, t) for t in q.types if t.kind == "rec"]
    x = pick(rng, c)
    if x is None:
        return None
    o, t = x
    o.tname = rng.choice(["%s.%s" % (t.pkg.name, t.name), t.name])
    if o.tname == t.name and any(y.name == t.name for y in o.pkg.types):
        return None
    return [o]


def d01_unqualified(g, rng):
    """a name of an imported package without the package"""
    o = pick(rng, [o for o in g.objs if o.typ.pkg is not o.pkg])
    if o is None or any(model.simple(t.name) == model.simple(o.typ.name)
                        for t in o.pkg.types):
        return None
    o.tname = o.typ.name
    return [o]


def d01_check_block(g, rng):
    p = pick(rng, [p for p in g.pkgs if not p.late and p.types])
    if p is None:
        return None
    t = rng.choice(p.types)
    if t.kind == "enum":
        nm = t.name
    else:
        nm = variant(t.name, rng, False)
    b = Node(kind="block", typ=t, checks=[], tname=nm)
    b.checks.append(Node(kind="check", text="true", sev=None, msg="m",
                         extra=None, anchor=None))
    p.blocks.append(b)
    return [b]


def d01_check_name(g, rng):
    """a check that names something which is no component of its type"""
    t = pick(rng, types_of(g, "rec", "tuple"))
    if t is None:
        return None
    comps = g.all_comps(t)
    others = [c.name for x in types_of(g, "rec", "tuple")
              for c in g.all_comps(x)
              if all(c.name != d.name for d in comps)]
    names = others + ["zz9"] + [variant(c.name, rng, False) for c in comps]
    names = [n for n in names if all(n != c.name for c in comps)]
    b = Node(kind="block", typ=t, checks=[])
    c = Node(kind="check", text="%s != null" % rng.choice(names), sev=None,
             msg="m", extra=None, anchor=None)
    b.checks.append(c)
    t.pkg.blocks.append(b)
    return [c]


def is_ref(ty):
    return is_node(ty, "rec") or is_node(ty, "union")


def bases_of(ty):
    return ty[1] if ty[0] == "union" else [ty[1]]


def d02_wrong_type(g, rng):
    c = []
    for p in positions(g, lambda t, v: v.kind == "ref" and is_ref(t)):
        o = p[5]
        for x in g.objs:
            if (x.pkg is o.pkg or x.pkg in o.file_.imports) and \
               not any(subtypes(x.typ, b) for b in bases_of(p[2])):
                c.append((p, x))
    y = pick(rng, c)
    if y is None:
        return None
    return replace(y[0], Node(kind="ref", obj=y[1]))


def d02_undeclared(g, rng):
    p = pick(rng, positions(g, lambda t, v: v.kind == "ref"))
    if p is None:
        return None
    o = p[5]
    names = ["nobody9", o.pkg.name + ".nobody9"]
    for x in g.objs:
        if x.pkg is not o.pkg and not any(
                y.pkg is o.pkg and y.name == x.name for y in g.objs):
            names.append(x.name)                 # needs its package
            if x.pkg not in o.file_.imports:
                names.append("%s.%s" % (x.pkg.name, x.name))
    return replace(p, raw(rng.choice(names)))


def d02_not_ref(g, rng):
    p = pick(rng, positions(g, lambda t, v: v.kind == "ref"))
    if p is None:
        return None
    return replace(p, raw(rng.choice(["1", "true", '"a"', "null", "[]",
                                      "()"])))


def d03_missing(g, rng):
    a = pick(rng, assigns(g, lambda c, v: not c.optional))
    if a is None:
        return None
    o, k, _, _ = a
    del o.assigns[k]
    return [o]


def d03_twice(g, rng):
    a = pick(rng, assigns(g))
    if a is None:
        return None
    o, k, c, v = a
    n = copy.copy(v)
    at = rng.randint(k + 1, len(o.assigns))
    o.assigns.insert(at, (c, n))
    return [n]


def d03_unknown(g, rng):
    o = pick(rng, g.objs)
    if o is None:
        return None
    names = ["zzz9"] + [c.name for t in types_of(g, "rec")
                        for c in g.all_comps(t)
                        if all(c.name != d.name
                               for d in g.all_comps(o.typ))]
    n = raw("1")
    o.assigns.insert(rng.randint(0, len(o.assigns)), (rng.choice(names), n))
    return [n]


def d03_frozen(g, rng):
    c = [(o, c) for o in g.objs for c in g.all_comps(o.typ)
         if c.name in g.frozen(o.typ)]
    x = pick(rng, c)
    if x is None:
        return None
    o, c = x
    try:
        v = g.value(c.typ, o.pkg, o)
    except Gen.NoValue:
        return None
    o.assigns.insert(rng.randint(0, len(o.assigns)), (c, v))
    return [v]


def d03_refreeze(g, rng):
    c = [(t, c) for t in types_of(g, "rec") for c in g.all_comps(t)
         if c.name in g.frozen(t)]
    x = pick(rng, c)
    if x is None:
        return None
    t, c = x
    try:
        v = g.value(c.typ, t.pkg, None)
    except Gen.NoValue:
        return None
    n = Node(kind="freeze", comp=c, value=v)
    t.freezes.append(n)
    return [n]


def d03_freeze_unknown(g, rng):
    t = pick(rng, types_of(g, "rec"))
    if t is None:
        return None
    n = Node(kind="freeze", cname="zzz9", value=raw("1"))
    t.freezes.append(n)
    return [n]


def d03_abstract(g, rng):
    c = []
    for o in g.objs:
        c += [(o, t) for q in [o.pkg] + o.file_.imports for t in q.types
              if t.kind == "rec" and t.abstract]
    x = pick(rng, c)
    if x is None:
        return None
    o, t = x
    o.tname = g.qual(t, o.pkg)
    return [o]


def d03_abstract_full(g, rng):
    """an otherwise complete object of a type that turns abstract"""
    o = pick(rng, g.objs)
    if o is None:
        return None
    o.typ.abstract = True
    return [x for x in g.objs if x.typ is o.typ]


WRONG = {
    "int": ["1.5", "true", '"1"', "[1]", "-1.0"],
    "dec": ["1", "true", '"1.0"', "[1.0]", "-1"],
    "bool": ["1", '"true"', "[true]", "0"],
    "str": ["1", "true", '["a"]', "0.5"],
    "mstr": ["1", "true", '["a"]', "0.5"],
}


def wrong_text(g, rng, ty, o):
    if isinstance(ty, str):
        return rng.choice(WRONG[ty])
    k = ty[0]
    if k == "enum":
        other = [e for e in types_of(g, "enum") if e is not ty[1] and
                 g.can_name(e, o.pkg, o)]
        if other and rng.random() < 0.5:
            e = rng.choice(other)
            return "%s.%s" % (g.qual(e, o.pkg), e.lits[0])
        return rng.choice(["true", "1", '"x"'])
    if k == "arr":
        return rng.choice(["true", "(1)", '"a"'])
    if k == "tup":
        return rng.choice(["[]", "()", "null"])
    return rng.choice(["1", '"a"', "[]"])


def d04_wrong_value(g, rng):
    p = pick(rng, positions(g, lambda t, v: True))
    if p is None:
        return None
    return replace(p, raw(wrong_text(g, rng, p[2], p[5])))


def d04_wrong_element(g, rng):
    p = pick(rng, positions(g, lambda t, v: v.kind in ("arr", "tup") and
                            any(x is not None for x in v.elts)))
    if p is None:
        return None
    v = p[3]
    ks = [k for k, x in enumerate(v.elts) if x is not None]
    k = rng.choice(ks)
    ty = p[2][1] if v.kind == "arr" else v.typ.comps[k].typ
    v.elts[k] = raw(wrong_text(g, rng, ty, p[5]))
    o, i = p[4]
    return [_Top(o, i)]


def d04_length(g, rng):
    p = pick(rng, positions(g, lambda t, v: v.kind == "arr" and
                            (t[2] > 0 or t[3] is not None)))
    if p is None:
        return None
    v, ty, o = p[3], p[2], p[5]
    want = []
    if ty[2] > 0:
        want.append(rng.randint(0, ty[2] - 1))
    if ty[3] is not None:
        want.append(ty[3] + rng.choice([1, 1, 2, 3]))
    n = rng.choice(want)
    try:
        while len(v.elts) < n:
            v.elts.append(g.value(ty[1], o.pkg, o))
    except Gen.NoValue:
        return None
    del v.elts[n:]
    o, i = p[4]
    return [_Top(o, i)]


def d04_separator(g, rng):
    p = pick(rng, positions(g, lambda t, v: v.kind == "tup" and v.typ.seps
                            and len([x for x in v.elts
                                     if x is not None]) > 1))
    if p is None:
        return None
    v = p[3]
    n = len([x for x in v.elts if x is not None])
    k = rng.randint(0, n - 2)
    bad = [s for s in ("@", ":", ";", "by", "of", "")
           if s != v.typ.seps[k]]
    s2 = list(v.typ.seps)
    s2[k] = rng.choice(bad)
    # "" would merge two names or numbers: keep a blank
    if s2[k] == "" and v.elts[k + 1].kind == "lit" and \
       v.elts[k + 1].text.startswith(("-", "+")):
        pass

    def text(parts):
        out = parts[0]
        for s, x in zip(s2, parts[1:]):
            if x is None:
                break
            out += " %s %s" % (s, x)
        return out
    v.raw = text
    o, i = p[4]
    return [_Top(o, i)]


def d04_arity(g, rng):
    p = pick(rng, positions(g, lambda t, v: v.kind == "tup"))
    if p is None:
        return None
    v = p[3]
    comps = v.typ.comps
    seps = v.typ.seps
    n = len([x for x in v.elts if x is not None])
    mand = len([c for c in comps if not c.optional])
    how = rng.choice(["fewer", "more"])
    if how == "fewer":
        if mand == 0 or (seps and mand < 2):
            return None
        keep = rng.randint(1 if seps else 0, mand - 1)

        def text(parts):
            parts = parts[:keep]
            if not seps:
                return "(" + ", ".join(parts) + ")"
            out = parts[0]
            for s, x in zip(seps, parts[1:]):
                out += " %s %s" % (s, x)
            return out
    else:
        if seps and n < len(comps):
            return None
        extra = rng.choice(["1", "true", '"a"'])

        def text(parts):
            if not seps:
                return "(" + ", ".join(parts + [extra]) + ")"
            out = parts[0]
            for s, x in zip(list(seps) + [rng.choice(seps)] if seps
                            else [], parts[1:] + [extra]):
                out += " %s %s" % (s, x)
            return out
    v.raw = text
    o, i = p[4]
    return [_Top(o, i)]


def d04_skip(g, rng):
    """leave out an optional field but not the ones behind it"""
    p = pick(rng, positions(g, lambda t, v: v.kind == "tup" and v.typ.seps
                            and len(v.elts) > 2 and
                            v.elts[2] is not None))
    if p is None:
        return None
    v = p[3]
    n = len([x for x in v.elts if x is not None])
    k = rng.randint(1, n - 2)
    seps = v.typ.seps
    if seps[k] == seps[k - 1]:
        return None

    def text(parts):
        out = parts[0]
        for i, (s, x) in enumerate(zip(seps, parts[1:])):
            if x is None:
                break
            if i + 1 == k:
                continue
            out += " %s %s" % (s, x)
        return out
    v.raw = text
    o, i = p[4]
    return [_Top(o, i)]


FAULTS = {}
for _n, _f in list(globals().items()):
    if _n[:1] == "d" and _n[1:3].isdigit() and callable(_f):
        FAULTS.setdefault(_n[:3].upper(), []).append(_f)

# a missing part can only be noticed at the token behind it
NEXT_LINE = ("d04_arity", "d04_separator", "d04_skip")


def fault_unit(prop, seed, n=60, only=None):
    rng = random.Random("fault-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    faults = FAULTS[prop] if only is None else [
        f for f in FAULTS[prop] if f.__name__ == only]
    done = 0
    for _ in range(n * 4):
        if done >= n:
            break
        g = Gen(rng, checks=False)
        f = rng.choice(faults)
        nodes = f(g, rng)
        if nodes is None:
            continue
        done += 1
        files = g.render()
        order = list(files)
        r = run.process(files, order)
        u.add(files)
        u.count(f.__name__)
        want = [(x.file, x.line) for x in nodes]
        at = {(m.file, m.line) for m in r.msgs if m.kind == "error"}
        if r.exc:
            u.bad("%s: internal exception %s" % (f.__name__, r.exc[-600:]),
                  files)
        elif not any(w in at or w[1] and (w[0], w[1] + 1) in at and
                     f.__name__ in NEXT_LINE for w in want):
            u.bad("%s: no error at %r, only %r" % (
                f.__name__, want, r.msgs[:4]), files)
        elif r.stab is not None and not only_known(r):
            u.bad("%s: a result is returned in spite of %r" % (
                f.__name__, r.msgs[:3]), files)
        run.clear_files()
    return u.result()
