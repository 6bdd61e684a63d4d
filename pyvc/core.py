"""pyvc.core - SMT encoding of Python values and the program under verification.

All Python values are encoded in one SMT datatype V.  The executor keeps
values unboxed (IntV, BoolV, ...) while their type is known on the path.
"""
import ast
import enum
import importlib
import inspect
import os
import sys
from fractions import Fraction

import z3

REPO = os.environ.get("PYVC_REPO", "/repo")

# ---------------------------------------------------------------- SMT sorts
_V = z3.Datatype("V")
_V.declare("VNone")
_V.declare("VBool", ("vb", z3.BoolSort()))
_V.declare("VInt", ("vi", z3.IntSort()))
_V.declare("VFrac", ("vr", z3.RealSort()))
_V.declare("VStr", ("vs", z3.StringSort()))
_V.declare("VChar", ("vc", z3.IntSort()))
_V.declare("VEnum", ("ve", z3.IntSort()))
_V.declare("VObj", ("vo", z3.IntSort()))
_V.declare("VPair", ("v0", _V), ("v1", _V))      # tuple of two, as data
V = _V.create()
Ref = z3.IntSort()
ARR_IV = z3.ArraySort(z3.IntSort(), V)
ARR_VV = z3.ArraySort(V, V)
ARR_VB = z3.ArraySort(V, z3.BoolSort())
CLS = z3.Function("cls", Ref, z3.IntSort())
ISINST_ARG = z3.Int("isinst_arg")

# character predicates; ASCII part is defined, the rest uninterpreted
U_ALPHA = z3.Function("uni_alpha", z3.IntSort(), z3.BoolSort())
U_DIGIT = z3.Function("uni_digit", z3.IntSort(), z3.BoolSort())
U_ALNUM = z3.Function("uni_alnum", z3.IntSort(), z3.BoolSort())
U_SPACE = z3.Function("uni_space", z3.IntSort(), z3.BoolSort())


def _rng(c, a, b):
    return z3.And(c >= ord(a), c <= ord(b))


def ch_isascii(c):
    return z3.And(c >= 0, c < 128)


def ch_isalpha(c):
    return z3.If(ch_isascii(c), z3.Or(_rng(c, "a", "z"), _rng(c, "A", "Z")),
                 U_ALPHA(c))


def ch_isdigit(c):
    return z3.If(ch_isascii(c), _rng(c, "0", "9"), U_DIGIT(c))


def ch_isalnum(c):
    return z3.If(ch_isascii(c), z3.Or(_rng(c, "0", "9"), _rng(c, "a", "z"),
                                      _rng(c, "A", "Z")), U_ALNUM(c))


def ch_isspace(c):
    return z3.If(ch_isascii(c),
                 z3.Or(*[c == x for x in range(128) if chr(x).isspace()]),
                 U_SPACE(c))


# the text between two positions of the text of an object
TEXTSUB = z3.Function("text_between", z3.IntSort(), z3.IntSort(),
                      z3.IntSort(), z3.StringSort())
# s[lo:hi]
STRSUB = z3.Function("py_str_slice", z3.StringSort(), z3.IntSort(),
                     z3.IntSort(), z3.StringSort())
NO_BOUND = 10 ** 30
# the character at a position of a string; a string with one more character
STRCH = z3.Function("py_str_at", z3.StringSort(), z3.IntSort(),
                    z3.IntSort())
STRCAT = z3.Function("py_str_and_char", z3.StringSort(), z3.IntSort(),
                     z3.StringSort())


# ------------------------------------------------------------ value classes
class SV:
    __slots__ = ()


class Conc(SV):
    """A concrete Python constant (also: classes, functions, modules)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Conc(%r)" % (self.v,)


class IntV(SV):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Int(%s)" % self.t


class BoolV(SV):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Bool(%s)" % self.t


class RealV(SV):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Real(%s)" % self.t


class StrV(SV):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Str(%s)" % self.t


class CharV(SV):
    """A string of length one, given by its code point."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Char(%s)" % self.t


class EnumV(SV):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Enum(%s)" % self.t


class ObjV(SV):
    """Heap object.  spec: element/value schema for containers."""
    __slots__ = ("t", "spec")

    def __init__(self, t, spec=None):
        self.t = t
        self.spec = spec

    def __repr__(self):
        return "Obj(%s)" % self.t


class AnyV(SV):
    __slots__ = ("t", "spec")

    def __init__(self, t, spec=None):
        self.t = t
        self.spec = spec

    def __repr__(self):
        return "Any(%s)" % self.t


class TupV(SV):
    """Python tuple (immutable, statically known length)."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "Tup(%r)" % (self.items,)


class DictLit(SV):
    """Dict display with constant keys (never mutated)."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class FuncV(SV):
    """Closure: nested def or lambda."""
    __slots__ = ("node", "env", "modname", "name", "cls")

    def __init__(self, node, env, modname, name, cls=None):
        self.node = node
        self.env = env
        self.modname = modname
        self.name = name
        self.cls = cls


class BoundV(SV):
    """Bound method."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class SuperV(SV):
    __slots__ = ("obj", "cls")

    def __init__(self, obj, cls):
        self.obj = obj
        self.cls = cls


class TextV(SV):
    """Immutable text of symbolic length, as code point array.  The slices
    of a text that belongs to an object (key) have a string term."""
    __slots__ = ("arr", "len", "key")

    def __init__(self, arr, ln, key=None):
        self.arr = arr
        self.len = ln
        self.key = key


class SliceV(SV):
    """text[a:b] with 0<=a<=b<=len proved at creation."""
    __slots__ = ("text", "a", "b")

    def __init__(self, text, a, b):
        self.text = text
        self.a = a
        self.b = b


class IterV(SV):
    """Lazy iterable: length term and element function (index term -> SV)."""
    __slots__ = ("len", "at", "desc", "conc")

    def __init__(self, ln, at, desc, conc=None):
        self.len = ln
        self.at = at
        self.desc = desc
        self.conc = conc   # python list of SV if statically known


class Unbound(SV):
    __slots__ = ()


NONE = Conc(None)
TRUE = Conc(True)
FALSE = Conc(False)


# -------------------------------------------------------------- exceptions
class Unsupported(Exception):
    """Construct outside the supported subset."""


class Infeasible(Exception):
    """Current path has a contradictory condition or is covered elsewhere."""


class PyRaise(Exception):
    def __init__(self, cls, val=None):
        super().__init__(cls.__name__)
        self.cls = cls
        self.val = val


# ---------------------------------------------------------------- program
class Program:
    """The real modules (imported) plus their ASTs."""

    def __init__(self, modnames, repo=REPO):
        if repo not in sys.path:
            sys.path.insert(0, repo)
        sys.dont_write_bytecode = True
        sys.setrecursionlimit(20000)
        self.repo = repo
        self.mods = {}
        self.fn_ast = {}       # (modname, qualname) -> FunctionDef
        self.cls_ast = {}
        self.cls_ids = {}
        self.id_cls = {}
        self.isinst_cache = {}
        self.enum_ids = {}
        self.id_enum = {}
        for m in modnames:
            mod = importlib.import_module(m)
            path = inspect.getsourcefile(mod)
            if not os.path.realpath(path).startswith(
                    os.path.realpath(repo) + os.sep):
                raise RuntimeError("module %s comes from %s" % (m, path))
            self.mods[m] = mod
            with open(path, encoding="UTF-8") as fd:
                tree = ast.parse(fd.read(), path)
            self._walk(m, tree, "")
        for c in (object, list, dict, set, tuple, type):
            self._cls_id(c)
        for m, mod in self.mods.items():
            for k in sorted(vars(mod)):
                c = vars(mod)[k]
                if isinstance(c, type) and \
                   (getattr(c, "__module__", "") or "").split(
                        ".")[0] == m.split(".", maxsplit=1)[0]:
                    if issubclass(c, enum.Enum):
                        for e in c:
                            self.enum_id(e)
                    else:
                        self._cls_id(c)

    def _walk(self, m, node, prefix):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.FunctionDef):
                self.fn_ast[(m, prefix + ch.name)] = ch
            elif isinstance(ch, ast.ClassDef):
                self.cls_ast[(m, prefix + ch.name)] = ch
                self._walk(m, ch, prefix + ch.name + ".")
            elif isinstance(ch, (ast.If, ast.Try)):
                self._walk(m, ch, prefix)

    def _cls_id(self, c):
        if c not in self.cls_ids:
            n = len(self.cls_ids) + 1
            self.cls_ids[c] = n
            self.id_cls[n] = c
        return self.cls_ids[c]

    def enum_id(self, e):
        if e not in self.enum_ids:
            n = len(self.enum_ids) + 1
            self.enum_ids[e] = n
            self.id_enum[n] = e
        return self.enum_ids[e]

    def is_abstract(self, c):
        """Never instantiated: declares metaclass=ABCMeta or is ABC-abstract.
        """
        if inspect.isabstract(c):
            return True
        node = self.cls_ast.get((c.__module__, c.__qualname__))
        if node is not None:
            for kw in node.keywords:
                if kw.arg == "metaclass":
                    return True
        return False

    def leafs(self, k):
        """ids of all instantiable classes C with issubclass(C, k)"""
        ks = k if isinstance(k, tuple) else (k,)
        return [i for c, i in self.cls_ids.items()
                if issubclass(c, ks) and not self.is_abstract(c)]

    def isinst(self, ref, k):
        ks = k if isinstance(k, tuple) else (k,)
        t = self.isinst_cache.get(ks)
        if t is None:
            ids = self.leafs(k)
            t = z3.Or(*[CLS(ISINST_ARG) == i for i in ids]) if ids \
                else z3.BoolVal(False)
            self.isinst_cache[ks] = t
        return z3.substitute(t, (ISINST_ARG, ref))

    def func_def(self, fn):
        """AST of a real function object of the repository, or None"""
        m = getattr(fn, "__module__", None)
        q = getattr(fn, "__qualname__", None)
        return self.fn_ast.get((m, q))

    def cls(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        return getattr(self.mods[mod], name)


def mro_find(c, name):
    for k in c.__mro__:
        if name in k.__dict__:
            return k, k.__dict__[name]
    return None, None


# --------------------------------------------------------------- encoding
def str_of(term):
    return term


OPAQUE = {}         # objects of the runtime, e.g. sys.stdout


def conc_to_v(prog, v):
    if v is None:
        return V.VNone
    if isinstance(v, bool):
        return V.VBool(z3.BoolVal(v))
    if isinstance(v, enum.Enum):
        return V.VEnum(z3.IntVal(prog.enum_id(v)))
    if isinstance(v, int):
        return V.VInt(z3.IntVal(v))
    if isinstance(v, Fraction):
        return V.VFrac(z3.RealVal(str(v)))
    if isinstance(v, str):
        return V.VStr(mkstr(v))
    if getattr(v, "__class__", None).__module__ == "_io":
        r = z3.Int("opaque_%d" % OPAQUE.setdefault(id(v), len(OPAQUE)))
        return V.VObj(r)
    raise Unsupported("cannot encode constant %r" % (v,))


def mkstr(s):
    out = []
    for c in s:
        if 32 <= ord(c) < 127 and c != "\\":
            out.append(c)
        else:
            out.append("\\u{%x}" % ord(c))
    return z3.StringVal("".join(out))


def to_v(prog, sv):
    if isinstance(sv, Conc):
        if isinstance(sv.v, (type, type(mro_find))) or inspect.ismodule(sv.v):
            raise Unsupported("class/function as data")
        return conc_to_v(prog, sv.v)
    if isinstance(sv, IntV):
        return V.VInt(sv.t)
    if isinstance(sv, BoolV):
        return V.VBool(sv.t)
    if isinstance(sv, RealV):
        return V.VFrac(sv.t)
    if isinstance(sv, StrV):
        return V.VStr(sv.t)
    if isinstance(sv, CharV):
        return V.VChar(sv.t)
    if isinstance(sv, EnumV):
        return V.VEnum(sv.t)
    if isinstance(sv, ObjV):
        return V.VObj(sv.t)
    if isinstance(sv, AnyV):
        return sv.t
    if isinstance(sv, SliceV) and sv.text.key is not None:
        return V.VStr(TEXTSUB(sv.text.key, sv.a, sv.b))
    if isinstance(sv, TupV) and len(sv.items) == 2:
        return V.VPair(*[to_v(prog, x) for x in sv.items])
    raise Unsupported("cannot encode %s" % sv.__class__.__name__)


_CTORS = {"VInt": IntV, "VBool": BoolV, "VFrac": RealV, "VStr": StrV,
          "VChar": CharV, "VEnum": EnumV, "VObj": ObjV}


def from_v(prog, t, spec=None):
    """V term -> most specific SV visible syntactically"""
    t = z3.simplify(t)
    if z3.is_app(t):
        n = t.decl().name()
        if n == "VNone":
            return NONE
        if n in _CTORS and t.num_args() == 1:
            a = t.arg(0)
            if n == "VBool":
                if z3.is_true(a):
                    return TRUE
                if z3.is_false(a):
                    return FALSE
            if n == "VInt" and z3.is_int_value(a):
                return Conc(a.as_long())
            if n == "VEnum" and z3.is_int_value(a):
                return Conc(prog.id_enum[a.as_long()])
            if n == "VChar" and z3.is_int_value(a):
                return Conc(chr(a.as_long()))
            if n == "VObj":
                return ObjV(a, spec)
            return _CTORS[n](a)
        if n == "VPair":
            return TupV([from_v(prog, t.arg(0)), from_v(prog, t.arg(1))])
    return AnyV(t, spec)
