"""Symbolic values of the verifier.

Concrete Python values (None, bool, int, str, enum members, classes, functions, ...) stand for
themselves; z3 Bool / Int expressions are symbolic bools / ints; everything else is below.
"""
import itertools

import z3

V = z3.DeclareSort("V")
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()

_fns = {}


def F(name, *sorts):
    """An uninterpreted function (cached by name and signature)."""
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _fns:
        _fns[key] = z3.Function(name, *sorts)
    return _fns[key]


clsof = F("cls", V, I)
litid = F("litid", V, I)
canon = F("canon", V, V)
hashof = F("hash", V, I)
slen = F("len", V, I)
sat = F("at", V, I, V)
smem = F("mem", V, V, B)
mdom = F("dom", V, V, B)
mget = F("get", V, V, V)
rank = F("rank", V, R)
NONE = z3.Const("None", V)


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation is not decided."""


class Infeasible(Exception):
    """The current path cannot happen."""


class NoFork(Exception):
    """A decision was needed where none may be taken."""


class PyRaise(Exception):
    """A Python exception raised by the code under verification."""

    def __init__(self, cls, args=(), opaque=None):
        super().__init__(cls)
        self.cls = cls
        self.pyargs = args
        self.opaque = opaque  # z3 term naming the outcome, when cls is not known


# ---------------------------------------------------------------- types


class Ty:
    """Type of an opaque value."""

    def __init__(self, kind, *a, **kw):
        self.kind = kind
        self.a = a
        self.kw = kw

    def __repr__(self):
        if self.kind == "cls":
            return "|".join(sorted(c.__name__ for c in self.a[0]))
        return f"{self.kind}{list(self.a) if self.a else ''}"


def clskey(c):
    """A stable order of classes."""
    return (c.__module__, c.__qualname__)


def TCls(*classes):
    return Ty("cls", frozenset(classes))


TStr = Ty("str")
TName = Ty("str", "name")
TNum = Ty("num")
TInt = Ty("int")
TBool = Ty("bool")
TNone = Ty("none")
TAny = Ty("any")


def TSeq(e, kind="tuple"):
    return Ty("seq", e, kind)


def TSet(e, kind="frozenset"):
    return Ty("set", e, kind)


def TMap(k, v):
    return Ty("map", k, v)


def TTup(*e):
    return Ty("tup", *e)


def TUnion(*ts):
    return Ty("union", *ts)


def TOpt(t):
    return Ty("union", TNone, t)


def TEnum(cls):
    return Ty("enum", cls)


def TConst(v):
    return Ty("const", v)


# ---------------------------------------------------------------- values


class Sym:
    """An opaque immutable value: a class instance, a string, a number, an enum member."""

    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return f"<{self.t}:{self.ty}>"


_sid = itertools.count(1)


def now():
    """A serial number: values allocated later have a greater one."""
    return next(_sid)


class VDict(dict):
    """A dict of variables or fields, with its allocation serial number."""

    __slots__ = ("sid",)

    def __init__(self, *a):
        super().__init__(*a)
        self.sid = next(_sid)


class Obj:
    """An object allocated by the code under verification (or a mutable input)."""

    __slots__ = ("cls", "fields", "input", "name", "sid")

    def __init__(self, cls, fields=None, input=False, name=None):
        self.cls = cls
        self.fields = VDict(fields or {})
        self.input = input
        self.name = name
        self.sid = next(_sid)

    def __repr__(self):
        return f"{self.cls.__name__}({', '.join(f'{k}={v!r}' for k, v in self.fields.items())})"


class Str:
    """A string: concatenation of parts: str | Sym | Rep."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "S" + repr(list(self.parts))


class Rep:
    """String part: concatenation over an index of case-dependent parts."""

    __slots__ = ("n", "ix", "cases")

    def __init__(self, n, ix, cases):
        self.n = n
        self.ix = ix
        self.cases = cases  # [(cond, parts tuple)]

    def __repr__(self):
        return f"Rep({self.n},{self.ix},{self.cases})"


# sequence segments -------------------------------------------------


class E:
    """One element."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"{self.v!r}"


class S:
    """All elements of the opaque sequence t."""

    __slots__ = ("t", "ety")

    def __init__(self, t, ety):
        self.t = t
        self.ety = ety

    def __repr__(self):
        return f"*{self.t}"


class C:
    """Comprehension: for ix in range(n): the segments of the case that holds."""

    __slots__ = ("n", "ix", "cases")

    def __init__(self, n, ix, cases):
        self.n = n
        self.ix = ix
        self.cases = cases  # [(cond, segs tuple)]

    def __repr__(self):
        return f"*[{self.cases} for {self.ix}<{self.n}]"


class Seq:
    """A list or tuple."""

    __slots__ = ("kind", "segs", "input", "sid")

    def __init__(self, kind, segs, input=False):
        self.kind = kind
        self.segs = tuple(segs)
        self.input = input
        self.sid = next(_sid)

    def __repr__(self):
        return f"{self.kind}{list(self.segs)}"


class SetV:
    """A set or frozenset: expr is ('sym',t,ety) | ('seq',segs) | (op,e1,e2)."""

    __slots__ = ("kind", "expr", "input", "sid")

    def __init__(self, kind, expr, input=False):
        self.kind = kind
        self.expr = expr
        self.input = input
        self.sid = next(_sid)

    def __repr__(self):
        return f"{self.kind}{self.expr}"


class DictV:
    """A dict: entries in insertion order, later ones override earlier ones.

    ('kv',k,v) | ('sym',t,kty,vty) | ('comp',n,ix,[(cond,k,v)]) .
    """

    __slots__ = ("entries", "input", "sid")

    def __init__(self, entries=(), input=False):
        self.entries = tuple(entries)
        self.input = input
        self.sid = next(_sid)

    def __repr__(self):
        return f"dict{list(self.entries)}"


class DictOf:
    """obj.__dict__ of an object the code allocated: the fields themselves."""

    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o


class View:
    """dict.keys()/values()/items()."""


    __slots__ = ("d", "what")

    def __init__(self, d, what):
        self.d = d
        self.what = what


class Closure:
    """A function defined in interpreted code."""

    __slots__ = ("node", "frame", "name")

    def __init__(self, node, frame, name):
        self.node = node
        self.frame = frame
        self.name = name


class Bound:
    """A bound method."""

    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return f"<bound {self.fn} of {self.self}>"


class Native:
    """A builtin modelled by the verifier (callable on symbolic values)."""

    __slots__ = ("fn", "name")

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name


class Match:
    """The match object of a pattern (with the method used) and a text."""

    __slots__ = ("method", "text")

    def __init__(self, method, text):
        self.method = method
        self.text = text


class Lazy:
    """A generator expression or map object, not evaluated yet: iterate with fn(it, yield_)."""

    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class SuperV:
    """The result of super()."""

    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class Poison:
    """A value that must not be read (loop temporary after a summarised loop)."""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


MISSING = object()


def is_z3b(v):
    return isinstance(v, z3.BoolRef)


def is_z3i(v):
    return isinstance(v, z3.ArithRef)
