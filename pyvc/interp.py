"""Symbolic interpreter of Python functions (the real AST of the real code)."""
import ast
import builtins
import enum
import functools
import inspect
import itertools
import pathlib
import re
import types as pytypes

import z3

from pyvc import reify
from pyvc.ctx import Ctx
from pyvc.values import *  # noqa


class Return_(Exception):
    def __init__(self, v):
        self.v = v


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


# ---------------------------------------------------------------- source

_files = {}


def _index_file(fn):
    if fn in _files:
        return _files[fn]
    src = open(fn).read()
    tree = ast.parse(src)
    idx = {}
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            ln = node.lineno
            if isinstance(node, ast.FunctionDef) and node.decorator_list:
                ln = min(ln, min(d.lineno for d in node.decorator_list))
            idx.setdefault((ln, getattr(node, "name", "<lambda>")), []).append(node)
    _files[fn] = idx
    return idx


def fn_ast(fn):
    """The AST of a real function object."""
    code = fn.__code__
    idx = _index_file(code.co_filename)
    c = idx.get((code.co_firstlineno, code.co_name), [])
    if len(c) != 1:
        raise Unsupported(f"no unique source for {fn.__qualname__}")
    return c[0]


def is_repo(fn):
    from pyvc.boot import REPO

    return fn.__code__.co_filename.startswith(REPO)


class Frame:
    """Local variables of one activation."""

    __slots__ = ("vars", "glob", "parent", "cells", "cls", "fnname", "self0", "emit")

    def __init__(self, glob, parent=None, cells=None, cls=None, fnname=""):
        self.vars = VDict()
        self.glob = glob
        self.parent = parent
        self.cells = cells or {}
        self.cls = cls
        self.fnname = fnname
        self.self0 = None
        self.emit = None


class ExcV:
    """An exception instance."""

    __slots__ = ("cls", "args")

    def __init__(self, cls, args):
        self.cls = cls
        self.args = args


STRCODE, NUMCODE, SEQCODE, SETCODE, MAPCODE, NONECODE = -1, -2, -3, -4, -5, -6


class World:
    """Closed world of classes, contracts and virtual contracts."""

    def __init__(self):
        self.codes = {}
        self.ctor_types = {}  # class -> dict(pos=[(name,Ty)], var=Ty|None)
        self.fn_contracts = {}  # code object -> handler(interp, args, kwargs)
        self.class_contracts = {}  # class -> handler
        self.virtual = {}  # attr -> list[(classes, handler)]
        self.while_specs = []
        self.for_specs = []
        self.methods = {}  # (class, name) -> contract of a method of objects that the code allocates
        self.inside = {}  # contracts used only while the fields of an opaque object are found
        self.regexes = {}  # name of a language -> its decision on concrete strings
        self.name_class = None  # the class of the values of type TName
        self.inline_depth = 60
        self.eq_contract = None
        self.lt_contract = None
        self.hash_contract = None
        self.copy_contract = None
        self.seq_rank = None
        self.sortable = None
        self.optional_fields = {}
        self.memo_fields = {"__hash"}
        self.used = set()  # contracts used at call sites

    def is_memo(self, key):
        """Is ('ofield', id, name) the key of a memo field?"""
        return key[0] == "ofield" and key[2] in self.memo_fields

    def code(self, cls):
        if cls not in self.codes:
            self.codes[cls] = len(self.codes) + 1
        return self.codes[cls]


def is_exc(c):
    return isinstance(c, type) and issubclass(c, BaseException)


def is_host(v):
    """A concrete Python value that stands for itself."""
    return v is None or isinstance(
        v,
        (
            bool, int, float, str, enum.Enum, type, pytypes.FunctionType, pytypes.ModuleType,
            pytypes.BuiltinFunctionType, re.Pattern, pytypes.MethodType, functools.partial,
        ),
    ) or v is NotImplemented or v is Ellipsis


class Interp:
    """Interpreter of one path context."""

    def __init__(self, ctx: Ctx, world: World, b):
        self.ctx = ctx
        self.w = world
        self.b = b  # builtins module (models)
        self.depth = 0
        self.active = []
        self.havoc = []  # one entry per loop whose accumulators are arbitrary now: were they needed?
        self.executed = None
        self.hashed = []  # collections that were hashed

    # ------------------------------------------------------------ opaque values
    def lit(self, v):
        """The V constant of a concrete value."""
        ctx = self.ctx
        if v is None:
            ctx.once(("lit", None), lambda: z3.And(litid(NONE) == 0, clsof(NONE) == NONECODE))
            return NONE
        key = (type(v).__name__, v if not isinstance(v, type) else v.__module__ + v.__qualname__)
        if isinstance(v, enum.Enum):
            key = (type(v).__name__, v.name)
        elif isinstance(v, (bool, int, float)):
            key = ("num", v)
        elif isinstance(v, str):
            key = ("str", str(v))
        elif not isinstance(v, type):
            key = (type(v).__name__, id(v))
        tbl = self.w.__dict__.setdefault("_lits", {})
        if key not in tbl:
            tbl[key] = (len(tbl) + 1, z3.Const(f"lit!{key[0]}!{key[1]}", V), v)
        n, c, _ = tbl[key]

        def fact():
            fs = [litid(c) == n]
            if isinstance(v, str):
                fs.append(clsof(c) == STRCODE)
            elif isinstance(v, (bool, int, float)):
                fs.append(clsof(c) == NUMCODE)
                if v == v and v not in (float("inf"), float("-inf")):
                    fs.append(rank(c) == z3.RealVal(repr(v) if isinstance(v, float) else int(v)))
            elif isinstance(v, enum.Enum):
                fs.append(clsof(c) == self.w.code(type(v)))
            fs.append(canon(c) == c)
            return z3.And(*fs)

        if ("lit", n) not in ctx.litfacts:
            ctx.litfacts[("lit", n)] = reify.keep(fact())
            if isinstance(v, str):
                for nm, f in self.w.regexes.items():
                    ctx.litfacts[("re", nm, n)] = reify.keep(F(nm, V, B)(c) == f(str(v)))
        ctx.once(("lit", n), ctx.litfacts[("lit", n)])
        return c

    def mk(self, t, ty):
        """The value of type ty denoted by the V term t."""
        ctx = self.ctx
        ctx.keep.append(t)
        k = ty.kind
        if k == "cls":
            cs = ty.a[0]

            def fact():
                return z3.Or(*[clsof(t) == self.w.code(c) for c in sorted(cs, key=clskey)])

            ctx.once(("ty", t.get_id(), ty), fact)
            return Sym(t, ty)
        if k == "str":
            ctx.once(("ty", t.get_id(), "str"), lambda: z3.And(clsof(t) == STRCODE, canon(t) == t))
            return Sym(t, ty)
        if k == "num":
            ctx.once(("ty", t.get_id(), "num"), lambda: clsof(t) == NUMCODE)
            return Sym(t, ty)
        if k == "seq":
            ctx.once(("ty", t.get_id(), "seq"), lambda: slen(t) >= 0)
            return Seq(ty.a[1], [S(t, ty.a[0])], ty.a[1] == "list" and part_of(t))
        if k == "set":
            return SetV(ty.a[1], ("sym", t, ty.a[0]), ty.a[1] == "set" and part_of(t))
        if k == "map":
            return DictV([("sym", t, ty.a[0], ty.a[1])], part_of(t))
        if k == "tup":
            return Seq("tuple", [E(self.mk(F(f"proj{i}", V, V)(t), e)) for i, e in enumerate(ty.a)])
        if k == "union":
            tags = F("tag", V, I)(t)
            none = any(a.kind == "none" for a in ty.a)
            cs = []
            for i, a in enumerate(ty.a[:-1]):
                cs.append(t == NONE if a.kind == "none" else z3.And(t != NONE, tags == i) if none else tags == i)
            n = ctx.choose(cs + [z3.Not(z3.Or(*cs)) if len(cs) > 1 else z3.Not(cs[0])])
            return self.mk(t, ty.a[n])
        if k == "none":
            return None
        if k == "const":
            return ty.a[0]
        if k == "int":
            return F("int", V, I)(t)
        if k == "bool":
            return F("bool", V, B)(t)
        if k == "enum":
            ms = list(ty.a[0])
            lits = [self.lit(m) for m in ms]
            ctx.once(("ty", t.get_id(), "enum"), lambda: z3.And(z3.Or(*[t == l for l in lits]), canon(t) == t))
            return Sym(t, ty)
        if k == "any":
            return Sym(t, ty)
        raise Unsupported(f"type {ty}")

    def to_v(self, v):
        """A V term that denotes the value (reified if structured)."""
        if isinstance(v, (Sym, self.b.Uni)):
            return v.t
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "*":
            v = v[1]
        if isinstance(v, Seq) and len(v.segs) == 1 and isinstance(v.segs[0], S):
            return v.segs[0].t
        if isinstance(v, SetV) and v.expr[0] == "sym":
            return v.expr[1]
        if isinstance(v, DictV) and len(v.entries) == 1 and v.entries[0][0] == "sym":
            return v.entries[0][1]
        if is_host(v):
            return self.lit(v)
        if isinstance(v, Str):
            v = self.norm_str(v)
            if isinstance(v, str):
                return self.lit(v)
            if isinstance(v, Sym):
                return v.t
        return self.reify(v)

    def reify(self, v):
        from pyvc import reify

        return reify.reify(self, v)

    def mk_lazy(self, t, ty):
        """Like mk, but a union stays undecided until it is used."""
        self.ctx.keep.append(t)
        if ty.kind == "union":
            return self.b.Uni(t, ty)
        return self.mk(t, ty)

    def freeze(self, v, memo=None):
        """An immutable copy of a mutable value (snapshot)."""
        memo = {} if memo is None else memo
        if isinstance(v, Seq):
            return Seq(v.kind, [self._freeze_seg(s, memo) for s in v.segs])
        if isinstance(v, SetV):
            return SetV(v.kind, v.expr)
        if isinstance(v, DictV):
            return DictV(v.entries)
        if isinstance(v, Obj):
            if id(v) in memo:
                return memo[id(v)]
            o = Obj(v.cls, {}, v.input, v.name)
            memo[id(v)] = o
            for k, x in v.fields.items():
                o.fields[k] = self.freeze(x, memo)
            return o
        return v

    def _freeze_seg(self, s, memo):
        if isinstance(s, E):
            return E(self.freeze(s.v, memo))
        return s

    # ------------------------------------------------------------ classes of values
    def classes_of(self, v):
        """Possible exact classes of a value."""
        if isinstance(v, self.b.Uni):
            v = v.force(self)
        if isinstance(v, Sym):
            if v.ty.kind == "cls":
                nar = self.ctx.known.get(("nar", v.t.get_id()))
                return nar if nar is not None else v.ty.a[0]
            if v.ty.kind == "str":
                return frozenset([str])
            if v.ty.kind == "num":
                return frozenset([float])
            if v.ty.kind == "enum":
                return frozenset([v.ty.a[0]])
            raise Unsupported(f"class of {v}")
        return frozenset([self.pyclass(v)])

    def pyclass(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Seq):
            return {"list": list, "tuple": tuple}[v.kind]
        if isinstance(v, SetV):
            return {"set": set, "frozenset": frozenset}[v.kind]
        if isinstance(v, DictV):
            return dict
        if isinstance(v, Str):
            return str
        if is_z3b(v):
            return bool
        if is_z3i(v):
            return int
        if isinstance(v, ExcV):
            return v.cls
        if isinstance(v, (Closure, Bound, Native)):
            return pytypes.FunctionType
        if is_host(v):
            return type(v)
        raise Unsupported(f"class of {type(v).__name__}")

    def narrow(self, v, inside):
        """Fork on whether the class of Sym v is in `inside`; return bool."""
        cs = self.classes_of(v)
        ins = frozenset(c for c in cs if c in inside)
        if ins == cs:
            return True
        if not ins:
            return False
        c = z3.Or(*[clsof(v.t) == self.w.code(k) for k in sorted(ins, key=clskey)])
        r = self.ctx.branch(c)
        self.ctx.dset(self.ctx.known, ("nar", v.t.get_id()), ins if r else cs - ins)
        return r

    def exact(self, v):
        """Fork until the exact class of v is known."""
        cs = sorted(self.classes_of(v), key=clskey)
        while len(cs) > 1:
            if self.narrow(v, {cs[0]}):
                break
            cs = sorted(self.classes_of(v), key=clskey)
        cs = self.classes_of(v)
        return next(iter(cs))

    def isinstance_(self, v, cls):
        if isinstance(v, self.b.Uni):
            v = v.force(self)
        if isinstance(cls, tuple):
            cls = Seq("tuple", [E(c) for c in cls])
        if isinstance(cls, Seq):
            for s in cls.segs:
                if self.isinstance_(v, s.v):
                    return True
            return False
        if not isinstance(cls, type) and isinstance(getattr(cls, "__origin__", None), type):
            cls = cls.__origin__
        if not isinstance(cls, type):
            raise Unsupported(f"isinstance of {cls}")
        if isinstance(v, Sym) and v.ty.kind == "str" and v.ty.a and self.w.name_class is not None:
            return issubclass(self.w.name_class, cls)
        if isinstance(v, Sym):
            cs = self.classes_of(v)
            if v.ty.kind == "num":
                if issubclass(float, cls) and issubclass(int, cls):
                    return True
                if not issubclass(float, cls) and not issubclass(int, cls):
                    return False
                return self.ctx.branch(F("isfloat", V, B)(v.t)) == (cls is float)
            return self.narrow(v, frozenset(c for c in cs if issubclass(c, cls)))
        return issubclass(self.pyclass(v), cls)

    # ------------------------------------------------------------ input objects
    def fields_of(self, v: Sym):
        """Fields of an opaque object: those its constructor sets, on opaque arguments."""
        cs = self.classes_of(v)
        inits = {c.__init__ for c in cs}
        if len(inits) > 1:
            self.exact(v)
            cs = self.classes_of(v)
        cls = sorted(cs, key=clskey)[0]
        init = cls.__init__
        owner = next(c for c in cls.__mro__ if "__init__" in c.__dict__)
        ckey = ("fields", v.t.get_id(), owner)
        if ckey in self.ctx.known:
            return self.ctx.known[ckey]
        shape = None
        for c in cls.__mro__:
            if c in self.w.ctor_types:
                shape = self.w.ctor_types[c]
                break
        if shape is None:
            raise Unsupported(f"no constructor contract for {cls.__name__}")
        o = Obj(cls, {}, input=False)
        args = [o]
        for nm, ty in shape["pos"]:
            args.append(self.mk(F(f"{shape['key']}.{nm}", V, V)(v.t), ty))
        if shape.get("var"):
            nm, ty = shape["var"]
            sq = self.mk(F(f"{shape['key']}.{nm}", V, V)(v.t), TSeq(ty))
            args.append(("*", sq))
        self.ctx.assume_ok += 1
        mark = len(self.ctx.decs)
        try:
            self.call_function(init, args, {})
        except PyRaise:
            raise Infeasible()
        finally:
            self.ctx.assume_ok -= 1
        for x in o.fields.values():
            # a collection held by an object that exists is not to be changed in place
            if isinstance(x, Seq) and x.kind == "list" or isinstance(x, SetV) and x.kind == "set" or isinstance(x, DictV):
                x.input = True
        # choices made here hold of every constructed object
        self.ctx.dset(self.ctx.known, ckey, o.fields)
        self.ctx.dset(self.ctx.known, ("obj", v.t.get_id(), owner), o)
        return o.fields

    # ------------------------------------------------------------ attributes
    def getattr_(self, v, name, default=MISSING):
        if isinstance(v, self.b.Uni):
            v = v.force(self)
        if isinstance(v, Sym):
            return self.getattr_sym(v, name, default)
        if isinstance(v, Obj):
            return self.getattr_obj(v, v.cls, name, default)
        if isinstance(v, SuperV):
            return self.getattr_super(v, name)
        if isinstance(v, (Seq, SetV, DictV, Str, View, DictOf)) or isinstance(v, str) and not isinstance(v, enum.Enum):
            return self.b.method(self, v, name)
        if isinstance(v, ExcV):
            if name == "args":
                return Seq("tuple", [E(a) for a in v.args])
            raise Unsupported(f"attribute {name} of exception")
        if isinstance(v, Closure) or isinstance(v, (Native, Bound)):
            raise Unsupported(f"attribute {name} of function")
        if isinstance(v, Match):
            if v.method != "fullmatch" or name not in ("group", "string"):
                raise Unsupported(f"attribute {name} of a match")
            return v.text if name == "string" else Native(lambda it, a, k: it.b.group(it, v, a), "group")
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, enum.Enum):
            cls = type(v)
            a = inspect.getattr_static(cls, name, MISSING)
            if isinstance(a, pytypes.FunctionType):
                return Bound(a, v)
            if isinstance(a, (classmethod,)):
                return Bound(a.__func__, cls)
            return getattr(v, name)
        if isinstance(v, type):
            try:
                a = inspect.getattr_static(v, name)
            except AttributeError:
                a = MISSING
            if a is MISSING:
                if default is not MISSING:
                    return default
                raise PyRaise(AttributeError)
            if isinstance(a, classmethod):
                return Bound(a.__func__, v)
            if isinstance(a, staticmethod):
                return a.__func__
            return getattr(v, name)
        if is_host(v):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                raise Unsupported(f"attribute {name} of number")
            if isinstance(v, re.Pattern) and name in ("fullmatch", "match", "search"):
                return Native(lambda it, a, k: it.b.regex(it, v, name, a), "re")
            if isinstance(v, pytypes.ModuleType):
                st = self.ctx.known.get(("modattr", v.__name__, name), MISSING)
                if st is self.b.DELETED:
                    if default is not MISSING:
                        return default
                    raise PyRaise(AttributeError)
                if st is not MISSING:
                    return st
            try:
                r = getattr(v, name)
            except AttributeError:
                if default is not MISSING:
                    return default
                raise PyRaise(AttributeError)
            if isinstance(r, (dict, list, set, tuple, frozenset)):
                return self.lift(r)
            return r
        if is_z3b(v) or is_z3i(v):
            raise Unsupported(f"attribute {name} of number")
        if isinstance(v, pathlib.PurePath) and name in ("read_text", "parent", "name", "exists"):
            r = getattr(v, name)
            return Native(lambda it, a, k: r(*a, **k), name) if callable(r) else r
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def lift(self, v):
        """Turn a host container into a symbolic one."""
        if isinstance(v, (list, tuple)):
            return Seq("list" if isinstance(v, list) else "tuple", [E(self.lift(x)) for x in v], True)
        if isinstance(v, (set, frozenset)):
            return SetV("set" if isinstance(v, set) else "frozenset", ("enum", [self.lift(x) for x in sorted(v, key=str)]), True)
        if isinstance(v, dict):
            return DictV([("kv", self.lift(k), self.lift(x)) for k, x in v.items()], True)
        if isinstance(v, re.Match):
            return True
        return v

    def _bind_attr(self, a, v, cls, name):
        """Bind a class attribute to an instance."""
        if isinstance(a, property):
            return self.call_function(a.fget, [v], {})
        if isinstance(a, classmethod):
            return Bound(a.__func__, cls)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, pytypes.FunctionType):
            return Bound(a, v)
        if isinstance(a, functools.singledispatchmethod):
            return Native(lambda it, args, kw: it.b.singledispatchmethod(it, a, v, args, kw), name)
        if isinstance(a, pytypes.WrapperDescriptorType) or isinstance(a, pytypes.MethodDescriptorType):
            return Native(lambda it, args, kw: it.b.slot(it, a, v, args, kw), name)
        return self.lift(a)

    def getattr_obj(self, v, cls, name, default=MISSING):
        a = inspect.getattr_static(cls, name, MISSING)
        h = self.w.methods.get((cls, name))
        if h is not None:
            return Native(lambda it, args, kw: h(it, v, a, args, kw), name)
        if isinstance(a, property):
            return self._bind_attr(a, v, cls, name)
        if name in v.fields:
            x = v.fields[name]
            if x is not self.b.DELETED:
                return x
        if name == "__dict__":
            return DictOf(v)
        if name == "__class__":
            return cls
        if a is MISSING:
            if default is not MISSING:
                return default
            raise PyRaise(AttributeError, (name,))
        return self._bind_attr(a, v, cls, name)

    def getattr_super(self, v, name):
        mro = (v.self if isinstance(v.self, type) else self.pyclass_of_self(v.self)).__mro__ \
            if not (isinstance(v.self, type) and issubclass(v.self, type) is False and v.cls not in v.self.__mro__) \
            else type(v.self).__mro__
        i = mro.index(v.cls)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, pytypes.FunctionType):
                    return Bound(a, v.self)
                if isinstance(a, property):
                    return self.call_function(a.fget, [v.self], {})
                if isinstance(a, classmethod):
                    return Bound(a.__func__, v.self if isinstance(v.self, type) else c)
                if isinstance(a, staticmethod):
                    a2 = a.__func__
                    return Native(lambda it, args, kw: it.b.slot(it, a2, None, args, kw), name)
                slf = v.self
                return Native(lambda it, args, kw: it.b.slot(it, a, slf, args, kw), name)
        raise PyRaise(AttributeError, (name,))

    def pyclass_of_self(self, v):
        if isinstance(v, Sym):
            if v.ty.kind == "enum":
                return v.ty.a[0]
            return self.exact(v)
        return self.pyclass(v)

    def getattr_sym(self, v, name, default):
        k = v.ty.kind
        if k == "str":
            return self.b.method(self, v, name)
        if k == "num":
            if not hasattr(0, name) and not hasattr(0.0, name):
                if default is MISSING:
                    raise PyRaise(AttributeError, (name,))
                return default
            raise Unsupported(f"attribute {name} of number")
        if k == "enum":
            cls = v.ty.a[0]
            if name in ("value", "name"):
                vals = {getattr(m, name) for m in cls}
                r = F(f"enum.{cls.__name__}.{name}", V, V)(v.t)
                if all(isinstance(x, str) for x in vals):
                    for m in cls:
                        l = self.lit(m)
                        lv = self.lit(getattr(m, name))
                        self.ctx.once(("enumattr", l.get_id(), name), F(f"enum.{cls.__name__}.{name}", V, V)(l) == lv)
                    sy = self.mk(r, TStr)
                    return sy
                raise Unsupported("enum value")
            a = inspect.getattr_static(cls, name, MISSING)
            if a is MISSING:
                if default is MISSING:
                    raise PyRaise(AttributeError, (name,))
                return default
            return self._bind_attr(a, v, cls, name)
        if k != "cls":
            raise Unsupported(f"attribute {name} of {v}")
        if name == "__class__":
            return self.exact(v)
        # virtual contracts
        for classes, handler in self.w.virtual.get(name, ()):
            cs = self.classes_of(v)
            if cs <= classes and handler is not None and (v.t.get_id(), name) not in self.active:
                return handler(self, v)
        cs = self.classes_of(v)
        groups = {}
        for c in sorted(cs, key=clskey):
            a = inspect.getattr_static(c, name, MISSING)
            try:
                hash(a)
            except TypeError:
                a = (id(a), a)
            groups.setdefault(a, set()).add(c)
        while len(groups) > 1:
            a, g = next(iter(groups.items()))
            if self.narrow(v, g):
                groups = {a: g}
            else:
                del groups[a]
        a, g = next(iter(groups.items()))
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], int):
            a = a[1]
        cls = sorted(g, key=clskey)[0]
        if isinstance(a, property):
            return self._bind_attr(a, v, cls, name)
        if isinstance(a, pytypes.FunctionType) or isinstance(a, functools.singledispatchmethod):
            return self._bind_attr(a, v, cls, name)
        ov = self.ctx.known.get(("ofield", v.t.get_id(), name), MISSING)
        if ov is not MISSING:
            if ov is self.b.DELETED:
                if default is not MISSING:
                    return default
                raise PyRaise(AttributeError, (name,))
            return ov
        if a is not MISSING and not isinstance(a, pytypes.MemberDescriptorType):
            if isinstance(a, (pytypes.WrapperDescriptorType, pytypes.MethodDescriptorType)):
                return self._bind_attr(a, v, cls, name)
            return self._bind_attr(a, v, self.exact(v), name) if isinstance(a, classmethod) else self.lift(a)
        of = self.w.__dict__.get("optional_fields", {}).get(name)
        if of is not None:
            return of(self, v, default)
        fl = self.fields_of(v)
        if name in fl:
            return fl[name]
        if default is not MISSING:
            return default
        if name == "__dict__":
            raise Unsupported("__dict__")
        raise PyRaise(AttributeError, (name,))

    def setattr_(self, v, name, val):
        if isinstance(v, Obj):
            a = inspect.getattr_static(v.cls, name, MISSING)
            if isinstance(a, property):
                if a.fset is None:
                    raise PyRaise(AttributeError)
                self.call_function(a.fset, [v, val], {})
                return
            if name == "__dict__":
                self.b.set_fields(self, v, val)
                return
            if v.input:
                self.ctx.lappend(self.ctx.writes, (v, name))
            self.ctx.dset(v.fields, name, val)
            return
        if isinstance(v, Sym):
            self.ctx.lappend(self.ctx.writes, (v, name))
            self.ctx.dset(self.ctx.known, ("ofield", v.t.get_id(), name), val)
            return
        if isinstance(v, pytypes.ModuleType):
            self.ctx.lappend(self.ctx.writes, (v, name))
            self.ctx.dset(self.ctx.known, ("modattr", v.__name__, name), val)
            return
        raise Unsupported(f"assignment to attribute {name} of {type(v).__name__}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, self.b.Uni):
            f = f.force(self)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, pytypes.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, [self.lift(a) for a in f.args] + list(args), {**f.keywords, **kwargs})
        h = self.b.lookup(f)
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if isinstance(f, pytypes.FunctionType):
            return self.call_function(f, args, kwargs)
        if isinstance(f, (Sym, Obj)):
            m = self.getattr_(f, "__call__")
            return self.call(m, args, kwargs)
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        raise Unsupported(f"call of {f!r}")

    def construct(self, cls, args, kwargs):
        h = self.w.class_contracts.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        if is_exc(cls):
            return ExcV(cls, [a for a in args])
        if issubclass(cls, enum.Enum):
            return self.b.enum_lookup(self, cls, args)
        mcall = inspect.getattr_static(type(cls), "__call__")
        if isinstance(mcall, pytypes.FunctionType):
            return self.call_function(mcall, [cls] + list(args), kwargs)
        return self.type_call(cls, args, kwargs)

    def type_call(self, cls, args, kwargs):
        """type.__call__."""
        if cls.__module__ == "builtins":
            raise Unsupported(f"constructor of {cls.__name__}")
        new = inspect.getattr_static(cls, "__new__")
        o = Obj(cls)
        if issubclass(cls, str):
            if isinstance(new, staticmethod) and isinstance(new.__func__, pytypes.FunctionType):
                o = self.call_function(new.__func__, [cls] + list(args), kwargs)
            elif len(args) == 1 and not kwargs:
                o.fields["$str"] = args[0]
            else:
                raise Unsupported("string subclass")
            if not isinstance(o, Obj):
                if not self.b.is_strv(o):
                    raise Unsupported("string subclass")
                if not issubclass(self.b.bi_type(self, [o], {}), cls):
                    return o
                x, o = o, Obj(cls)
                o.fields["$str"] = x
        elif isinstance(new, staticmethod) and new.__func__ is not object.__new__ and isinstance(new.__func__, pytypes.FunctionType):
            if new.__func__.__module__ not in ("typing",):
                raise Unsupported(f"__new__ of {cls.__name__}")
        init = inspect.getattr_static(cls, "__init__")
        if isinstance(init, pytypes.FunctionType):
            self.call_function(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise PyRaise(TypeError)
        if "$str" in o.fields:
            x = o.fields["$str"]
            if isinstance(x, Sym) and cls is self.w.name_class:
                return Sym(x.t, TName)
            return x
        return o

    def call_function(self, fn, args, kwargs):
        h = self.w.fn_contracts.get(fn.__code__)
        if h is None and (self.ctx.assume_ok or self.ctx.inside):
            h = self.w.inside.get(fn.__code__)
        if h is not None and fn.__code__ not in self.active:
            return h(self, self.expand(args), kwargs)
        if not is_repo(fn) and not self.b.may_inline(fn):
            raise Unsupported(f"external function {fn.__module__}.{fn.__qualname__}")
        node = fn_ast(fn)
        if self.executed is not None and is_repo(fn):
            self.executed.add(f"{fn.__module__}.{fn.__qualname__}")
        cells = {}
        if fn.__closure__:
            for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[nm] = c.cell_contents
                except ValueError:
                    pass
        fr = Frame(fn.__globals__, None, cells, cells.get("__class__"), fn.__code__.co_qualname)
        self.bind(node.args, fr, args, kwargs, fn.__defaults__, fn.__kwdefaults__, fn.__qualname__)
        return self.run_body(node, fr)

    def call_closure(self, f, args, kwargs):
        if isinstance(f.node, ast.Lambda):
            a = f.node.args
        else:
            a = f.node.args
        fr = Frame(f.frame.glob, f.frame, f.frame.cells, f.frame.cls, f.name)
        defaults = [self.eval(d, f.frame) for d in a.defaults]
        kwd = {k.arg: self.eval(d, f.frame) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        self.bind(a, fr, args, kwargs, defaults, kwd, f.name)
        return self.run_body(f.node, fr)

    def run_body(self, node, fr):
        self.depth += 1
        if self.depth > self.w.inline_depth:
            self.depth -= 1
            raise Unsupported("inlining too deep (recursion without contract)")
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_fn(node)):
                return Lazy(lambda it2, emit: it2.run_gen(node, fr, emit))
            try:
                self.exec_block(node.body, fr)
            except Return_ as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def run_gen(self, node, fr, emit):
        """Run the body of a generator function."""
        if fr.emit is not None:
            raise Unsupported("generator iterated twice")
        fr.emit = emit
        try:
            self.exec_block(node.body, fr)
        except Return_:
            pass
        finally:
            fr.emit = None

    def expand(self, args):
        """Expand ('*', seq) arguments whose elements are known; keep the others."""
        out = []
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == "*":
                if all(isinstance(s, E) for s in a[1].segs):
                    out.extend(s.v for s in a[1].segs)
                else:
                    out.append(a)
            else:
                out.append(a)
        return out

    def bind(self, a, fr, args, kwargs, defaults, kwdefaults, fname):
        args = self.expand(args)
        kwargs = dict(kwargs)
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = list(defaults or ())
        star = [i for i, x in enumerate(args) if isinstance(x, tuple) and len(x) == 2 and x[0] == "*"]
        if star:
            if star[0] < len(names):
                # opaque star argument spread over positional parameters: the length must be decided
                i = star[0]
                need = len(names) - i
                sq = args[i][1]
                n = self.seq_len(sq)
                if len(args) > i + 1:
                    raise Unsupported("opaque star argument in the middle")
                if not self.ctx.branch(n == need) and not a.vararg:
                    raise PyRaise(TypeError)
                elif self.ctx.proves(n == need):
                    args = args[:i] + [self.seq_at(sq, z3.IntVal(j)) for j in range(need)]
                else:
                    raise Unsupported("opaque star argument")
        pos = args[: len(names)]
        rest = args[len(names):]
        if rest and not a.vararg:
            raise PyRaise(TypeError)
        for nm, v in zip(names, pos):
            if nm in kwargs:
                raise PyRaise(TypeError)
            fr.vars[nm] = v
        missing = names[len(pos):]
        nd = len(defaults)
        for i, nm in enumerate(missing):
            j = len(names) - len(missing) + i
            if nm in kwargs:
                fr.vars[nm] = kwargs.pop(nm)
            elif j >= len(names) - nd:
                fr.vars[nm] = self.lift(defaults[j - (len(names) - nd)])
            else:
                raise PyRaise(TypeError, (f"missing argument {nm} of {fname}",))
        if a.vararg:
            segs = []
            for x in rest:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "*":
                    segs.extend(x[1].segs)
                else:
                    segs.append(E(x))
            fr.vars[a.vararg.arg] = Seq("tuple", self.norm_segs(segs))
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                fr.vars[k.arg] = kwargs.pop(k.arg)
            elif kwdefaults and k.arg in kwdefaults:
                fr.vars[k.arg] = self.lift(kwdefaults[k.arg])
            else:
                raise PyRaise(TypeError)
        if a.kwarg:
            fr.vars[a.kwarg.arg] = DictV([("kv", k, v) for k, v in kwargs.items()])
        elif kwargs:
            raise PyRaise(TypeError, (f"unexpected keyword {list(kwargs)} of {fname}",))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Return(self, s, fr):
        raise Return_(self.eval(s.value, fr) if s.value else None)

    def x_Break(self, s, fr):
        raise Break_()

    def x_Continue(self, s, fr):
        raise Continue_()

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise(AssertionError)

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = self.ctx.known.get("handling")
            if e is None:
                raise Unsupported("bare raise")
            raise e
        v = self.eval(s.exc, fr)
        if isinstance(v, ExcV):
            raise PyRaise(v.cls, v.args)
        if is_exc(v):
            raise PyRaise(v)
        if isinstance(v, PyRaise):
            raise v
        raise Unsupported("raise of non exception")

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        cur = self.eval(ast.copy_location(_load(t), t), fr)
        v = self.eval(s.value, fr)
        r = self.b.augassign(self, s.op, cur, v)
        if r is cur and isinstance(t, ast.Name):
            return
        self.assign(t, r, fr)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                d = self.eval(t.value, fr)
                self.b.delitem(self, d, self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                self.b.delattr_(self, o, t.attr)
            elif isinstance(t, ast.Name):
                self.ctx.dset(fr.vars, t.id, Poison("deleted variable"))
            else:
                raise Unsupported("del")

    def x_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        self.ctx.dset(fr.vars, s.name, Closure(s, fr, s.name))

    def x_Import(self, s, fr):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            self.ctx.dset(fr.vars, a.asname or a.name.split(".")[0], m)

    def x_ImportFrom(self, s, fr):
        import importlib

        m = importlib.import_module("." * s.level + (s.module or ""), fr.glob.get("__package__"))
        for a in s.names:
            self.ctx.dset(fr.vars, a.asname or a.name, getattr(m, a.name))

    def x_Global(self, s, fr):
        raise Unsupported("global")

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ty = self.eval(h.type, fr)
                        match = self.exc_matches(e, ty)
                    if match:
                        if h.name:
                            self.ctx.dset(fr.vars, h.name, ExcV(e.cls, e.pyargs) if e.cls else e)
                        old = self.ctx.known.get("handling")
                        self.ctx.dset(self.ctx.known, "handling", e)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.ctx.dset(self.ctx.known, "handling", old)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyRaise, Return_, Break_, Continue_):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)

    def exc_matches(self, e, ty):
        tys = [x.v for x in ty.segs] if isinstance(ty, Seq) else [ty]
        if e.cls is None:
            for t in tys:
                if t in (Exception, BaseException):
                    return True
            for t in tys:
                if self.ctx.branch(F(f"exc_is_{t.__name__}", V, B)(e.opaque)):
                    return True
            return False
        return any(issubclass(e.cls, t) for t in tys)

    def x_With(self, s, fr):
        raise Unsupported("with")

    def x_For(self, s, fr):
        from pyvc import loops

        loops.exec_for(self, s, fr)

    def x_While(self, s, fr):
        from pyvc import loops

        loops.exec_while(self, s, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.ctx.dset(fr.vars, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.b.setitem(self, o, self.eval(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def mangle(self, attr, fr):
        if attr.startswith("__") and not attr.endswith("__") and fr.cls is not None:
            return f"_{fr.cls.__name__.lstrip('_')}{attr}"
        if attr.startswith("__") and not attr.endswith("__") and "." in fr.fnname:
            q = fr.fnname.split(".")
            if q[-2] != "<locals>":
                return f"_{q[-2].lstrip('_')}{attr}"
        return attr

    def unpack(self, v, elts):
        sq = self.b.to_seq(self, v)
        if any(isinstance(e, ast.Starred) for e in elts):
            i = next(i for i, e in enumerate(elts) if isinstance(e, ast.Starred))
            after = len(elts) - i - 1
            if all(isinstance(s, E) for s in sq.segs):
                xs = [s.v for s in sq.segs]
                if len(xs) < len(elts) - 1:
                    raise PyRaise(ValueError)
                return xs[:i] + [Seq("list", [E(x) for x in xs[i:len(xs) - after]])] + xs[len(xs) - after:]
            raise Unsupported("starred unpacking")
        if all(isinstance(s, E) for s in sq.segs):
            if len(sq.segs) != len(elts):
                raise PyRaise(ValueError)
            return [s.v for s in sq.segs]
        n = self.seq_len(sq)
        if not self.ctx.branch(n == len(elts)):
            raise PyRaise(ValueError)
        return [self.seq_at(sq, z3.IntVal(i)) for i in range(len(elts))]

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"{v.why}: {name}")
                return v
            f = f.parent
        f = fr
        if name in f.cells:
            return self.lift(f.cells[name])
        if name in f.glob:
            return self.lift(f.glob[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    def e_Attribute(self, e, fr):
        return self.getattr_(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def e_Tuple(self, e, fr):
        return Seq("tuple", self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return Seq("list", self.elts(e.elts, fr))

    def elts(self, es, fr):
        segs = []
        for x in es:
            if isinstance(x, ast.Starred):
                segs.extend(self.b.to_seq(self, self.eval(x.value, fr)).segs)
            else:
                segs.append(E(self.eval(x, fr)))
        return self.norm_segs(segs)

    def e_Set(self, e, fr):
        segs = self.elts(e.elts, fr)
        if all(isinstance(s, E) for s in segs):
            return SetV("set", ("enum", [s.v for s in segs]))
        return self.b.mkset("set", segs)

    def e_Dict(self, e, fr):
        ent = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, fr)
                ent.extend(d.entries)
            else:
                ent.append(("kv", self.eval(k, fr), self.eval(v, fr)))
        return DictV(ent)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v if not is_z3b(v) else t
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truthz(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)) or is_z3i(v):
                return -v
        if isinstance(e.op, ast.Invert) and isinstance(v, (Sym, Obj)):
            return self.call(self.getattr_(v, "__invert__"), [], {})
        raise Unsupported("unary operator")

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.b.compare(self, op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            res = c
            left = right
        return res

    def e_BinOp(self, e, fr):
        return self.b.binop(self, e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def e_Lambda(self, e, fr):
        return Closure(e, fr, "<lambda>")

    def e_JoinedStr(self, e, fr):
        if not self.havoc:
            return self.joined(e, fr)
        try:
            return self.joined(e, fr)
        except Unsupported:
            # a text made of an arbitrary accumulator: the second pass makes it of the real one
            self.havoc[-1] = True
            return self.mk(self.ctx.fresh("hav", V), TStr)

    def joined(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, fr)
                if x.conversion == 114:
                    parts.append(self.b.repr_(self, v))
                else:
                    if x.format_spec is not None:
                        raise Unsupported("format spec")
                    parts.append(self.b.str_(self, v))
        return self.norm_str(Str(parts))

    def e_FormattedValue(self, e, fr):
        return self.b.str_(self, self.eval(e.value, fr))

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, fr)  # noqa
            return self.b.slice_(self, o, g(e.slice.lower), g(e.slice.upper), g(e.slice.step))
        return self.b.getitem(self, o, self.eval(e.slice, fr))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = None
            f = fr
            while f is not None and cls is None:
                cls = f.cls
                f = f.parent
            f = fr
            while f.parent is not None:
                f = f.parent
            first = next(iter(f.vars.values()))
            return SuperV(cls, first)
        fn = self.eval(e.func, fr)
        if fn is cast_fn:
            return self.eval(e.args[1], fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sq = self.b.to_seq(self, self.eval(a.value, fr))
                if all(isinstance(x, E) for x in sq.segs):
                    args.extend(x.v for x in sq.segs)
                else:
                    args.append(("*", sq))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, DictV) or any(x[0] != "kv" or not isinstance(x[1], str) for x in d.entries):
                    raise Unsupported("opaque ** argument")
                for x in d.entries:
                    kwargs[x[1]] = x[2]
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if fn is super and len(args) == 2:
            return SuperV(args[0], args[1])
        return self.call(fn, args, kwargs)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        self.ctx.dset(f.vars, e.target.id, v)
        return v

    def e_ListComp(self, e, fr):
        from pyvc import loops

        r = self.b.filtered_lines(self, e, fr)
        return Seq("list", loops.comprehension(self, e, fr).segs) if r is None else r

    def e_GeneratorExp(self, e, fr):
        from pyvc import loops

        r = self.b.filtered_lines(self, e, fr)
        return loops.lazy_comp(self, e, fr) if r is None else r

    def e_Yield(self, e, fr):
        if fr.emit is None:
            raise Unsupported("yield")
        fr.emit(self.eval(e.value, fr) if e.value else None)
        return None

    def e_YieldFrom(self, e, fr):
        from pyvc import loops

        if fr.emit is None:
            raise Unsupported("yield")
        loops.iterate(self, self.eval(e.value, fr), fr.emit)
        return None

    def e_SetComp(self, e, fr):
        from pyvc import loops

        return self.b.mkset("set", loops.comprehension(self, e, fr).segs)

    def e_DictComp(self, e, fr):
        from pyvc import loops

        sq = loops.comprehension(self, e, fr)
        return self.b.dict_of_pairs(self, sq)

    # ------------------------------------------------------------ truth
    def truthz(self, v):
        """Truth value as a bool or a z3 Bool."""
        if isinstance(v, self.b.Uni):
            v = v.force(self)
        if isinstance(v, bool) or is_z3b(v):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str)) and not isinstance(v, enum.Enum):
            return bool(v)
        if is_z3i(v):
            return v != 0
        if isinstance(v, Seq):
            return self.len_gt0(self.seq_len(v))
        if isinstance(v, SetV):
            return self.b.set_nonempty(self, v)
        if isinstance(v, DictV):
            return self.b.dict_nonempty(self, v)
        if isinstance(v, Str):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return F("str_nonempty", V, B)(self.to_v(v))
        if isinstance(v, Sym):
            if v.ty.kind == "str":
                if v.ty.a:
                    return True
                return F("str_nonempty", V, B)(v.t)
            if v.ty.kind == "num":
                return z3.Not(rank(v.t) == 0)
            if v.ty.kind == "enum":
                return True
            if v.ty.kind == "cls":
                return self.truth_of_object(v)
            raise Unsupported("truth of opaque")
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Obj):
            return self.truth_of_object(v)
        return True

    def truth_of_object(self, v):
        """True, if its class says nothing about it."""
        for c in self.classes_of(v):
            for n in ("__bool__", "__len__"):
                if isinstance(c, type) and hasattr(c, n):
                    r = self.call(self.getattr_(v, n), [], {})
                    return self.truthz(r)
        return True

    def len_gt0(self, n):
        if isinstance(n, int):
            return n > 0
        s = z3.simplify(n > 0)
        return True if z3.is_true(s) else False if z3.is_false(s) else s

    def truth(self, v):
        return self.ctx.branch(self.truthz(v))

    # ------------------------------------------------------------ sequences
    def seg_len(self, s):
        if isinstance(s, E):
            return z3.IntVal(1)
        if isinstance(s, S):
            self.ctx.once(("ty", s.t.get_id(), "seq"), slen(s.t) >= 0)
            return slen(s.t)
        if isinstance(s, C):
            if self.is_map(s):
                return s.n
            # length of a filtered comprehension: opaque
            return slen(self.reify_c(s))
        raise Unsupported("segment length")

    def reify_c(self, s):
        return self.reify(Seq("tuple", [s]))

    def is_map(self, s):
        """Exactly one element per index?"""
        return all(len(c[1]) == 1 and isinstance(c[1][0], E) for c in s.cases) and (
            len(s.cases) == 1 or getattr(s, "total", True)
        ) and self.cases_total(s)

    def cases_total(self, s):
        if len(s.cases) == 1 and (s.cases[0][0] is True or z3.is_true(z3.simplify(s.cases[0][0]))):
            return True
        m = self.ctx.push()
        try:
            self.ctx.assume(z3.And(s.ix >= 0, s.ix < s.n))
            self.ctx.add_index(s.n, s.ix, 0)
            return self.ctx.proves(z3.Or(*[c[0] if not isinstance(c[0], bool) else z3.BoolVal(c[0]) for c in s.cases]))
        except Infeasible:
            return True
        finally:
            self.ctx.pop(m)

    def seq_len(self, sq):
        n = z3.IntVal(0)
        for s in sq.segs:
            n = n + self.seg_len(s)
        return z3.simplify(n)

    def seq_at(self, sq, i):
        """Element at index i (assumed in range, z3 Int)."""
        off = z3.IntVal(0)
        for j, s in enumerate(sq.segs):
            n = self.seg_len(s)
            last = j == len(sq.segs) - 1
            if last or self.ctx.branch(i < off + n):
                return self.seg_at(s, z3.simplify(i - off))
            off = z3.simplify(off + n)
        raise PyRaise(IndexError)

    def seg_at(self, s, i):
        if isinstance(s, E):
            return s.v
        if isinstance(s, S):
            return self.mk(sat(s.t, i), s.ety)
        if isinstance(s, C):
            if not self.is_map(s):
                raise Unsupported("element of a filtered sequence")
            if len(s.cases) == 1:
                return self.subst(s.cases[0][1][0].v, s.ix, i)
            conds = [self.subst(z3b(c[0]), s.ix, i) for c in s.cases]
            k = self.ctx.choose(conds)
            return self.subst(s.cases[k][1][0].v, s.ix, i)
        raise Unsupported("segment")

    def norm_segs(self, segs):
        out = []
        for s in segs:
            if isinstance(s, C):
                if z3.is_int_value(z3.simplify(s.n)) and z3.simplify(s.n).as_long() <= 0:
                    continue
                cases = [c for c in s.cases if not (c[0] is False) and not (z3.is_false(z3.simplify(z3b(c[0]))))]
                cases = [c for c in cases]
                if all(len(c[1]) == 0 for c in cases):
                    continue
                if len(cases) == 1 and len(cases[0][1]) == 1 and z3.is_true(z3.simplify(z3b(cases[0][0]))):
                    el = cases[0][1][0]
                    if isinstance(el, E) and isinstance(el.v, (Sym, Seq, SetV, DictV)):
                        t = None
                        if isinstance(el.v, Sym):
                            t, ety = el.v.t, el.v.ty
                        elif isinstance(el.v, Seq) and len(el.v.segs) == 1 and isinstance(el.v.segs[0], S):
                            t, ety = el.v.segs[0].t, TSeq(el.v.segs[0].ety, el.v.kind)
                        elif isinstance(el.v, SetV) and el.v.expr[0] == "sym":
                            t, ety = el.v.expr[1], TSet(el.v.expr[2], el.v.kind)
                        if t is not None and z3.is_app(t) and t.decl().eq(sat) and t.arg(1).eq(s.ix) and \
                                z3.simplify(s.n).eq(z3.simplify(slen(t.arg(0)))) and not occurs(s.ix, t.arg(0)):
                            out.append(S(t.arg(0), ety))
                            continue
                        tt = None
                        if isinstance(el.v, Seq) and el.v.segs and all(isinstance(q, E) and isinstance(q.v, Sym) for q in el.v.segs):
                            base = None
                            ok = True
                            for j, q in enumerate(el.v.segs):
                                u = q.v.t
                                if z3.is_app(u) and u.decl().name() == f"proj{j}" and u.num_args() == 1:
                                    b0 = u.arg(0)
                                    if base is None:
                                        base = b0
                                    ok = ok and base.eq(b0)
                                else:
                                    ok = False
                            if ok and base is not None and z3.is_app(base) and base.decl().eq(sat) and base.arg(1).eq(s.ix) and z3.simplify(s.n).eq(z3.simplify(slen(base.arg(0)))) and not occurs(s.ix, base.arg(0)):
                                out.append(S(base.arg(0), TTup(*[q.v.ty for q in el.v.segs])))
                                continue
                s = C(s.n, s.ix, cases)
            out.append(s)
        return out

    # ------------------------------------------------------------ strings
    def norm_str(self, s):
        if not isinstance(s, Str):
            return s
        out = []
        for p in s.parts:
            if isinstance(p, Str):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str) and not isinstance(q, enum.Enum):
                    if q == "":
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] = out[-1] + str(q)
                        continue
                    q = str(q)
                elif isinstance(q, Rep):
                    n = z3.simplify(q.n)
                    if z3.is_int_value(n) and n.as_long() <= 0:
                        continue
                elif not isinstance(q, Sym):
                    raise Unsupported(f"string part {type(q).__name__}")
                out.append(q)
        if not out:
            return ""
        if len(out) == 1 and not isinstance(out[0], Rep):
            return out[0]
        return Str(out)

    # ------------------------------------------------------------ substitution
    def subst(self, v, ix, t):
        """Replace the index constant ix by the Int term t in a value."""
        if isinstance(v, z3.ExprRef):
            return z3.substitute(v, (ix, t if isinstance(t, z3.ExprRef) else z3.IntVal(t)))
        if isinstance(v, Sym):
            nt = z3.substitute(v.t, (ix, t))
            if nt.eq(v.t):
                return v
            return self.mk(nt, v.ty)
        if isinstance(v, self.b.Uni):
            return self.mk_lazy(z3.substitute(v.t, (ix, t)), v.ty)
        if isinstance(v, Seq):
            return Seq(v.kind, self.norm_segs([self.subst_seg(s, ix, t) for s in v.segs]))
        if isinstance(v, SetV):
            return SetV(v.kind, self.subst_set(v.expr, ix, t))
        if isinstance(v, DictV):
            ent = []
            for x in v.entries:
                if x[0] == "kv":
                    ent.append(("kv", self.subst(x[1], ix, t), self.subst(x[2], ix, t)))
                elif x[0] == "sym":
                    ent.append(("sym", z3.substitute(x[1], (ix, t)), x[2], x[3]))
                elif x[0] in ("comp", "fcomp"):
                    ent.append((x[0], z3.substitute(x[1], (ix, t)), x[2], [
                        (self.subst(z3b(c), ix, t), self.subst(k, ix, t), self.subst(y, ix, t)) for c, k, y in x[3]]))
                else:
                    raise Unsupported("dict entry")
            return DictV(ent)
        if isinstance(v, Str):
            return self.norm_str(Str([self.subst_part(p, ix, t) for p in v.parts]))
        if isinstance(v, Obj):
            o = Obj(v.cls, {k: self.subst(x, ix, t) for k, x in v.fields.items()}, v.input, v.name)
            return o
        if isinstance(v, Bound):
            return Bound(v.fn, self.subst(v.self, ix, t))
        return v

    def subst_part(self, p, ix, t):
        if isinstance(p, Rep):
            return Rep(z3.substitute(p.n, (ix, t)), p.ix, [
                (self.subst(z3b(c), ix, t), tuple(self.subst_part(q, ix, t) for q in ps)) for c, ps in p.cases])
        return self.subst(p, ix, t)

    def subst_seg(self, s, ix, t):
        if isinstance(s, E):
            return E(self.subst(s.v, ix, t))
        if isinstance(s, S):
            return S(z3.substitute(s.t, (ix, t)), s.ety)
        if isinstance(s, C):
            return C(z3.substitute(s.n, (ix, t)), s.ix, [
                (self.subst(z3b(c), ix, t), tuple(self.subst_seg(q, ix, t) for q in ss)) for c, ss in s.cases])
        raise Unsupported("segment")

    def subst_set(self, e, ix, t):
        if e[0] == "sym":
            return ("sym", z3.substitute(e[1], (ix, t)), e[2])
        if e[0] == "enum":
            return ("enum", [self.subst(x, ix, t) for x in e[1]])
        if e[0] == "seq":
            return ("seq", tuple(self.subst_seg(s, ix, t) for s in e[1]))
        return (e[0],) + tuple(self.subst_set(x, ix, t) for x in e[1:])


def z3b(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


PARTS = (mget.name(), sat.name())


def part_of(t):
    """Is this collection an element of an opaque one, or a component of an opaque object?"""
    if not z3.is_app(t) or not t.num_args():
        return False
    n = t.decl().name()
    return "part" if n in PARTS or n.startswith("proj") or "." in n else False


def occurs(x, t):
    if t.eq(x):
        return True
    return any(occurs(x, c) for c in t.children())


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    return t2


def walk_fn(node):
    """Walk a function body without nested functions."""
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
                todo.append(c)


from typing import cast as cast_fn  # noqa: E402
