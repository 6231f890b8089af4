"""Obligations of a property."""
import inspect

import z3

from pyvc import builtins_ as b
from pyvc import verify
from pyvc import world as W
from pyvc.same import Same
from pyvc.values import *  # noqa


class Ob:
    """A named obligation: run() gives a verify.Result; fns: the functions of /repo it is about."""

    def __init__(self, name, fns, run, limit=60.0):
        self.limit = limit
        self.name = name
        self.fns = fns
        self.run = run


def qual(f):
    """module.Class.function of a real function, property or class."""
    if isinstance(f, str):
        return f
    if isinstance(f, property):
        f = f.fget
    g = inspect.unwrap(f) if not isinstance(f, type) else f
    f = g if hasattr(g, "__module__") else f
    f = getattr(f, "__func__", f)
    return f"{getattr(f, '__module__', None) or 'builtins'}.{getattr(f, '__qualname__', f)}"


def args_of(*specs):
    """Builder of symbolic arguments: ('name', Ty) opaque; ('name', Ty, True) a mutable input; or a function."""

    def make(it):
        out = []
        for s in specs:
            if callable(s):
                out.append(s(it))
                continue
            v = it.mk(z3.Const(s[0], V), s[1])
            if len(s) > 2 and isinstance(v, (Seq, SetV, DictV)):
                v.input = True
            out.append(v)
        return out

    return make


def call(fn):
    return lambda it, a: it.call_function(fn, a, {})


def owned(it, o, args):
    """The new object keeps none of the collections that the caller may change."""
    mine = [a for a in args if isinstance(a, (Seq, SetV)) and a.kind in ("list", "set") or isinstance(a, DictV)]
    todo, seen = [o], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if any(x is a for a in mine):
            Same(it).differ("a collection of the caller is kept")
        if isinstance(x, Obj):
            todo += list(x.fields.values())
    return o


def getter(cls, name):
    """The real property of a class."""
    return lambda it, a: it.getattr_(a[0], name)


def refine(name, world, make, real, spec, fns=None, **kw):
    """Obligation: the real function (or runner) refines the contract function."""
    if isinstance(real, property):
        real = real.fget
    r = call(real) if inspect.isfunction(real) and real.__code__.co_argcount != 2 or not inspect.isfunction(real) or "it" not in real.__code__.co_varnames[:1] else real
    s = spec if inspect.isfunction(spec) and spec.__code__.co_varnames[:1] == ("it",) else call(spec)
    f = [qual(x) for x in (fns or [real])]
    return Ob(name, f, lambda: verify.refine(name, world, make, r, s, **kw), kw.get('seconds', 60.0))


def accessor(key, ty):
    """Contract of a read-only property: an opaque component of the object (constructor contract: C20)."""

    def h(it, v):
        it.w.used.add(key)
        return it.mk_lazy(F(key, V, V)(v.t), ty)

    return h
