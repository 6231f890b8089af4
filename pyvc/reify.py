"""Structured values as terms: equal structures get the same term, a function of the generic indices in them."""
import enum

import z3

from pyvc.values import *  # noqa

REGISTRY = {}  # name of the function -> (params, value)
KEYS = {}  # structural key -> (name, n. of params)
SCHEMA_DEF = {}  # name of a named existential -> its defining formulas
_keep = {}
_ixv = {}


def keep(t):
    _keep[t.get_id()] = t
    return t


def ixvars(e):
    """Generic indices that occur in a z3 term (ordered)."""
    i = e.get_id()
    r = _ixv.get(i)
    if r is not None:
        return r[1]
    if z3.is_app(e) and e.num_args() == 0:
        v = (e,) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("ix!") else ()
    else:
        out = {}
        for c in e.children():
            for x in ixvars(c):
                out[x.get_id()] = x
        v = tuple(out.values())
    _ixv[i] = (keep(e), v)
    return v


class Keyer:
    """Computes a structural key."""

    def __init__(self):
        self.params = []  # free generic indices in order of occurrence
        self.ph = {}

    def z(self, e, env):
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        sub = []
        for x in ixvars(e):
            p = env.get(x.get_id())
            if p is None:
                p = self.ph.get(x.get_id())
                if p is None:
                    p = z3.Int(f"$P{len(self.params)}")
                    self.ph[x.get_id()] = p
                    self.params.append(x)
            sub.append((x, p))
        e2 = z3.simplify(z3.substitute(e, *sub) if sub else e)
        keep(e2)
        return ("z", e2.get_id())

    def bind(self, ix, env):
        e2 = dict(env)
        e2[ix.get_id()] = z3.Int(f"$B{len(env)}")
        keep(ix)
        return e2

    def k(self, x, env):
        if isinstance(x, z3.ExprRef):
            return self.z(x, env)
        if isinstance(x, Sym):
            return self.z(x.t, env)
        if x is None or isinstance(x, (bool, int, float)) and not isinstance(x, enum.Enum):
            return ("h", type(x).__name__, x)
        if isinstance(x, enum.Enum):
            return ("enum", type(x).__name__, x.name)
        if isinstance(x, str):
            return ("s", str(x))
        if isinstance(x, Seq):
            return (x.kind,) + tuple(self.k(s, env) for s in x.segs)
        if isinstance(x, E):
            return ("E", self.k(x.v, env))
        if isinstance(x, S):
            return ("S", self.z(x.t, env))
        if isinstance(x, (C, Rep)):
            n = self.z(x.n, env)
            e2 = self.bind(x.ix, env)
            return (type(x).__name__, n, tuple((self.z(c, e2), tuple(self.k(s, e2) for s in ss)) for c, ss in x.cases))
        if isinstance(x, SetV):
            return (x.kind, self.set(x.expr, env))
        if isinstance(x, DictV):
            return ("dict",) + tuple(self.entry(e, env) for e in x.entries)
        if isinstance(x, Str):
            return ("Str",) + tuple(self.k(p, env) for p in x.parts)
        if isinstance(x, Obj):
            return ("Obj", x.cls.__module__ + "." + x.cls.__qualname__) + tuple(
                (f, self.k(v, env)) for f, v in sorted(x.fields.items()) if not (f == "__hash" or isinstance(v, Poison)))
        if isinstance(x, (tuple, list)):
            return ("t",) + tuple(self.k(y, env) for y in x)
        if isinstance(x, type):
            return ("type", x.__module__, x.__qualname__)
        if type(x).__name__ == "Uni":
            return self.z(x.t, env)
        if type(x).__name__ == "ExcV":
            return ("exc", x.cls.__name__) + tuple(self.k(y, env) for y in x.args)
        if isinstance(x, Bound):
            return ("bound", id(x.fn), self.k(x.self, env))
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        if callable(x):
            return ("f", id(x))
        raise Unsupported(f"structure of {type(x).__name__}")

    def set(self, e, env):
        if e[0] == "sym":
            return ("sym", self.z(e[1], env))
        if e[0] == "enum":
            return ("enum",) + tuple(self.k(y, env) for y in e[1])
        if e[0] == "seq":
            return ("seq",) + tuple(self.k(y, env) for y in e[1])
        return (e[0],) + tuple(self.set(y, env) for y in e[1:])

    def entry(self, e, env):
        if e[0] == "kv":
            return ("kv", self.k(e[1], env), self.k(e[2], env))
        if e[0] == "sym":
            return ("sym", self.z(e[1], env))
        n = self.z(e[1], env)
        e2 = self.bind(e[2], env)
        return (e[0], n, tuple((self.z(c, e2), self.k(k, e2), self.k(v, e2)) for c, k, v in e[3]))


def key_of(x):
    kr = Keyer()
    return kr.k(x, {}), kr.params


def reify(it, v):
    """The term of a structured value."""
    key, params = key_of(v)
    ent = KEYS.get((key, len(params)))
    if ent is None:
        nm = f"re:{len(KEYS)}"
        KEYS[(key, len(params))] = nm
        REGISTRY[nm] = (tuple(params), it.freeze(v))
    else:
        nm = ent
    t = F(nm, *([I] * len(params) + [V]))(*params) if params else z3.Const(nm, V)
    keep(t)
    ctx = it.ctx
    if ("re", t.get_id()) in ctx.known:
        return t
    ctx.dset(ctx.known, ("re", t.get_id()), True)
    if isinstance(v, Seq):
        if all(not isinstance(s, C) or it.is_map(s) for s in v.segs):
            ctx.assume(slen(t) == it.seq_len(v))
        else:
            ctx.assume(slen(t) >= 0)
    elif isinstance(v, Str):
        ctx.assume(z3.And(clsof(t) == -1, canon(t) == t))
    elif isinstance(v, Obj):
        ctx.assume(clsof(t) == it.w.code(v.cls))
    # equal structures written differently
    if not ctx.nofork and not ctx.in_reify:
        kind = kind_of(v)
        ctx.in_reify += 1
        try:
            for (w, u, kd) in reversed(ctx.reified):
                if kd == kind and same_quiet(it, v, w):
                    ctx.assume(t == u)
                    break
        finally:
            ctx.in_reify -= 1
        ctx.lappend(ctx.reified, (it.freeze(v), t, kind))
    return t


def kind_of(v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, (Seq, SetV)):
        return v.kind
    return type(v).__name__


def same_quiet(it, a, b):
    from pyvc.same import Mismatch, Same

    ctx = it.ctx
    ctx.nofork += 1
    m = ctx.push()
    try:
        Same(it).same(a, b)
        return True
    except (Mismatch, Unsupported, PyRaise, NoFork, Infeasible):
        return False
    finally:
        ctx.pop(m)
        ctx.nofork -= 1


def value_of(it, t):
    """The structured value of a re: term, or None."""
    if not z3.is_app(t):
        return None
    d = REGISTRY.get(t.decl().name())
    if d is None:
        return None
    params, v = d
    for p, a in zip(params, t.children()):
        # simultaneous: rename first
        v = it.subst(v, p, z3.Int(f"$R{p.decl().name()}"))
    for p, a in zip(params, t.children()):
        v = it.subst(v, z3.Int(f"$R{p.decl().name()}"), a)
    return v


_mp = {}


def mentions_prefix(e, prefixes):
    key = (e.get_id(), prefixes)
    r = _mp.get(key)
    if r is not None:
        return r
    keep(e)
    v = False
    if z3.is_app(e):
        nm = e.decl().name()
        if nm.startswith(prefixes):
            v = True
        elif nm in REGISTRY:
            from pyvc.loops import mentions_fn

            v = mentions_fn(prefixes, REGISTRY[nm][1])
        elif nm.startswith("ex!") or nm.startswith("kex!"):
            v = any(mentions_prefix(f, prefixes) for f in SCHEMA_DEF.get(nm.lstrip("k"), ()))
    if not v:
        v = any(mentions_prefix(c, prefixes) for c in e.children())
    _mp[key] = v
    return v
