"""Models of builtins and methods of builtin types (trusted: the semantics of CPython they state)."""
import hashlib
import ast
import builtins
import copy
import enum
import functools
import inspect
import itertools
import re
import types as pytypes

import z3

from pyvc.interp import ExcV, Interp, is_exc, is_host, z3b
from pyvc.values import *  # noqa
from pyvc.values import NoFork  # noqa
from pyvc import loops, reify  # noqa


# ---------------------------------------------------------------- mutation
def mutate(it, v, attr, new):
    """Change a mutable value in place."""
    if v.input == "part":
        own(it, v)
    if v.input:
        it.ctx.lappend(it.ctx.writes, (v, attr))
    it.ctx.mut(v, attr, new)


def own(it, v):
    """A collection read from an opaque dict is about to change: the dict holds it from now on."""
    o = it.__dict__.get("parts", {}).get(id(v))
    if o is None or o[1].entries != o[3]:
        raise Unsupported("change of a collection inside an opaque one")
    it.ctx.mut(v, "input", False)
    setitem(it, o[1], o[2], v)


# ---------------------------------------------------------------- sequences
def to_seq(it, v):
    """The elements of an iterable, as a Seq (eager)."""
    if isinstance(v, DictOf):
        v = fields_dict(it, v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Lazy):
        out = Seq("list", [])
        v.fn(it, lambda x: it.ctx.mut(out, "segs", out.segs + (E(x),)))
        return Seq("list", it.norm_segs(out.segs))
    if isinstance(v, SetV):
        return set_order(it, v)
    if isinstance(v, DictV):
        return dict_keys(it, v)
    if isinstance(v, View):
        ks = dict_keys(it, v.d) if v.what != "values" else None
        if v.what == "keys":
            return ks
        return dict_items(it, v.d, v.what)
    if isinstance(v, str):
        return Seq("list", [E(c) for c in v])
    if isinstance(v, type) and issubclass(v, enum.Enum):
        return Seq("list", [E(m) for m in v])
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    if v is None or isinstance(v, (bool, int, float)) or is_z3b(v) or is_z3i(v):
        raise PyRaise(TypeError)
    if isinstance(v, Sym) and v.ty.kind == "cls" and not any(hasattr(c, "__iter__") for c in it.classes_of(v)):
        raise PyRaise(TypeError)
    raise Unsupported(f"iteration over {type(v).__name__} {v!r}")


def set_order(it, s):
    """An arbitrary but fixed enumeration of a set."""
    e = s.expr
    it.__dict__.setdefault("orders", []).append(SetV(s.kind, e))
    if e[0] == "sym":
        t = F("ord", V, V)(e[1])
        sq = Seq("list", [S(t, e[2])])
        it.ctx.once(("ord", t.get_id()), z3.And(slen(t) >= 0, slen(t) == F("card", V, I)(e[1])))
        enumerated(it, e[1], t, e[2])
        return sq
    if e[0] == "enum":
        if len(e[1]) <= 1:
            return Seq("list", [E(x) for x in e[1]])
    t0 = it.to_v(s)
    t = F("ord", V, V)(t0)
    it.ctx.once(("ord", t.get_id()), z3.And(slen(t) >= 0, slen(t) == F("card", V, I)(t0)))
    ety = set_ety(it, s)
    if ("members", t.get_id()) not in it.ctx.known and ety.kind in ("str", "enum", "cls"):
        it.ctx.dset(it.ctx.known, ("members", t.get_id()), True)
        ix = it.ctx.fresh_ix()
        it.ctx.ixs.append(ix)
        it.ctx.nofork += 1
        mark = it.ctx.push()
        f = None
        try:
            f = mem_e(it, it.mk_lazy(sat(t, ix), ety), e)
        except (NoFork, Unsupported, Infeasible, Mismatch_):
            pass
        finally:
            it.ctx.pop(mark)
            it.ctx.nofork -= 1
            it.ctx.ixs.pop()
        if f is not None and f is not True:
            forall(it, ix, slen(t), z3b(f))
        it.ctx.ordered[reify.key_of(s)[0]] = (s, t0, t, ety)
        if e[0] == "seq" and len(e[1]) == 1 and isinstance(e[1][0], S) and ety.kind in ("cls", "str"):
            same_elements(it, t0, t, e[1][0].t, ety.kind == "str")
    _compound[reify.keep(t0).get_id()] = e
    return Seq("list", [S(t, ety)])


def same_elements(it, s, t, u, exact=False):
    """The elements of the set s of the elements of the sequence u are elements of u, not just equal ones."""
    ctx = it.ctx
    ix = z3.Int("$m")
    keys = z3.is_app(u) and u.decl().name() == "keys"

    def src(i):
        return F("kpos", V, V, I)(u.arg(0), canon(sat(t, i))) if keys else F("src", V, I, I)(t, i)

    def pos(i):
        return F("pos", V, V, I)(s, canon(sat(u, i)))

    ctx.map_index(slen(t), src, slen(u))
    j = src(ix)
    forall(it, ix, slen(t), z3.And(j >= 0, j < slen(u), sat(t, ix) == sat(u, j)))
    if keys or exact:
        ctx.map_index(slen(u), pos, slen(t))
        j = pos(ix)
        forall(it, ix, slen(u), z3.And(j >= 0, j < slen(t), sat(t, j) == sat(u, ix)))


def permutation(it, t, u):
    """The sequence t has the elements of u, in another order."""
    ctx = it.ctx
    if ("perm", t.get_id()) in ctx.known:
        return
    ctx.dset(ctx.known, ("perm", t.get_id()), True)
    ix = z3.Int("$m")
    P, Q = F("perm", V, I, I), F("mrep", V, I, I)
    undo = lambda f, g: (lambda i: None if z3.is_app(i) and i.decl().eq(g) and i.arg(0).eq(t) else f(t, i))  # noqa
    for f, g, x, y in ((P, Q, t, u), (Q, P, u, t)):
        ctx.map_index(slen(x), undo(f, g), slen(y))
        j = f(t, ix)
        forall(it, ix, slen(x), z3.And(j >= 0, j < slen(y), sat(x, ix) == sat(y, j), g(t, j) == ix))


_compound = {}  # term naming a compound set that was enumerated -> the set expression


class Mismatch_(Exception):
    pass


def forall(it, ix, n, f):
    """f holds at every index below n."""
    ctx = it.ctx
    f = reify.keep(z3.Implies(z3.And(ix >= 0, ix < n), f))
    fam = ctx.family(n)
    ctx.lappend(ctx.foralls, (ix, f, fam))
    for (u, _, fu) in list(ctx.indices):
        if ctx.related(fu, fam):
            ctx.assume(z3.substitute(f, (ix, u)))


def enumerated(it, s, t, ety):
    """The enumeration t of the set s is used: its elements are members, every member asked about has a position."""
    ctx = it.ctx
    if ("members", t.get_id()) not in ctx.known:
        ctx.dset(ctx.known, ("members", t.get_id()), True)
        ix = z3.Int("$m")
        x = sat(t, ix)
        cn = (lambda y: y) if ety.kind in ("str", "enum") else canon
        forall(it, ix, slen(t), smem(s, cn(x)))
    reify.keep(s)
    ctx.ordered[s.get_id()] = t
    if s.get_id() not in ctx.deepfacts:
        cn = (lambda y: y) if ety.kind in ("str", "enum") else canon
        k, ix = z3.Const("$k", V), z3.Int("$m")
        j = F("pos", V, V, I)(s, k)
        ctx.deepfacts[s.get_id()] = z3.And(
            z3.ForAll([k], z3.Implies(smem(s, k), z3.And(j >= 0, j < slen(t), cn(sat(t, j)) == k)), patterns=[smem(s, k)]),
            z3.ForAll([ix], z3.Implies(z3.And(ix >= 0, ix < slen(t)), smem(s, cn(sat(t, ix)))), patterns=[sat(t, ix)]))
    for k in [k for (u, k) in ctx.asked if u.eq(s)]:
        position(it, s, t, k)


def position(it, s, t, k):
    """k in s implies that k is at some position of the enumeration t."""
    ctx = it.ctx
    m = smem(s, k)
    if ("pos", m.get_id()) in ctx.known:
        return
    reify.keep(m)
    ctx.dset(ctx.known, ("pos", m.get_id()), True)
    j = reify.keep(F("pos", V, V, I)(s, k))
    x = sat(t, j)
    y = canon(x) if z3.is_app(k) and k.decl().eq(canon) else x
    ctx.assume(z3.Implies(m, z3.And(j >= 0, j < slen(t), y == k)))
    ctx.add_index(slen(t), j, 1)


def set_ety(it, s):
    if s.expr[0] == "sym":
        return s.expr[2]
    return join_types(set_tys(it, s))


def set_tys(it, s):
    """Types of the elements of a set."""
    e = s.expr
    if e[0] == "sym":
        return [e[2]]
    tys = []

    def of(v):
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, (str, Str)):
            return TStr
        if isinstance(v, enum.Enum):
            return TEnum(type(v))
        if isinstance(v, Obj):
            return TCls(v.cls)
        if v is None:
            return TNone
        return TAny

    def seg(x):
        if isinstance(x, E):
            tys.append(of(x.v))
        elif isinstance(x, S):
            tys.append(x.ety)
        else:
            for _, ss in x.cases:
                for y in ss:
                    seg(y)

    def walk(e):
        if e[0] == "sym":
            tys.append(e[2])
        elif e[0] == "enum":
            tys.extend(of(x) for x in e[1])
        elif e[0] == "seq":
            for x in e[1]:
                seg(x)
        elif e[0] == "diff":
            n = len(tys)
            walk(e[1])
            if e[2][0] == "enum" and any(x is None for x in e[2][1]):
                tys[n:] = [t for t in tys[n:] if t.kind != "none"]
        else:
            for x in e[1:]:
                if isinstance(x, tuple):
                    walk(x)

    walk(e)
    return tys


def join_types(tys):
    if not tys:
        return TAny
    ks = {t.kind for t in tys}
    if ks == {"cls"}:
        return Ty("cls", frozenset().union(*[t.a[0] for t in tys]))
    if ks == {"str"}:
        return TStr if len({t.a for t in tys}) > 1 else tys[0]
    if len({repr(t) for t in tys}) == 1:
        return tys[0]
    return TAny


def dict_keys(it, d):
    if all(x[0] == "kv" for x in d.entries):
        out = []
        for x in d.entries:
            dup = False
            for y in out:
                if it.truth(eq(it, x[1], y)):
                    dup = True
                    break
            if not dup:
                out.append(x[1])
        return Seq("list", [E(x) for x in out])
    if isinstance(d, DedupD) and d.entries == d.ent0:
        return Seq("list", [S(d.u, d.ety)])
    if len(d.entries) == 2 and sorted(x[0] for x in d.entries) == ["kv", "sym"]:
        y, x = sorted(d.entries, key=lambda x: x[0] == "kv")
        if disjoint(it, y[2], x[1]):
            return Seq("list", [s for z in d.entries for s in dict_keys(it, DictV([z])).segs])
    if len(d.entries) == 1:
        x = d.entries[0]
        if x[0] == "sym":
            return Seq("list", [S(dict_ord(it, x[1], x[2]), x[2])])
        if x[0] == "comp" and distinct_keys(it, x):
            return Seq("list", it.norm_segs([C(x[1], x[2], [(c, (E(k),)) for c, k, _ in x[3]])]))
    raise Unsupported("keys of a computed dict")


def dict_ord(it, t, kty=None):
    o = F("keys", V, V)(t)
    it.ctx.once(("keys", o.get_id()), slen(o) >= 0)
    if kty is not None and kty.kind in ("str", "enum", "cls"):
        keys_enumerated(it, t, o, kty)
    return o


def keys_enumerated(it, d, o, kty):
    """The keys o of the dict d: every one is a key, at one position; every key asked about has a position."""
    ctx = it.ctx
    cn = (lambda y: y) if kty.kind in ("str", "enum") else canon
    if ("keypos", o.get_id()) not in ctx.known:
        ctx.dset(ctx.known, ("keypos", o.get_id()), True)
        ix = z3.Int("$m")
        x = cn(sat(o, ix))
        forall(it, ix, slen(o), z3.And(mdom(d, x), F("kpos", V, V, I)(d, x) == ix))
    reify.keep(d)
    ctx.dset(ctx.keysof, d.get_id(), (o, kty))
    if d.get_id() not in ctx.deepfacts:
        k, ix = z3.Const("$k", V), z3.Int("$m")
        j = F("kpos", V, V, I)(d, k)
        ctx.deepfacts[d.get_id()] = z3.And(
            z3.ForAll([k], z3.Implies(mdom(d, k), z3.And(j >= 0, j < slen(o), cn(sat(o, j)) == k)), patterns=[mdom(d, k)]),
            z3.ForAll([ix], z3.Implies(z3.And(ix >= 0, ix < slen(o)), mdom(d, cn(sat(o, ix)))), patterns=[sat(o, ix)]))
    for k in list(ctx.askedkeys.get(d.get_id(), ())):
        key_position(it, d, o, k, kty)


def key_position(it, d, o, k, kty, local=False):
    ctx = it.ctx
    m = mdom(d, k)
    if ("kpos", m.get_id()) in ctx.known:
        return
    if reify.ixvars(m) and not local:
        return
    reify.keep(m)
    ctx.dset(ctx.known, ("kpos", m.get_id()), True)
    j = reify.keep(F("kpos", V, V, I)(d, k))
    x = sat(o, j)
    y = canon(x) if z3.is_app(k) and k.decl().eq(canon) else x
    ctx.assume(z3.Implies(m, z3.And(j >= 0, j < slen(o), y == k)))
    ctx.add_index(slen(o), j, 1)


def distinct_keys(it, comp):
    """Are the keys of the comprehension pairwise different?  (keys of another dict or set)"""
    _, n, ix, cases = comp
    for c, k, v in cases:
        if not (isinstance(k, Sym) and z3.is_app(k.t) and k.t.decl().eq(sat) and k.t.arg(1).eq(ix)
                and z3.is_app(k.t.arg(0)) and k.t.arg(0).decl().name() in ("ord", "keys")):
            return False
    return len({c[1].t.arg(0).get_id() for c in cases}) <= 1


def dict_items(it, d, what):
    def pick(k, v):
        return v if what == "values" else Seq("tuple", [E(k), E(v)])

    if all(x[0] == "kv" for x in d.entries):
        ks = dict_keys(it, d)
        return Seq("list", [E(pick(s.v, getitem(it, d, s.v))) for s in ks.segs])
    if len(d.entries) > 1 and sum(x[0] == "sym" for x in d.entries) == 1 and all(x[0] in ("kv", "sym") for x in d.entries):
        y = [x for x in d.entries if x[0] == "sym"][0]
        kvs = [x for x in d.entries if x[0] == "kv"]
        if all(disjoint(it, y[2], x[1]) for x in kvs) and len(kvs) == 1:
            return Seq("list", [s for x in d.entries for s in dict_items(it, DictV([x]), what).segs])
    if len(d.entries) == 1:
        x = d.entries[0]
        if x[0] == "sym":
            o = dict_ord(it, x[1], x[2])
            ix = it.ctx.fresh_ix()
            k = it.mk(sat(o, ix), x[2])
            v = dict_value(it, x, k)
            return Seq("list", [C(slen(o), ix, [(True, (E(pick(k, v)),))])])
        if x[0] == "comp" and distinct_keys(it, x):
            return Seq("list", it.norm_segs([C(x[1], x[2], [(c, (E(pick(k, v)),)) for c, k, v in x[3]])]))
        if x[0] == "comp" and what == "values":
            # keys may repeat: the values that remain are a function of the dict
            cs = [it.classes_of(v) for _, _, v in x[3] if isinstance(v, (Sym, Obj))]
            if len(cs) == len(x[3]) and not any(isinstance(v, Sym) and v.ty.kind != "cls" for _, _, v in x[3]):
                return it.mk(F("values", V, V)(it.to_v(d)), TSeq(TCls(*[c for q in cs for c in q]), "list"))
    raise Unsupported("items of a computed dict")


def key_t(it, k):
    """The canonical term of a dict key or set element."""
    t = it.to_v(k)
    if isinstance(k, str) or k is None or isinstance(k, (enum.Enum, Str)) or (isinstance(k, Sym) and k.ty.kind in ("str", "enum")):
        return t
    return canon(t)


def dict_value(it, ent, k):
    """Value of an opaque dict at a key that is in it.  Unions stay undecided until used."""
    return it.mk_lazy(mget(ent[1], key_t(it, k)), ent[3])


def eq_key(it, a, b):
    r = eq(it, a, b)
    return r


def dict_lookup(it, d, k):
    """The value, or MISSING."""
    kt = None
    for x in reversed(d.entries):
        if x[0] == "kv":
            if it.truth(eq(it, x[1], k)):
                return x[2]
        elif x[0] == "sym":
            if kt is None:
                kt = key_t(it, k)
            if not types_meet(it, x[2], k):
                continue
            if it.ctx.branch(dom_fact(it, x[1], kt)):
                v = dict_value(it, x, k)
                if isinstance(v, (Seq, SetV, DictV)) and v.input == "part":
                    it.__dict__.setdefault("parts", {})[id(v)] = (v, d, k, d.entries)
                return v
        elif x[0] in ("comp", "fcomp"):
            _, n, ix, cases = x
            conds = []
            it.ctx.ixs.append(ix)
            try:
                for c, ck, cv in cases:
                    conds.append(z3.And(z3b(c), z3b(eq(it, ck, k))))
            finally:
                it.ctx.ixs.pop()
            # the last index with that key wins: only the keys' own order matters if keys are distinct
            cond = z3.Or(*conds) if conds else z3.BoolVal(False)
            if x[0] == "fcomp" or distinct_keys(it, x):
                P, kx = it.ctx.exists(n, ix, cond, n)
            else:
                # count from the end
                P, kr = it.ctx.exists(n, ix, z3.substitute(cond, (ix, n - 1 - ix)), n)
                kx = n - 1 - kr
                # searching from either end finds something or not
                it.ctx.link(P, it.ctx.exists(n, ix, cond, n)[0])
            if it.ctx.branch(P):
                it.ctx.add_index(n, kx, 1)
                live = []
                for c, ck, cv in cases:
                    live.append(z3.And(it.subst(z3b(c), ix, kx), z3b(eq(it, it.subst(ck, ix, kx), k))))
                j = it.ctx.choose(live) if len(live) > 1 else 0
                return it.subst(cases[j][2], ix, kx)
        else:
            raise Unsupported("dict entry")
    return MISSING


def dom_fact(it, t, kt):
    """k in t.  Keys met through the enumeration of t are in it."""
    c = mdom(t, kt)
    if z3.is_app(kt):
        b = kt
        if b.decl().eq(canon):
            b = b.arg(0)
        if z3.is_app(b) and b.decl().eq(sat) and z3.is_app(b.arg(0)) and b.arg(0).decl().name() == "keys" and b.arg(0).arg(0).eq(t):
            i = b.arg(1)
            it.ctx.once(("dom", c.get_id()), z3.Implies(z3.And(i >= 0, i < slen(b.arg(0))), c))
            it.ctx.keep.append(c)
            return c
    reify.keep(c)
    ks = it.ctx.askedkeys.get(t.get_id(), ())
    if not any(k.eq(kt) for k in ks):
        reify.keep(t)
        it.ctx.dset(it.ctx.askedkeys, t.get_id(), tuple(ks) + (kt,))
    o = it.ctx.keysof.get(t.get_id())
    if o is not None:
        key_position(it, t, o[0], kt, o[1])
    return c


def types_meet(it, ty, v):
    """Can v equal a value of type ty?"""
    if ty.kind == "str":
        return isinstance(v, (str, Str)) or isinstance(v, Sym) and v.ty.kind in ("str", "any")
    if ty.kind == "cls":
        if isinstance(v, Obj) or isinstance(v, Sym) and v.ty.kind == "cls":
            # only objects of the same class are equal (verified with __eq__)
            return it.w.eq_contract is None or bool(it.classes_of(v) & ty.a[0])
        return isinstance(v, Sym) and v.ty.kind == "any"
    if ty.kind == "enum":
        return isinstance(v, enum.Enum) or isinstance(v, Sym) and v.ty.kind in ("enum", "any")
    return True


def getitem(it, o, k):
    if isinstance(o, DictOf):
        o = fields_dict(it, o)
    if isinstance(o, DictV):
        r = dict_lookup(it, o, k)
        if r is MISSING:
            raise PyRaise(KeyError, (k,))
        return r
    if isinstance(o, Seq):
        if isinstance(k, int) or is_z3i(k):
            if isinstance(k, int):
                if all(isinstance(s, E) for s in o.segs):
                    try:
                        return o.segs[k].v
                    except IndexError:
                        raise PyRaise(IndexError)
                # prefix / suffix of known elements
                if 0 <= k < len(o.segs) and all(isinstance(s, E) for s in o.segs[: k + 1]):
                    return o.segs[k].v
                if k < 0 and -k <= len(o.segs) and all(isinstance(s, E) for s in o.segs[k:]):
                    return o.segs[k].v
            n = it.seq_len(o)
            kk = z3.IntVal(k) if isinstance(k, int) else k
            if isinstance(k, int) and k < 0:
                kk = z3.simplify(n + k)
            elif not isinstance(k, int) and not it.ctx.proves(kk >= 0):
                if it.ctx.branch(kk < 0):
                    kk = z3.simplify(n + kk)
            if not it.ctx.branch(z3.And(kk >= 0, kk < n)):
                raise PyRaise(IndexError)
            return it.seq_at(o, kk)
        raise Unsupported("index of a sequence")
    if isinstance(o, type) and issubclass(o, enum.Enum):
        return o[k]
    if isinstance(o, str) and isinstance(k, int):
        try:
            return o[k]
        except IndexError:
            raise PyRaise(IndexError)
    if is_host(o) and hasattr(type(o), "__class_getitem__") or isinstance(o, type) or type(o).__module__ == "typing":
        return o  # typing subscript
    if isinstance(o, Obj) and (o.cls, "__getitem__") in it.w.methods:
        return it.call(it.getattr_(o, "__getitem__"), [k], {})
    raise Unsupported(f"subscript of {type(o).__name__}")


def setitem(it, o, k, v):
    if isinstance(o, DictOf):
        return fd_set(it, o, k, v)
    if isinstance(o, DictV):
        ent = list(o.entries)
        for i, x in enumerate(ent):
            if x[0] == "kv" and (x[1] is k or (is_host(x[1]) and is_host(k) and x[1] == k)):
                # keeps its place
                if all(y[0] == "kv" for y in ent[i + 1:]):
                    ent[i] = ("kv", x[1], v)
                    mutate(it, o, "entries", tuple(ent))
                    return
        mutate(it, o, "entries", tuple(ent) + (("kv", k, v),))
        return
    if isinstance(o, Seq) and o.kind == "list" and isinstance(k, int) and all(isinstance(s, E) for s in o.segs):
        segs = list(o.segs)
        segs[k] = E(v)
        mutate(it, o, "segs", tuple(segs))
        return
    if isinstance(o, Obj) and (o.cls, "__setitem__") in it.w.methods:
        return it.call(it.getattr_(o, "__setitem__"), [k, v], {})
    raise Unsupported("item assignment")


def delitem(it, o, k):
    if isinstance(o, DictOf):
        return fd_pop(it, o, k)
    if isinstance(o, DictV) and all(x[0] == "kv" for x in o.entries):
        r = []
        found = False
        for x in o.entries:
            if it.truth(eq(it, x[1], k)):
                found = True
            else:
                r.append(x)
        if not found:
            raise PyRaise(KeyError)
        mutate(it, o, "entries", tuple(r))
        return
    raise Unsupported("del item")


def delattr_(it, o, name):
    if isinstance(o, Obj):
        if name not in o.fields:
            raise PyRaise(AttributeError)
        if o.input:
            it.ctx.lappend(it.ctx.writes, (o, name))
        it.ctx.dset(o.fields, name, DELETED)
        return
    if isinstance(o, pytypes.ModuleType):
        it.ctx.lappend(it.ctx.writes, (o, name))
        it.ctx.dset(it.ctx.known, ("modattr", o.__name__, name), DELETED)
        return
    if isinstance(o, Sym):
        it.ctx.lappend(it.ctx.writes, (o, name))
        it.ctx.dset(it.ctx.known, ("ofield", o.t.get_id(), name), DELETED)
        return
    raise Unsupported("del attribute")


def slice_(it, o, lo, hi, step):
    if isinstance(o, str) and not isinstance(o, enum.Enum):
        return o[lo:hi:step]
    if isinstance(o, Str) or isinstance(o, Sym) and o.ty.kind == "str":
        if step is None and isinstance(lo, (int, type(None))) and isinstance(hi, (int, type(None))):
            o = it.norm_str(o) if isinstance(o, Str) else o
            if isinstance(o, Str) and lo and lo > 0 and hi is None and isinstance(o.parts[0], str) and len(o.parts[0]) >= lo:
                return it.norm_str(Str((o.parts[0][lo:],) + o.parts[1:]))
            return it.mk(F(f"slice[{lo}:{hi}]", V, V)(it.to_v(o)), TStr)
    if isinstance(o, Seq):
        if step is not None and not (isinstance(step, int) and step == 1):
            if isinstance(step, int) and step == -1 and lo is None and hi is None:
                return Seq(o.kind, rev_segs(it, o.segs))
            if all(isinstance(s, E) for s in o.segs):
                return Seq(o.kind, o.segs[lo:hi:step])
            raise Unsupported("slice step")
        lo = 0 if lo is None else lo
        if isinstance(lo, int) and lo >= 0 and (hi is None or isinstance(hi, int)):
            segs = list(o.segs)
            if all(isinstance(s, E) for s in segs):
                return Seq(o.kind, segs[lo:hi])
            nlead = 0
            while nlead < len(segs) and isinstance(segs[nlead], E):
                nlead += 1
            ntail = 0
            while ntail < len(segs) and isinstance(segs[-1 - ntail], E):
                ntail += 1
            if lo <= nlead and (hi is None or hi < 0 and -hi <= ntail):
                return Seq(o.kind, segs[lo: hi if hi is not None else len(segs)])
        return sub_seq(it, o, lo, hi)
    raise Unsupported("slice")


def sub_seq(it, o, lo, hi):
    """o[lo:hi] with possibly symbolic bounds: a re-indexed view."""
    n = it.seq_len(o)
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    hi = n if hi is None else z3.IntVal(hi) if isinstance(hi, int) else hi
    if not it.ctx.proves(lo >= 0):
        lo = z3.If(lo < 0, z3.If(lo + n < 0, z3.IntVal(0), lo + n), lo)
    if not it.ctx.proves(z3.And(hi >= 0, hi <= n)):
        hi = z3.If(hi < 0, z3.If(hi + n < 0, z3.IntVal(0), hi + n), z3.If(hi > n, n, hi))
    m = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    if len(o.segs) != 1:
        return seg_slice(it, o, lo, hi)
    ix = it.ctx.fresh_ix()
    s = o.segs[0]
    if isinstance(s, S):
        return Seq(o.kind, [C(m, ix, [(True, (E(it.mk(sat(s.t, lo + ix), s.ety)),))])])
    if isinstance(s, C) and it.is_map(s):
        return Seq(o.kind, [C(m, ix, [(it.subst(z3b(c), s.ix, lo + ix), tuple(it.subst_seg(x, s.ix, lo + ix) for x in ss)) for c, ss in s.cases])])
    raise Unsupported("slice")


def seg_slice(it, o, lo, hi):
    """A slice of a composite sequence whose bounds are bounds of its parts."""
    at, cum = [None, None], z3.IntVal(0)
    bounds = [cum]
    for s in o.segs:
        cum = z3.simplify(cum + it.seq_len(Seq("list", [s])))
        bounds.append(cum)
    for k, x in enumerate((lo, hi)):
        for i, c in enumerate(bounds):
            if it.ctx.proves(x == c):
                at[k] = i
                if k == 0 or i >= at[0]:
                    break
        if at[k] is None:
            raise Unsupported("slice of a composite sequence")
    return Seq(o.kind, o.segs[at[0]:at[1]])


def rev_segs(it, segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, E):
            out.append(s)
        elif isinstance(s, S):
            ix = it.ctx.fresh_ix()
            n = slen(s.t)
            out.append(C(n, ix, [(True, (E(it.mk(sat(s.t, n - 1 - ix), s.ety)),))]))
        else:
            ix = it.ctx.fresh_ix()
            out.append(C(s.n, ix, [(it.subst(z3b(c), s.ix, s.n - 1 - ix), tuple(rev_segs(it, [it.subst_seg(x, s.ix, s.n - 1 - ix) for x in ss]))) for c, ss in s.cases]))
    return it.norm_segs(out)


# ---------------------------------------------------------------- sets
def enumerates(t):
    """The set that this list is an enumeration of, if it is one by its form."""
    nm = t.decl().name()
    if nm == "ord" and t.num_args() == 1:
        return t.arg(0)
    if nm in ("sorted", "sorted-rev", "sortedby", "sortedby-rev", "sortedtexts", "sortedtexts-rev"):
        return t.arg(0)
    if nm in ("sorted-seq", "sorted-rev-seq", "sortedby-seq", "sortedby-rev-seq", "sortedtexts-seq", "sortedtexts-rev-seq") and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == "ord":
        return t.arg(0).arg(0)
    return None


def mkset(kind, segs):
    segs = tuple(segs)
    if not segs:
        return SetV(kind, ("enum", []))
    if len(segs) == 1 and isinstance(segs[0], S) and z3.is_app(segs[0].t):
        t = enumerates(segs[0].t)
        if t is not None:
            e = _compound.get(t.get_id())
            return SetV(kind, ("sym", t, segs[0].ety) if e is None else e)
    if len(segs) == 1 and isinstance(segs[0], S) and z3.is_app(segs[0].t) and segs[0].t.decl().name() == "keys":
        return SetV(kind, ("seq", segs))
    if all(isinstance(s, E) for s in segs):
        return SetV(kind, ("enum", [s.v for s in segs]))
    return SetV(kind, ("seq", segs))


def mem(it, x, s):
    """x in s, as a bool or z3 Bool (decisions may be taken to compare x with known elements)."""
    m = mem_e(it, x, s.expr)
    if it.ctx.ordered and s.expr[0] != "sym" and not isinstance(m, bool):
        o = it.ctx.ordered.get(reify.key_of(s)[0])
        if o is not None and it.to_v(s).eq(o[1]) and types_meet(it, o[3], x):
            _, t0, t, _ = o
            k = key_t(it, x)
            key = ("pos", t0.get_id(), k.get_id())
            if key not in it.ctx.known:
                reify.keep(k)
                it.ctx.dset(it.ctx.known, key, True)
                j = reify.keep(F("pos", V, V, I)(t0, k))
                y = canon(sat(t, j)) if z3.is_app(k) and k.decl().eq(canon) else sat(t, j)
                it.ctx.assume(z3.Implies(m, z3.And(j >= 0, j < slen(t), y == k)))
                it.ctx.add_index(slen(t), j, 1)
    return m


def b_or(xs):
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    return z3.Or(*xs) if len(xs) > 1 else xs[0] if xs else False


def b_and(xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    return z3.And(*xs) if len(xs) > 1 else xs[0] if xs else True


def b_not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def mem_e(it, x, e):
    op = e[0]
    if op == "sym":
        if not types_meet(it, e[2], x):
            return False
        k = key_t(it, x)
        r = smem(e[1], k)
        b = k.arg(0) if z3.is_app(k) and k.decl().eq(canon) else k
        if z3.is_app(b) and b.decl().eq(sat) and z3.is_app(b.arg(0)) and b.arg(0).decl().name() in ("ord", "sorted") and b.arg(0).num_args() == 1 \
                and b.arg(0).arg(0).eq(e[1]):
            i = b.arg(1)
            it.ctx.keep.append(r)
            it.ctx.once(("memord", r.get_id()), z3.Implies(z3.And(i >= 0, i < slen(b.arg(0))), r))
            return r
        if ("ask", r.get_id()) not in it.ctx.known:
            reify.keep(r)
            it.ctx.dset(it.ctx.known, ("ask", r.get_id()), True)
            it.ctx.lappend(it.ctx.asked, (e[1], k))
            it.ctx.once(("memcard", r.get_id()), z3.Implies(r, F("card", V, I)(e[1]) >= 1))
        t = it.ctx.ordered.get(e[1].get_id())
        if t is not None:
            position(it, e[1], t, k)
        return r
    if op == "enum":
        return b_or([eq(it, y, x) for y in e[1]])
    if op == "seq":
        return b_or([mem_seg(it, x, s) for s in e[1]])
    if op == "union":
        return b_or([mem_e(it, x, y) for y in e[1:]])
    if op == "inter":
        return b_and([mem_e(it, x, e[1]), mem_e(it, x, e[2])])
    if op == "diff":
        return b_and([mem_e(it, x, e[1]), b_not(mem_e(it, x, e[2]))])
    raise Unsupported("set expression")


def mem_seg(it, x, s):
    if isinstance(s, E):
        return eq(it, s.v, x)
    if isinstance(s, S):
        if s.ety.kind == "union":
            raise Unsupported("membership in a union sequence")
        if not types_meet(it, s.ety, x):
            return False
        if z3.is_app(s.t) and s.t.decl().name() == "keys":
            return dom_fact(it, s.t.arg(0), key_t(it, x))
        ix = it.ctx.fresh_ix()
        it.ctx.ixs.append(ix)
        try:
            c = z3b(eq(it, it.mk(sat(s.t, ix), s.ety), x))
        finally:
            it.ctx.ixs.pop()
        return it.ctx.exists(slen(s.t), ix, c, slen(s.t))[0]
    if isinstance(s, C):
        cs = []
        it.ctx.ixs.append(s.ix)
        try:
            for c, ss in s.cases:
                cs.append(z3.And(z3b(c), z3b(b_or([mem_seg(it, x, y) for y in ss]))))
        finally:
            it.ctx.ixs.pop()
        return it.ctx.exists(s.n, s.ix, z3.Or(*cs), s.n)[0]
    raise Unsupported("membership")


def set_nonempty(it, s):
    return nonempty_e(it, s.expr)


def nonempty_e(it, e):
    op = e[0]
    if op == "sym":
        t = e[1]
        it.ctx.keep.append(t)
        it.ctx.once(("card", t.get_id()), F("card", V, I)(t) >= 0)
        return z3.Not(F("card", V, I)(t) == 0)
    if op == "enum":
        return len(e[1]) > 0
    if op == "seq":
        if any(isinstance(s, E) for s in e[1]):
            return True
        return it.len_gt0(it.seq_len(Seq("list", e[1]))) if all(isinstance(s, S) or it.is_map(s) for s in e[1]) else b_or([seg_nonempty(it, s) for s in e[1]])
    if op == "union":
        return b_or([nonempty_e(it, x) for x in e[1:]])
    return some_e(it, e, lambda x: True)


def some_e(it, e, pred):
    """Some element of the set e satisfies pred."""
    op = e[0]
    if op == "enum":
        return b_or([pred(x) for x in e[1]])
    if op == "union":
        return b_or([some_e(it, x, pred) for x in e[1:]])
    if op == "inter":
        e1, e2 = (e[1], e[2]) if e[2][0] != "enum" else (e[2], e[1])
        return some_e(it, e1, lambda x: b_and([mem_e(it, x, e2), pred(x)]))
    if op == "diff":
        return some_e(it, e[1], lambda x: b_and([b_not(mem_e(it, x, e[2])), pred(x)]))
    if op == "sym":
        return b_or([some_seg(it, s, pred) for s in set_order(it, SetV("set", e)).segs])
    if op == "seq":
        return b_or([some_seg(it, s, pred) for s in e[1]])
    raise Unsupported("emptiness of a set")


def some_seg(it, s, pred):
    if isinstance(s, E):
        return pred(s.v)
    if isinstance(s, S):
        ix = it.ctx.fresh_ix()
        it.ctx.ixs.append(ix)
        try:
            c = z3b(pred(it.mk(sat(s.t, ix), s.ety)))
        finally:
            it.ctx.ixs.pop()
        return it.ctx.exists(slen(s.t), ix, c, slen(s.t))[0]
    it.ctx.ixs.append(s.ix)
    try:
        c = z3.Or(*[z3.And(z3b(c), z3b(b_or([some_seg(it, y, pred) for y in ss]))) for c, ss in s.cases])
    finally:
        it.ctx.ixs.pop()
    return it.ctx.exists(s.n, s.ix, c, s.n)[0]


def seg_nonempty(it, s):
    if isinstance(s, E):
        return True
    if isinstance(s, S):
        return slen(s.t) > 0
    it.ctx.ixs.append(s.ix)
    try:
        c = z3.Or(*[z3.And(z3b(c), z3b(b_or([seg_nonempty(it, y) for y in ss]))) for c, ss in s.cases])
    finally:
        it.ctx.ixs.pop()
    return it.ctx.exists(s.n, s.ix, c, s.n)[0]


def dict_nonempty(it, d):
    r = []
    for x in d.entries:
        if x[0] == "kv":
            return True
        if x[0] == "sym":
            r.append(slen(dict_ord(it, x[1])) > 0)
        else:
            it.ctx.ixs.append(x[2])
            try:
                c = z3.Or(*[z3b(c) for c, _, _ in x[3]])
            finally:
                it.ctx.ixs.pop()
            if z3.is_true(z3.simplify(c)):
                r.append(x[1] > 0)
            else:
                r.append(it.ctx.exists(x[1], x[2], c, x[1])[0])
    return b_or(r)


def set_len(it, s):
    e = s.expr
    if e[0] == "sym":
        set_nonempty(it, s)
        return F("card", V, I)(e[1])
    if e[0] == "enum":
        out = []
        for x in e[1]:
            if not any(it.truth(eq(it, x, y)) for y in out):
                out.append(x)
        return len(out)
    t = it.to_v(s)
    c = F("card", V, I)(t)
    ne = z3b(set_nonempty(it, s))
    it.ctx.keep.append(c)
    it.ctx.once(("cardfact", c.get_id()), z3.And(c >= 0, (c > 0) == ne))
    return c


def to_setv(it, v):
    if isinstance(v, SetV):
        return v
    if isinstance(v, View) and v.what == "keys":
        return mkset("set", to_seq(it, v).segs)
    raise Unsupported(f"set operation with {type(v).__name__}")


def subset(it, a, b):
    """a <= b."""
    r = b_not(nonempty_e(it, ("diff", a.expr, b.expr)))
    if a.expr[0] == "sym" and b.expr[0] == "sym" and not is_host(r):
        set_ext(it, a, b)
    return r


def set_ext(it, a, b):
    """Sets are equal exactly if each includes the other, and then they have the same size; so are same-sized sets of which one includes the other."""
    c = setcanon(it, a) == setcanon(it, b)
    if c.arg(0).eq(c.arg(1)) or ("setext", c.get_id()) in it.ctx.known:
        return
    it.ctx.keep.append(c)
    for d in (c, setcanon(it, b) == setcanon(it, a)):
        it.ctx.keep.append(d)
        it.ctx.dset(it.ctx.known, ("setext", d.get_id()), True)
    r = z3b(b_not(nonempty_e(it, ("diff", a.expr, b.expr))))
    q = z3b(b_not(nonempty_e(it, ("diff", b.expr, a.expr))))
    n, m = set_len(it, a), set_len(it, b)
    it.ctx.assume(z3.And(c == z3.And(r, q), z3.Implies(r, n <= m), z3.Implies(q, m <= n), z3.Implies(z3.And(r, n == m), q), z3.Implies(z3.And(q, n == m), r)))


def set_eq(it, a, b):
    if a.expr[0] == "sym" and b.expr[0] == "sym":
        if a.expr[1].eq(b.expr[1]):
            return True
        if it.w.__dict__.get("extensional"):
            set_ext(it, a, b)
        return setcanon(it, a) == setcanon(it, b)
    if a.expr[0] == "enum" and not a.expr[1]:
        return b_not(set_nonempty(it, b))
    if b.expr[0] == "enum" and not b.expr[1]:
        return b_not(set_nonempty(it, a))
    return b_and([subset(it, a, b), subset(it, b, a)])


def setcanon(it, s):
    return canon(it.to_v(s))


# ---------------------------------------------------------------- equality and order
def eq(it, a, b):
    """a == b."""
    if a is b and not isinstance(a, Poison):
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("read of a loop temporary")
    if isinstance(a, Uni):
        a = a.force(it)
    if isinstance(b, Uni):
        b = b.force(it)
    ha, hb = is_host(a), is_host(b)
    if ha and hb:
        return a == b
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, Sym) and o.ty.kind == "any":
            return o.t == it.lit(None)
        return False
    if is_z3i(a) or is_z3i(b):
        if (is_z3i(a) or isinstance(a, int)) and (is_z3i(b) or isinstance(b, int)):
            return a == b
    if is_z3b(a) or is_z3b(b):
        if (is_z3b(a) or isinstance(a, bool)) and (is_z3b(b) or isinstance(b, bool)):
            return a == b
    if isinstance(a, Sym) and isinstance(b, Sym) and a.t.eq(b.t) and a.ty.kind != "num":
        if a.ty.kind == "cls":
            h = it.w.eq_contract
            if h is None:
                return True
        return True
    sa, sb = is_strv(a), is_strv(b)
    if sa and sb:
        return str_eq(it, a, b)
    na, nb = is_numv(a), is_numv(b)
    if na and nb:
        return num_rank(it, a) == num_rank(it, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(it, a, b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return set_eq(it, a, b)
    if isinstance(a, DictV) and isinstance(b, DictV):
        return dict_eq(it, a, b)
    ea = isinstance(a, Sym) and a.ty.kind == "enum"
    eb = isinstance(b, Sym) and b.ty.kind == "enum"
    if ea or eb:
        if (ea or isinstance(a, enum.Enum)) and (eb or isinstance(b, enum.Enum)):
            ca = a.ty.a[0] if ea else type(a)
            cb = b.ty.a[0] if eb else type(b)
            return it.to_v(a) == it.to_v(b) if ca is cb else False
        if not (isinstance(a, Sym) and a.ty.kind == "any" or isinstance(b, Sym) and b.ty.kind == "any"):
            return False
    ca = isinstance(a, Obj) or isinstance(a, Sym) and a.ty.kind == "cls"
    cb = isinstance(b, Obj) or isinstance(b, Sym) and b.ty.kind == "cls"
    if ca and cb:
        return obj_eq(it, a, b)
    if ca or cb:
        o = b if ca else a
        if not (isinstance(o, Sym) and o.ty.kind == "any"):
            s = a if ca else b
            if it.w.eq_contract is not None:
                return False
            m = it.getattr_(s, "__eq__")
            r = it.call(m, [o], {})
            return False if r is NotImplemented else r
    if isinstance(a, Sym) and a.ty.kind == "any" or isinstance(b, Sym) and b.ty.kind == "any":
        return canon(it.to_v(a)) == canon(it.to_v(b))
    return False


def obj_eq(it, a, b):
    h = it.w.eq_contract
    if h is not None:
        return h(it, a, b)
    m = it.getattr_(a, "__eq__")
    if isinstance(m, Native):
        return it.to_v(a) == it.to_v(b)
    r = it.call(m, [b], {})
    if r is NotImplemented:
        r = it.call(it.getattr_(b, "__eq__"), [a], {})
        if r is NotImplemented:
            return it.to_v(a) == it.to_v(b)
    return r


def is_strv(v):
    return isinstance(v, Str) or isinstance(v, str) and not isinstance(v, enum.Enum) or isinstance(v, Sym) and v.ty.kind == "str"


def is_numv(v):
    return isinstance(v, (int, float)) and not isinstance(v, enum.Enum) or isinstance(v, Sym) and v.ty.kind == "num" or is_z3i(v)


def num_rank(it, v):
    if isinstance(v, Sym):
        return rank(v.t)
    if is_z3i(v):
        return z3.ToReal(v)
    return z3.RealVal(repr(float(v)) if isinstance(v, float) else int(v))


def str_eq(it, a, b):
    a, b = it.norm_str(a), it.norm_str(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Str) or isinstance(b, Str):
        if isinstance(a, Str) and isinstance(b, Str) and repr(a) == repr(b):
            return True
        if isinstance(b, Str):
            a, b = b, a
        # a is composite: compare a literal prefix
        if isinstance(b, str) and isinstance(a.parts[0], str) and not b.startswith(a.parts[0]):
            return False
        if isinstance(b, str) and isinstance(a.parts[-1], str) and not b.endswith(a.parts[-1]):
            return False
        if longer(it, a, b) or longer(it, b, a):
            return False
    return it.to_v(a) == it.to_v(b)


def longer(it, a, b):
    """a is b and more."""
    p, q = list(a.parts if isinstance(a, Str) else (a,)), list(b.parts if isinstance(b, Str) else (b,))
    while p and q:
        x, y = p[0], q[0]
        if isinstance(x, str) and isinstance(y, str):
            if x == y:
                p, q = p[1:], q[1:]
            elif x.startswith(y):
                p, q = [x[len(y):]] + p[1:], q[1:]
            else:
                return False
        elif not isinstance(x, str) and not isinstance(y, str) and repr(x) == repr(y):
            p, q = p[1:], q[1:]
        else:
            return False
    return not q and any(not_empty(it, x) for x in p)


def not_empty(it, x):
    """This text has at least one character."""
    if isinstance(x, str):
        return bool(x)
    if isinstance(x, Sym):
        return bool(x.ty.kind == "str" and x.ty.a)
    if isinstance(x, Rep):
        return all(any(not_empty(it, y) for y in ps) for _, ps in x.cases) and it.ctx.proves(
            z3.And(x.n >= 1, z3.Or(*[z3b(it.subst(z3b(c), x.ix, z3.IntVal(0))) for c, _ in x.cases])))
    return False


def seq_eq(it, a, b):
    if a.kind != b.kind:
        return False
    ea = all(isinstance(s, E) for s in a.segs)
    eb = all(isinstance(s, E) for s in b.segs)
    if ea and eb:
        if len(a.segs) != len(b.segs):
            return False
        rs = []
        for x, y in zip(a.segs, b.segs):
            r = eq(it, x.v, y.v)
            if r is False:
                return False
            rs.append(r)
        return b_and(rs)
    if len(a.segs) == 1 and len(b.segs) == 1 and isinstance(a.segs[0], S) and isinstance(b.segs[0], S):
        s, t = a.segs[0].t, b.segs[0].t
        if s.eq(t):
            return True
        return seq_ext(it, a, b, canon(s) == canon(t))
    if ea or eb:
        if ea:
            a, b = b, a
        n = len(b.segs)
        if not it.ctx.branch(it.seq_len(a) == n):
            return False
        return b_and([eq(it, it.seq_at(a, z3.IntVal(i)), b.segs[i].v) for i in range(n)])
    return seq_ext(it, a, b, canon(it.to_v(a)) == canon(it.to_v(b)))


def seq_ext(it, a, b, c):
    """c says that the sequences are equal: they have the same length, and equal elements everywhere."""
    ctx = it.ctx
    if c.arg(0).eq(c.arg(1)):
        return True
    ctx.keep.append(c)
    if ("seqeq", c.get_id()) in ctx.known:
        return c
    ctx.dset(ctx.known, ("seqeq", c.get_id()), True)
    n, m = it.seq_len(a), it.seq_len(b)
    ctx.assume(z3.Implies(c, n == m))
    ix = ctx.fresh_ix()
    ctx.ixs.append(ix)
    ctx.nofork += 1
    mark = ctx.push()
    e = None
    try:
        e = eq(it, it.seq_at(a, ix), it.seq_at(b, ix))
    except (NoFork, Unsupported, Infeasible, PyRaise):
        pass
    finally:
        ctx.pop(mark)
        ctx.nofork -= 1
        ctx.ixs.pop()
    if e is not None and e is not True:
        some = False if e is True else ctx.exists(n, ix, z3.Not(z3b(e)), n)[0]
        ctx.assume(c == z3.And(n == m, z3.Not(z3b(some))))
    return c


def dict_eq(it, a, b):
    ta = len(a.entries) == 1 and a.entries[0][0] == "sym"
    tb = len(b.entries) == 1 and b.entries[0][0] == "sym"
    if ta and tb:
        return canon(a.entries[0][1]) == canon(b.entries[0][1])
    if not a.entries:
        return b_not(dict_nonempty(it, b))
    if not b.entries:
        return b_not(dict_nonempty(it, a))
    return canon(it.to_v(a)) == canon(it.to_v(b))


def compare(it, op, a, b):
    if isinstance(a, Uni):
        a = a.force(it)
    if isinstance(b, Uni):
        b = b.force(it)
    if isinstance(op, ast.Eq):
        return eq(it, a, b)
    if isinstance(op, ast.NotEq):
        return b_not(eq(it, a, b))
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_(it, a, b)
        return r if isinstance(op, ast.Is) else b_not(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(it, a, b)
        return r if isinstance(op, ast.In) else b_not(r)
    nm = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
    return order(it, nm, a, b)


def is_(it, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("read of a loop temporary")
    if a is b:
        return True
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, Sym) and o.ty.kind == "any":
            return o.t == it.lit(None)
        return False
    if a is NotImplemented or b is NotImplemented or a is Ellipsis or b is Ellipsis:
        return False  # no symbolic value is one of these
    if is_host(a) and is_host(b):
        if isinstance(a, (bool, enum.Enum, type)) or isinstance(b, (bool, enum.Enum, type)):
            return a is b
        if type(a) is not type(b):
            return False
        if callable(a):
            return a is b
    if isinstance(a, Sym) and a.ty.kind == "enum" or isinstance(b, Sym) and b.ty.kind == "enum":
        return eq(it, a, b)
    if isinstance(a, Sym) and isinstance(b, Sym) and a.t.eq(b.t):
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        return False
    if is_host(a) and isinstance(a, type) or is_host(b) and isinstance(b, type):
        return False
    if (is_z3b(a) or isinstance(a, bool)) and (is_z3b(b) or isinstance(b, bool)):
        return a == b
    raise Unsupported("identity of opaque values")


def contains(it, x, s):
    if isinstance(s, DictOf):
        s = fields_dict(it, s)
    if isinstance(s, Lazy):
        s = to_seq(it, s)
    if isinstance(s, SetV):
        return mem(it, x, s)
    if isinstance(s, Seq):
        return b_or([mem_seg(it, x, y) for y in s.segs])
    if isinstance(s, DictV):
        return dict_has(it, s, x)
    if isinstance(s, View) and s.what == "keys":
        return dict_has(it, s.d, x)
    if is_strv(s):
        if isinstance(x, str) and isinstance(s, str):
            return x in s
        return F("str_in", V, V, B)(it.to_v(x), it.to_v(s))
    if isinstance(s, View):
        return contains(it, x, to_seq(it, s))
    if isinstance(s, type) and issubclass(s, enum.Enum):
        return isinstance(x, s)
    if isinstance(s, Obj) and (s.cls, "__contains__") in it.w.methods:
        return it.call(it.getattr_(s, "__contains__"), [x], {})
    raise Unsupported(f"membership in {type(s).__name__}")


def dict_has(it, d, k):
    r = []
    for x in d.entries:
        if x[0] == "kv":
            r.append(eq(it, x[1], k))
        elif x[0] == "sym":
            if types_meet(it, x[2], k):
                r.append(dom_fact(it, x[1], key_t(it, k)))
        else:
            it.ctx.ixs.append(x[2])
            try:
                c = z3.Or(*[z3.And(z3b(c), z3b(eq(it, ck, k))) for c, ck, _ in x[3]])
            finally:
                it.ctx.ixs.pop()
            r.append(it.ctx.exists(x[1], x[2], c, x[1])[0])
    return b_or(r)


ORD = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
REFL = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}


def zcmp(op, x, y):
    return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()


def order(it, op, a, b):
    if is_host(a) and is_host(b) and not isinstance(a, enum.Enum):
        try:
            return zcmp(op, a, b)
        except TypeError:
            raise PyRaise(TypeError)
    if is_strv(a) and is_strv(b):
        return zcmp(op, str_rank(it, a), str_rank(it, b))
    if (is_z3i(a) or isinstance(a, int)) and (is_z3i(b) or isinstance(b, int)):
        return zcmp(op, a, b)
    if is_numv(a) and is_numv(b):
        return zcmp(op, num_rank(it, a), num_rank(it, b))
    if isinstance(a, SetV) and isinstance(b, SetV):
        if op == "<=":
            return subset(it, a, b)
        if op == ">=":
            return subset(it, b, a)
        p, q = (a, b) if op == "<" else (b, a)
        return z3.And(z3b(subset(it, p, q)), z3.Not(z3b(set_eq(it, p, q))))
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
        return seq_order(it, op, a, b)
    oa = isinstance(a, (Obj, enum.Enum)) or isinstance(a, Sym) and a.ty.kind in ("cls", "enum")
    ob = isinstance(b, (Obj, enum.Enum)) or isinstance(b, Sym) and b.ty.kind in ("cls", "enum")
    if oa and ob:
        h = it.w.lt_contract
        if h is not None:
            r = h(it, op, a, b)
            if r is not None:
                return r
        return rich(it, op, a, b)
    if oa or ob:
        return rich(it, op, a, b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("read of a loop temporary")
    kinds = ("any",)
    if isinstance(a, Sym) and a.ty.kind in kinds or isinstance(b, Sym) and b.ty.kind in kinds:
        raise Unsupported("order of opaque values")
    raise PyRaise(TypeError)


def rich(it, op, a, b):
    for x, y, o in ((a, b, op), (b, a, REFL[op])):
        if isinstance(x, (Obj, enum.Enum)) or isinstance(x, Sym) and x.ty.kind in ("cls", "enum"):
            m = it.getattr_(x, ORD[o], None)
            if m is None:
                continue
            r = it.call(m, [y], {})
            if r is not NotImplemented:
                return r
    raise PyRaise(TypeError)


def str_rank(it, s):
    """Strings are totally ordered: rank is an order embedding (trusted)."""
    t = it.to_v(s)
    it.ctx.keep.append(t)
    rs = it.ctx.known.get("ranked", ())
    if not any(t.eq(x) for x in rs):
        for x in rs:
            it.ctx.assume((rank(x) == rank(t)) == (x == t))
        it.ctx.dset(it.ctx.known, "ranked", rs + (t,))
        r = lits_rank(it, rs + (t,))
    return rank(t)


def lits_rank(it, ts):
    tbl = {c.get_id(): v for (n, c, v) in it.w.__dict__.get("_lits", {}).values() if isinstance(v, str)}
    ls = sorted([(tbl[t.get_id()], t) for t in ts if t.get_id() in tbl], key=lambda p: str(p[0]))
    for (v, t), (w, u) in zip(ls, ls[1:]):
        it.ctx.assume(rank(t) < rank(u))


def seq_order(it, op, a, b):
    ea = all(isinstance(s, E) for s in a.segs)
    eb = all(isinstance(s, E) for s in b.segs)
    if ea and eb:
        # lexicographic
        for x, y in zip(a.segs, b.segs):
            if not it.truth(eq(it, x.v, y.v)):
                return order(it, op, x.v, y.v)
        return zcmp(op, len(a.segs), len(b.segs))
    # opaque sequences of totally ordered elements: the lexicographic order is total (trusted lemma)
    h = it.w.__dict__.get("seq_rank")
    if h is not None:
        return zcmp(op, h(it, a), h(it, b))
    raise Unsupported("order of opaque sequences")


# ---------------------------------------------------------------- strings
def str_(it, v):
    if isinstance(v, Uni):
        v = v.force(it)
    if isinstance(v, str) and not isinstance(v, enum.Enum):
        return v
    if isinstance(v, Str):
        return v
    if isinstance(v, Sym):
        k = v.ty.kind
        if k == "str":
            return v
        if k == "num":
            return it.mk(F("str.num", V, V)(v.t), TStr)
        if k in ("cls", "enum"):
            return call_str(it, v, "__str__")
        if k == "any":
            return it.mk(F("str.any", V, V)(v.t), TStr)
    if isinstance(v, enum.Enum):
        return call_str(it, v, "__str__")
    if v is None or isinstance(v, (bool, int, float, type)):
        return str(v)
    if isinstance(v, Obj):
        return call_str(it, v, "__str__")
    if isinstance(v, ExcV):
        if len(v.args) == 1:
            return str_(it, v.args[0])
        return it.mk(it.ctx.fresh("excstr", V), TStr)
    if isinstance(v, (Seq, SetV, DictV)) or is_z3i(v) or is_z3b(v) or isinstance(v, (PyRaise, View)):
        return repr_(it, v)
    if is_host(v):
        return it.mk(it.lit("str of " + repr(type(v))), TStr)
    raise Unsupported(f"str of {type(v).__name__}")


def call_str(it, v, nm):
    m = it.getattr_(v, nm)
    if isinstance(m, (Sym, str, Str)):
        return m
    return it.call(m, [], {})


def repr_(it, v):
    """repr is only used in messages: an opaque string of the value."""
    if isinstance(v, str) and not isinstance(v, enum.Enum):
        return repr(str(v))
    if v is None or isinstance(v, (bool, int, float, type)):
        return repr(v)
    try:
        return it.mk(F("repr", V, V)(it.to_v(v)), TStr)
    except Unsupported:
        return it.mk(it.ctx.fresh("repr", V), TStr)


class Lines:
    """The lines of a text, of which blank ones may have been left out."""


def st_splitlines(it, v, *a):
    if a or not it.w.__dict__.get("tokens_only"):
        raise Unsupported("str.splitlines")
    return Obj(Lines, {"text": v})


def filtered_lines(it, e, fr):
    """The lines l of a text for which l, or l.strip(), is not empty."""
    if len(e.generators) != 1 or not isinstance(e.generators[0].iter, (ast.Call, ast.Name)):
        return None
    g = e.generators[0]
    c = g.iter
    if isinstance(c, ast.Call) and not (isinstance(c.func, ast.Attribute) and c.func.attr == "splitlines" and not c.args):
        return None
    if isinstance(c, ast.Name) and not (isinstance(fr.vars.get(c.id), Obj) and fr.vars[c.id].cls is Lines):
        return None
    v = it.eval(c, fr)
    if not (isinstance(v, Obj) and v.cls is Lines):
        raise Unsupported("splitlines of another object")
    x = ast.unparse(g.target)
    if not isinstance(g.target, ast.Name) or ast.unparse(e.elt) not in (x, x + ".rstrip()"):
        raise Unsupported("comprehension over lines")
    if any(ast.unparse(t) not in (x, x + ".strip()", x + ".strip() != ''", f"len({x}.strip()) > 0", f"not {x}.isspace()") for t in g.ifs):
        raise Unsupported("comprehension over lines")
    return v


def join(it, sep, v):
    if isinstance(v, Obj) and v.cls is Lines:
        # the same tokens, separated as before
        if isinstance(sep, str) and sep.isspace():
            return v.fields["text"]
        raise Unsupported("join of lines")
    if isinstance(v, Lazy) or not isinstance(v, Seq):
        v = to_seq(it, v)
    parts = []
    first = True  # True: nothing before; None: unknown; False: something before
    segs = v.segs
    if len(segs) > 1 and sep != "" and any(not isinstance(s, E) for s in segs):
        # the separators between segments depend on emptiness: keep the join opaque
        parts_ = [it.to_v(Seq("list", segs)), it.to_v(sep)]
        return it.mk(F("join", V, V, V)(parts_[1], parts_[0]), TStr)
    for s in segs:
        if isinstance(s, E):
            if not first:
                parts.append(sep)
            if not is_strv(s.v):
                raise PyRaise(TypeError) if not (isinstance(s.v, Sym) and s.v.ty.kind == "any") else Unsupported("join")
            parts.append(s.v)
            first = False
        else:
            return it.norm_str(Str([join_seg(it, sep, s)]))
    return it.norm_str(Str(parts))


def join_seg(it, sep, s):
    if isinstance(s, S):
        if s.ety.kind != "str":
            raise Unsupported("join of non strings")
        ix = it.ctx.fresh_ix()
        s = C(slen(s.t), ix, [(True, (E(it.mk(sat(s.t, ix), s.ety)),))])
    if it.is_map(s):
        cases = []
        for c, ss in s.cases:
            x = ss[0].v
            if not is_strv(x):
                raise Unsupported("join of non strings")
            if sep == "":
                cases.append((z3b(c), (x,)))
            else:
                cases.append((z3.And(z3b(c), s.ix == 0), (x,)))
                cases.append((z3.And(z3b(c), s.ix != 0), (sep, x)))
        return Rep(s.n, s.ix, [(c, flat_parts(it, ps)) for c, ps in cases])
    return it.mk(F("join", V, V, V)(it.to_v(sep), it.to_v(Seq("list", [s]))), TStr)


def flat_parts(it, ps):
    r = it.norm_str(Str(ps))
    return r.parts if isinstance(r, Str) else (r,) if r != "" else ()


def binop(it, op, a, b):
    if isinstance(a, Uni):
        a = a.force(it)
    if isinstance(b, Uni):
        b = b.force(it)
    if isinstance(op, ast.Add):
        if is_strv(a) and is_strv(b):
            return it.norm_str(Str([a, b]))
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.kind != b.kind:
                raise PyRaise(TypeError)
            return Seq(a.kind, a.segs + b.segs)
        if is_strv(a) or is_strv(b) or isinstance(a, Seq) or isinstance(b, Seq):
            raise PyRaise(TypeError)
    if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(a, (SetV, View)) and isinstance(b, (SetV, View)):
        return set_op(it, {ast.BitOr: "union", ast.BitAnd: "inter", ast.Sub: "diff"}[type(op)], a, b)
    if isinstance(op, ast.BitOr) and isinstance(a, DictV) and isinstance(b, DictV):
        return DictV(a.entries + b.entries)
    ia = isinstance(a, int) or is_z3i(a)
    ib = isinstance(b, int) or is_z3i(b)
    if ia and ib:
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(a, int) and isinstance(b, int):
            return eval(compile(ast.Expression(ast.BinOp(ast.Constant(a), op, ast.Constant(b), lineno=1, col_offset=0)), "", "eval")) if False else {
                ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(op)]()
    if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
        return a * b
    if isinstance(op, ast.Mod) and is_strv(a):
        return it.mk(F("fmt", V, V, V)(it.to_v(a), it.to_v(b)), TStr)
    nm = {ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.RShift: "__rshift__", ast.Add: "__add__", ast.Sub: "__sub__", ast.Div: "__truediv__"}.get(type(op))
    if nm and isinstance(a, (Sym, Obj)):
        m = it.getattr_(a, nm, None)
        if m is not None:
            return it.call(m, [b], {})
    raise Unsupported(f"operator {type(op).__name__} on {a!r} and {b!r}")


def set_op(it, op, a, b):
    a, b = to_setv(it, a), to_setv(it, b)
    kind = a.kind
    if a.expr[0] == "enum" and b.expr[0] == "enum" and all(is_host(x) for x in a.expr[1] + b.expr[1]):
        A, Bs = list(dict.fromkeys(a.expr[1])), list(dict.fromkeys(b.expr[1]))
        if op == "union":
            return SetV(kind, ("enum", A + [x for x in Bs if x not in A]))
        if op == "inter":
            return SetV(kind, ("enum", [x for x in A if x in Bs]))
        return SetV(kind, ("enum", [x for x in A if x not in Bs]))
    if op == "union":
        if a.expr == ("enum", []):
            return SetV(kind, b.expr)
        if b.expr == ("enum", []):
            return SetV(kind, a.expr)
    return SetV(kind, (op, a.expr, b.expr))


def augassign(it, op, cur, v):
    if isinstance(cur, Seq) and cur.kind == "list" and isinstance(op, ast.Add):
        mutate(it, cur, "segs", cur.segs + to_seq(it, v).segs)
        return cur
    if isinstance(cur, SetV) and cur.kind == "set" and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
        r = binop(it, op, cur, v)
        mutate(it, cur, "expr", r.expr)
        return cur
    if isinstance(cur, DictV) and isinstance(op, ast.BitOr):
        mutate(it, cur, "entries", cur.entries + v.entries)
        return cur
    return binop(it, op, cur, v)


# ---------------------------------------------------------------- methods of builtin types
class Uni:
    """A value of union type whose alternative is decided when it is used."""

    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def force(self, it):
        return it.mk(self.t, self.ty)


def fields_dict(it, d):
    """A copy of obj.__dict__."""
    return DictV([("kv", k, v) for k, v in d.o.fields.items() if v is not DELETED])


def fd_pop(it, d, k, *default):
    if not isinstance(k, str):
        raise Unsupported("field of an opaque name")
    v = d.o.fields.get(k, DELETED)
    if v is DELETED:
        if default:
            return default[0]
        raise PyRaise(KeyError, (k,))
    delattr_(it, d.o, k)
    return v


def fd_set(it, d, k, v):
    if not isinstance(k, str):
        raise Unsupported("field of an opaque name")
    if d.o.input:
        it.ctx.lappend(it.ctx.writes, (d.o, k))
    it.ctx.dset(d.o.fields, k, v)


def fd_update(it, d, *a, **kw):
    for x in a:
        x = fields_dict(it, x) if isinstance(x, DictOf) else x
        if not isinstance(x, DictV) or any(e[0] != "kv" for e in x.entries):
            raise Unsupported("update of the fields")
        for e in x.entries:
            fd_set(it, d, e[1], e[2])
    for k, v in kw.items():
        fd_set(it, d, k, v)


FD_M = {"pop": fd_pop, "update": fd_update, "copy": fields_dict, "__setitem__": fd_set}


def set_fields(it, o, d):
    """o.__dict__ = d."""
    if o.input:
        it.ctx.lappend(it.ctx.writes, (o, "__dict__"))
    if isinstance(d, DictOf):
        it.ctx.mut(o, "fields", d.o.fields)
        return
    if isinstance(d, DictV) and all(e[0] == "kv" and isinstance(e[1], str) for e in d.entries):
        f = VDict()
        for e in d.entries:
            f[e[1]] = e[2]
        it.ctx.mut(o, "fields", f)
        return
    raise Unsupported("assignment to __dict__")


def method(it, v, name):
    f = None
    if isinstance(v, DictOf):
        f = FD_M.get(name)
        if f is None:
            return method(it, fields_dict(it, v), name)
        return Native(lambda it2, a, k: f(it2, v, *a, **k), name)
    if isinstance(v, Seq):
        f = SEQ_M.get(name)
        if f and name in ("append", "extend", "pop", "remove", "insert", "clear", "reverse", "sort") and v.kind != "list":
            raise PyRaise(AttributeError)
    elif isinstance(v, SetV):
        f = SET_M.get(name)
        if f and name in ("add", "update", "discard", "remove", "clear", "pop") and v.kind != "set":
            raise PyRaise(AttributeError)
    elif isinstance(v, DictV):
        f = DICT_M.get(name)
    elif is_strv(v):
        f = STR_M.get(name)
        if f is None and isinstance(v, str):
            m = getattr(v, name, MISSING)
            if m is MISSING:
                raise PyRaise(AttributeError)
            if not callable(m):
                return m

            def nat(it2, a, k):
                if all(is_host(x) for x in a):
                    return it2.lift(m(*a, **k))
                raise Unsupported(f"str.{name}")

            return Native(nat, name)
        if f is None:
            if not hasattr(str, name):
                raise PyRaise(AttributeError)

            def opq(it2, a, k):
                return it2.mk(F(f"str.{name}/{len(a)}", *([V] * (len(a) + 1)), V)(it2.to_v(v), *[it2.to_v(x) for x in a]), TStr)

            if name in ("strip", "lower", "upper", "lstrip", "rstrip", "replace", "title"):
                return Native(opq, name)
    elif isinstance(v, View):
        if name == "__iter__":
            return Native(lambda it2, a, k: v, name)
    if f is None:
        cls = it.pyclass(v) if not isinstance(v, View) else None
        if cls is not None and not hasattr(cls, name):
            raise PyRaise(AttributeError)
        raise Unsupported(f"method {name} of {type(v).__name__}")
    return Native(lambda it2, a, k: f(it2, v, *a, **k), name)


def m_append(it, v, x):
    mutate(it, v, "segs", v.segs + (E(x),))


def m_extend(it, v, xs):
    mutate(it, v, "segs", tuple(it.norm_segs(v.segs + to_seq(it, xs).segs)))


def m_pop(it, v, i=-1):
    if not v.segs:
        raise PyRaise(IndexError)
    if i == -1 and isinstance(v.segs[-1], E):
        x = v.segs[-1].v
        mutate(it, v, "segs", v.segs[:-1])
        return x
    if i == 0 and isinstance(v.segs[0], E):
        x = v.segs[0].v
        mutate(it, v, "segs", v.segs[1:])
        return x
    raise Unsupported("pop of an opaque list")


def m_index(it, v, x, lo=0, hi=None):
    w = v if lo == 0 and hi is None else slice_(it, v, lo, hi, None)
    off = lo
    if all(isinstance(s, E) for s in w.segs):
        for i, s in enumerate(w.segs):
            if it.truth(eq(it, s.v, x)):
                return off + i
        raise PyRaise(ValueError)
    for s in w.segs:
        if isinstance(s, E):
            if it.truth(eq(it, s.v, x)):
                return off
            off = off + 1
            continue
        if isinstance(s, S):
            ix = it.ctx.fresh_ix()
            n = slen(s.t)
            c = eq(it, it.mk(sat(s.t, ix), s.ety), x)
        elif it.is_map(s):
            ix, n = s.ix, s.n
            c = b_or([z3.And(z3b(cc), z3b(eq(it, ss[0].v, x))) for cc, ss in s.cases])
        else:
            raise Unsupported("index")
        if c is not False:
            P, k = it.ctx.exists(n, ix, z3b(c), n)
            if it.ctx.branch(P):
                return z3.simplify(off + k)
        off = z3.simplify(off + n)
    raise PyRaise(ValueError)


def m_count(it, v, x):
    raise Unsupported("count")


def m_insert(it, v, i, x):
    if i == 0:
        mutate(it, v, "segs", (E(x),) + v.segs)
        return None
    raise Unsupported("insert")


def m_reverse(it, v):
    mutate(it, v, "segs", tuple(rev_segs(it, v.segs)))


def m_copy(it, v):
    return Seq(v.kind, v.segs)


def m_clear(it, v):
    mutate(it, v, "segs", ())


def m_remove(it, v, x):
    """list.remove: of a list of known elements, or of an opaque one (without its first element equal to x)."""
    if not it.truth(contains(it, x, v)):
        raise PyRaise(ValueError)
    if len(v.segs) == 1 and isinstance(v.segs[0], S):
        s = v.segs[0]
        r = reify.keep(F("removed", V, V, V)(s.t, key_t(it, x)))
        it.ctx.assume(slen(r) == slen(s.t) - 1)
        mutate(it, v, "segs", (S(r, s.ety),))
        return
    for i, s in enumerate(v.segs):
        if not isinstance(s, E):
            raise Unsupported("removing from a computed list")
        if it.truth(eq(it, s.v, x)):
            mutate(it, v, "segs", v.segs[:i] + v.segs[i + 1:])
            return
    raise Unsupported("list.remove")


SEQ_M = {"append": m_append, "remove": m_remove, "extend": m_extend, "pop": m_pop, "index": m_index, "insert": m_insert, "reverse": m_reverse,
         "copy": m_copy, "clear": m_clear, "__iter__": lambda it, v: v, "__len__": lambda it, v: it.seq_len(v),
         "__contains__": lambda it, v, x: contains(it, x, v), "__getitem__": lambda it, v, k: getitem(it, v, k)}


def s_add(it, v, x):
    e = v.expr
    if e[0] == "enum" and is_host(x) and all(is_host(y) for y in e[1]):
        if x not in e[1]:
            mutate(it, v, "expr", ("enum", e[1] + [x]))
        return
    mutate(it, v, "expr", ("union", e, ("enum", [x])))


def s_update(it, v, *xs):
    for x in xs:
        o = x if isinstance(x, SetV) else mkset("set", to_seq(it, x).segs)
        mutate(it, v, "expr", set_op(it, "union", v, o).expr)


def s_discard(it, v, x):
    mutate(it, v, "expr", set_op(it, "diff", v, SetV("set", ("enum", [x]))).expr)


def s_binop(op):
    def f(it, v, *xs):
        r = v
        for x in xs:
            o = x if isinstance(x, SetV) else mkset("set", to_seq(it, x).segs)
            r = set_op(it, op, r, o)
        return SetV(v.kind, r.expr)

    return f


def as_set(it, x):
    return x if isinstance(x, SetV) else mkset("set", to_seq(it, x).segs)


SET_M = {"add": s_add, "update": s_update, "discard": s_discard, "union": s_binop("union"), "intersection": s_binop("inter"),
         "difference": s_binop("diff"), "copy": lambda it, v: SetV(v.kind, v.expr),
         "issubset": lambda it, v, x: subset(it, v, as_set(it, x)), "issuperset": lambda it, v, x: subset(it, as_set(it, x), v),
         "isdisjoint": lambda it, v, x: b_not(nonempty_e(it, ("inter", v.expr, as_set(it, x).expr))),
         "__contains__": lambda it, v, x: mem(it, x, v), "__iter__": lambda it, v: to_seq(it, v)}


def d_get(it, v, k, default=None):
    r = dict_lookup(it, v, k)
    return default if r is MISSING else r


def d_setdefault(it, v, k, default=None):
    r = dict_lookup(it, v, k)
    if r is MISSING:
        setitem(it, v, k, default)
        return default
    return r


def d_pop(it, v, k, *default):
    if all(x[0] == "kv" for x in v.entries):
        for i, x in enumerate(v.entries):
            if it.truth(eq(it, x[1], k)):
                mutate(it, v, "entries", v.entries[:i] + v.entries[i + 1:])
                return x[2]
        if default:
            return default[0]
        raise PyRaise(KeyError)
    if all(x[0] == "kv" or x[0] == "sym" and disjoint(it, x[2], k) for x in v.entries):
        for i, x in enumerate(v.entries):
            if x[0] == "kv" and it.truth(eq(it, x[1], k)):
                mutate(it, v, "entries", v.entries[:i] + v.entries[i + 1:])
                return x[2]
        if default:
            return default[0]
        raise PyRaise(KeyError)
    raise Unsupported("dict.pop")


def disjoint(it, ty, k):
    """No value of the type equals k."""
    return ty.kind in ("str", "enum") and k is None or not types_meet(it, ty, k)


def d_update(it, v, *a, **k):
    for o in a:
        if isinstance(o, DictV):
            mutate(it, v, "entries", v.entries + o.entries)
        else:
            raise Unsupported("dict.update")
    for n, x in k.items():
        setitem(it, v, n, x)


DICT_M = {"get": d_get, "keys": lambda it, v: View(v, "keys"), "values": lambda it, v: View(v, "values"),
          "items": lambda it, v: View(v, "items"), "setdefault": d_setdefault, "pop": d_pop, "update": d_update,
          "copy": lambda it, v: DictV(v.entries), "__contains__": lambda it, v, k: dict_has(it, v, k),
          "__getitem__": lambda it, v, k: getitem(it, v, k), "__iter__": lambda it, v: to_seq(it, v)}


def st_join(it, v, xs):
    return join(it, v, xs)


def st_format(it, v, *a, **k):
    if not isinstance(v, str):
        raise Unsupported("format of an opaque string")
    import string

    parts = []
    auto = 0
    for lit_, fld, spec, conv in string.Formatter().parse(v):
        parts.append(lit_)
        if fld is None:
            continue
        if spec or conv:
            raise Unsupported("format spec")
        if fld == "":
            x = a[auto]
            auto += 1
        elif fld.isdigit():
            x = a[int(fld)]
        elif fld in k:
            x = k[fld]
        else:
            raise Unsupported("format field")
        parts.append(str_(it, x))
    return it.norm_str(Str(parts))


EDGE = z3.Const("$edge", V)  # no white space here (texts of which only the tokens matter)


def st_strip(it, v, *a):
    """The text without white space at its ends; where only tokens matter, the ends are marked."""
    v = it.norm_str(v)
    if isinstance(v, str) and all(isinstance(x, str) for x in a):
        return v.strip(*a)
    if a or not it.w.__dict__.get("tokens_only"):
        return it.mk(F(f"str.strip/{len(a)}", *([V] * (len(a) + 1)), V)(it.to_v(v), *[it.to_v(x) for x in a]), TStr)
    ps = list(v.parts) if isinstance(v, Str) else [v]
    e = Sym(EDGE, TStr)
    return it.norm_str(Str([e] + ps + [e]))


def st_startswith(it, v, p):
    v = it.norm_str(v)
    if isinstance(v, str) and isinstance(p, str):
        return v.startswith(p)
    return F("startswith", V, V, B)(it.to_v(v), it.to_v(p))


STR_M = {"join": st_join, "format": st_format, "startswith": st_startswith, "strip": st_strip, "splitlines": st_splitlines, "__str__": lambda it, v: v,
         "encode": None}
STR_M = {k: f for k, f in STR_M.items() if f}


def regex(it, pat, name, args):
    s = args[0]
    if isinstance(s, Obj) and "$str" in s.fields:
        s = s.fields["$str"]
    if isinstance(s, Uni):
        s = s.force(it)
    s = it.norm_str(s) if isinstance(s, Str) else s
    if isinstance(s, str):
        return Match(name, s) if getattr(pat, name)(s) else None
    if not is_strv(s):
        raise PyRaise(TypeError)
    from pyvc import regexlang

    nm = regexlang.name_of(pat, name)
    if nm not in it.w.regexes:
        it.w.regexes[nm] = lambda x: bool(getattr(pat, name)(x))
    for n, c, v in list(it.w.__dict__.setdefault("_lits", {}).values()):
        if isinstance(v, str) and ("re", nm, n) not in it.ctx.litfacts:
            it.ctx.litfacts[("re", nm, n)] = reify.keep(F(nm, V, B)(c) == it.w.regexes[nm](str(v)))
    c = F(nm, V, B)(it.to_v(s))
    return Match(name, s) if it.ctx.branch(c) else None


def group(it, m, a):
    if a and not (len(a) == 1 and a[0] == 0):
        raise Unsupported("group of a match")
    return m.text


def bi_re(method):
    """re.match(pattern, text, flags) and the like, with a pattern that is known."""
    def h(it, a, k):
        k = dict(zip(("pattern", "string", "flags"), a), **k)
        pat, flags = conc(it, k["pattern"]), conc(it, k.get("flags", 0))
        if isinstance(pat, str):
            pat = re.compile(pat, flags)
        if not isinstance(pat, re.Pattern) or not isinstance(flags, int):
            raise Unsupported("pattern that is not known")
        return regex(it, pat, method, [k["string"]])
    return h


def conc(it, v):
    """The str of the library that a value is, if its text is known."""
    v = it.norm_str(v) if isinstance(v, Str) else v
    return str(v) if isinstance(v, str) else v


def singledispatchmethod(it, a, self, args, kw):
    """functools.singledispatchmethod: dispatch on the class of the first argument."""
    return dispatch(it, a.dispatcher, self, args, kw)


def dispatch(it, disp, self, args, kw):
    v = args[0]
    if isinstance(v, Uni):
        v = v.force(it)
        args = [v] + list(args[1:])
    if isinstance(v, Sym) and v.ty.kind == "cls":
        groups = {}
        for c in sorted(it.classes_of(v), key=clskey):
            groups.setdefault(disp.dispatch(c), set()).add(c)
        while len(groups) > 1:
            f, g = next(iter(groups.items()))
            if it.narrow(v, g):
                groups = {f: g}
            else:
                del groups[f]
        f = next(iter(groups))
    elif isinstance(v, (View, Lazy)):
        f = disp.dispatch(type({}.keys()))
    else:
        f = disp.dispatch(next(iter(it.classes_of(v))))
    return it.call(f, ([self] if self is not MISSING else []) + list(args), kw)


def slot(it, a, self, args, kw):
    """Slot wrappers of builtin types reached by super() or by a class attribute."""
    nm = getattr(a, "__name__", str(a))
    if nm == "__init__":
        return None
    if nm == "__call__" and isinstance(self, type):
        return it.type_call(self, args, kw)
    if nm == "__call__" and self is None:
        return it.type_call(args[0], args[1:], kw)
    if nm == "__eq__":
        r = is_(it, self, args[0]) if not isinstance(self, type) else self is args[0]
        return r if r is not False else NotImplemented
    if nm in ("__lt__", "__le__", "__gt__", "__ge__"):
        return NotImplemented
    if nm == "__ne__":
        r = it.call(it.getattr_(self, "__eq__"), [args[0]], {})
        return r if r is NotImplemented else b_not(it.truthz(r))
    if nm == "__hash__":
        return F("idhash", V, I)(it.to_v(self))
    if nm == "__str__" or nm == "__repr__":
        return call_str(it, self, "__repr__") if nm == "__str__" and not isinstance(self, str) else repr_(it, self)
    if nm == "__setattr__":
        it.setattr_(self, args[0], args[1])
        return None
    if nm == "__new__":
        o = Obj(args[0])
        if issubclass(args[0], str):
            if len(args) != 2 or not is_strv(args[1]):
                raise Unsupported("string from something else")
            o.fields["$str"] = args[1]
        elif len(args) != 1:
            raise Unsupported("__new__ with arguments")
        return o
    if nm == "__getstate__" and isinstance(self, Obj):
        return DictOf(self)
    if nm == "__getattribute__":
        return it.getattr_(self, args[0])
    raise Unsupported(f"slot {nm}")


# ---------------------------------------------------------------- builtin functions
def bi_len(it, a, k):
    v = a[0]
    if isinstance(v, Uni):
        v = v.force(it)
    if isinstance(v, Seq):
        n = it.seq_len(v)
        return n.as_long() if z3.is_int_value(n) else n
    if isinstance(v, SetV):
        return set_len(it, v)
    if isinstance(v, View):
        v = v.d
    if isinstance(v, DictV):
        if len(v.entries) == 0:
            return 0
        if len(v.entries) == 1 and v.entries[0][0] == "sym":
            return slen(dict_ord(it, v.entries[0][1]))
        return bi_len(it, [dict_keys(it, v)], {})
    if isinstance(v, str):
        return len(v)
    if is_strv(v):
        n = F("strlen", V, I)(it.to_v(v))
        it.ctx.assume(n >= 0)
        return n
    if v is None:
        raise PyRaise(TypeError)
    raise Unsupported(f"len of {type(v).__name__}")


def bi_seq(kind):
    def f(it, a, k):
        if not a:
            return Seq(kind, [])
        return Seq(kind, it.norm_segs(to_seq(it, a[0]).segs))

    return f


def bi_set(kind):
    def f(it, a, k):
        if not a:
            return SetV(kind, ("enum", []))
        if isinstance(a[0], SetV):
            return SetV(kind, a[0].expr)
        segs = it.norm_segs(to_seq(it, a[0]).segs)
        r = mkset(kind, segs)
        if r.expr[0] == "enum":
            out = []
            for x in r.expr[1]:
                if is_host(x) and any(is_host(y) and y == x and type(x) is type(y) for y in out):
                    continue
                out.append(x)
            r = SetV(kind, ("enum", out))
        return r

    return f


def bi_dict(it, a, k):
    if a:
        v = a[0]
        if isinstance(v, DictOf):
            d = fields_dict(it, v)
        elif isinstance(v, DictV):
            d = DictV(v.entries)
        else:
            d = dict_of_pairs(it, to_seq(it, v))
    else:
        d = DictV([])
    for n, x in k.items():
        setitem(it, d, n, x)
    return d


def dict_of_pairs(it, sq):
    ent = []
    for s in sq.segs:
        if isinstance(s, E):
            k, v = it.unpack(s.v, [None, None]) if not isinstance(s.v, Seq) else [x.v for x in s.v.segs]
            ent.append(("kv", k, v))
        elif isinstance(s, C):
            cs = []
            for c, ss in s.cases:
                if len(ss) == 0:
                    continue
                if len(ss) != 1 or not isinstance(ss[0], E):
                    raise Unsupported("dict of nested pairs")
                p = ss[0].v
                cs.append((z3b(c), p.segs[0].v, p.segs[1].v))
            if cs:
                ent.append(("comp", s.n, s.ix, cs))
        elif isinstance(s, S):
            ix = it.ctx.fresh_ix()
            p = it.mk(sat(s.t, ix), s.ety)
            if not isinstance(p, Seq):
                raise Unsupported("dict of opaque pairs")
            ent.append(("comp", slen(s.t), ix, [(z3.BoolVal(True), p.segs[0].v, p.segs[1].v)]))
    return norm_dict(it, DictV(ent))


def norm_dict(it, d):
    """{k: v for k, v in m.items()} is a copy of m."""
    return DictV([copied(it, e) or e for e in d.entries])


def copied(it, e):
    """The map of which a computed entry is a copy."""
    if e[0] != "comp" or len(e[3]) != 1 or not z3.is_true(z3.simplify(z3b(e[3][0][0]))):
        return None
    _, n, ix, ((_, k, v),) = e
    vt, vty = (v.t, v.ty) if isinstance(v, (Sym, Uni)) else (None, None)
    if isinstance(v, Seq) and len(v.segs) == 1 and isinstance(v.segs[0], S):
        vt, vty = v.segs[0].t, TSeq(v.segs[0].ety, v.kind)
    if isinstance(k, Sym) and vt is not None and z3.is_app(k.t) and k.t.decl().eq(sat) and k.t.arg(1).eq(ix):
        o = k.t.arg(0)
        if z3.is_app(o) and o.decl().name() == "keys" and z3.simplify(n).eq(z3.simplify(slen(o))):
            m = o.arg(0)
            if z3.is_app(vt) and vt.decl().eq(mget) and vt.arg(0).eq(m) and vt.arg(1).eq(key_t(it, k)):
                return ("sym", m, k.ty, vty)
    return None


def bi_zip(it, a, k):
    sqs = [to_seq(it, x) for x in a]
    if all(all(isinstance(s, E) for s in q.segs) for q in sqs):
        n = min(len(q.segs) for q in sqs)
        return Seq("list", [E(Seq("tuple", [E(q.segs[i].v) for q in sqs])) for i in range(n)])
    ns = [it.seq_len(q) for q in sqs]
    n = ns[0]
    for m in ns[1:]:
        if it.ctx.proves(n == m):
            continue
        n = z3.If(n <= m, n, m)
    ix = it.ctx.fresh_ix()
    ctx = it.ctx
    it.ctx.ixs.append(ix)
    try:
        els = []
        for q in sqs:
            if len(q.segs) != 1:
                raise Unsupported("zip of composite sequences")
            els.append(one_at(it, q.segs[0], ix))
    finally:
        it.ctx.ixs.pop()
    return Seq("list", [C(z3.simplify(n), ix, [(True, (E(Seq("tuple", [E(x) for x in els])),))])])


def one_at(it, s, i):
    """Element of a segment at a generic index, without taking decisions."""
    if isinstance(s, S):
        return it.mk_lazy(sat(s.t, i), s.ety)
    if isinstance(s, C) and it.is_map(s) and len(s.cases) == 1:
        return it.subst(s.cases[0][1][0].v, s.ix, i)
    raise Unsupported("generic element of a case-dependent sequence")


def bi_enumerate(it, a, k):
    sq = to_seq(it, a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if all(isinstance(s, E) for s in sq.segs):
        return Seq("list", [E(Seq("tuple", [E(start + i), E(s.v)])) for i, s in enumerate(sq.segs)])
    if len(sq.segs) != 1:
        raise Unsupported("enumerate of a composite sequence")
    s = sq.segs[0]
    if isinstance(s, S):
        ix = it.ctx.fresh_ix()
        return Seq("list", [C(slen(s.t), ix, [(True, (E(Seq("tuple", [E(start + ix), E(it.mk_lazy(sat(s.t, ix), s.ety))])),))])])
    if it.is_map(s):
        return Seq("list", [C(s.n, s.ix, [(c, (E(Seq("tuple", [E(start + s.ix), ss[0]])),)) for c, ss in s.cases])])
    raise Unsupported("enumerate")


def bi_range(it, a, k):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return Seq("list", [E(i) for i in range(lo, hi, st)])
    if st == 1:
        n = z3.simplify(z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)))
        if it.ctx.proves(hi - lo >= 0):
            n = z3.simplify(z3.IntVal(0) + hi - lo)
        ix = it.ctx.fresh_ix()
        return Seq("list", [C(n, ix, [(True, (E(lo + ix),))])])
    raise Unsupported("range with a step")


def bi_map(it, a, k):
    f, rest = a[0], a[1:]

    def run(it2, emit):
        sq = to_seq(it2, rest[0]) if len(rest) == 1 else bi_zip(it2, rest, {})

        def body(x):
            args = [x] if len(rest) == 1 else [s.v for s in x.segs]
            emit(it2.call(f, args, {}))

        loops.run_loop(it2, sq, body)

    return Lazy(run)


def bi_filter(it, a, k):
    f, xs = a
    if isinstance(xs, Obj) and xs.cls is Lines:
        if f is str.strip or f is None:
            return xs
        raise Unsupported("filter of lines")

    def run(it2, emit):
        def body(x):
            r = it2.truth(x) if f is None else it2.truth(it2.call(f, [x], {}))
            if r:
                emit(x)

        loops.run_loop(it2, to_seq(it2, xs), body)

    return Lazy(run)


def bi_anyall(isany):
    def f(it, a, k):
        v = a[0]

        def body(x):
            if it.truth(x) == isany:
                raise loops.Found(isany)

        try:
            if isinstance(v, Lazy):
                v.fn(it, body)
            else:
                loops.run_loop(it, to_seq(it, v), body)
        except loops.Found as e:
            return e.v
        return not isany

    return f


def bi_next(it, a, k):
    v = a[0]

    def body(x):
        raise loops.Found(x)

    try:
        if isinstance(v, Lazy):
            v.fn(it, body)
        else:
            q = to_seq(it, v)
            if len(q.segs) == 1 and (isinstance(q.segs[0], S) or isinstance(q.segs[0], C) and it.is_map(q.segs[0])):
                n = it.seq_len(q)
                if it.ctx.branch(n >= 1):
                    return it.seq_at(q, z3.IntVal(0))
            else:
                loops.run_loop(it, q, body)
    except loops.Found as e:
        return e.v
    if len(a) > 1:
        return a[1]
    raise PyRaise(StopIteration)


def sorted_facts(it, n):
    """The length of the sorted list of a set."""
    if z3.is_app(n) and n.decl().eq(slen) and z3.is_app(n.arg(0)) and n.arg(0).decl().name() == "sorted":
        it.ctx.assume(z3.And(n >= 0, n == F("card", V, I)(n.arg(0).arg(0))))


def bi_sorted(it, a, k):
    v = a[0]
    key = k.get("key")
    rev = k.get("reverse", False)
    base = None
    if isinstance(v, SetV) and v.expr[0] == "sym":
        base, ety, n = v.expr[1], v.expr[2], F("card", V, I)(v.expr[1])
    sq = to_seq(it, v)
    if all(isinstance(s, E) for s in sq.segs) and len(sq.segs) <= 1:
        return Seq("list", sq.segs)
    if all(isinstance(s, E) for s in sq.segs) and key is None and all(is_host(s.v) for s in sq.segs):
        try:
            return Seq("list", [E(x) for x in sorted([s.v for s in sq.segs], reverse=rev)])
        except TypeError:
            raise PyRaise(TypeError)
    if base is None and it.w.__dict__.get("sorted_texts") and len(sq.segs) == 1 and isinstance(sq.segs[0], C):
        r = sorted_texts(it, sq.segs[0], rev, key)
        if r is not None:
            return r
    if base is None:
        base, ety, n = it.to_v(Seq("list", sq.segs)), set_ety(it, SetV("set", ("seq", sq.segs))), it.seq_len(sq)
    # elements without an order make sorted raise
    if key is None and ety.kind in ("cls", "any", "union"):
        h = it.w.__dict__.get("sortable")
        if h is None or not h(it, ety):
            raise Unsupported(f"sorted of {ety}")
    args = [base]
    nm = "sorted" + ("-rev" if rev else "")
    if key is not None:
        el = it.mk(z3.Const(f"$elem:{ety}", V), ety)
        kv = it.call(key, [el], {})
        args.append(it.to_v(kv))
        nm = "sortedby" + ("-rev" if rev else "")
    if not (isinstance(v, SetV) and v.expr[0] == "sym"):
        nm += "-seq"
    t = F(nm, *([V] * len(args)), V)(*args)
    it.ctx.keep.append(t)
    it.ctx.once(("sorted", t.get_id()), slen(t) == n)
    if key is not None:
        # elements with the same key are not ordered: does the key tell all elements apart?
        ks = [x.v for x in kv.segs if isinstance(x, E)] if isinstance(kv, Seq) else [kv]
        one = any(isinstance(x, Sym) and (x.t.eq(el.t) or z3.is_app(x.t) and x.t.decl().name() in ("Variable.name", "str") and x.t.arg(0).eq(el.t)) for x in ks)
        it.ctx.dset(it.ctx.known, "ordered lists", it.ctx.known.get("ordered lists", ()) + (((t,),) if one else ()))
    if key is not None and isinstance(kv, Seq) and isinstance(kv.segs[0], E) and z3.is_expr(kv.segs[0].v) and z3.is_bool(kv.segs[0].v):
        # what the first component of the key is true of comes last (first, if reversed)
        c = kv.segs[0].v
        it.ctx.dset(it.ctx.known, "boolkeys", it.ctx.known.get("boolkeys", ()) + ((t, el.t, z3.Not(c) if rev is True else c),))
    if isinstance(v, SetV) and v.expr[0] == "sym" and ety.kind == "str" and key is None:
        # a sorted list of strings determines the set, and the set determines it
        ss = it.ctx.known.get(("sortedsets", nm), ())
        for s0, t0 in ss:
            if not s0.eq(base):
                it.ctx.assume((canon(t0) == canon(t)) == (canon(s0) == canon(base)))
        if not any(s0.eq(base) for s0, _ in ss):
            it.ctx.dset(it.ctx.known, ("sortedsets", nm), ss + ((base, t),))
    permutation(it, t, sq.segs[0].t if len(sq.segs) == 1 and isinstance(sq.segs[0], S) else base)
    return Seq("list", [S(t, ety)])


def sorted_texts(it, c, rev, key=None):
    """sorted(f(x) for x in xs) is f(x) for x in sorted(xs, key=f), if f(x) is a text that depends on x only; the same with another key."""
    lists, ks = [], []
    for cnd, ss in c.cases:
        if len(ss) != 1 or not isinstance(ss[0], E):
            return None
        it.ctx.ixs.append(c.ix)
        try:
            k = ss[0].v if key is None else it.call(key, [ss[0].v], {})
        finally:
            it.ctx.ixs.pop()
        if not is_strv(k):
            return None
        ks.append(k)
        todo, seen = terms_in((k, ss[0].v, cnd)), set()
        while todo:
            u = todo.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_app(u) and u.decl().eq(sat) and u.arg(1).eq(c.ix):
                if not any(u.arg(0).eq(x) for x in lists):
                    lists.append(u.arg(0))
            if z3.is_quantifier(u):
                return None
            todo.extend(u.children())
    if len(lists) != 1 or not it.ctx.proves(c.n == slen(lists[0])):
        return None
    u = lists[0]
    el = z3.Const("$element", V)
    fs = []
    for (cnd, ss), k in zip(c.cases, ks):
        for t in terms_in((cnd, k, ss[0].v)):
            t = z3.substitute(t, (sat(u, c.ix), el))
            if any(x.eq(c.ix) for x in reify.ixvars(t)):
                return None
            fs.append(t)
    apart = key is None or len(ks) == 1 and it.to_v(ks[0]).eq(sat(u, c.ix)) and z3.is_app(u) and u.decl().name() in ("keys", "ord")
    if key is not None:
        fs = [it.to_v(k) for k in ks]
        fs = [z3.substitute(t, (sat(u, c.ix), el)) for t in fs]
    src = enumerates(u) if z3.is_app(u) else None
    nm = ("sortedtexts" if key is None else "sortedby") + ("-rev" if rev else "") + ("" if src is not None else "-seq")
    p = reify.keep(F(nm, V, V, V)(src if src is not None else u, function(it, fs)))
    it.ctx.once(("sorted", p.get_id()), slen(p) == c.n)
    if apart:
        it.ctx.dset(it.ctx.known, "ordered lists", it.ctx.known.get("ordered lists", ()) + ((p,),))
    permutation(it, p, u)
    jx = it.ctx.fresh_ix()
    put = lambda t: z3.substitute(t, (sat(u, c.ix), sat(p, jx)))  # noqa
    out = []
    for cnd, ss in c.cases:
        v = relist(it, ss[0].v, u, c.ix, p, jx)
        out.append((cnd if isinstance(cnd, bool) else reify.keep(put(cnd)), (E(v),)))
    return Seq("list", [C(c.n, jx, out)])


def function(it, fs):
    """A name for what is made of these terms: the same for the same terms, whatever the indices bound in them are called."""
    ixs = {}
    for t in fs:
        for x in reify.ixvars(t):
            if not any(x.eq(y) for y in it.ctx.ixs):
                ixs.setdefault(x.get_id(), x)
    fs = [z3.substitute(t, *[(x, z3.Int(f"$i{k}")) for k, x in enumerate(ixs.values())]) if ixs else t for t in fs]
    free, done, todo = {}, set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.decl().name().startswith("$"):
            free[t.decl().name()] = t
        todo.extend(t.children())
    free = [free[k] for k in sorted(free)]
    nm = "by:" + hashlib.md5("|".join(t.sexpr() for t in fs).encode()).hexdigest()[:12]
    return F(nm, *([x.sort() for x in free] + [V]))(*free) if free else z3.Const(nm, V)


def terms_in(v):
    """The terms that a value is made of."""
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, Sym):
        return [v.t]
    if isinstance(v, Str):
        return terms_in(v.parts)
    if isinstance(v, Rep):
        return terms_in((v.n, v.cases))
    if isinstance(v, Seq):
        return terms_in(v.segs)
    if isinstance(v, E):
        return terms_in(v.v)
    if isinstance(v, S):
        return [v.t]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in terms_in(x)]
    if v is None or isinstance(v, (bool, int, str)):
        return []
    raise Unsupported(f"sorted: {v}")


def relist(it, v, u, ix, p, jx):
    """The value with the element of p at jx for that of u at ix."""
    if isinstance(v, Sym):
        return Sym(reify.keep(z3.substitute(v.t, (sat(u, ix), sat(p, jx)))), v.ty)
    if isinstance(v, Str):
        return Str([relist(it, q, u, ix, p, jx) if not isinstance(q, str) else q for q in v.parts])
    if isinstance(v, Rep):
        sub = lambda t: t if isinstance(t, (bool, int)) else reify.keep(z3.substitute(t, (sat(u, ix), sat(p, jx))))  # noqa
        return Rep(sub(v.n), v.ix, [(sub(c), tuple(relist(it, q, u, ix, p, jx) if not isinstance(q, str) else q for q in ps)) for c, ps in v.cases])
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    sub = lambda t: t if isinstance(t, (bool, int)) else reify.keep(z3.substitute(t, (sat(u, ix), sat(p, jx))))  # noqa
    if isinstance(v, Seq):
        segs = []
        for x in v.segs:
            if isinstance(x, E):
                segs.append(E(relist(it, x.v, u, ix, p, jx)))
            elif isinstance(x, S):
                segs.append(S(sub(x.t), x.ety))
            else:
                raise Unsupported("sorted")
        return Seq(v.kind, segs)
    raise Unsupported(f"sorted: {v}")


def bi_reversed(it, a, k):
    return Seq("list", rev_segs(it, to_seq(it, a[0]).segs))


def bi_type(it, a, k):
    v = a[0]
    if isinstance(v, Uni):
        v = v.force(it)
    if isinstance(v, Sym) and v.ty.kind == "cls":
        return it.exact(v)
    if isinstance(v, Sym) and v.ty.kind == "num":
        return float if it.isinstance_(v, float) else int
    if isinstance(v, Sym) and v.ty.kind == "str" and v.ty.a and it.w.name_class is not None:
        return it.w.name_class
    if isinstance(v, Sym):
        return next(iter(it.classes_of(v)))
    return it.pyclass(v)


def bi_getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr of an opaque name")
    if len(a) < 3:
        return it.getattr_(a[0], a[1])
    try:
        return it.getattr_(a[0], a[1], a[2])
    except PyRaise as e:
        if e.cls and issubclass(e.cls, AttributeError):
            return a[2]
        raise


def bi_hasattr(it, a, k):
    try:
        r = it.getattr_(a[0], a[1], MISSING)
    except PyRaise as e:
        if e.cls and issubclass(e.cls, AttributeError):
            return False
        raise
    return True


def bi_setattr(it, a, k):
    it.setattr_(a[0], a[1], a[2])


def bi_hash(it, a, k):
    return hash_(it, a[0])


def hfun(it):
    """The hash function of this interpreter process (hash seeds differ between processes)."""
    s = it.w.__dict__.get("seed")
    return F(f"hash{s}", V, I) if s else hashof


def hash_(it, v):
    hashof = hfun(it)
    if isinstance(v, Uni):
        v = v.force(it)
    if isinstance(v, Seq):
        if v.kind == "list":
            raise PyRaise(TypeError)
        if all(isinstance(s, E) for s in v.segs):
            hs = [hash_(it, s.v) for s in v.segs]
            n = len(hs)
            return F(f"htuple{n}", *([I] * n), I)(*hs) if n else hashof(it.lit("()"))
        it.hashed.append(v)
        return hashof(canon(it.to_v(v)))
    if isinstance(v, SetV):
        if v.kind == "set":
            raise PyRaise(TypeError)
        it.hashed.append(v)
        return hashof(canon(it.to_v(v)))
    if isinstance(v, DictV):
        raise PyRaise(TypeError)
    if isinstance(v, (Obj,)) or isinstance(v, Sym) and v.ty.kind == "cls":
        h = it.w.__dict__.get("hash_contract")
        if h is not None:
            return h(it, v)
        return it.call(it.getattr_(v, "__hash__"), [], {})
    if isinstance(v, Sym) and v.ty.kind == "num":
        return F("hashnum", R, I)(rank(v.t))
    if isinstance(v, (int, float)):
        return F("hashnum", R, I)(num_rank(it, v))
    return hashof(key_t(it, v))


def bi_isinstance(it, a, k):
    v = a[0]
    if isinstance(v, Uni):
        v = v.force(it)
    return it.isinstance_(v, a[1])


def bi_issubclass(it, a, k):
    if isinstance(a[1], Seq):
        return any(issubclass(a[0], s.v) for s in a[1].segs)
    return issubclass(a[0], a[1])


def bi_bool(it, a, k):
    if not a:
        return False
    return it.truthz(a[0])


def bi_str(it, a, k):
    if not a:
        return ""
    return str_(it, a[0])


def bi_repr(it, a, k):
    return repr_(it, a[0])


def bi_int(it, a, k):
    v = a[0]
    if is_strv(v):
        if isinstance(v, str):
            return int(v)
        return it.mk(F("parse_int", V, V)(it.to_v(v)), TNum)
    if isinstance(v, bool) or is_z3b(v):
        return v if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int):
        return v
    raise Unsupported("int()")


def bi_float(it, a, k):
    v = a[0]
    if is_strv(v):
        if isinstance(v, str):
            return float(v)
        return it.mk(F("parse_float", V, V)(it.to_v(v)), TNum)
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, Sym) and v.ty.kind == "num":
        return it.mk(F("to_float", V, V)(v.t), TNum)
    raise Unsupported("float()")


def bi_islice(it, a, k):
    sq = to_seq(it, a[0])
    if len(a) == 2:
        return slice_(it, sq, 0, a[1], None)
    return slice_(it, sq, a[1], a[2], None)


def bi_copy(it, a, k):
    v = a[0]
    if isinstance(v, Seq):
        return Seq(v.kind, v.segs)
    if isinstance(v, SetV):
        return SetV(v.kind, v.expr)
    if isinstance(v, DictV):
        return DictV(v.entries)
    if is_host(v) or isinstance(v, Str) or isinstance(v, Sym) and v.ty.kind in ("str", "num", "enum"):
        return v
    if isinstance(v, Sym) and v.ty.kind == "cls":
        h = it.w.__dict__.get("copy_contract")
        if h:
            return h(it, v)
    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.fields))
    raise Unsupported("copy")


def bi_fromkeys(it, a, k):
    """dict.fromkeys: the keys in order of first occurrence."""
    val = a[1] if len(a) > 1 else None
    sq = to_seq(it, a[0])
    d = DictV([])
    if all(isinstance(s, E) for s in sq.segs):
        for s in sq.segs:
            if not any(it.truth(eq(it, s.v, x[1])) for x in d.entries):
                d.entries = d.entries + (("kv", s.v, val),)
        return d
    t = it.to_v(Seq("tuple", sq.segs))
    u = F("dedup", V, V)(t)
    it.ctx.keep.append(u)
    n, m = slen(u), slen(t)
    it.ctx.once(("dedup", u.get_id()), z3.And(n >= 0, n <= m, (n == 0) == (m == 0), z3.Implies(m == 1, sat(u, z3.IntVal(0)) == sat(t, z3.IntVal(0)))))
    ety = set_ety(it, SetV("set", ("seq", sq.segs)))
    return DedupD(t, u, ety, val)


class DedupD(DictV):
    """The result of dict.fromkeys on an opaque sequence (keys enumerate dedup(t))."""

    __slots__ = ("t", "u", "ety", "val", "ent0")

    def __init__(self, t, u, ety, val):
        super().__init__([("comp", slen(u), z3.Int("$dedup"), [(z3.BoolVal(True), Sym(sat(u, z3.Int("$dedup")), ety), val)])])
        self.t, self.u, self.ety, self.val = t, u, ety, val
        self.ent0 = self.entries


def bi_iter(it, a, k):
    return a[0] if isinstance(a[0], Lazy) else to_seq(it, a[0])


def bi_callable(it, a, k):
    return isinstance(a[0], (Closure, Bound, Native, type, pytypes.FunctionType))


def bi_chain(it, a, k):
    segs = []
    for x in a:
        segs.extend(to_seq(it, x).segs)
    return Seq("list", segs)


def bi_minmax(name):
    def f(it, a, k):
        if all(isinstance(x, int) for x in a):
            return getattr(builtins, name)(*a)
        if len(a) == 2 and all(isinstance(x, int) or is_z3i(x) for x in a):
            c = a[0] <= a[1] if name == "min" else a[0] >= a[1]
            return z3.If(c, a[0] if not isinstance(a[0], int) else z3.IntVal(a[0]), a[1] if not isinstance(a[1], int) else z3.IntVal(a[1]))
        raise Unsupported(name)

    return f


HANDLERS = {
    re.match: bi_re("match"), re.fullmatch: bi_re("fullmatch"), re.search: bi_re("search"),
    len: bi_len, tuple: bi_seq("tuple"), list: bi_seq("list"), set: bi_set("set"), frozenset: bi_set("frozenset"), dict: bi_dict,
    zip: bi_zip, enumerate: bi_enumerate, range: bi_range, map: bi_map, filter: bi_filter, any: bi_anyall(True), all: bi_anyall(False),
    next: bi_next, iter: bi_iter, sorted: bi_sorted, reversed: bi_reversed, type: bi_type, getattr: bi_getattr, hasattr: bi_hasattr,
    setattr: bi_setattr, hash: bi_hash, isinstance: bi_isinstance, issubclass: bi_issubclass, bool: bi_bool, str: bi_str,
    repr: bi_repr, int: bi_int, float: bi_float, itertools.islice: bi_islice, copy.copy: bi_copy, copy.deepcopy: bi_copy,
    callable: bi_callable, itertools.chain: bi_chain, min: bi_minmax("min"), max: bi_minmax("max"),
    object: lambda it, a, k: Obj(object),
}
_fromkeys = dict.fromkeys


def lookup(f):
    try:
        h = HANDLERS.get(f)
    except TypeError:
        return None
    if h is not None:
        return h
    if isinstance(f, pytypes.BuiltinFunctionType):
        if f is builtins.format:
            return bi_format
        if f == _fromkeys or (getattr(f, "__name__", "") == "fromkeys" and f.__self__ is dict):
            return bi_fromkeys
        if f.__name__ == "from_iterable":
            return lambda it, a, k: flatten(it, a[0])
        return lambda it, a, k: native_call(it, f, a, k)
    if isinstance(f, functools._lru_cache_wrapper):
        return lambda it, a, k: it.call(f.__wrapped__, a, k)
    if type(f).__name__ == "function" and hasattr(f, "registry") and hasattr(f, "dispatch"):
        return lambda it, a, k: it.w.fn_contracts[f](it, a, k) if f in it.w.fn_contracts and f not in it.active else dispatch(it, f, MISSING, a, k)
    if isinstance(f, (pytypes.MethodDescriptorType, pytypes.WrapperDescriptorType)):
        return lambda it, a, k: slot(it, f, a[0], a[1:], k) if isinstance(a[0], Obj) or isinstance(a[0], Sym) and a[0].ty.kind == "cls" \
            else it.call(it.getattr_(a[0], f.__name__), a[1:], k)
    return None


def flatten(it, v):
    out = Seq("list", [])

    def body(x):
        mutate(it, out, "segs", out.segs + to_seq(it, x).segs)

    loops.run_loop(it, to_seq(it, v), body)
    return out


def bi_format(it, a, k):
    """format(Decimal(text), "f"): the decimal, written without exponent (trusted)."""
    if len(a) == 2 and a[1] == "f" and isinstance(a[0], Sym) and z3.is_app(a[0].t) and a[0].t.decl().name() == "decimal":
        return it.mk(F("positional", V, V)(a[0].t.arg(0)), TStr)
    return native_call(it, format, a, k)


def native_call(it, f, a, k):
    if f is builtins.print:
        raise Unsupported("print")
    if all(is_host(x) for x in a) and all(is_host(x) for x in k.values()):
        try:
            return it.lift(f(*a, **k))
        except Exception as e:  # noqa
            raise PyRaise(type(e), tuple(str(x) for x in e.args))
    raise Unsupported(f"builtin {f.__name__}")


def may_inline(fn):
    """Library functions whose source is interpreted like the code under verification."""
    return fn.__module__ in ("functools",) and fn.__name__.startswith("_") or fn.__code__.co_filename.startswith(SPECDIR)


import os  # noqa: E402

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


def enum_lookup(it, cls, args):
    v = args[0]
    if is_host(v):
        try:
            return cls(v)
        except ValueError:
            raise PyRaise(ValueError)
    if is_strv(v):
        t = it.to_v(v)
        ms = list(cls)
        conds = [t == it.lit(m.value) for m in ms]
        i = it.ctx.choose(conds + [z3.Not(z3.Or(*conds))])
        if i == len(ms):
            raise PyRaise(ValueError)
        return ms[i]
    if isinstance(v, Sym) and v.ty.kind == "enum" and v.ty.a[0] is cls:
        return v
    raise Unsupported("enum lookup")


DELETED = Poison("deleted attribute")
