"""The loop that groups values by key: for x in xs: groups.setdefault(key(x), []).append(value(x)).

Invariant, before the i-th iteration: the keys of the dict are the keys of the first i elements, and at each key is the
list of the values of those of them that have this key.  Shown for one iteration, on an arbitrary dict of lists: the
value of the element is added to the list at its key, which is an empty one if there was none; nothing else is done.
After the loop: the keys that are None are one entry, the others are an opaque dict of non-empty lists.
"""
import ast

import z3

from pyvc import builtins_ as b
from pyvc import reify
from pyvc.dfs import explore
from pyvc.interp import z3b
from pyvc.loops import assigned
from pyvc.nary import no_alias, no_other_writes
from pyvc.same import Same
from pyvc.values import *  # noqa


class Groups:
    """A dict of lists of which nothing is known."""


class Group:
    """The list at a key."""


def present(it, v, k):
    return F("group present", V, B)(b.key_t(it, k))


def is_empty(it, v):
    return isinstance(v, (Seq, SetV)) and z3.is_true(z3.simplify(z3b(it.ctx.proves(z3b(it.seq_len(b.to_seq(it, v)) == 0)))))


def group_at(it, v, k):
    g = Obj(Group)
    it.ctx.dset(g.fields, "of", v)
    it.ctx.dset(g.fields, "key", k)
    return g


def known(it, v, k):
    """A list is there."""
    if any(it.truth(b.eq(it, k, x)) for x in v.fields["new"]):
        return True
    return it.ctx.branch(present(it, v, k))


def m_setdefault(it, v, a, args, kw):
    k, d = args
    if not is_empty(it, d):
        raise Unsupported("default of a group")
    if not known(it, v, k):
        it.ctx.dset(v.fields, "new", v.fields["new"] + (k,))
    return group_at(it, v, k)


def m_contains(it, v, a, args, kw):
    return known(it, v, args[0])


def m_getitem(it, v, a, args, kw):
    if not known(it, v, args[0]):
        raise PyRaise(KeyError)
    return group_at(it, v, args[0])


def m_setitem(it, v, a, args, kw):
    k, x = args
    if not isinstance(x, Seq) or x.kind != "list":
        raise Unsupported("group")
    if known(it, v, k):
        Same(it).differ("a group is replaced")
    it.ctx.dset(v.fields, "new", v.fields["new"] + (k,))
    for s in x.segs:
        if not isinstance(s, E):
            raise Unsupported("group")
        it.ctx.dset(v.fields, "added", v.fields["added"] + ((k, s.v),))


def m_append(it, g, a, args, kw):
    v = g.fields["of"]
    it.ctx.dset(v.fields, "added", v.fields["added"] + ((g.fields["key"], args[0]),))


def methods(w):
    for n, f in (("setdefault", m_setdefault), ("__contains__", m_contains), ("__getitem__", m_getitem), ("__setitem__", m_setitem)):
        w.methods[(Groups, n)] = f
    w.methods[(Group, "append")] = m_append


def for_spec(it, s, fr):
    ctx = it.ctx
    used = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append":
            x = n.func.value
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                x = x.func.value
            elif isinstance(x, ast.Subscript):
                x = x.value
            if isinstance(x, ast.Name):
                used.add(x.id)
    ds = [n for n in used if isinstance(fr.vars.get(n), DictV) and not fr.vars[n].entries]
    if len(ds) != 1:
        return False
    dn = ds[0]
    q = b.to_seq(it, it.eval(s.iter, fr))
    if len(q.segs) != 1 or isinstance(q.segs[0], E) or isinstance(q.segs[0], C) and not it.is_map(q.segs[0]):
        raise Unsupported("loop over groups")
    d = fr.vars[dn]
    no_alias(fr, [dn])
    n = it.seq_len(q)
    ix = ctx.fresh_ix()
    got = []
    names = assigned(s)

    def run():
        from pyvc.interp import Break_, Continue_, Return_

        ctx.ixs.append(ix)
        nf = len(ctx.facts)
        try:
            ctx.assume(z3.And(ix >= 0, ix < n))
            ctx.add_index(n, ix, 0)
            start = now()
            g = Obj(Groups)
            ctx.dset(g.fields, "new", ())
            ctx.dset(g.fields, "added", ())
            ctx.dset(fr.vars, dn, g)
            it.assign(s.target, it.seq_at(q, ix), fr)
            mark = len(ctx.trail)
            try:
                it.exec_block(s.body, fr)
            except Continue_:
                pass
            except (Break_, Return_):
                Same(it).differ("the loop over the elements is left")
            no_other_writes(it, mark, start, fr, set(names) | {dn})
            if fr.vars[dn] is not g:
                raise Unsupported("the groups are another dict")
            added = g.fields["added"]
            if len(added) != 1:
                Same(it).differ(f"{len(added)} values are added for an element")
            k, v = added[0]
            for x in g.fields["new"]:
                Same(it).prove(z3b(b.eq(it, x, k)), "a key without values")
            k = k.force(it) if isinstance(k, b.Uni) else k
            got.append((list(ctx.facts[nf:]), k, v))
        finally:
            ctx.ixs.pop()

    explore(it, run)
    it.w.used.add("grouping by key (invariant: grouping.py)")
    keys = [k for _, k, _ in got if k is not None]
    vals = [v for _, _, v in got]
    if not got:
        return True
    if any(not (isinstance(v, Sym) and v.t.eq(vals[0].t)) for v in vals) or any(not (isinstance(k, Sym) and k.t.eq(keys[0].t)) for k in keys):
        raise Unsupported("groups that depend on the elements")
    vty = vals[0].ty
    src = reify.keep(it.to_v(q))
    args = [src] + ([keys[0].t] if keys else []) + [vals[0].t]
    args = [reify.keep(z3.substitute(x, (ix, z3.Int("$of")))) for x in args]
    u = reify.keep(F("groups", *([V] * (len(args) + 1)))(*args))
    out = []
    it.__dict__.setdefault("groups", {})[u.get_id()] = (u, q, ix, [(fs, k) for fs, k, _ in got], vals[0], n)
    some = None
    if getattr(it.w, "group_facts", None):
        it.w.group_facts(it)
    if keys:
        e = it.mk(u, TMap(keys[0].ty, TSeq(vty, "list")))
        out += list(e.entries)
        some = slen(b.dict_ord(it, u, keys[0].ty)) >= 1
    if len(keys) < len(got):
        r = reify.keep(F("untyped", V, V)(u))
        rest = ctx.branch(slen(r) >= 1)
        if rest:
            out.append(("kv", None, Seq("list", [S(r, vty)])))
        some = z3b(rest) if some is None else z3.Or(z3b(rest), some)
    ctx.assume((n >= 1) == some)
    ctx.dset(fr.vars, dn, d)
    b.mutate(it, d, "entries", tuple(out))
    for k in names:
        ctx.dset(fr.vars, k, Poison("loop temporary"))
    it.exec_block(s.orelse, fr)
    return True
