"""The loop that prints the types below each supertype, in an order where a supertype comes before its subtypes.

A list of supertypes remains; an index goes over it; the one at the index is printed and taken from the list, or passed if
it is below one that remains.
Invariant: what remains are supertypes, each once, and the text is that of those taken from the list; the hierarchy has no
cycles (C07), so there is a rank of types, smaller than that of the supertype; no element before the index has the greatest
rank of those that remain.  Shown for one iteration on an arbitrary list that is not empty: either one element is taken out
and its text - the same for every element - is added, and the index is 0, or nothing but the index changes, which grows
(termination).  Nothing is raised.  After the loop: the texts of all supertypes, in some order that depends on them only.
"""
import ast

import z3

from pyvc import builtins_ as b
from pyvc import readback as rb
from pyvc import reify
from pyvc.dfs import explore
from pyvc.interp import z3b
from pyvc.nary import assigned_names, no_alias, no_other_writes
from pyvc.same import Same
from pyvc.values import *  # noqa

RANK = F("rank of type", V, I)


def keys(u):
    return F("keys", V, V)(u)


def groups_of(it):
    gs = list(it.__dict__.get("groups", {}).values())
    return gs[0][0] if len(gs) == 1 else None


def ground(t, u):
    return not any(z3.is_const(x) and x.decl().name().startswith("$") for x in subterms(t, u))


def subterms(t, u):
    """The terms in t, but for what is in the groups."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or x.eq(u):
            continue
        seen.add(x.get_id())
        yield x
        todo.extend(x.children())


def facts(it, u, *fs):
    """Of the types in a group, and of the supertypes, that are spoken of."""
    ks = keys(u)
    for f in list(it.ctx.facts) + list(fs):
        for x in subterms(f, u):
            if not (z3.is_app(x) and x.decl().eq(sat)) or not ground(x, u):
                continue
            o, j = x.arg(0), x.arg(1)
            inside = z3.And(0 <= j, j < slen(o))
            if z3.is_app(o) and o.decl().eq(mget) and o.arg(0).eq(u):
                k = o.arg(1)
                it.ctx.assume(z3.Implies(z3.And(b.dom_fact(it, u, k), inside), RANK(x) < RANK(k)))
            if o.eq(ks) or z3.is_app(o) and b.enumerates(o) is None and o.num_args() and o.arg(0).eq(ks):
                it.ctx.assume(z3.Implies(inside, z3.And(x != b.key_t(it, "object"), b.dom_fact(it, u, x))))
                it.ctx.assume(slen(o) == slen(ks))


def while_spec(is_perm):
    def h(it, s, fr):
        from pyvc.interp import Break_, Return_

        ctx = it.ctx
        u = groups_of(it)
        if u is None or s.orelse:
            return False
        ks = keys(u)
        loaded = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
        stored = assigned_names(s)
        texts = [n for n in stored if isinstance(fr.vars.get(n), (str, Str))]
        lists = [n for n in loaded if isinstance(fr.vars.get(n), Seq) and fr.vars[n].kind == "list" and n in {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}]
        ints = [n for n in stored if isinstance(fr.vars.get(n), int) and not isinstance(fr.vars.get(n), bool)]
        if len(texts) != 1 or len(lists) != 1 or len(ints) > 1:
            raise Unsupported("loop over supertypes")
        tn, ln, cn = texts[0], lists[0], (ints or [None])[0]
        names = [n for n in stored if n not in (tn, ln, cn)]
        text0, first = fr.vars[tn], fr.vars[ln]
        if cn is not None and fr.vars[cn] != 0:
            raise Unsupported("the index does not start at 0")
        no_alias(fr, [ln])
        start_list(it, first, ks, u, is_perm)
        if it.truth(first) is False:
            return False
        got = []

        def run():
            start = now()
            sm = Same(it)
            t = ctx.fresh("remaining", V)
            R = Seq("list", [S(t, TName)])
            ctx.dset(fr.vars, ln, R)
            X = it.mk(ctx.fresh("text", V), TStr)
            ctx.dset(fr.vars, tn, Str([X]))
            for k in names:
                ctx.dset(fr.vars, k, Poison("loop-carried variable"))
            n = slen(t)
            m, j = ctx.fresh("greatest", I), z3.Int("$j")
            i0 = None
            if not ctx.branch(n >= 1):
                ctx.dset(fr.vars, ln, Seq("list", []))
                if cn is not None:
                    ctx.dset(fr.vars, cn, ctx.fresh("index", I))
                v = it.truthz(it.eval(s.test, fr))
                if not (v is False or v is not True and ctx.proves(z3.Not(v))):
                    sm.differ("the loop goes on although nothing remains")
                return
            ctx.assume(z3.And(0 <= m, m < n))
            b.forall(it, j, n, z3.And(b.dom_fact(it, u, sat(t, j)), RANK(sat(t, j)) <= RANK(sat(t, m)), sat(t, j) != b.key_t(it, "object")))
            ctx.add_index(n, m, 1)
            if cn is not None:
                i0 = ctx.fresh("index", I)
                ctx.assume(i0 >= 0)
                b.forall(it, j, n, z3.Implies(j < i0, RANK(sat(t, j)) < RANK(sat(t, m))))
                ctx.add_index(n, i0, 1)
                ctx.dset(fr.vars, cn, i0)
            v = it.truthz(it.eval(s.test, fr))
            if not (v is True or v is not False and ctx.proves(v)):
                sm.differ("the loop ends although supertypes remain")
            mark = len(ctx.trail)
            try:
                it.exec_block(s.body, fr)
            except (Break_, Return_):
                sm.differ("the loop is left")
            except PyRaise as e:
                facts(it, u)
                if ctx.check() != z3.unsat:
                    sm.differ(f"printing types raises {e.cls}")
                return
            except Exception as e:
                if type(e).__name__ != "Continue_":
                    raise
            no_other_writes(it, mark, start, fr, set(names) | {tn, ln, cn})
            facts(it, u)
            R2, txt = fr.vars[ln], fr.vars[tn]
            i2 = fr.vars[cn] if cn is not None else None
            txt = it.norm_str(txt) if isinstance(txt, Str) else txt
            parts = txt.parts if isinstance(txt, Str) else (txt,)
            if not (parts and isinstance(parts[0], Sym) and parts[0].t.eq(X.t)):
                sm.differ("what was printed is not kept")
            delta = parts[1:]
            if R2.segs == R.segs and R2 is R and len(R.segs) == 1 and R.segs[0].t.eq(t):
                if delta:
                    sm.differ("a supertype is printed and remains")
                if i0 is None:
                    raise Unsupported("loop without progress")
                y = ctx.fresh("before", I)
                ctx.assume(z3.And(0 <= y, y < i2, y < n))
                ctx.add_index(n, y, 1)
                facts(it, u)
                sm.prove(RANK(sat(t, y)) < RANK(sat(t, m)), "a supertype that is passed is below one that remains")
                sm.prove(i2 > i0, "the index grows (termination)")
                return
            q = R2.segs[0] if len(R2.segs) == 1 and isinstance(R2.segs[0], S) else None
            if q is None or not (z3.is_app(q.t) and q.t.decl().name() == "removed" and q.t.arg(0).eq(t)):
                raise Unsupported("what remains")
            if cn is not None:
                sm.prove(z3b(b.eq(it, i2, 0)), "the search starts again")
            got.append((q.t.arg(1), delta))

        explore(it, run)
        it.w.used.add("loop over supertypes (invariant: typeorder.py)")
        if not got:
            raise Unsupported("no supertype is printed")
        perm = reify.keep(F("typeorder", V, V)(ks))
        ctx.assume(slen(perm) == slen(ks))
        ix = ctx.fresh_ix()
        x = sat(perm, ix)
        ctx.keep.append(x)
        ds = [tuple(part(it, p, k, x) for p in d) for k, d in got]
        if any(str(d) != str(ds[0]) for d in ds):
            raise Unsupported("texts of supertypes")
        ctx.dset(fr.vars, ln, first)
        b.mutate(it, first, "segs", ())
        old = text0.parts if isinstance(text0, Str) else (text0,)
        ctx.dset(fr.vars, tn, it.norm_str(Str(tuple(old) + (Rep(slen(ks), ix, [(True, ds[0])]),))))
        for k in names + ([cn] if cn is not None else []):
            ctx.dset(fr.vars, k, Poison("loop temporary"))
        return True

    return h


def part(it, p, k, x):
    """A part of the text of the element k, for the element x."""
    if isinstance(p, str):
        return p
    return sub(it, p, k, x)


def sub(it, p, k, x):
    if isinstance(p, Rep):
        return Rep(z3.substitute(p.n, (k, x)), p.ix, [(z3.substitute(z3b(c), (k, x)), tuple(q if isinstance(q, str) else sub(it, q, k, x) for q in ps)) for c, ps in p.cases])
    return it.subst(p, k, x)


def start_list(it, q, ks, u, is_perm):
    """At first, every supertype remains, once, in an order that depends on them only."""
    sg = q.segs[0] if len(q.segs) == 1 else None
    if isinstance(sg, S):
        t = sg.t
    elif isinstance(sg, C) and len(sg.cases) == 1 and len(sg.cases[0][1]) == 1 and isinstance(sg.cases[0][1][0], E) and isinstance(sg.cases[0][1][0].v, Sym):
        x = sg.cases[0][1][0].v.t
        if not (z3.is_app(x) and x.decl().eq(sat) and x.arg(1).eq(sg.ix)):
            raise Unsupported("supertypes")
        t = x.arg(0)
        c = z3b(sg.cases[0][0])
        m = it.ctx.push()
        it.ctx.ixs.append(sg.ix)
        try:
            it.ctx.assume(z3.And(0 <= sg.ix, sg.ix < sg.n))
            facts(it, u, x == x, c)
            Same(it).prove(c, "a supertype is left out")
            facts(it, u, sg.n == slen(t))
            Same(it).prove(sg.n == slen(t), "all supertypes")
        finally:
            it.ctx.ixs.pop()
            it.ctx.pop(m)
    else:
        raise Unsupported("supertypes")
    if not is_perm(it, t, ks):
        Same(it).differ("not the supertypes")
    try:
        rb.order_free(it, t)
    except rb.NoMatch as e:
        Same(it).differ(str(e))
