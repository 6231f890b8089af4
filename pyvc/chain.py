"""The loop that walks up the type hierarchy from a type: its invariant.

below(t): t, or some type above it, is in the set wanted (the least such predicate): below(t) iff t in wanted, or t has
a supertype and it is below.  The loop has a current type (or None) and a set of visited ones.  Invariant, t0 the type
it starts at: t0 is visited or current; no visited type is wanted, and the supertype of each is missing, visited or
current; below(t0) iff below(current); the current type is not visited.
If current is None, then nothing visited is wanted and the visited types are closed under supertypes: none of them is
below (least predicate), so t0 is not.  Each iteration adds to the visited types, which are finitely many: it ends.
"""
import ast

import z3

from pyvc import builtins_ as b
from pyvc.dfs import explore
from pyvc.interp import z3b
from pyvc.nary import assigned_names, no_alias, no_other_writes
from pyvc.same import Mismatch, Same
from pyvc.values import *  # noqa

BELOW = F("below", V, B)


def is_none(v):
    return v is None


def force(it, v):
    return v.force(it) if isinstance(v, b.Uni) else v


def unfold(it, t):
    """below at t: its definition.  Returns the supertype."""
    p = it.__dict__["parent"](it, t)
    w = z3b(b.mem(it, t, it.__dict__["wanted"]))
    it.ctx.assume(BELOW(it.to_v(t)) == (w if p is None else z3.Or(w, BELOW(it.to_v(p)))))
    return p


def while_spec(it, s, fr):
    from pyvc.interp import Break_, Continue_, Return_

    ctx = it.ctx
    if "wanted" not in it.__dict__:
        return False
    wanted, parent = it.__dict__["wanted"], it.__dict__["parent"]
    added = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("add", "update"):
            added.add(n.func.value.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            added.add(n.target.id)
    vs = [n for n in added if isinstance(fr.vars.get(n), SetV) and fr.vars[n].kind == "set"]
    stored = assigned_names(s)
    cs = [n for n in stored if isinstance(force(it, fr.vars.get(n)), Sym) and force(it, fr.vars[n]).ty.kind == "str" and n in
          [x.id for y in [s.test] + s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]]
    if len(vs) != 1 or len(cs) != 1 or s.orelse:
        return False
    vn, cn = vs[0], cs[0]
    c0 = force(it, fr.vars[cn])
    names = [n for n in stored if n not in (vn, cn)]
    if b.to_seq(it, fr.vars[vn]).segs:
        raise Mismatch("nothing is visited at first")
    no_alias(fr, [vn])

    def member(x, q):
        return z3b(b.mem(it, x, q))

    raised = []

    def run():
        start = now()
        sm = Same(it)
        X = it.mk(ctx.fresh("visited", V), TSet(TName, "set"))
        old = SetV("set", X.expr)
        given = SetV("set", X.expr)
        ctx.dset(fr.vars, vn, given)
        for k in names:
            ctx.dset(fr.vars, k, Poison("loop-carried variable"))
        v = it.mk(ctx.fresh("v", V), TName)
        pv = parent(it, v)
        if not ctx.branch(z3.Const(f"more!{s.lineno}", B)):
            # at None the loop ends
            ctx.dset(fr.vars, cn, None)
            t = it.truthz(it.eval(s.test, fr))
            if not (t is False or t is not True and ctx.proves(z3.Not(t))):
                raise Mismatch("the loop goes on although there is no current type")
            return
        c = it.mk(ctx.fresh("current", V), TName)
        ctx.dset(fr.vars, cn, c)
        ctx.assume(z3.Not(member(c, old)))
        ctx.assume(z3.Or(member(c0, old), it.to_v(c0) == it.to_v(c)))
        ctx.assume(z3.Implies(member(v, old), z3.And(z3.Not(member(v, wanted)), z3.BoolVal(True) if pv is None else z3.Or(member(pv, old), it.to_v(pv) == it.to_v(c)))))
        ctx.assume(BELOW(it.to_v(c0)) == BELOW(it.to_v(c)))
        p = unfold(it, c)
        mark = len(ctx.trail)

        def left():
            """The loop is left."""
            y = force(it, fr.vars[cn])
            if y is None:
                closed(fr.vars[vn])
            else:
                sm.prove(member(y, wanted), "the loop is left at a type that is wanted, or above which none is")
                sm.prove(BELOW(it.to_v(c0)) == BELOW(it.to_v(y)), "the type found is on the way up")

        def closed(q):
            sm.prove(member(c0, q), "the first type is visited")
            sm.prove(z3.Implies(member(v, q), z3.Not(member(v, wanted))), "no visited type is wanted")
            if pv is not None:
                sm.prove(z3.Implies(member(v, q), member(pv, q)), "visited types are closed under supertypes")

        if not it.truth(it.eval(s.test, fr)):
            left()
            return
        try:
            it.exec_block(s.body, fr)
        except Continue_:
            pass
        except Break_:
            left()
            return
        except Return_:
            raise Unsupported("return out of the loop")
        except PyRaise as e:
            if e.cls is None:
                raise Unsupported("exception of a callee in the loop")
            # nothing below the current type is wanted
            closed(SetV("set", ("union", old.expr, ("enum", (c,)))))
            raised.append(e.cls)
            return
        no_other_writes(it, mark, start, fr, set(names) | {vn, cn})
        q = fr.vars[vn]
        y = force(it, fr.vars[cn])
        if not isinstance(q, SetV) or not (y is None or b.is_strv(y)):
            raise Unsupported("loop variables")
        if y is None:
            closed(q)
            return
        sm.prove(member(c, q), "the type left is visited")
        sm.prove(z3.Not(member(y, q)), "a type is visited once (termination)")
        sm.prove(z3.Or(member(c0, q), it.to_v(c0) == it.to_v(y)), "the first type is visited")
        sm.prove(z3.Implies(member(v, old), member(v, q)), "visited types stay so")
        sm.prove(z3.Implies(member(v, q), z3.Not(member(v, wanted))), "no visited type is wanted")
        if pv is not None:
            sm.prove(z3.Implies(member(v, q), z3.Or(member(pv, q), it.to_v(pv) == it.to_v(y))), "the supertype of a visited type is visited or current")
        sm.prove(BELOW(it.to_v(c0)) == BELOW(it.to_v(y)), "going up keeps whether a wanted type is above")

    explore(it, run)
    it.w.used.add("walk up the type hierarchy (invariant: chain.py)")
    if ctx.branch(BELOW(it.to_v(c0))):
        d = it.mk(ctx.fresh("found", V), TName)
        ctx.assume(member(d, wanted))
        ctx.dset(fr.vars, cn, d)
    else:
        if raised and ctx.branch(F("raises", V, B)(it.to_v(c0))):
            raise PyRaise(raised[0])
        ctx.dset(fr.vars, cn, None)
    ctx.dset(fr.vars, vn, Poison("visited types"))
    for k in names:
        ctx.dset(fr.vars, k, Poison("loop temporary"))
    return True
