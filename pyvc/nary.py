"""The flattening loop of And, Or, Plus and Times: its contract, and the loop that must refine it.

flat(kind, idem)(new, stack): the operands obtained from the elements of the stack (last one first),
put after those in new.  Specification, by one step:

    flat(new, [])                    = new
    flat(new, stack + [e])           = flat(new, stack + reversed(e.operands))    if e is of the kind
                                       flat(new, stack)                           if idem and e in new
                                       flat(new + [e], stack)                     otherwise

A while loop over these two variables satisfies it iff it maintains the value of flat (checked on an
arbitrary iteration).  A set variable, if any, must hold exactly the elements of new.
"""
import ast

import z3

from pyvc import builtins_ as b
from pyvc.same import Mismatch, Same
from pyvc.values import *  # noqa

TForm_ = None


def flat_t(it, cls, idem, new, stack):
    it.w.used.add("flat (specification of flattening, lemmas C03/C04)")
    return F(f"flat.{cls.__name__}.{idem}", V, V, V)(it.to_v(Seq("list", new.segs)), it.to_v(Seq("list", stack.segs)))


def spec_flatten(cls, idem, ety):
    """Handler of the contract function: the flattening of a list of operands."""

    def h(it, args, kw):
        ops = args[0]
        st = b.slice_(it, Seq("list", b.to_seq(it, ops).segs), None, None, -1)
        return it.mk(flat_t(it, cls, idem, Seq("list", []), st), TSeq(ety, "list"))

    return h


def _names(s):
    """Roles of the local variables of a while loop, by what is done with them."""
    appended, added, popped = set(), set(), set()
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            v = n.func.value.id
            {"append": appended, "add": added, "pop": popped}.get(n.func.attr, set()).add(v)
    return appended - popped, added, popped


def no_other_writes(it, mark, start, fr, names):
    """Since mark, only what was allocated after start, or the named variables of the frame, was written."""
    ctx = it.ctx
    for k, o, a, _ in ctx.trail[mark:]:
        if k == 0:
            bad = isinstance(o, (Seq, SetV, DictV)) and o.sid < start
        elif k == 1 and o is ctx.known:
            bad = isinstance(a, tuple) and a and a[0] in ("ofield", "modattr") and not it.w.is_memo(a)
        elif k == 1:
            bad = getattr(o, "sid", start) < start and not (o is fr.vars and a in names)
        else:
            bad = False
        if bad:
            raise Unsupported("write to a location outside of the loop invariant")


def no_alias(fr, names):
    """The objects in these variables are not in other variables of the frame."""
    for n in names:
        for m, v in fr.vars.items():
            if m != n and v is fr.vars.get(n) and isinstance(v, (Seq, SetV, DictV)):
                raise Unsupported("aliased loop variable")


def while_spec(cls, idem, ety):
    def h(it, s, fr):
        from pyvc.interp import Break_, Continue_, Return_

        ctx = it.ctx
        app, add, pop = _names(s)
        if len(app) != 1 or len(pop) != 1 or len(add) > 1:
            return False
        nn, sn = next(iter(app)), next(iter(pop))
        tn = next(iter(add)) if add else None
        new, stack = fr.vars.get(nn), fr.vars.get(sn)
        seen = fr.vars.get(tn) if tn else None
        if not (isinstance(new, Seq) and new.kind == "list" and isinstance(stack, Seq) and stack.kind == "list"):
            return False
        if tn and not (isinstance(seen, SetV) and seen.kind == "set"):
            return False
        # entry
        if tn:
            Same(it).same(seen, b.mkset("set", new.segs), "loop entry: seen = elements of the result")
        total = flat_t(it, cls, idem, new, stack)
        from pyvc.loops import assigned

        names = [n for n in assigned_names(s) if n not in (nn, sn, tn)]
        err = []
        no_alias(fr, [nn, sn] + ([tn] if tn else []))

        def run():
            start = now()
            n0 = ctx.fresh("new", V)
            s0 = ctx.fresh("stack", V)
            e0 = ctx.fresh("top", V)
            N = it.mk(n0, TSeq(ety, "list"))
            S0 = it.mk(s0, TSeq(ety, "list"))
            e = it.mk(e0, ety)
            st = Seq("list", S0.segs + (E(e),))
            ctx.dset(fr.vars, nn, Seq("list", N.segs))
            ctx.dset(fr.vars, sn, st)
            if tn:
                ctx.dset(fr.vars, tn, b.mkset("set", N.segs))
            for k in names:
                ctx.dset(fr.vars, k, Poison("loop-carried variable"))
            mark = len(ctx.trail)
            try:
                if not it.truth(it.eval(s.test, fr)):
                    raise Mismatch("the loop stops although operands are left", ctx.check() == z3.sat)
                try:
                    it.exec_block(s.body, fr)
                except Continue_:
                    pass
                no_other_writes(it, mark, start, fr, set(names) | {nn, sn, tn})
                # one step of the specification
                if it.isinstance_(e, cls):
                    ops = b.to_seq(it, it.getattr_(e, "operands"))
                    wn, ws = N, Seq("list", it.norm_segs(S0.segs + tuple(b.slice_(it, Seq("list", ops.segs), None, None, -1).segs)))
                elif idem and it.truth(b.mem(it, e, b.mkset("set", N.segs))):
                    wn, ws = N, S0
                else:
                    wn, ws = Seq("list", N.segs + (E(e),)), S0
                sm = Same(it)
                gn, gs = fr.vars[nn], fr.vars[sn]
                if not (isinstance(gn, Seq) and isinstance(gs, Seq)):
                    raise Unsupported("loop variables change their kind")
                sm.same(Seq("list", gn.segs), Seq("list", wn.segs), "loop step: operands so far")
                sm.same(Seq("list", gs.segs), Seq("list", ws.segs), "loop step: operands left")
                if tn:
                    sm.same(SetV("set", fr.vars[tn].expr), b.mkset("set", wn.segs), "loop step: operands seen")
            except Mismatch as x:
                err.append(x)
            except (Break_, Return_, PyRaise):
                err.append(Unsupported("exit from the flattening loop"))

        nf = ctx.nofork
        ctx.nofork = 0
        try:
            ctx.explore(run, lambda *a: None)
        finally:
            ctx.nofork = nf
        if err:
            raise err[0]
        # the test must hold exactly while the stack is not empty: it fails on the empty one
        m = ctx.push()
        try:
            ctx.dset(fr.vars, sn, Seq("list", []))
            for k in names:
                ctx.dset(fr.vars, k, Poison("loop-carried variable"))
            t = it.truthz(it.eval(s.test, fr))
            if not (t is False or not isinstance(t, bool) and z3.is_false(z3.simplify(t))):
                raise Unsupported("loop test on the empty stack")
        finally:
            ctx.pop(m)
        out = it.mk(total, TSeq(ety, "list"))
        ctx.dset(fr.vars, nn, out)
        ctx.dset(fr.vars, sn, Seq("list", []))
        if tn:
            ctx.dset(fr.vars, tn, b.mkset("set", out.segs))
        for k in names:
            ctx.dset(fr.vars, k, Poison("loop temporary"))
        it.exec_block(s.orelse, fr)
        return True

    return h


def assigned_names(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out
