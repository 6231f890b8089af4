"""The depth-first search of find_cycle: its loop invariants.

An entry (c, p) of the stack is a node and the walk that led to it.  It is good if c is not on p and,
for every neighbour m of c, (m, p + [c]) is good: the search below it ends without finding a cycle.
G(x): (x, p) is good for some p.

The inner loop, on an arbitrary entry (c, p) popped: it returns iff c is on p; otherwise the stack is
what it was plus (m, p + [c]) for all neighbours m of c, and nothing but c is added to visited.
Hence, started on [(r, [])], it returns iff (r, []) is not good, and leaves G of all it has visited.
The outer loop: G holds of everything visited, and of every node passed.
"""
import ast

import z3

from pyvc import builtins_ as b
from pyvc.interp import z3b
from pyvc.nary import assigned_names, no_alias, no_other_writes
from pyvc.same import Mismatch, Same
from pyvc.values import *  # noqa

G = F("G", V, B)


def roles(it, s, fr):
    """Names of the stack (a list that is popped) and of the set of visited nodes, if any."""
    popped, added, appended = set(), set(), set()
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            {"append": appended, "extend": appended, "add": added, "update": added, "pop": popped}.get(n.func.attr, set()).add(n.func.value.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            added.add(n.target.id)
    st = [n for n in popped if isinstance(fr.vars.get(n), Seq) and fr.vars[n].kind == "list"]
    vs = [n for n in added if isinstance(fr.vars.get(n), SetV) and fr.vars[n].kind == "set"]
    return (st[0] if len(st) == 1 else None), (vs[0] if len(vs) == 1 else None), appended


def explore(it, run):
    """All paths of run, from here; the first error of any of them."""
    err = []

    def go():
        try:
            run()
        except (Mismatch, Unsupported) as e:
            err.append(e)
        except PyRaise as e:
            err.append(Mismatch(f"exception {e.cls} in a loop", it.ctx.check() == z3.sat))

    nf = it.ctx.nofork
    it.ctx.nofork = 0
    try:
        it.ctx.explore(go, lambda *a: None)
    finally:
        it.ctx.nofork = nf
    if err:
        raise err[0]


def while_spec(graph_name):
    def h(it, s, fr):
        from pyvc.interp import Break_, Continue_, Return_

        ctx = it.ctx
        sn, vn, _ = roles(it, s, fr)
        if sn is None:
            return False
        stack = fr.vars[sn]
        graph = it.__dict__["graph"]
        names = [n for n in assigned_names(s) if n not in (sn, vn)]
        # entry: one root, with the empty walk
        if len(stack.segs) != 1 or not isinstance(stack.segs[0], E):
            raise Unsupported("search that does not start at one node")
        root = stack.segs[0].v
        if not (isinstance(root, Seq) and len(root.segs) >= 1 and isinstance(root.segs[0], E)):
            raise Unsupported("stack entry")
        Same(it).same(root, Seq("tuple", [root.segs[0], E(Seq("list", []))]), "the search starts with the empty walk")
        rt = it.to_v(root.segs[0].v)

        no_alias(fr, [sn] + ([vn] if vn else []))

        def run():
            start, mark = now(), None
            c = it.mk(ctx.fresh("current", V), TStr)
            p = it.mk(ctx.fresh("path", V), TSeq(TStr, "list"))
            S0 = it.mk(ctx.fresh("stack", V), TSeq(TTup(TStr, TSeq(TStr, "list")), "list"))
            entry = Seq("tuple", [E(c), E(p)])
            ctx.dset(fr.vars, sn, Seq("list", S0.segs + (E(entry),)))
            vis = None
            if vn:
                vis = it.mk(ctx.fresh("visited", V), TSet(TStr, "set"))
                ctx.dset(fr.vars, vn, SetV("set", vis.expr))
            for k in names:
                ctx.dset(fr.vars, k, Poison("loop-carried variable"))
            sm = Same(it)
            mark = len(ctx.trail)
            onpath = z3b(b.mem(it, c, b.mkset("set", p.segs)))
            t = it.truthz(it.eval(s.test, fr))
            if not (t is True or t is not False and ctx.proves(t)):
                raise Mismatch("the search stops although entries are left")
            try:
                try:
                    it.exec_block(s.body, fr)
                except Continue_:
                    pass
            except Return_ as r:
                if r.v is None:
                    raise Mismatch("None is returned before the search has ended")
                sm.prove(onpath, "a cycle is reported only when the node is on its own walk")
                return
            except Break_:
                raise Unsupported("break out of the search")
            no_other_writes(it, mark, start, fr, set(names) | {sn, vn})
            sm.prove(z3.Not(onpath), "a node on its own walk is reported")
            # neighbours
            nb = Seq("list", [])
            if it.truth(b.dict_has(it, graph, c)):
                x = b.getitem(it, graph, c)
                if isinstance(x, b.Uni):
                    x = x.force(it)
                if x is not None:
                    nb = b.to_seq(it, x)
            q = Seq("list", p.segs + (E(c),))
            got = fr.vars[sn]
            if not (isinstance(got, Seq) and got.kind == "list" and got.segs[:len(S0.segs)] == S0.segs):
                raise Mismatch("the entries below the top of the stack are kept")
            want = []
            for x in nb.segs:
                if isinstance(x, E):
                    want.append(E(Seq("tuple", [x, E(q)])))
                elif isinstance(x, S):
                    ix = ctx.fresh_ix()
                    want.append(C(slen(x.t), ix, [(z3.BoolVal(True), (E(Seq("tuple", [E(it.mk(sat(x.t, ix), x.ety)), E(q)])),))]))
                else:
                    raise Unsupported("neighbours")
            sm.same(Seq("list", got.segs[len(S0.segs):]), Seq("list", want), "exactly the neighbours are pushed, with the walk to them")
            if vn:
                y = it.mk(ctx.fresh("seen", V), TStr)
                v2 = fr.vars[vn]
                sm.prove(z3.Implies(z3b(b.mem(it, y, v2)), z3.Or(z3b(b.mem(it, y, vis)), z3b(b.eq(it, y, c)))), "only the node popped becomes visited")

        explore(it, run)
        # the loop as a whole
        it.w.used.add("search loop of find_cycle (invariants: dfs.py, lemma C07.lemma.walk)")
        good = F("good", V, B)(rt)
        if not ctx.branch(good):
            ctx.dset(it.flags, "bad", True)
            raise Return_(it.mk(ctx.fresh("cycle", V), TSeq(TStr, "list")))
        ctx.assume(G(rt))
        ctx.dset(fr.vars, sn, Seq("list", []))
        if vn:
            X = it.mk(ctx.fresh("reached", V), TSet(TStr, "set"))
            ctx.lappend(it.gsets, X)
            ctx.dset(fr.vars, vn, SetV("set", ("union", fr.vars[vn].expr, X.expr)))
        for k in names:
            ctx.dset(fr.vars, k, Poison("loop temporary"))
        it.exec_block(s.orelse, fr)
        return True

    return h


def holds(it, y):
    """G of y, if y is in a set whose elements all satisfy it."""
    for x in it.gsets:
        it.ctx.assume(z3.Implies(z3b(b.mem(it, y, x)), G(it.to_v(y))))


def for_spec():
    def h(it, s, fr):
        from pyvc.interp import Break_, Continue_, Return_

        ctx = it.ctx
        if it.flags.get("outer"):
            return False
        graph = it.__dict__["graph"]
        sn, vn, _ = roles(it, s, fr)
        src = it.eval(s.iter, fr)
        Same(it).same(b.mkset("set", b.to_seq(it, src).segs), b.mkset("set", b.dict_keys(it, graph).segs), "all nodes are roots")
        names = [n for n in assigned_names(s) if n not in (sn, vn)]
        if sn and fr.vars[sn].segs:
            raise Mismatch("the stack is empty at first")
        if vn and b.to_seq(it, fr.vars[vn]).segs:
            raise Mismatch("nothing is visited at first")

        no_alias(fr, [n for n in (sn, vn) if n])

        def iteration():
            start = now()
            ctx.dset(it.flags, "outer", True)
            node = it.mk(ctx.fresh("node", V), TStr)
            ctx.assume(z3b(b.dict_has(it, graph, node)))
            if sn:
                ctx.dset(fr.vars, sn, Seq("list", []))
            if vn:
                X = it.mk(ctx.fresh("visited", V), TSet(TStr, "set"))
                ctx.lappend(it.gsets, X)
                ctx.dset(fr.vars, vn, SetV("set", X.expr))
            for k in names:
                ctx.dset(fr.vars, k, Poison("loop-carried variable"))
            mark = len(ctx.trail)
            it.assign(s.target, node, fr)
            try:
                it.exec_block(s.body, fr)
            except Continue_:
                pass
            except Break_:
                raise Unsupported("break out of the outer loop")
            no_other_writes(it, mark, start, fr, set(names) | {sn, vn})
            return node

        def run():
            try:
                node = iteration()
            except Return_ as r:
                if r.v is None or not it.flags.get("bad"):
                    raise Mismatch("a cycle is reported only when one has been found", ctx.check() == z3.sat)
                return
            if it.flags.get("bad"):
                raise Mismatch("a cycle that was found is reported", ctx.check() == z3.sat)
            sm = Same(it)
            if sn:
                sm.same(fr.vars[sn], Seq("list", []), "the stack is empty again")
            holds(it, node)
            sm.prove(G(it.to_v(node)), "every node is searched, or was reached by an earlier search")
            if vn:
                y = it.mk(ctx.fresh("seen", V), TStr)
                holds(it, y)
                sm.prove(z3.Implies(z3b(b.mem(it, y, fr.vars[vn])), G(it.to_v(y))), "everything visited has been searched")

        explore(it, run)
        # the loop as a whole: either it returns at some iteration, or all nodes are passed
        if ctx.branch(z3.Const("found", B)):
            ctx.dset(it.flags, "bad", True)
            raise Return_(it.mk(ctx.fresh("cycle", V), TSeq(TStr, "list")))
        ctx.dset(it.flags, "all", True)
        for k in assigned_names(s):
            ctx.dset(fr.vars, k, Poison("loop temporary"))
        if sn:
            ctx.dset(fr.vars, sn, Seq("list", []))
        it.exec_block(s.orelse, fr)
        return True

    return h
