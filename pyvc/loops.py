"""Loops: summarised with a generic index; prefixes of accumulators are verified, not assumed."""
import z3

from pyvc import reify

from pyvc.values import *  # noqa


class Found(Exception):
    """An early exit of any() / all() / next()."""

    def __init__(self, v):
        self.v = v


class Escape(Exception):
    """An exit of the consumer of a generator, on its way through the generator's frames."""

    def __init__(self, e):
        self.e = e


def z3b(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


# ---------------------------------------------------------------- iteration
def iterate(it, v, body, hint=()):
    """Call body on each element of an iterable value."""
    from pyvc.builtins_ import Uni, to_seq

    if isinstance(v, Uni):
        v = v.force(it)
    if isinstance(v, Lazy):
        def b2(x):
            try:
                body(x)
            except Escape:
                raise
            except Exception as e:
                if isinstance(e, (Unsupported, Infeasible)) or type(e).__name__ == "Budget":
                    raise
                raise Escape(e)

        try:
            v.fn(it, b2)
        except Escape as e:
            raise e.e
        return
    run_loop(it, to_seq(it, v), body, hint)


def run_loop(it, sq, body, hint=()):
    for s in sq.segs:
        if isinstance(s, E):
            body(s.v)
        elif isinstance(s, S):
            def pick(i, s=s):
                body(it.mk_lazy(sat(s.t, i), s.ety))

            it.ctx.once(("ty", s.t.get_id(), "seq"), slen(s.t) >= 0)
            it.ctx.keep.append(s.t)
            sym_loop(it, slen(s.t), pick, hint)
        elif isinstance(s, C):
            def pick(i, s=s):
                conds = [it.subst(z3b(c), s.ix, i) for c, _ in s.cases]
                if len(conds) > 1 or not z3.is_true(z3.simplify(conds[0])):
                    j = it.ctx.choose(conds + [z3.Not(z3.Or(*conds))])
                    if j == len(conds):
                        return
                else:
                    j = 0
                run_loop(it, Seq("list", [it.subst_seg(q, s.ix, i) for q in s.cases[j][1]]), body)

            sym_loop(it, s.n, pick, hint)
        else:
            raise Unsupported("segment")


# ---------------------------------------------------------------- accumulators
class Loc:
    """A location written in the loop body."""

    def __init__(self, kind, obj, key, base):
        self.kind = kind  # 0: attribute of a container value; 1: variable or field
        self.obj = obj
        self.key = key
        self.base = base
        self.hav = None

    def get(self):
        return getattr(self.obj, self.key) if self.kind == 0 else self.obj.get(self.key, MISSING)

    def set(self, it, v):
        if self.kind == 0:
            it.ctx.mut(self.obj, self.key, v)
        elif v is MISSING:
            if self.key in self.obj:
                it.ctx.dset(self.obj, self.key, Poison("undefined loop variable"))
        else:
            it.ctx.dset(self.obj, self.key, v)

    def what(self):
        """The kind of accumulator."""
        if self.kind == 0:
            return self.key
        b = self.base
        from pyvc.builtins_ import is_strv

        if isinstance(b, Seq):
            return "segs"
        if isinstance(b, SetV):
            return "expr"
        if isinstance(b, DictV):
            return "entries"
        if isinstance(b, bool) or is_z3b(b):
            return "bool"
        if isinstance(b, int) or is_z3i(b):
            return "int"
        if b is not MISSING and is_strv(b):
            return "str"
        return "other"

    def inner(self, v):
        """The contents of the accumulator value."""
        if self.kind == 0:
            return v
        w = self.what()
        if w == "segs":
            return v.segs if isinstance(v, Seq) and v.kind == self.base.kind else None
        if w == "expr":
            return v.expr if isinstance(v, SetV) and v.kind == self.base.kind else None
        if w == "entries":
            return v.entries if isinstance(v, DictV) else None
        return v

    def wrap(self, x):
        if self.kind == 0:
            return x
        w = self.what()
        if w == "segs":
            return Seq(self.base.kind, x)
        if w == "expr":
            return SetV(self.base.kind, x)
        if w == "entries":
            return DictV(x)
        return x

    def havoc(self, it):
        """An arbitrary accumulator at the start of an iteration."""
        w = self.what()
        ctx = it.ctx
        b = self.inner(self.base) if self.base is not MISSING else None
        t = ctx.fresh("hav", V)
        self.havt = t
        if w == "segs":
            x = tuple(b) + (S(t, TAny),)
        elif w == "expr":
            x = ("union", b, ("sym", t, TAny))
        elif w == "entries":
            x = tuple(b) + (("sym", t, TAny, TAny),)
        elif w == "int":
            x = ctx.fresh("havi", I)
            self.havt = x
        elif w == "bool":
            x = ctx.fresh("havb", B)
            self.havt = x
        elif w == "str":
            x = it.mk(t, TStr)
        else:
            x = Poison("loop-carried variable")
        self.hav = x
        return self.wrap(x)

    def delta(self, it, v):
        """What an iteration adds to the prefix self.hav; None: nothing; ('set', v): overwritten."""
        w = self.what()
        if v is MISSING:
            return None
        if isinstance(v, Poison):
            return None if v is self.hav else ("set", v)
        x = self.inner(v)
        h = self.hav
        if w == "segs" and x is not None:
            k = len(h)
            if len(x) >= k and all(p is q for p, q in zip(x, h)):
                return ("add", tuple(x[k:])) if len(x) > k else None
        elif w == "expr" and x is not None:
            adds = []
            e = x
            while e is not h and e[0] == "union" and len(e) == 3:
                adds.append(e[2])
                e = e[1]
            if e is h:
                return ("add", tuple(reversed(adds))) if adds else None
        elif w == "entries" and x is not None:
            k = len(h)
            if len(x) >= k and all(p is q for p, q in zip(x, h)):
                return ("add", tuple(x[k:])) if len(x) > k else None
        elif w == "int":
            if x is h:
                return None
            if is_z3i(x) or isinstance(x, int):
                d = z3.simplify(x - h)
                if z3.is_int_value(d):
                    return ("add", d.as_long()) if d.as_long() else None
        elif w == "str":
            if x is h:
                return None
            if isinstance(x, Str) and x.parts[0] is h:
                return ("add", x.parts[1:])
        elif w == "bool":
            if x is h:
                return None
            if isinstance(x, bool):
                return ("const", x)
        return ("set", v)

    def prefix(self, it, m, ix, cases):
        """The accumulator after m iterations; cases: [(cond, delta)]."""
        w = self.what()
        deltas = [(c, d) for c, d in cases if d is not None]
        if not deltas:
            return self.base
        if any(d[0] == "set" for _, d in deltas):
            return Poison("variable assigned in a loop")
        b = self.inner(self.base)
        if w == "segs":
            return self.wrap(tuple(it.norm_segs(tuple(b) + (C(m, ix, [(c, d[1]) for c, d in deltas]),))))
        if w == "expr":
            cs = []
            for c, d in deltas:
                segs = []
                for e in d[1]:
                    if e[0] == "enum":
                        segs.extend(E(y) for y in e[1])
                    elif e[0] == "seq":
                        segs.extend(e[1])
                    elif e[0] == "sym":
                        segs.append(S(F("ord", V, V)(e[1]), e[2]))
                    else:
                        raise Unsupported("set accumulator")
                cs.append((c, tuple(segs)))
            from pyvc.builtins_ import mkset

            r = mkset("set", it.norm_segs([C(m, ix, cs)])).expr
            return self.wrap(r if b == ("enum", []) else ("union", b, r))
        if w == "entries":
            cs = []
            first = any(d[0] == "first" for _, d in deltas)
            for c, d in deltas:
                if len(d[1]) != 1 or d[1][0][0] != "kv":
                    raise Unsupported("dict accumulator")
                cs.append((z3b(c), d[1][0][1], d[1][0][2]))
            from pyvc.builtins_ import norm_dict

            ent = ("fcomp" if first else "comp", m, ix, cs)
            d = DictV([ent])
            if not first:
                d = norm_dict(it, d)
            return self.wrap(tuple(b) + tuple(d.entries))
        if w == "int":
            c0 = {d[1] for _, d in deltas}
            if len(c0) == 1 and len(deltas) == len(cases):
                return z3.simplify(b + c0.pop() * m)
            return Poison("counter with a condition")
        if w == "bool":
            vs = {d[1] for _, d in deltas}
            if len(vs) == 1:
                P, _ = it.ctx.exists(m, ix, z3.Or(*[z3b(c) for c, _ in deltas]), m)
                v = vs.pop()
                return z3.simplify(z3.Or(z3b(b), P)) if v else z3.simplify(z3.And(z3b(b), z3.Not(P)))
            return Poison("flag set both ways")
        if w == "str":
            return it.norm_str(Str([b, Rep(m, ix, [(z3b(c), tuple(d[1])) for c, d in deltas])]))
        return Poison("variable assigned in a loop")


def keep_new(it, x, start, memo):
    """The value with copies of the objects allocated after start (their fields are undone when the path is left)."""
    if isinstance(x, Obj):
        if x.sid <= start:
            return x
        if id(x) not in memo:
            memo[id(x)] = o = Obj(x.cls, {}, x.input, x.name)
            for k, y in x.fields.items():
                o.fields[k] = keep_new(it, y, start, memo)
        return memo[id(x)]
    if isinstance(x, E):
        y = keep_new(it, x.v, start, memo)
        return x if y is x.v else E(y)
    if isinstance(x, Seq) and x.sid > start:
        segs = tuple(keep_new(it, s, start, memo) for s in x.segs)
        return x if all(p is q for p, q in zip(segs, x.segs)) else Seq(x.kind, segs, x.input)
    if isinstance(x, tuple):
        y = tuple(keep_new(it, z, start, memo) for z in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    return x


# ---------------------------------------------------------------- the generic iteration
def sym_loop(it, n, pick, hint=()):
    ctx = it.ctx
    from pyvc.interp import Break_, Continue_, Return_

    n = z3.simplify(n) if not isinstance(n, int) else z3.IntVal(n)
    if z3.is_int_value(n) and n.as_long() <= 0:
        return
    if z3.is_int_value(n) and n.as_long() <= 3:
        for i in range(n.as_long()):
            pick(z3.IntVal(i))
        return
    start = now()
    orders = it.__dict__.setdefault("orders", [])
    sets = len(orders)
    ix = ctx.fresh_ix()
    exits = (Return_, Break_, PyRaise, Found, Escape, Continue_)
    locs = {}
    before = {}

    def explore(setup):
        paths = []
        new = {}

        def run():
            ctx.ixs.append(ix)
            try:
                ctx.assume(z3.And(ix >= 0, ix < n))
                ctx.add_index(n, ix, 0)
                setup()
                tm = len(ctx.trail)
                try:
                    pick(ix)
                    return "normal", tm
                except exits:
                    return "exit", tm
            finally:
                ctx.ixs.pop()

        def on_path(out, decs, facts):
            kind, tm = out
            for tr in ctx.trail[tm:]:
                if tr[0] == 0:
                    o, a = tr[1], tr[2]
                    if getattr(o, "sid", 0) > start or not isinstance(o, (Seq, SetV, DictV)):
                        continue
                    key = (0, id(o), a)
                    if key not in locs and key not in new:
                        new[key] = (0, o, a)
                elif tr[0] == 1:
                    d, k = tr[1], tr[2]
                    if d is ctx.known:
                        if isinstance(k, tuple) and k and k[0] in ("ofield", "modattr"):
                            if kind == "normal" and not it.w.is_memo(k):
                                raise Unsupported("write to an opaque object in a loop")
                        continue
                    if getattr(d, "sid", None) is None or d.sid > start:
                        continue
                    key = (1, id(d), k)
                    if key not in locs and key not in new:
                        new[key] = (1, d, k)
            if kind == "normal":
                # the objects made in this iteration are kept as they are now
                memo = {}
                ds = {key: keep_new(it, l.delta(it, l.get()), start, memo) for key, l in locs.items()}
            else:
                ds = None
            # the quick feasibility test of a path may have been skipped: drop impossible ones
            paths.append((z3.simplify(z3.And(*decs)) if decs else z3.BoolVal(True), kind, ds))

        ctx.explore(run, on_path)
        return paths, new

    for (k, o, a) in hint:
        # locations that the loop will write (found by reading its text): saves an exploration
        locs[(k, id(o), a)] = Loc(k, o, a, getattr(o, a) if k == 0 else o.get(a, MISSING))

    # pass 1: arbitrary accumulators
    for _ in range(8):
        def setup():
            for l in locs.values():
                l.set(it, l.havoc(it))

        it.havoc.append(False)
        try:
            paths, new = explore(setup)
        finally:
            needed = it.havoc.pop()
        if not new:
            break
        for key, (k, o, a) in new.items():
            base = getattr(o, a) if k == 0 else o.get(a, MISSING)
            locs[key] = Loc(k, o, a, base)
    else:
        raise Unsupported("loop accumulators do not stabilise")

    for s in orders[sets:]:
        # what was learnt in the body about the elements of a set holds outside, too
        if all(any(x.eq(y) for y in ctx.ixs) for x in reify.ixvars(it.to_v(s))):
            it.b.set_order(it, s)
    del orders[sets:]

    normal = [(c, ds) for c, k, ds in paths if k == "normal"]
    exitc = [c for c, k, _ in paths if k == "exit"]

    def has_hav(x):
        return mentions_fn(hav_prefixes, x)

    carried = needed or any(has_hav(c) for c, _, _ in paths) or any(has_hav(d) for _, ds in normal for d in ds.values())
    cases = {key: group(it, [(c, ds[key]) for c, ds in normal]) for key in locs}
    if len(normal) == 1:
        cases = {key: [(z3.BoolVal(True), normal[0][1][key])] for key in locs}
    if carried:
        try:
            cases, exitc = second_pass(it, locs, normal, explore, ix, n, has_hav, cases)
        except Unsupported:
            # another guess: dict entries of this iteration do not depend on those of earlier ones
            if not any(l.what() == "entries" for l in locs.values()):
                raise
            cases, exitc = second_pass(it, locs, normal, explore, ix, n, has_hav, cases, True)

    def state(m):
        jx = ctx.fresh_ix()
        out = {}
        for key, l in locs.items():
            cs = []
            for c, d in cases[key]:
                cs.append((it.subst(z3b(c), ix, jx), subst_delta(it, l, d, ix, jx)))
            out[key] = l.prefix(it, m, jx, cs)
        return out

    def install(m):
        st = state(m)
        for key, l in locs.items():
            v = st[key]
            if v is l.base:
                continue
            if isinstance(v, Poison) and l.kind == 0:
                raise Unsupported(v.why)
            if l.kind == 1 and not isinstance(v, Poison) and l.base is MISSING:
                v = Poison("loop temporary")
            if l.kind == 0 and l.obj.input:
                ctx.lappend(ctx.writes, (l.obj, l.key))
            l.set(it, v)
        for key, l in locs.items():
            if l.kind == 1 and l.base is MISSING:
                ctx.dset(l.obj, l.key, Poison("loop temporary"))

    if not exitc or all(z3.is_false(c) for c in exitc):
        install(n)
        return
    cond = z3.simplify(z3.Or(*exitc)) if len(exitc) > 1 else exitc[0]
    P, k = ctx.exists(n, ix, cond, n)
    if ctx.branch(P):
        ctx.assume(z3.And(k >= 0, k < n))
        for key, l in locs.items():
            pass
        install_at = state(k)
        for key, l in locs.items():
            v = install_at[key]
            if v is l.base:
                continue
            if isinstance(v, Poison) and l.kind == 0:
                raise Unsupported(v.why)
            l.set(it, v)
        pick(k)
        raise Infeasible()
    install(n)


hav_prefixes = ("hav!", "havi!", "havb!")


def mentions_fn(prefixes, x):
    """Does the value mention a havocked accumulator?"""
    from pyvc import reify

    if isinstance(x, z3.ExprRef):
        return reify.mentions_prefix(x, prefixes)
    if x is None or isinstance(x, (bool, int, float, str)):
        return False
    if isinstance(x, Sym):
        return mentions_fn(prefixes, x.t)
    if isinstance(x, Seq):
        return any(mentions_fn(prefixes, s) for s in x.segs)
    if isinstance(x, E):
        return mentions_fn(prefixes, x.v)
    if isinstance(x, S):
        return mentions_fn(prefixes, x.t)
    if isinstance(x, (C, Rep)):
        return mentions_fn(prefixes, x.n) or any(mentions_fn(prefixes, c) or mentions_fn(prefixes, ss) for c, ss in x.cases)
    if isinstance(x, SetV):
        return mentions_fn(prefixes, x.expr)
    if isinstance(x, DictV):
        return mentions_fn(prefixes, x.entries)
    if isinstance(x, Str):
        return mentions_fn(prefixes, x.parts)
    if isinstance(x, Obj):
        return any(mentions_fn(prefixes, y) for y in x.fields.values())
    if isinstance(x, (tuple, list)):
        return any(mentions_fn(prefixes, y) for y in x)
    if type(x).__name__ == "Uni":
        return mentions_fn(prefixes, x.t)
    if isinstance(x, Bound):
        return mentions_fn(prefixes, x.self)
    return False


def group(it, cs):
    """Merge the cases with the same delta."""
    out = []
    for c, d in cs:
        for g in out:
            if (g[1] is None and d is None) or (g[1] is not None and d is not None and repr_delta(g[1]) == repr_delta(d)):
                g[0] = z3.Or(g[0], z3b(c))
                break
        else:
            out.append([z3b(c), d])
    if len(out) == 1:
        return [(z3.BoolVal(True), out[0][1])]
    return [(z3.simplify(c), d) for c, d in out]


def repr_delta(d):
    from pyvc import reify

    if d[0] == "set" and isinstance(d[1], Poison):
        return "poison"
    if d[0] == "set":
        return "set"  # unreadable afterwards, whatever it was set to
    k, ps = reify.key_of(d)
    return k, tuple(p.get_id() for p in ps)


def subst_delta(it, l, d, ix, t):
    if d is None or d[0] in ("const", "set") or isinstance(d[1], int):
        return d
    w = l.what()
    if w == "segs":
        return (d[0], tuple(it.subst_seg(s, ix, t) for s in d[1]))
    if w == "expr":
        return (d[0], tuple(it.subst_set(e, ix, t) for e in d[1]))
    if w == "entries":
        return (d[0], it.subst(DictV(d[1]), ix, t).entries)
    if w == "str":
        return (d[0], tuple(it.subst_part(p, ix, t) for p in d[1]))
    return d


def second_pass(it, locs, normal, explore, ix, n, has_hav, cases, over=False):
    """The iterations depend on the accumulators: guess their prefix and verify it."""
    ctx = it.ctx
    guess = {}
    for key, l in locs.items():
        ds = [(c, ds_[key]) for c, ds_ in normal]
        adds = {repr_delta(d): d for _, d in ds if d is not None and d[0] != "set"}
        if any(d is not None and d[0] == "set" for _, d in ds):
            guess[key] = [(z3.BoolVal(True), ("set", None))]
            continue
        if not adds:
            guess[key] = [(z3.BoolVal(True), None)]
            continue
        if any(has_hav(d) for d in adds.values()):
            raise Unsupported("loop accumulator that depends on itself")
        if len(adds) == 1 and all(d is not None for _, d in ds):
            guess[key] = [(z3.BoolVal(True), next(iter(adds.values())))]
            continue
        if not any(has_hav(c) for c, _ in ds):
            guess[key] = cases[key]
            continue
        # added only when absent: sets (adding again changes nothing), dicts (the first entry stays)
        d = next(iter(adds.values()))
        if over and len(adds) == 1 and l.what() == "entries":
            rest = [drop_hav(c, has_hav) for c, dd in ds if dd is not None and not any(
                has_hav(x) and not z3.is_not(x) for x in (c.children() if z3.is_and(c) else [c]))]
            g = z3.simplify(z3.Or(*rest))
            guess[key] = [(g, d), (z3.simplify(z3.Not(g)), None)]
            continue
        if len(adds) == 1 and l.what() in ("expr", "entries"):
            rest = []
            for c, dd in ds:
                if dd is not None:
                    rest.append(drop_hav(c, has_hav))
            guess[key] = [(z3.simplify(z3.Or(*rest)), (("first", d[1]) if l.what() == "entries" else d))]
            continue
        raise Unsupported("loop accumulator with a condition on itself")

    jx = ctx.fresh_ix()

    def setup():
        for key, l in locs.items():
            cs = [(it.subst(z3b(c), ix, jx), subst_delta(it, l, d, ix, jx)) for c, d in guess[key]]
            v = l.prefix(it, ix, jx, cs) if not (len(cs) == 1 and cs[0][1] is not None and cs[0][1][0] == "set") else Poison("loop-carried variable")
            if isinstance(v, Poison) and l.kind == 0:
                raise Unsupported(v.why)
            l.hav = v if isinstance(v, Poison) else l.inner(v) if v is not MISSING else None
            l.set(it, v)

    ok = []

    def explore2():
        return explore(setup)

    paths, new = explore2()
    if new:
        raise Unsupported("loop accumulators do not stabilise")
    from pyvc.same import Same

    norm2 = [(c, ds) for c, k, ds in paths if k == "normal"]
    # verify: each iteration adds what the guess says
    for c, ds in norm2:
        m = ctx.push()
        ctx.ixs.append(ix)
        try:
            ctx.assume(z3.And(ix >= 0, ix < n))
            ctx.add_index(n, ix, 0)
            ctx.assume(c)
            for key, l in locs.items():
                g = guess[key]
                if len(g) == 1 and g[0][1] is not None and g[0][1][0] == "set":
                    continue
                if len(g) == 1 and z3.is_true(g[0][0]):
                    want = g[0][1]
                    if not same_delta(it, l, want, ds[key]):
                        raise Unsupported("loop invariant not inductive")
                    continue
                if g[0][1] is not None and (g[0][1][0] == "first" or l.what() == "expr"):
                    have = ds[key]
                    gc, gd = g[0]
                    if have is not None:
                        if not (ctx.proves(gc) and same_delta(it, l, ("add", gd[1]), ("add", have[1]))):
                            raise Unsupported("loop invariant not inductive")
                    else:
                        # nothing added: either the guess adds nothing or the key is already there
                        if not ctx.proves(z3.Or(z3.Not(gc), in_prefix(it, l, gd))):
                            raise Unsupported("loop invariant not inductive")
                    continue
                live = [d for cc, d in g if ctx.feasible(cc)]
                if not all(same_delta(it, l, d, ds[key]) for d in live):
                    raise Unsupported("loop invariant not inductive")
        except Infeasible:
            pass
        finally:
            ctx.ixs.pop()
            ctx.pop(m)
    exitc = [c for c, k, _ in paths if k == "exit"]
    return guess, exitc


def in_prefix(it, l, d):
    from pyvc import builtins_ as b

    if l.what() == "entries":
        return z3b(b.dict_has(it, DictV(l.hav), d[1][0][1]))
    r = []
    for e in d[1]:
        if e[0] != "enum":
            raise Unsupported("set accumulator")
        r += [z3b(b.mem_e(it, x, l.hav)) for x in e[1]]
    return z3.And(*r)


def same_delta(it, l, a, b):
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    if repr_delta(a) == repr_delta(b):
        return True
    if a[0] != b[0]:
        return False
    from pyvc.same import Same, Mismatch

    w = l.what()
    sm = Same(it)
    try:
        if w == "segs":
            sm.same(Seq("list", a[1]), Seq("list", b[1]))
            return True
        if w == "entries":
            sm.same(DictV(a[1]), DictV(b[1]))
            return True
        if w == "str":
            sm.same(it.norm_str(Str(a[1])), it.norm_str(Str(b[1])))
            return True
        if w == "expr":
            ea = a[1][0] if len(a[1]) == 1 else ("union",) + tuple(a[1])
            eb = b[1][0] if len(b[1]) == 1 else ("union",) + tuple(b[1])
            sm.same(SetV("set", ea), SetV("set", eb))
            return True
    except Mismatch:
        return False
    return a == b


def drop_hav(c, has_hav):
    """Remove the conjuncts about the accumulator."""
    cs = c.children() if z3.is_and(c) else [c]
    cs = [x for x in cs if not has_hav(x)]
    return z3.And(*cs) if cs else z3.BoolVal(True)


# ---------------------------------------------------------------- statements
def exec_for(it, s, fr):
    from pyvc.interp import Break_, Continue_

    for spec in it.w.for_specs:
        if spec(it, s, fr):
            return
    v = it.eval(s.iter, fr)

    def body(x):
        it.assign(s.target, x, fr)
        try:
            it.exec_block(s.body, fr)
        except Continue_:
            pass

    try:
        iterate(it, v, body, [(1, fr.vars, nm) for nm in assigned(s)])
    except Break_:
        return
    it.exec_block(s.orelse, fr)


_assigned = {}


def assigned(s):
    """Local names that a loop certainly or possibly binds."""
    import ast

    r = _assigned.get(id(s))
    if r is None:
        names = []
        todo = [s.target] + list(getattr(s, "body", ()))
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in names:
                names.append(n.id)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        r = _assigned[id(s)] = (s, names)
    return r[1]


def exec_while(it, s, fr):
    from pyvc.interp import Break_, Continue_

    for spec in it.w.while_specs:
        if spec(it, s, fr):
            return
    for _ in range(200):
        t = it.truthz(it.eval(s.test, fr))
        if not isinstance(t, bool):
            t2 = z3.simplify(t)
            if z3.is_true(t2):
                t = True
            elif z3.is_false(t2):
                t = False
            elif it.ctx.proves(t2):
                t = True
            elif it.ctx.proves(z3.Not(t2)):
                t = False
            else:
                raise Unsupported("while loop without an invariant")
        if not t:
            it.exec_block(s.orelse, fr)
            return
        try:
            it.exec_block(s.body, fr)
        except Break_:
            return
        except Continue_:
            pass
    raise Unsupported("while loop without an invariant")


def comp_emit(it, e, fr, emit, first, extra=()):
    """Run a comprehension, calling emit on each value."""
    from pyvc.interp import Frame
    import ast

    f2 = Frame(fr.glob, fr, fr.cells, fr.cls, fr.fnname)

    def level(i):
        if i == len(e.generators):
            if isinstance(e, ast.DictComp):
                emit(Seq("tuple", [E(it.eval(e.key, f2)), E(it.eval(e.value, f2))]))
            else:
                emit(it.eval(e.elt, f2))
            return
        g = e.generators[i]
        src = first if i == 0 else it.eval(g.iter, f2)

        def body(x):
            it.assign(g.target, x, f2)
            for c in g.ifs:
                if not it.truth(it.eval(c, f2)):
                    return
            level(i + 1)

        iterate(it, src, body, [(1, f2.vars, nm) for g2 in e.generators[i:] for nm in assigned(g2)] + list(extra))

    level(0)


def lazy_comp(it, e, fr):
    first = it.eval(e.generators[0].iter, fr)
    return Lazy(lambda it2, emit: comp_emit(it2, e, fr, emit, first))


def comprehension(it, e, fr):
    first = it.eval(e.generators[0].iter, fr)
    out = Seq("list", [])
    comp_emit(it, e, fr, lambda x: it.ctx.mut(out, "segs", out.segs + (E(x),)), first, [(0, out, "segs")])
    return Seq("list", it.norm_segs(out.segs))
