"""Sameness of two values: structure, classes, components; decided under the facts of the path."""
import enum
import types as pytypes

import z3

from pyvc import reify
from pyvc.values import *  # noqa


class Mismatch(Exception):
    """The two values may differ.  sat: the solver gave a model in which they do (snap: facts, universal facts, negated goal)."""

    def __init__(self, why, sat_=False, snap=None):
        super().__init__(why)
        self.sat = sat_
        self.snap = snap


def z3b(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


class Same:
    """One comparison."""

    def __init__(self, it):
        self.it = it
        self.seen = set()

    def prove(self, f, why):
        ctx = self.it.ctx
        if f is True:
            return
        if f is False:
            self.differ(why)
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        r = self.query(z3.Not(f))
        if r != z3.unsat:
            raise Mismatch(why, r == z3.sat, ctx.snap(z3.Not(f)))

    def query(self, *neg):
        """Can the facts and these formulas hold?  In deep mode, universal facts are used as such."""
        ctx = self.it.ctx
        r = ctx.check(*neg)
        if r != z3.unsat and ctx.deep:
            r = ctx.deep_check(ctx.snap(*neg))
        return r

    def differ(self, why):
        # the values differ on this path: is the path real?
        r = self.query()
        if r == z3.unsat:
            raise Infeasible()
        raise Mismatch(why, r == z3.sat, self.it.ctx.snap())

    # ------------------------------------------------------------ terms
    def term(self, s, t, why="term"):
        """Two V terms denote the same value."""
        ctx = self.it.ctx
        if s.eq(t):
            return
        if s.sort() != t.sort():
            self.differ(why)
        r = self.query(s != t)
        if r == z3.unsat:
            return
        if s.sort() != V:
            raise Mismatch(f"{why}: {s} / {t}", r == z3.sat, ctx.snap(s != t))
        a, b = reify.value_of(self.it, s), reify.value_of(self.it, t)
        if a is not None and b is not None:
            self.same(a, b, why)
            return
        if a is not None or b is not None:
            v, u = (a, t) if a is not None else (b, s)
            self.same_opaque(v, u, why)
            return
        if z3.is_app(s) and z3.is_app(t) and s.decl().eq(t.decl()) and s.num_args() > 0:
            for i, (x, y) in enumerate(zip(s.children(), t.children())):
                self.term(x, y, f"{why}/{s.decl().name()}.{i}")
            return
        raise Mismatch(f"{why}: {s} / {t}", r == z3.sat, ctx.snap(s != t))

    def same_opaque(self, v, t, why):
        """Structured value v and opaque term t."""
        if isinstance(v, Obj):
            self.same(v, Sym(t, TCls(v.cls)), why)
            return
        if isinstance(v, Seq) and v.segs:
            if len(v.segs) == 1 and isinstance(v.segs[0], S):
                self.term(v.segs[0].t, t, why)
                return
            ety = None
            for s in v.segs:
                for e in [s] if isinstance(s, E) else [e for _, ss in s.cases for e in ss] if isinstance(s, C) else []:
                    if isinstance(e, E) and isinstance(e.v, Sym):
                        ety = e.v.ty
                if isinstance(s, S):
                    ety = s.ety
            if ety is not None:
                self.same(v, Seq(v.kind, [S(t, ety)]), why)
                return
        raise Mismatch(f"{why}: {v} / {t}")

    # ------------------------------------------------------------ values
    def same(self, a, b, why="value"):
        it, ctx = self.it, self.it.ctx
        from pyvc.builtins_ import Uni, is_strv
        from pyvc.interp import ExcV, is_host

        if a is b and not isinstance(a, Poison):
            return
        if isinstance(a, Uni) and isinstance(b, Uni) and a.t.eq(b.t):
            return
        if isinstance(a, Uni):
            a = a.force(it)
        if isinstance(b, Uni):
            b = b.force(it)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        if isinstance(a, Lazy) or isinstance(b, Lazy) or isinstance(a, View) or isinstance(b, View):
            from pyvc.builtins_ import to_seq

            if type(a) is not type(b):
                self.differ(f"{why}: kinds of iterables")
            a, b = to_seq(it, a), to_seq(it, b)
        if is_strv(a) and is_strv(b):
            self.strings(a, b, why)
            return
        if is_host(a) and is_host(b):
            if isinstance(a, (bool, int, float)) or isinstance(b, (bool, int, float)):
                if type(a) is not type(b) or not (a == b):
                    self.differ(f"{why}: {a!r} / {b!r}")
                return
            if a is b or (type(a) is type(b) and isinstance(a, pytypes.MethodType) and a == b):
                return
            self.differ(f"{why}: {a!r} / {b!r}")
        zb = lambda x: is_z3b(x) or isinstance(x, bool)  # noqa
        zi = lambda x: is_z3i(x) or isinstance(x, int) and not isinstance(x, (bool, enum.Enum))  # noqa
        if zb(a) and zb(b):
            self.prove(z3b(a) == z3b(b), f"{why}: truth value")
            return
        if zi(a) and zi(b):
            self.prove(a == b, f"{why}: number {a} / {b}")
            return
        if isinstance(a, Sym) and isinstance(b, Sym):
            self.term(a.t, b.t, why)
            return
        if isinstance(a, Sym) and is_host(b) or isinstance(b, Sym) and is_host(a):
            self.term(it.to_v(a), it.to_v(b), why)
            return
        if isinstance(a, Obj) and isinstance(b, Obj):
            self.objs(a, b, why)
            return
        if isinstance(a, Obj) and isinstance(b, Sym) or isinstance(b, Obj) and isinstance(a, Sym):
            o, s = (a, b) if isinstance(a, Obj) else (b, a)
            u = reify.value_of(it, s.t)
            if isinstance(u, Obj):
                self.objs(o, u, why)
                return
            if s.ty.kind != "cls":
                raise Mismatch(f"{why}: {o} / {s}")
            if it.exact(s) is not o.cls:
                self.differ(f"{why}: class {o.cls.__name__} / {it.exact(s).__name__}")
            self.fields(o.fields, it.fields_of(s), why)
            return
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.kind != b.kind:
                self.differ(f"{why}: {a.kind} / {b.kind}")
            self.seqs(a.segs, b.segs, why)
            return
        if isinstance(a, SetV) and isinstance(b, SetV):
            if a.kind != b.kind:
                self.differ(f"{why}: {a.kind} / {b.kind}")
            self.sets(a, b, why)
            return
        if isinstance(a, DictV) and isinstance(b, DictV):
            self.dicts(a, b, why)
            return
        if isinstance(a, ExcV) and isinstance(b, ExcV):
            if a.cls is not b.cls:
                self.differ(f"{why}: exception {a.cls.__name__} / {b.cls.__name__}")
            return
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn:
            self.same(a.self, b.self, why)
            return
        if isinstance(a, (Closure, Native, Bound, SuperV)) or isinstance(b, (Closure, Native, Bound, SuperV)):
            raise Unsupported("comparison of functions")
        self.differ(f"{why}: {type(a).__name__} {a!r} / {type(b).__name__} {b!r}")

    def objs(self, a, b, why):
        if a.cls is not b.cls:
            self.differ(f"{why}: class {a.cls.__name__} / {b.cls.__name__}")
        key = (id(a), id(b))
        if key in self.seen:
            return
        self.seen.add(key)
        self.fields(a.fields, b.fields, why)

    def fields(self, f, g, why):
        memo = self.it.w.memo_fields

        def live(d):
            return {k for k, v in d.items() if k not in memo and not (isinstance(v, Poison) and v.why == "deleted attribute")}

        if live(f) != live(g):
            self.differ(f"{why}: attributes {sorted(live(f) ^ live(g))}")
        for k in sorted(live(f)):
            self.same(f[k], g[k], f"{why}.{k}")

    # ------------------------------------------------------------ strings
    def strings(self, a, b, why):
        it = self.it
        a, b = it.norm_str(a), it.norm_str(b)
        if isinstance(a, str) and isinstance(b, str):
            if str(a) != str(b):
                self.differ(f"{why}: {a!r} / {b!r}")
            return
        if isinstance(a, Sym) and isinstance(b, Sym):
            self.term(a.t, b.t, why)
            return
        if isinstance(a, (str, Sym)) and isinstance(b, (str, Sym)):
            self.prove(it.to_v(a) == it.to_v(b), f"{why}: {a!r} / {b!r}")
            return
        pa = a.parts if isinstance(a, Str) else (a,)
        pb = b.parts if isinstance(b, Str) else (b,)
        self.parts(pa, pb, why)

    def parts(self, pa, pb, why):
        it = self.it
        if reify.key_of(tuple(pa))[0] == reify.key_of(tuple(pb))[0]:
            return
        i = j = 0
        pa, pb = list(pa), list(pb)
        while i < len(pa) and j < len(pb):
            x, y = pa[i], pb[j]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    self.differ(f"{why}: text {x!r} / {y!r}")
                pa[i], pb[j] = x[n:], y[n:]
                if not pa[i]:
                    i += 1
                if not pb[j]:
                    j += 1
                continue
            if isinstance(x, Sym) and isinstance(y, Sym):
                self.term(x.t, y.t, why)
            elif isinstance(x, Rep) and isinstance(y, Rep):
                self.indexed(x, y, self.parts, why)
            elif isinstance(x, Rep) or isinstance(y, Rep):
                # one side may be empty
                r = x if isinstance(x, Rep) else y
                if it.ctx.proves(r.n <= 0):
                    if r is x:
                        i += 1
                    else:
                        j += 1
                    continue
                raise Mismatch(f"{why}: {x!r} / {y!r}")
            else:
                raise Mismatch(f"{why}: {x!r} / {y!r}")
            i += 1
            j += 1
        for r in pa[i:] + pb[j:]:
            if isinstance(r, Rep) and it.ctx.proves(r.n <= 0):
                continue
            if isinstance(r, str):
                self.differ(f"{why}: text {r!r}")
            raise Mismatch(f"{why}: {r!r}")

    # ------------------------------------------------------------ sequences
    def indexed(self, x, y, cmp, why):
        """Two comprehensions, element by element at a generic index."""
        it, ctx = self.it, self.it.ctx
        if reify.key_of(x)[0] == reify.key_of(y)[0] and self._params_eq(x, y):
            return
        self.prove(x.n == y.n, f"{why}: length {x.n} / {y.n}")
        j = ctx.fresh_ix()
        err = []

        def cases(z):
            cs = [(it.subst(z3b(c), z.ix, j), ss, z.ix) for c, ss in z.cases]
            rest = z3.simplify(z3.Not(z3.Or(*[c for c, _, _ in cs]))) if cs else z3.BoolVal(True)
            if not z3.is_false(rest):
                cs.append((rest, (), z.ix))
            return cs

        def sub(p, ix):
            return it.subst_part(p, ix, j) if isinstance(x, Rep) else it.subst_seg(p, ix, j)

        def run():
            ctx.ixs.append(j)
            try:
                ctx.assume(z3.And(j >= 0, j < x.n))
                ctx.add_index(x.n, j, 0)
                cx, cy = cases(x), cases(y)
                for c, _, _ in cx + cy:
                    self.keys_in(c)
                a = ctx.choose([c for c, _, _ in cx]) if len(cx) > 1 else 0
                b = ctx.choose([c for c, _, _ in cy]) if len(cy) > 1 else 0
                cmp(tuple(sub(p, cx[a][2]) for p in cx[a][1]), tuple(sub(p, cy[b][2]) for p in cy[b][1]), why + "[i]")
            except (Mismatch, PyRaise) as e:
                if isinstance(e, Mismatch) and not err:
                    # is this path possible at all?
                    err.append(e)
                elif not err:
                    err.append(Mismatch(f"{why}: {e}"))
            finally:
                ctx.ixs.pop()

        nf = ctx.nofork
        ctx.nofork = 0
        try:
            ctx.explore(run, lambda *a: None)
        finally:
            ctx.nofork = nf
        if err:
            raise err[0]

    def keys_in(self, f):
        """Where the keys of a dict are enumerated: a key mentioned here that is in it has a position."""
        from pyvc.builtins_ import key_position

        ctx = self.it.ctx
        todo, seen = [f], set()
        while todo and ctx.keysof:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().eq(mdom) and t.arg(0).get_id() in ctx.keysof:
                o, kty = ctx.keysof[t.arg(0).get_id()]
                if all(any(x.eq(y) for y in ctx.ixs) for x in reify.ixvars(t)):
                    key_position(self.it, t.arg(0), o, t.arg(1), kty, True)
            todo.extend(t.children())

    def _params_eq(self, x, y):
        p, q = reify.key_of(x)[1], reify.key_of(y)[1]
        return len(p) == len(q) and all(a.eq(b) for a, b in zip(p, q))

    def as_c(self, s):
        it = self.it
        if isinstance(s, C):
            return s
        ix = it.ctx.fresh_ix()
        it.ctx.ixs.append(ix)
        try:
            return C(slen(s.t), ix, [(True, (E(it.mk_lazy(sat(s.t, ix), s.ety)),))])
        finally:
            it.ctx.ixs.pop()

    def seqs(self, xs, ys, why):
        it, ctx = self.it, self.it.ctx
        xs, ys = it.norm_segs(xs), it.norm_segs(ys)
        if reify.key_of(tuple(xs))[0] == reify.key_of(tuple(ys))[0] and all(
                a.eq(b) for a, b in zip(reify.key_of(tuple(xs))[1], reify.key_of(tuple(ys))[1])):
            return

        def shape(zs):
            return ["E" if isinstance(s, E) else "M" for s in zs]

        if shape(xs) == shape(ys):
            for i, (a, b) in enumerate(zip(xs, ys)):
                if isinstance(a, E):
                    self.same(a.v, b.v, f"{why}[{i}]")
                elif isinstance(a, S) and isinstance(b, S):
                    try:
                        self.term(a.t, b.t, why)
                    except Mismatch:
                        self.indexed(self.as_c(a), self.as_c(b), self.seqs, why)
                else:
                    self.indexed(self.as_c(a), self.as_c(b), self.seqs, why)
            return
        if all(isinstance(s, E) for s in list(xs) + list(ys)):
            self.differ(f"{why}: {len(xs)} / {len(ys)} elements")
        # different shapes: same length, and the same element at a generic index
        if not all(isinstance(s, (E, S)) or it.is_map(s) for s in list(xs) + list(ys)):
            raise Mismatch(f"{why}: {xs} / {ys}")
        a, b = Seq("tuple", xs), Seq("tuple", ys)
        n = it.seq_len(a)
        self.prove(n == it.seq_len(b), f"{why}: length {n} / {it.seq_len(b)}")
        if ctx.proves(n <= 0):
            return
        j = ctx.fresh_ix()
        err = []

        def run():
            ctx.ixs.append(j)
            try:
                ctx.assume(z3.And(j >= 0, j < n))
                ctx.add_index(n, j, 0)
                self.same(it.seq_at(a, j), it.seq_at(b, j), why + "[i]")
            except Mismatch as e:
                err.append(e)
            finally:
                ctx.ixs.pop()

        nf = ctx.nofork
        ctx.nofork = 0
        try:
            ctx.explore(run, lambda *a_: None)
        finally:
            ctx.nofork = nf
        if err:
            raise err[0]

    # ------------------------------------------------------------ sets and dicts
    def sets(self, a, b, why):
        it, ctx = self.it, self.it.ctx
        ka, kb = reify.key_of(a), reify.key_of(b)
        if ka[0] == kb[0] and all(p.eq(q) for p, q in zip(ka[1], kb[1])):
            return
        if a.expr[0] == "enum" and b.expr[0] == "enum" and len(a.expr[1]) == len(b.expr[1]):
            try:
                for i, (x, y) in enumerate(zip(a.expr[1], b.expr[1])):
                    self.same(x, y, f"{why}{{{i}}}")
                return
            except Mismatch:
                pass
        if a.expr[0] == "seq" and b.expr[0] == "seq":
            try:
                self.seqs(a.expr[1], b.expr[1], why)
                return
            except (Mismatch, Unsupported):
                pass
        if a.expr[0] == "sym" and b.expr[0] == "sym" and ctx.proves(a.expr[1] == b.expr[1]):
            return
        from pyvc.builtins_ import mem, set_tys

        tys = set_tys(it, a) + set_tys(it, b)
        kinds = {t.kind for t in tys}
        ty = TAny
        if kinds <= {"str", "none"}:
            if "none" in kinds:
                self.prove(z3b(mem(it, None, a)) == z3b(mem(it, None, b)), f"{why}: None in {a} / {b}")
            if "str" not in kinds:
                return
            ty = TStr
        x = it.mk(ctx.fresh("x", V), ty)
        self.prove(z3b(mem(it, x, a)) == z3b(mem(it, x, b)), f"{why}: elements of {a} / {b}")

    def dicts(self, a, b, why):
        it, ctx = self.it, self.it.ctx
        ka, kb = reify.key_of(a), reify.key_of(b)
        if ka[0] == kb[0] and all(p.eq(q) for p, q in zip(ka[1], kb[1])):
            return
        if len(a.entries) == len(b.entries) and all(x[0] == "kv" and y[0] == "kv" for x, y in zip(a.entries, b.entries)):
            for i, (x, y) in enumerate(zip(a.entries, b.entries)):
                self.same(x[1], y[1], f"{why}.key{i}")
                self.same(x[2], y[2], f"{why}[key{i}]")
            return
        if len(a.entries) == len(b.entries) == 1 and a.entries[0][0] == "sym" and b.entries[0][0] == "sym":
            self.term(a.entries[0][1], b.entries[0][1], why)
            return
        from pyvc.builtins_ import dict_has, dict_lookup

        def strkeys(d):
            for e in d.entries:
                ts = [e[2]] if e[0] == "sym" else [e[1]] if e[0] == "kv" else [k for _, k, _ in e[3]]
                if not all(t.kind == "str" if isinstance(t, Ty) else isinstance(t, (str, Str)) or isinstance(t, Sym) and t.ty.kind == "str" for t in ts):
                    return False
            return True

        x = it.mk(ctx.fresh("x", V), TStr if strkeys(a) and strkeys(b) else TAny)
        ha, hb = z3b(dict_has(it, a, x)), z3b(dict_has(it, b, x))
        self.prove(ha == hb, f"{why}: keys of {a} / {b}")
        err = []

        def run():
            try:
                ctx.assume(ha)
                va, vb = dict_lookup(it, a, x), dict_lookup(it, b, x)
                if va is MISSING or vb is MISSING:
                    if va is vb:
                        return
                    self.differ(f"{why}: keys")
                self.same(va, vb, f"{why}[key]")
            except Mismatch as e:
                err.append(e)

        nf = ctx.nofork
        ctx.nofork = 0
        try:
            ctx.explore(run, lambda *a_: None)
        finally:
            ctx.nofork = nf
        if err:
            raise err[0]
