"""Printed text as tokens, and what the productions of the grammar say that it denotes (C14, C15).

A text is a sequence of items: ("lit", token), ("sym", value) for an atomic text, ("rep", n, ix, [(cond, items)]).
match() reads such a sequence as a production; the leaves are what the production says, as in pyvc/grammar.py.
"""
import re

import z3

from pyvc import builtins_ as b
from pyvc import grammar as gm
from pyvc.interp import z3b
from pyvc.same import Mismatch, Same
from pyvc.values import *  # noqa

TOKEN = re.compile(r"\s+|[()?]|[^\s()?]+")


class NoMatch(Exception):
    pass


def is_positional(t):
    return z3.is_app(t) and t.decl().name() == "positional"


class Tokens:
    """The tokens of a text.  Two parts of a text that would be one token together are refused."""

    def __init__(self, it):
        self.it = it

    def of(self, v):
        v = self.it.norm_str(v)
        parts = v.parts if isinstance(v, Str) else (v,)
        return self.run(parts, "s")[0]

    def run(self, parts, state):
        """state: s after white space, p after a delimiter, w after a word, e after an end stripped of white space."""
        out = []
        for p in parts:
            if isinstance(p, str):
                for m in TOKEN.finditer(str(p)):
                    t = m.group()
                    if t.isspace():
                        state = "s" if state != "e" else "w"
                    elif t == ".0" and state == "w" and out and out[-1][0] == "sym" and is_positional(out[-1][1].t):
                        out[-1] = ("sym", self.it.mk(F("pointed", V, V)(out[-1][1].t), TStr))
                    elif t in "()?":
                        out.append(("lit", t))
                        state = "p"
                    else:
                        self.glue(state, t)
                        out.append(("lit", t))
                        state = "w"
            elif isinstance(p, Sym):
                if p.t.eq(b.EDGE):
                    state = "e" if state in "sp" else "w"
                    continue
                self.glue(state, p)
                out.append(("sym", p))
                state = "w"
            else:
                item, state = self.rep(p, state)
                out.append(item)
        return out, state

    def glue(self, state, x):
        if state == "w":
            raise NoMatch(f"{x} is not separated from what is before it")

    def rep(self, p, state):
        it, ctx = self.it, self.it.ctx
        cases, ends = [], {state} if not ctx.proves(p.n >= 1) else set()
        inner = None
        for _ in range(2):
            cases, ends2 = [], set()
            for c, ps in p.cases:
                m = ctx.push()
                ctx.ixs.append(p.ix)
                try:
                    ctx.assume(z3.And(p.ix >= 0, p.ix < p.n, z3b(c)))
                    ctx.add_index(p.n, p.ix, 0)
                    if ctx.check() == z3.unsat:
                        continue
                    if ctx.proves(p.ix == 0):
                        st = [state]
                    elif ctx.proves(p.ix > 0):
                        st = [inner] if inner else []
                    else:
                        st = [state] + ([inner] if inner else [])
                    if not st:
                        st = ["s"]
                    r = [self.run(ps, s) for s in st]
                    cases.append((c, r[0][0]))
                    ends2 |= {x[1] for x in r}
                except Infeasible:
                    continue
                finally:
                    ctx.ixs.pop()
                    ctx.pop(m)
            inner = "w" if "w" in ends2 else "e" if "e" in ends2 else "p" if "p" in ends2 else "s"
        ends |= ends2
        end = "w" if "w" in ends or "e" in ends and len(ends) > 1 else "e" if "e" in ends else "p" if "p" in ends else "s"
        return ("rep", p.n, p.ix, cases, (p.n, z3.IntVal(0))), end


def reads(n, t):
    """The text of this value is a text of the nonterminal, and denotes the value."""
    return F("reads." + n, V, B)(t)


class ReadBuilder(gm.Builder):
    """Parts of the text whose own texts are read back as they are (the induction hypothesis)."""

    def lexed(self, s, t):
        s = self.g.resolve(s)
        if s[0] == "nt" and s[1] in self.cut:
            return reads(s[1], t)
        if s[0] == "union":
            tag = F("tag", V, I)(t)
            out, n = [], len(s[1])
            for i, x in enumerate(s[1]):
                c = tag == i if i < n - 1 else z3.And(*[tag != j for j in range(i)])
                out.append(z3.Implies(c, self.lexed(x, t)))
            return z3.And(*out)
        return super().lexed(s, t)

    def one(self, s):
        ch, lv = super().one(s)
        s = self.g.resolve(s)
        if s[0] == "nt" and s[1] in self.cut or s[0] == "union":
            for l in lv:
                self.leaf(s, l.v)
        return ch, lv

    def leaf(self, s, v):
        it = self.it
        if s[0] == "nt" and s[1] == "typed_list_variable":
            pairs_fact(it, v)
            return
        if isinstance(v, DictV) or isinstance(v, SetV):
            return
        if isinstance(v, Seq) and s[1] != "plan":
            v = v.segs[0]
            it.ctx.assume(reads(s[1], v.t))
            return
        it.ctx.assume(self.lexed(s, it.to_v(v)))


def pairs_fact(it, v):
    """A typed list of variables: its names are names; no name without types is before one that has types (C12)."""
    t, ty = v.segs[0].t, v.segs[0].ety
    ix = z3.Int("$k")
    nm, tags = F("proj0", V, V), F("proj1", V, V)
    b.forall(it, ix, slen(t), F("token NAME", V, B)(nm(sat(t, ix))))
    typed_list(it, t, lambda k: F("proj1", V, V)(sat(t, k)))


def typed_list(it, t, tags):
    """Of two elements of the list, the first has no types only if the second has none."""
    if any(t.eq(u) for u, _ in it.ctx.known.get("typedlists", ())):
        return
    it.ctx.dset(it.ctx.known, "typedlists", it.ctx.known.get("typedlists", ()) + ((t, lambda k: F("card", V, I)(tags(k)) == 0),))


def suffix(it, untyped, n, why):
    """What has no type is at the end: if it is untyped at i, it is untyped at every later index."""
    ctx = it.ctx
    i, j = ctx.fresh_ix(), ctx.fresh_ix()
    m = ctx.push()
    ctx.ixs += [i, j]
    try:
        ctx.assume(z3.And(0 <= i, i < j, j < n))
        ctx.add_index(n, i, 0)
        ctx.add_index(n, j, 0)
        for t, el, c in it.ctx.known.get("boolkeys", ()):
            ctx.assume(z3.Implies(z3.And(0 <= i, i < j, j < slen(t), z3.substitute(c, (el, sat(t, i)))), z3.substitute(c, (el, sat(t, j)))))
        for t, n0 in it.ctx.known.get("typedlists", ()):
            ctx.assume(z3.Implies(z3.And(0 <= i, i < j, j < slen(t), n0(i)), n0(j)))
        if not ctx.proves(z3.Implies(untyped(i), untyped(j))):
            raise NoMatch(why)
    except Infeasible:
        pass
    finally:
        ctx.ixs[-2:] = []
        ctx.pop(m)


class Reader:
    """Reads tokens as productions of the grammar."""

    def __init__(self, it, g, kind, st, specs, builder):
        self.it, self.g, self.kind, self.st, self.specs, self.bd = it, g, kind, st, specs, builder
        self.special = {"typed_list_variable": self.typed_variables, "num_literal": self.number, "typed_list_name": lambda st: self.typed_names(("tok", "NAME"), st),
                        "f_typed_list_atomic_function_skeleton": lambda st: self.typed_names(("nt", "atomic_function_skeleton"), st)}
        self.facts = []  # what is known of the elements printed: called where one is read

    # ------------------------------------------------------------ whole text
    def read(self, n, items):
        """The values that the text denotes as a text of the nonterminal: one per production that fits."""
        out, why = [], []
        for key, prod in self.g.productions(n):
            m = self.it.ctx
            try:
                leaves, rest = self.seq(prod, items)
                self.nothing(rest)
            except NoMatch as e:
                why.append(f"{key}: {e}")
                continue
            out.append((key, leaves))
        if not out:
            raise NoMatch(f"the text {show(items)} is not a text of {n} ({'; '.join(why)[:300]})")
        return out

    def nothing(self, rest):
        for x in rest:
            if x[0] != "rep" or not self.it.ctx.proves(x[1] <= 0):
                raise NoMatch(f"{show(rest)} is left")

    # ------------------------------------------------------------ items
    def seq(self, prod, st):
        lv = []
        for s in prod:
            l, st = self.item(s, st)
            lv += l
        return lv, st

    def item(self, s, st):
        s = self.g.resolve(s)
        k = s[0]
        if k in ("star", "plus"):
            return self.many(s, st)
        if k in ("opt", "optional"):
            try:
                return self.seq(s[1], st)
            except NoMatch:
                n = sum(self.count(x) for x in s[1])
                return [E(None)] * n, st
        if k == "group":
            return self.seq(s[1], st)
        if k == "union":
            why = []
            for x in s[1]:
                try:
                    return self.item(x, st)
                except NoMatch as e:
                    why.append(str(e))
            raise NoMatch("; ".join(why))
        if k == "nt" and s[1] in self.special:
            if st and st[0][0] == "sym":
                v = self.child(s[1], st[0])
                if v is not None:
                    return [E(v)], st[1:]
            return self.special[s[1]](st)
        st = self.head(st)
        x = st[0] if st else None
        if k in ("lit", "anon"):
            if x != ("lit", s[1]):
                raise NoMatch(f"{s[1]!r} expected at {show(st)}")
            return [], st[1:]
        if k == "tok":
            if len(s) > 2 and s[2] != s[1]:
                pre = s[2][:-len(s[1])]
                if x != ("lit", pre):
                    raise NoMatch(f"{pre!r} expected at {show(st)}")
                st = self.head(st[1:])
                x = st[0] if st else None
            return self.tok(s[1], x, st)
        if k == "alt":
            if x and x[0] == "lit" and x[1] in s[1]:
                return [E(x[1])], st[1:]
            if x and x[0] == "sym" and self.it.ctx.proves(self.bd.lexed(s, self.it.to_v(x[1]))):
                return [E(x[1])], st[1:]
            raise NoMatch(f"one of {s[1]} expected at {show(st)}")
        if k == "nt":
            return self.rule(s[1], st)
        raise Unsupported(f"reading {s}")

    def count(self, s):
        """How many leaves an item has."""
        s = self.g.resolve(s)
        if s[0] in ("lit", "anon"):
            return 0
        if s[0] in ("opt", "optional", "group"):
            return sum(self.count(x) for x in s[1])
        if s[0] == "nt" and s[1] not in self.bd.cut:
            return sum(self.count(x) for x in self.g.rules[s[1]][0])
        return 1

    def tok(self, t, x, st):
        it = self.it
        if x and x[0] == "lit":
            kind, e = self.g.terms[t]
            if kind == "re" and re.fullmatch(e[1:-1], x[1]) and not any(v == x[1] for k, v in self.g.terms.values() if k == "lit"):
                return [E(x[1])], st[1:]
        if x and x[0] == "sym":
            if t == "NAME" and x[1].ty.kind == "str" and x[1].ty.a:
                return [E(x[1])], st[1:]  # names are of the language of NAME (obligation C14.names)
            f = F("token " + t, V, B)(it.to_v(x[1]))
            if it.ctx.proves(f):
                return [E(x[1])], st[1:]
        raise NoMatch(f"{t} expected at {show(st)}")

    def head(self, st):
        """The tokens, with a first one that is not a repetition."""
        it = self.it
        while st and st[0][0] == "rep":
            _, n, ix, cases, base = st[0]
            if not it.ctx.branch(n >= 1):
                st = st[1:]
                continue
            zero, nx = z3.IntVal(0), it.ctx.fresh_ix()
            cs = [it.subst(z3b(c), ix, zero) for c, _ in cases]
            it.ctx.add_index(base[0], base[1], 0)
            rest = z3.simplify(z3.Not(z3.Or(*cs))) if cs else z3.BoolVal(True)
            i = it.ctx.choose(cs + [rest])
            first = sub_items(it, cases[i][1], ix, zero) if i < len(cases) else []
            more = [(it.subst(it.subst(z3b(c), ix, nx + 1), z3.Int("$none"), nx), sub_items(it, xs, ix, nx + 1)) for c, xs in cases]
            st = first + [("rep", z3.simplify(n - 1), nx, more, (base[0], z3.simplify(base[1] + 1)))] + st[1:]
        return st

    def many(self, s, st):
        it, ctx = self.it, self.it.ctx
        if len(s[1]) != 1:
            raise Unsupported("grammar: repeated group")
        item = s[1][0]
        segs = []
        st0 = st
        while st:
            if st[0][0] == "rep":
                try:
                    segs.append(self.rep_as(item, st[0]))
                    st = st[1:]
                    continue
                except NoMatch as e:
                    if s[0] == "star" or segs:
                        why = e
                        break
                    raise
            try:
                l, st = self.item(item, st)
            except NoMatch:
                break
            if len(l) != 1:
                raise Unsupported("leaves of a repeated item")
            segs += l
        q = Seq("list", it.norm_segs(segs))
        if s[0] == "plus" and not ctx.proves(z3b(it.seq_len(q) >= 1)):
            raise NoMatch(f"{self.g.key([s])} may be empty at {show(st0)}")
        return [E(q)], st

    def rep_as(self, item, x):
        """A repetition as a list of items."""
        it, ctx = self.it, self.it.ctx
        _, n, ix, cases, base = x
        out = []
        for c, xs in cases:
            l = self.scoped(n, ix, c, lambda: [it._freeze_seg(x, {}) for x in self.only(item, xs)], base)
            if l is not None:
                out.append((c, tuple(l)))
        return merged(it, C(n, ix, out)) if out else C(n, ix, [])

    def only(self, item, xs):
        self.about(xs)
        l, rest = self.item(item, xs)
        self.nothing(rest)
        if len(l) != 1:
            raise Unsupported("leaves of a repeated item")
        return l

    def scoped(self, n, ix, c, fn, base=None):
        it, ctx = self.it, self.it.ctx
        m = ctx.push()
        ctx.ixs.append(ix)
        ctx.nofork += 1
        try:
            ctx.assume(z3.And(ix >= 0, ix < n, z3b(c)))
            ctx.add_index(n, ix, 0)
            if base is not None:
                ctx.add_index(base[0], base[1] + ix, 0)
            if ctx.check() == z3.unsat:
                return None
            return fn()
        except Infeasible:
            return None
        except NoFork:
            raise Unsupported("decision in a repetition")
        finally:
            ctx.nofork -= 1
            ctx.ixs.pop()
            ctx.pop(m)

    # ------------------------------------------------------------ rules
    def closure(self, n, seen=None):
        """Rules whose texts are texts of this one with the same value."""
        seen = seen if seen is not None else []
        if n in seen:
            return seen
        seen.append(n)
        if n in self.g.single:
            for a in self.g.single[n]:
                if a[0] == "nt":
                    self.closure(a[1], seen)
            return seen
        for key, prod in self.g.productions(n):
            sp = self.specs.get(key)
            if sp is not None and sp.__name__ == "same" and len(prod) == 1:
                x = self.g.resolve(prod[0])
                if x[0] == "nt":
                    self.closure(x[1], seen)
        return seen

    def child(self, n, x):
        """The value of an atomic text that is the text of a part."""
        it = self.it
        v = x[1]
        if z3.is_app(v.t) and v.t.decl().name().startswith("text:") and v.t.num_args() == 1:
            m = v.t.decl().name()[5:]
            return it.mk_lazy(v.t.arg(0), self.bd.cut[m]) if m in self.closure(n) else None
        if z3.is_app(v.t) and v.t.decl().name() == "str" and v.t.num_args() == 1:
            t = v.t.arg(0)
            if it.ctx.proves(z3.Or(*[reads(m, t) for m in self.closure(n)])):
                return it.mk_lazy(t, self.bd.cut[n])
        return None

    def rule(self, n, st):
        it = self.it
        x = st[0] if st else None
        if x and x[0] == "sym" and n in self.bd.cut:
            v = self.child(n, x)
            if v is not None:
                return [E(v)], st[1:]
        why = []
        for key, prod in self.g.productions(n):
            try:
                l, rest = self.seq(prod, st)
            except NoMatch as e:
                why.append(str(e))
                continue
            if key in self.specs:
                v = it.call_function(self.specs[key], [self.st] + [y.v for y in l], {})
                return [E(v)], rest
            return l, rest
        raise NoMatch(f"no {n} at {show(st)} ({'; '.join(why)[:200]})")

    def number(self, st):
        """Numerals: what Python prints for a number is read as the number (trusted), in the notation of PDDL."""
        it = self.it
        st = self.head(st)
        x = st[0] if st else None
        if not x or x[0] != "sym":
            raise NoMatch(f"a number expected at {show(st)}")
        t = x[1].t
        inn = lambda s, u: F("str_in", V, V, B)(it.to_v(s), u)  # noqa
        pre = z3.is_app(t) and t.decl().name()
        if pre == "str.num":
            n = t.arg(0)
            if it.ctx.proves(z3.And(reads("num_literal", n), z3.Not(inn("e", t)))):
                return [E(it.mk(n, TNum))], st[1:]
            raise NoMatch("a number that may be in exponent notation")
        if pre == "positional" and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == "str.num":
            n = t.arg(0).arg(0)
            if it.ctx.proves(z3.And(reads("num_literal", n), inn("e", t.arg(0)), inn(".", t))):
                return [E(it.mk(n, TNum))], st[1:]
        if pre == "pointed" and z3.is_app(t.arg(0).arg(0)) and t.arg(0).arg(0).decl().name() == "str.num":
            u = t.arg(0).arg(0)
            n = u.arg(0)
            if it.ctx.proves(z3.And(reads("num_literal", n), inn("e", u), z3.Not(inn(".", t.arg(0))))):
                return [E(it.mk(n, TNum))], st[1:]
        raise NoMatch(f"a number expected at {show(st)}")

    # ------------------------------------------------------------ typed lists
    def type_of(self, xs):
        """The set of types after a dash; None if there is none."""
        it = self.it
        if not xs:
            return None
        if xs[0] != ("lit", "-"):
            raise NoMatch(f"'-' expected at {show(xs)}")
        xs = xs[1:]
        if len(xs) == 1 and xs[0][0] in ("sym", "lit"):
            return b.mkset("frozenset", [E(self.type_name(xs[0]))])
        if len(xs) >= 3 and xs[0] == ("lit", "(") and xs[1] == ("lit", "either") and xs[-1] == ("lit", ")"):
            segs = []
            for x in xs[2:-1]:
                if x[0] == "rep":
                    if len(x[3]) < 1:
                        raise NoMatch("types")
                    b.sorted_facts(it, x[1])
                    cs = []
                    for c, ys in x[3]:
                        if len(ys) != 1:
                            raise NoMatch(f"a type expected at {show(ys)}")
                        cs.append((c, (E(self.type_name(ys[0])),)))
                    segs.append(merged(it, C(x[1], x[2], cs)))
                else:
                    segs.append(E(self.type_name(x)))
            q = it.norm_segs(segs)
            if not it.ctx.proves(z3b(it.seq_len(Seq("list", q)) >= 1)):
                raise NoMatch("(either) may be without types")
            return b.mkset("frozenset", q)
        raise NoMatch(f"a type expected at {show(xs)}")

    def type_name(self, x):
        if x[0] == "lit":
            if not re.fullmatch(r"[a-zA-Z][a-zA-Z0-9-_]*", x[1]):
                raise NoMatch(f"{x[1]} is not a type")
            return x[1]
        v = x[1]
        if not (v.ty.kind == "str" and v.ty.a):
            raise NoMatch(f"{v} may not be a type")
        return v

    def typed_variables(self, st):
        """A typed list of variables: one group per variable, as printed."""
        it = self.it
        segs, pos = [], []
        while st and (st[0][0] == "rep" or st[0] == ("lit", "?")):
            if st[0][0] == "rep":
                _, n, ix, cases, base = st[0]
                got = []
                for c, xs in cases:
                    r = self.scoped(n, ix, c, lambda: self.variable(xs), base)
                    if r is not None:
                        got.append((c, r[0], r[1]))
                segs.append(self.uniform(n, ix, got))
                pos.append((n, ix, [c for c, _, ty in got if ty is None], [c for c, _, ty in got if ty is not None]))
                st = st[1:]
            else:
                xs, st = one_variable(st)
                nm, ty = self.variable(xs)
                segs.append(E(Seq("tuple", [E(nm), E(ty if ty is not None else b.mkset("frozenset", []))])))
                pos.append((None, None, ty is None, ty is not None))
        for i, p in enumerate(pos):
            if p[0] is None:
                if p[2] and any(q[3] for q in pos[i + 1:]):
                    raise NoMatch("a variable without type before one with a type")
                continue
            if p[2] and any(q[3] for q in pos[i + 1:]):
                raise NoMatch("a variable without type before one with a type")
            if p[2] and p[3]:
                n, ix = p[0], p[1]
                suffix(it, lambda j: it.subst(z3.Or(*[z3b(c) for c in p[2]]), ix, j), n, "a variable without type before one with a type")
        return [E(Seq("tuple", segs))], st

    def typed_names(self, item, st):
        """A typed list of names or functions: a list of groups (items, type), the last one without type."""
        it = self.it
        groups, names = [], []
        while st:
            x = st[0]
            if x == ("lit", "-"):
                groups.append(E(self.closed(names, st[1:2])))
                names, st = [], st[2:]
            elif x[0] == "rep" and all(len(ys) >= 2 and ys[-2] == ("lit", "-") for _, ys in x[3]):
                if names:
                    raise NoMatch("items before a group")
                _, n, ix, cases, base = x
                out = []
                for c, ys in cases:
                    def group():
                        l, rest = self.items(item, ys[:-2])
                        self.nothing(rest)
                        return self.closed(l, ys[-1:])

                    g = self.scoped(n, ix, c, lambda: (self.about(ys), it.freeze(group()))[1], base)
                    if g is not None:
                        out.append((c, (E(g),)))
                groups.append(C(n, ix, out))
                st = st[1:]
            else:
                l, rest = self.items(item, st)
                if rest is st or len(rest) == len(st):
                    break
                names, st = names + l, rest
        if names:
            groups.append(E(Seq("tuple", [E(Seq("list", names)), E(None)])))
        return [E(Seq("list", groups))], st

    def about(self, ys):
        """What holds of the lists in these tokens: lengths of enumerations."""
        for y in ys:
            if y[0] == "rep":
                t = y[1].arg(0) if z3.is_app(y[1]) and y[1].decl().eq(slen) else None
                if t is not None and enumeration(t):
                    u = b.enumerates(t)
                    self.it.ctx.assume(y[1] == slen(t.arg(0)) if u is None else y[1] == F("card", V, I)(u))
                for _, zs in y[3]:
                    self.about(zs)
            elif y[0] == "sym" and z3.is_app(y[1].t) and y[1].t.decl().eq(sat) and z3.is_app(y[1].t.arg(0)) and enumeration(y[1].t.arg(0)):
                t = y[1].t.arg(0)
                u = b.enumerates(t)
                self.it.ctx.assume(slen(t) == slen(t.arg(0)) if u is None else slen(t) == F("card", V, I)(u))
        if ys:
            for f in self.facts:
                f(ys)

    def items(self, item, st):
        """As many items as there are."""
        out = []
        while st and st[0] != ("lit", "-"):
            try:
                if st[0][0] == "rep":
                    out.append(self.rep_as(item, st[0]))
                    st = st[1:]
                    continue
                l, st2 = self.item(item, st)
            except NoMatch:
                break
            out, st = out + l, st2
        return out, st

    def closed(self, names, ty):
        q = Seq("list", self.it.norm_segs(names))
        if not self.it.ctx.proves(z3b(self.it.seq_len(q) >= 1)):
            raise NoMatch("a type without items before it")
        if not ty:
            raise NoMatch("a type expected")
        return Seq("tuple", [E(q), E(self.type_name(ty[0]))])

    def variable(self, xs):
        if len(xs) < 2 or xs[0] != ("lit", "?"):
            raise NoMatch(f"a variable expected at {show(xs)}")
        l, _ = self.tok("NAME", xs[1], xs[1:])
        return l[0].v, self.type_of(xs[2:])

    def uniform(self, n, ix, got):
        """The elements of a repetition: the same name and set of types in all cases, or case by case."""
        it, ctx = self.it, self.it.ctx
        names = [x for _, x, _ in got]
        for T in candidates(it, got):
            try:
                for c, x, ty in got:
                    def chk():
                        self.same_types(ty, T)
                        Same(it).same(x, names[0])
                    self.scoped_check(n, ix, c, chk)
            except Mismatch:
                continue
            return C(n, ix, [(True, (E(Seq("tuple", [E(names[0]), E(T)])),))])
        return C(n, ix, [(c, (E(Seq("tuple", [E(x), E(ty if ty is not None else b.mkset("frozenset", []))])),)) for c, x, ty in got])

    def same_types(self, ty, T):
        """The set of types printed is the set T: none, its only element, or all of them."""
        it = self.it
        e = ty.expr if ty is not None else ("enum", [])
        if T.expr[0] == "sym":
            u = T.expr[1]
            n = F("card", V, I)(u)
            it.ctx.assume(n >= 0)
            if e[0] == "sym" and e[1].eq(u):
                return
            if e[0] == "enum" and not e[1] and it.ctx.proves(n == 0):
                return
            if e[0] == "enum" and len(e[1]) == 1 and isinstance(e[1][0], Sym):
                x = e[1][0].t
                if z3.is_app(x) and x.decl().eq(sat) and enumeration_of(x.arg(0), u) and it.ctx.proves(z3.And(n == 1, x.arg(1) == 0)):
                    return
        b.set_order(it, T)
        Same(it).same(SetV("frozenset", e), SetV("frozenset", T.expr))

    def scoped_check(self, n, ix, c, fn):
        it, ctx = self.it, self.it.ctx
        m = ctx.push()
        ctx.ixs.append(ix)
        try:
            ctx.assume(z3.And(ix >= 0, ix < n, z3b(c)))
            ctx.add_index(n, ix, 0)
            if ctx.check() == z3.unsat:
                return
            fn()
        except Infeasible:
            return
        finally:
            ctx.ixs.pop()
            ctx.pop(m)


def enumeration_of(t, u):
    return z3.is_app(t) and t.num_args() >= 1 and t.decl().name() in ("ord", "sorted", "sorted-rev", "sortedby", "sortedby-rev", "sortedtexts", "sortedtexts-rev") and t.arg(0).eq(u)


def one_variable(st):
    """The tokens of the first variable of a list, with its type."""
    k = 2
    if len(st) > k and st[k] == ("lit", "-"):
        k += 1
        if len(st) > k and st[k] == ("lit", "("):
            while k < len(st) and st[k] != ("lit", ")"):
                k += 1
        k += 1
    return st[:k], st[k:]


def merged(it, c):
    """A repetition whose cases all give the same element."""
    ks = {(ss[0].v.t.get_id(), str(ss[0].v.ty)) if isinstance(ss[0].v, Sym) else ("", str(ss[0].v)) for _, ss in c.cases}
    if len(ks) == 1:
        return C(c.n, c.ix, [(True, c.cases[0][1])])
    return c


def candidates(it, got):
    """Sets that the types printed may be all of."""
    out = []
    for _, _, ty in got:
        if ty is None:
            continue
        if ty.expr[0] == "sym":
            out.append(ty)
        if ty.expr[0] == "enum" and len(ty.expr[1]) == 1 and isinstance(ty.expr[1][0], Sym):
            t = ty.expr[1][0].t
            if z3.is_app(t) and t.decl().eq(sat) and z3.is_app(t.arg(0)) and t.arg(0).decl().name() in ("ord", "sorted"):
                u = t.arg(0).arg(0)
                e = b._compound.get(u.get_id())
                out.append(SetV("frozenset", e if e is not None else ("sym", u, ty.expr[1][0].ty)))
    return out


def determined(it, items, ixs=()):
    """The text does not depend on the order in which a set is enumerated."""
    for x in items:
        if x[0] == "sym":
            order_free(it, x[1].t)
        if x[0] == "rep":
            if z3.is_expr(x[1]):
                order_free(it, x[1])
            for c, ys in x[3]:
                m = it.ctx.push()
                it.ctx.ixs.append(x[2])
                try:
                    it.ctx.assume(z3.And(x[2] >= 0, x[2] < x[1], z3b(c)))
                    it.ctx.add_index(x[1], x[2], 0)
                    if it.ctx.check() == z3.unsat:
                        continue
                    determined(it, ys)
                except Infeasible:
                    continue
                finally:
                    it.ctx.ixs.pop()
                    it.ctx.pop(m)


def order_free(it, t):
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        nm = u.decl().name()
        if nm in ("ord", "keys"):
            raise NoMatch(f"the text depends on the order of a set ({str(u)[:80]})")
        if nm in ("sorted", "sorted-rev", "sorted-seq", "sorted-rev-seq", "card", "typeorder") or nm.startswith("sortedtexts"):
            continue
        if u.decl().eq(slen) and z3.is_app(u.arg(0)):
            if enumeration(u.arg(0)) or u.arg(0).decl().name() in ("keys", "untyped") or grouped(u.arg(0)):
                continue
        if nm.startswith("sortedby"):
            if not any(same_but_index(v, u) for (v,) in it.ctx.known.get("ordered lists", ())):
                raise NoMatch("the text depends on the order of a set (elements with the same key)")
            continue
        if u.decl().eq(sat) and z3.is_app(u.arg(0)) and u.arg(0).decl().name() == "ord" and it.ctx.proves(
                z3.And(u.arg(1) == 0, F("card", V, I)(u.arg(0).arg(0)) == 1)):
            todo.append(u.arg(0).arg(0))
            continue
        todo.extend(u.children())


def grouped(t):
    """A group: what is in it does not depend on the order of the elements."""
    return z3.is_app(t) and t.decl().eq(mget) and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == "groups"


def enumeration(t):
    return t.decl().name() in ("ord", "sorted", "sorted-rev", "sorted-seq", "sorted-rev-seq") or t.decl().name().startswith(("sortedby", "sortedtexts"))


def same_but_index(v, u):
    return v.decl().eq(u.decl()) and v.arg(v.num_args() - 1).eq(u.arg(u.num_args() - 1))


def sub_items(it, xs, ix, t):
    out = []
    for x in xs:
        if x[0] == "lit":
            out.append(x)
        elif x[0] == "sym":
            out.append(("sym", it.subst(x[1], ix, t)))
        else:
            out.append(("rep", it.subst(x[1], ix, t), x[2], [(it.subst(z3b(c), ix, t), sub_items(it, ys, ix, t)) for c, ys in x[3]], (it.subst(x[4][0], ix, t), x[4][1])))
    return out


def show(xs):
    out = []
    for x in xs[:8]:
        if x[0] == "lit":
            out.append(x[1])
        elif x[0] == "sym":
            out.append(f"<{x[1].t}>")
        else:
            out.append("{" + " | ".join(show(ys) for _, ys in x[3]) + "}*")
    return " ".join(out)[:200]
