"""Path context: facts, decisions, undo trail, and the solver."""
import time

import z3

from pyvc import reify
from pyvc.values import *  # noqa

z3.set_param("smt.random_seed", 7)
z3.set_param("sat.random_seed", 7)


class Budget(Exception):
    """The exploration budget of an obligation is used up."""


class Stats:
    checks = 0
    solver_s = 0.0
    unknown = 0


def _contains_quant(f, _cache={}):
    i = f.get_id()
    r = _cache.get(i)
    if r is not None and r[0].eq(f):
        return r[1]
    v = z3.is_quantifier(f) or any(_contains_quant(c) for c in f.children())
    _cache[i] = (f, v)
    return v


def occurs(x, t, _c={}):
    if t.eq(x):
        return True
    key = (x.get_id(), t.get_id())
    r = _c.get(key)
    if r is not None and r[0].eq(x) and r[1].eq(t):
        return r[2]
    v = any(occurs(x, c) for c in t.children())
    _c[key] = (x, t, v)
    return v


_apps = {}


def schema_apps(f):
    """Sub-terms ex!n(...) of a formula."""
    i = f.get_id()
    r = _apps.get(i)
    if r is not None and r[0].eq(f):
        return r[1]
    out = []
    seen = set()
    todo = [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            nm = t.decl().name()
            if nm.startswith("ex!"):
                out.append(t)
            elif nm.startswith("kex!"):
                # the witness of a named existential: its predicate comes with it
                out.append(z3.Function(nm[1:], *([I] * t.num_args()), B)(*t.children()))
        todo.extend(t.children())
    _apps[i] = (f, out)
    return out


def schema_apps_q(f):
    """Names of the existentials used in a formula, quantified ones included."""
    out, seen, todo = [], set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            nm = t.decl().name()
            if nm.startswith("kex!"):
                nm = nm[1:]
            if nm.startswith("ex!") and nm in SCHEMAS:
                out.append(nm)
        todo.extend(t.children())
    return out


class Keep:
    """Keeps terms alive: their ids are used as keys."""

    def append(self, t):
        reify.keep(t)


SCHEMAS = {}  # name -> (P, K, arity, n, cond)
SKEY = {}
LINKS = {}  # name -> an equivalent named existential


class Ctx:
    """State of one symbolic execution path."""

    def __init__(self, max_paths=3000, deadline=None, timeout_ms=3000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.facts = []
        self.decs = []
        self.trail = []
        self.prefix = []
        self.pos = 0
        self.taken = []
        self.pending = []
        self.ixs = []
        self.scopes = 0
        self.ctr = {}
        self.known = {}
        self.mat = {}
        self.reified = []
        self.skolems = []
        self.writes = []
        self.lits = {}
        self.max_paths = max_paths
        self.deadline = deadline
        self.notes = []
        self.assume_ok = 0
        self.inside = False
        self.keep = Keep()
        self.schemas = SCHEMAS
        self.nofork = 0
        self.in_reify = 0
        self.foralls = []
        self.fset = {}
        self.fameq = {}
        self.indices = []
        self.imaps = []
        self.steps = 0
        self.objs = {}
        self.asked = []
        self.askedkeys = {}
        self.keysof = {}
        self.deep = False
        self.litfacts = {}  # not undone: literals are distinct
        self.deepfacts = {}  # not undone: facts about the enumeration of sets
        self.ordered = {}  # not undone: the enumeration of a set is a function of the set

    # -- undo trail
    def mut(self, obj, attr, val):
        self.trail.append((0, obj, attr, getattr(obj, attr)))
        setattr(obj, attr, val)

    def dset(self, d, k, val):
        self.trail.append((1, d, k, d.get(k, MISSING)))
        d[k] = val

    def lappend(self, lst, v):
        self.trail.append((2, lst, None, None))
        lst.append(v)

    def undo(self, mark):
        tr = self.trail
        while len(tr) > mark:
            k, o, a, old = tr.pop()
            if k == 0:
                setattr(o, a, old)
            elif k == 1:
                if old is MISSING:
                    del o[a]
                else:
                    o[a] = old
            else:
                o.pop()

    # -- facts
    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        i = f.get_id()
        if i in self.fset:
            return
        reify.keep(f)
        self.dset(self.fset, i, True)
        self.lappend(self.facts, f)
        self.solver.add(f)
        self.scan(f)
        if z3.is_eq(f) or z3.is_and(f):
            self.join(f)

    def decide(self, f):
        self.assume(f)
        if not self.assume_ok:
            self.lappend(self.decs, f)

    # -- named existentials: P(params) <=> exists ix in [0,n): cond, with the least witness k(params)
    def exists(self, n, ix, cond, tag=None):
        """The pair (P, k) of the named existential; cond and n may mention other generic indices."""
        n = z3.IntVal(n) if isinstance(n, int) else z3.simplify(n)
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return z3.BoolVal(False), z3.IntVal(0)
        used = {}
        for p in reify.ixvars(cond) + reify.ixvars(n):
            if not p.eq(ix):
                used[p.get_id()] = p
        used = list(used.values())
        sub = [(p, z3.Int(f"$p{i}")) for i, p in enumerate(used)]
        c = reify.keep(z3.simplify(z3.substitute(cond, (ix, z3.Int("$i")), *sub)))
        m = reify.keep(z3.simplify(z3.substitute(n, *sub) if sub else n))
        key = (c.get_id(), m.get_id())
        if key not in SKEY:
            nm = f"ex!{len(SKEY)}"
            SKEY[key] = nm
            sorts = [I] * len(used)
            SCHEMAS[nm] = (z3.Function(nm, *sorts, B), z3.Function("k" + nm, *sorts, I), len(used), m, c)
            reify.SCHEMA_DEF[nm] = (m, c)
        P, K = SCHEMAS[SKEY[key]][:2]
        p, k = P(*used), K(*used)
        self.scan(p)
        return p, k

    def link(self, p, q):
        """The named existentials p and q are equivalent, at all values of the generic indices in them."""
        nm = p.decl().name() if z3.is_app(p) else ""
        if nm in SCHEMAS and nm not in LINKS:
            ps = p.children()
            LINKS[nm] = reify.keep(z3.substitute(q, *[(a, z3.Int(f"$p{i}")) for i, a in enumerate(ps)]) if ps else q)
        self.assume(p == q)

    def scan(self, f):
        for t in schema_apps(f):
            self.inst_schema(t)

    def inst_schema(self, t):
        nm = t.decl().name()
        if nm not in SCHEMAS:
            return
        key = ("schema", t.get_id())
        if key in self.known:
            return
        reify.keep(t)
        self.dset(self.known, key, True)
        P, K, ar, n, c = SCHEMAS[nm]
        args = t.children()
        sub = [(z3.Int(f"$p{i}"), a) for i, a in enumerate(args)]
        if sub:
            n, c = z3.substitute(n, *sub), z3.substitute(c, *sub)
        k = K(*args)
        ix = z3.Int("$i")
        d = 1 + max([self.depth_of(a) for a in args], default=0)
        fam = self.family(n)
        self.lappend(self.foralls, (ix, z3.Implies(z3.And(ix >= 0, ix < n, z3.Or(z3.Not(t), ix < k)), z3.Not(c)), fam))
        f = self.foralls[-1]
        self.assume(z3.Implies(t, z3.And(k >= 0, k < n, z3.substitute(c, (ix, k)))))
        if nm in LINKS:
            q = z3.substitute(LINKS[nm], *sub) if sub else LINKS[nm]
            self.assume(t == q)
            self.scan(q)
        for (u, _, fu) in list(self.indices):
            if self.related(fu, fam):
                self.assume(z3.substitute(f[1], (ix, u)))
        self.add_index(n, k, d)

    def depth_of(self, a):
        for (t, d, _) in self.indices:
            if t.eq(a):
                return d
        return 0

    # families of bounds: a universal fact is instantiated at the indices of related bounds
    def family(self, n):
        """Ids of the terms a bound consists of."""
        out = set()
        todo = [z3.simplify(n)]
        while todo:
            t = todo.pop()
            if z3.is_int_value(t):
                continue
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE):
                todo.extend(c for c in t.children() if c.sort() == I)
                continue
            f = next((fu for (u, _, fu) in self.indices if u.eq(t)), None)
            if f is not None:
                out |= f
            else:
                reify.keep(t)
                out.add(t.get_id())
        return frozenset(out)

    def related(self, f, g):
        if not f or not g or f & g:
            return True
        if self.fameq:
            return bool({self.find(x) for x in f} & {self.find(x) for x in g})
        return False

    def find(self, x):
        while x in self.fameq:
            x = self.fameq[x]
        return x

    def join(self, f):
        """Bounds that are equal are related."""
        if z3.is_and(f):
            for c in f.children():
                self.join(c)
            return
        if not z3.is_eq(f) or f.arg(0).sort() != I:
            return
        a, b = self.family(f.arg(0)), self.family(f.arg(1))
        for x in a:
            for y in b:
                x2, y2 = self.find(x), self.find(y)
                if x2 != y2:
                    self.dset(self.fameq, x2, y2)
                    self.reinstantiate()

    def reinstantiate(self):
        """After a join: the pairs that are related now (assume ignores what is known)."""
        for (ix, f, fam) in list(self.foralls):
            for (u, _, fu) in list(self.indices):
                if not (fu & fam) and self.related(fu, fam):
                    self.assume(z3.substitute(f, (ix, u)))

    def add_index(self, tag, term, depth=0):
        """Instantiate the universal facts at this index."""
        if depth > 3:
            return
        term = reify.keep(z3.simplify(term))
        for (t, d, _) in self.indices:
            if t.eq(term):
                return
        fam = self.family(tag if isinstance(tag, z3.ExprRef) else z3.IntVal(0))
        self.lappend(self.indices, (term, depth, fam))
        for (ix, f, ff) in list(self.foralls):
            if self.related(fam, ff):
                self.assume(z3.substitute(f, (ix, term)))
        for (fm, g, tag) in list(self.imaps):
            if fm & fam:
                self.add_mapped(tag, g(term), depth + 1)

    def map_index(self, tag, g, to):
        """Where an index below tag is of interest, so is g of it, below to."""
        fm = self.family(tag)
        self.lappend(self.imaps, (fm, g, to))
        for (u, d, fu) in list(self.indices):
            if fm & fu:
                self.add_mapped(to, g(u), d + 1)

    def add_mapped(self, tag, term, depth):
        if term is not None:
            self.add_index(tag, term, depth)

    def fresh_ix(self):
        """A fresh generic index."""
        n = self.ctr.get("ix", 0)
        self.ctr["ix"] = n + 1
        return reify.keep(z3.Int(f"ix!{n}"))

    def once(self, key, fact):
        """Assume a definitional fact once per scope."""
        if key in self.known:
            return
        self.dset(self.known, key, True)
        self.assume(fact() if callable(fact) else fact)

    def push(self):
        self.solver.push()
        return (len(self.trail),)

    def pop(self, mark):
        self.undo(mark[0])
        self.solver.pop()

    def check(self, *fs, timeout=None):
        for f in fs:
            self.scan(f)
        for k, f in list(self.litfacts.items()):
            self.once(k, f)
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*fs)
        if timeout:
            self.solver.set("timeout", 3000)
        Stats.checks += 1
        Stats.solver_s += time.time() - t
        if r == z3.unknown:
            Stats.unknown += 1
        return r

    def snap(self, *neg):
        return (self.facts + list(self.deepfacts.values()) + list(self.litfacts.values()), list(self.foralls), neg)

    def deep_check(self, snap, timeout=2500):
        """The facts with the universal ones and the named existentials stated as quantified formulas."""
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        facts, foralls, neg = snap
        s = z3.Solver()
        s.set("timeout", timeout)
        seen, todo = set(), []
        fs = list(facts) + list(neg) + [z3.ForAll([ix], f) for ix, f, _ in foralls]

        def names(f):
            for t in schema_apps_q(f):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)

        for f in fs:
            names(f)
        while todo:
            nm = todo.pop()
            P, K, ar, n, c = SCHEMAS[nm]
            ps = [z3.Int(f"$p{i}") for i in range(ar)]
            ix = z3.Int("$i")
            p, k = (P(*ps), K(*ps))
            body = z3.And(z3.Implies(p, z3.And(k >= 0, k < n, z3.substitute(c, (ix, k)))),
                          z3.ForAll([ix], z3.Implies(z3.And(ix >= 0, ix < n, z3.Or(z3.Not(p), ix < k)), z3.Not(c))))
            f = z3.ForAll(ps, body) if ps else body
            names(c)
            names(n)
            fs.append(f)
        s.add(*fs)
        t = time.time()
        r = s.check()
        Stats.checks += 1
        Stats.solver_s += time.time() - t
        return r

    def feasible(self, f=None):
        return self.check(*([f] if f is not None else [])) != z3.unsat

    def proves(self, f):
        if f is True or f is False:
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self.check() == z3.unsat
        return self.check(z3.Not(f)) == z3.unsat

    def fresh(self, name, sort):
        """A fresh constant, function of the loop indices in scope."""
        n = self.ctr.get(name, 0)
        self.ctr[name] = n + 1  # not undone on purpose: names stay unique
        nm = f"{name}!{n}"
        if self.ixs:
            return F(nm, *([I] * len(self.ixs) + [sort]))(*self.ixs)
        return z3.Const(nm, sort)

    # -- decisions
    def choose(self, conds):
        """Fork on mutually exclusive, exhaustive conditions; return the index taken."""
        if self.pos < len(self.prefix) and not self.nofork:
            i = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(i)
            self.decide(conds[i])
            return i
        live = []
        for i, c in enumerate(conds):
            c2 = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
            if z3.is_false(c2):
                continue
            if z3.is_true(c2):
                live = [i]
                break
            if i == len(conds) - 1 and not live:
                live.append(i)
            elif self.feasible(c2):
                live.append(i)
        if not live:
            raise Infeasible()
        if self.nofork:
            # a decision that is no decision is not recorded
            if len(live) > 1:
                raise NoFork()
            self.decide(conds[live[0]] if not isinstance(conds[live[0]], bool) else True)
            return live[0]
        for j in reversed(live[1:]):
            self.pending.append(self.taken + [j])
        i = live[0]
        self.pos += 1
        self.taken.append(i)
        self.prefix = list(self.taken)
        self.decide(conds[i] if not isinstance(conds[i], bool) else True)
        return i

    def branch(self, c):
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.choose([s, z3.Not(s)]) == 0

    def explore(self, run, on_path, top=False):
        """Run `run()` on every feasible path below the current state; undo after each."""
        saved = (self.prefix, self.pos, self.taken, self.pending)
        # decisions made in here are conditions of cases, also where those outside are assumptions
        ok, inside = self.assume_ok, self.inside
        self.assume_ok, self.inside = 0, inside or bool(ok)
        work = [[]]
        n = 0
        try:
            while work:
                n += 1
                if n > self.max_paths:
                    raise Budget("paths")
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time")
                self.prefix, self.pos, self.taken, self.pending = work.pop(), 0, [], []
                mark = self.push()
                ctr = dict(self.ctr)
                nd, nf = len(self.decs), len(self.facts)
                try:
                    try:
                        out = run()
                        on_path(out, self.decs[nd:], self.facts[nf:])
                    except Infeasible:
                        pass
                finally:
                    work.extend(self.pending)
                    self.pop(mark)
                    if top:
                        self.ctr = ctr
        finally:
            self.prefix, self.pos, self.taken, self.pending = saved
            self.assume_ok, self.inside = ok, inside
        return n
