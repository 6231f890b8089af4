"""Executable contracts of the object-level properties, run on the real code (bounded)."""
import copy
import os
import pickle
import random
import re
import subprocess
import sys
from types import MappingProxyType

from rt.common import *  # noqa
from rt.common import need, outcome, view, norm, flat

from pddl import requirements as RQ
from pddl.exceptions import PDDLValidationError
from pddl.helpers.base import check_no_duplicates, ensure_sequence, ensure_set
from pddl.parser.symbols import ALL_SYMBOLS
from pddl.requirements import Requirements as Req

ALLREQ = list(Req)


def closure(reqs):
    """Reference closure of a requirement set."""
    out = set(reqs)
    q = {Req.UNIVERSAL_PRECONDITION, Req.EXISTENTIAL_PRECONDITION}
    if Req.QUANTIFIED_PRECONDITION in reqs:
        out |= q
    if Req.ADL in reqs:
        out |= {Req.STRIPS, Req.TYPING, Req.NEG_PRECONDITION, Req.DIS_PRECONDITION, Req.EQUALITY, Req.CONDITIONAL_EFFECTS} | q
    if Req.FLUENTS in reqs:
        out |= {Req.OBJECT_FLUENTS, Req.NUMERIC_FLUENTS}
    return out


def rand_reqs(r, p=0.2):
    return {q for q in ALLREQ if r.random() < p}


def rand_map(r, m):
    """The mapping of views as a mapping of library objects."""
    d = {build(k): build(v) for k, v in m.items()}
    return MappingProxyType(d) if r.random() < 0.2 else d


def eqview(a, b):
    return flat(norm(a)) == flat(norm(b))


def samev(a, b):
    """Same view, up to flattening of sums and products."""
    return flat(a) == flat(b)


# ------------------------------------------------------------------ C01
def c01(r, i):
    g = Gen(r)
    v = g.any_formula(r.choice([1, 2, 3, 4]))
    f = build(v)
    v0 = view(f)
    if r.random() < 0.5:
        hash(f)
    m = g.mapping(v0)
    mm = rand_map(r, m)
    want = ref_inst(v0, m)
    if r.random() < 0.15:
        m, mm, want = {}, {}, v0
    m0 = {view(a): view(b) for a, b in mm.items()}
    if r.random() < 0.3:
        hash(f)
    got, e = outcome(f.instantiate, mm)
    need(view(f) == v0, lambda: f"instantiate changed the formula: {v0} -> {view(f)}")
    need({view(a): view(b) for a, b in mm.items()} == m0, lambda: f"instantiate changed the mapping {m0}")
    if inconsistent(want):
        return
    need(e is None, lambda: f"instantiate({v0}, {m}) raised {e!r}")
    need(samev(view(got), want), lambda: f"instantiate({v0}, {m})\n got  {view(got)}\n want {want}")
    need(got == got and view(got.instantiate({})) == view(got), "instantiation with the empty mapping changed a formula")


# ------------------------------------------------------------------ C02
def rand_action(g, name="act", typed_params=True):
    r = g.r
    names = r.sample(g.vars, r.randint(0, len(g.vars)))
    params = tuple(("var", n, g.vartags.setdefault(n, g.tags())) for n in names)
    pre = None if r.random() < 0.15 else g.gd(r.choice([0, 1, 2, 3]))
    eff = None if r.random() < 0.15 else g.effect(r.choice([0, 1, 2, 3]))
    return ("action", name, params, pre, eff)


def ref_action_inst(a, terms):
    m = dict(zip(a[2], terms))
    return ("action", a[1], tuple(terms), None if a[3] is None else ref_inst(a[3], m), None if a[4] is None else ref_inst(a[4], m))


def c02(r, i):
    if r.random() < 0.5:
        g = Gen(r)
        a = rand_action(g)
        A = build(a)
        a = view(A)
        n = len(a[2])
        k = n if r.random() < 0.75 else r.choice([x for x in range(0, n + 3) if x != n])
        terms = [g.term() for _ in range(k)]
        if r.random() < 0.5:
            terms = [g.const() for _ in range(k)]
        T = [build(t) for t in terms]
        T0 = list(T)
        seq = tuple(T) if r.random() < 0.3 else T
        got, e = outcome(A.instantiate, seq)
        need(view(A) == a, "instantiate changed the action")
        need(list(seq) == T0 and len(seq) == len(T0), "instantiate changed the terms given")
        if k != n:
            need(isinstance(e, ValueError), lambda: f"{k} terms for {n} parameters: {e!r} {got!r}")
            return
        want = ref_action_inst(a, terms)
        if inconsistent(want):
            return
        need(e is None, lambda: f"{a}.instantiate({terms}) raised {e!r}")
        need(samev(view(got), want), lambda: f"{a}.instantiate({terms})\n got  {view(got)}\n want {want}")
        return
    acts = []
    for nm in r.sample(["go", "take", "put-1", "x"], r.randint(1, 4)):
        acts.append(rand_action(Gen(r, typed=0.0), nm))
    dom, e = outcome(lambda: Domain("d", requirements=[Req.ADL], actions=[build(a) for a in acts]))
    need(e is None, lambda: f"domain rejected: {e!r}")
    by = {a[1]: view(build(a)) for a in acts}
    steps, bad = [], False
    g = Gen(r, typed=0.0)
    for _ in range(r.randint(0, 6)):
        nm = r.choice(sorted(by))
        if r.random() < 0.06:
            steps.append(("nosuch", []))
            continue
        n = len(by[nm][2])
        if r.random() < 0.05:
            n += 1
        steps.append((nm, [g.const() for _ in range(n)]))
    plan = Plan([(n, [build(t) for t in ts]) for n, ts in steps])
    p0, d0 = view(plan), view(dom)
    got, e = outcome(plan.instantiate, dom)
    need(view(plan) == p0 and view(dom) == d0, "Plan.instantiate changed the plan or the domain")
    if any(n not in by or len(ts) != len(by[n][2]) for n, ts in steps):
        need(isinstance(e, ValueError), lambda: f"plan {steps} not rejected with ValueError: {e!r}")
        return
    want = [ref_action_inst(by[n], ts) for n, ts in steps]
    need(e is None, lambda: f"plan {steps} rejected: {e!r}")
    need(flat(tuple(map(view, got))) == flat(tuple(want)), lambda: f"plan {steps}\n got  {list(map(view, got))}\n want {want}")


# ------------------------------------------------------------------ C03
def c03(r, i):
    g = Gen(r, names=("p", "q"), typed=0.2)
    k = r.choice(["and", "or"])

    def gen(d):
        x = r.random()
        if d <= 0 or x < 0.25:
            return g.atom()
        if x < 0.75:
            kk = k if r.random() < 0.7 else ("or" if k == "and" else "and")
            return (kk,) + tuple(g.ops(lambda: gen(d - 1), 0, 4))
        if x < 0.85:
            return ("not", gen(d - 1))
        if x < 0.95:
            return ("imply", gen(d - 1), gen(d - 1))
        return (r.choice(["forall", "exists"]), g.qvars(), gen(d - 1))

    ops = g.ops(lambda: gen(r.choice([0, 1, 2, 3])), 0, 5)
    objs = [build(o) for o in ops]
    views = [view(o) for o in objs]
    got = (B.And if k == "and" else B.Or)(*objs)
    need([view(o) for o in objs] == views, "an operand was changed")
    want = ref_monotone(k, views)
    need(view(got) == want, lambda: f"{k}{views}\n got  {view(got)}\n want {want}")
    salt = r.random()
    env = lambda v: hash((repr(v), salt)) % 2 == 0  # noqa
    tv = [ref_eval(v, env) for v in views]
    need(ref_eval(view(got), env) == (all(tv) if k == "and" else any(tv)), lambda: f"truth value changed: {k}{views} -> {view(got)}")
    if len(objs) >= 2:
        a, b = objs[0], objs[1]
        va, vb = views[0], views[1]
        need(view(~a) == ("not", va), lambda: f"~{va} = {view(~a)}")
        need(view(a & b) == ref_monotone("and", [va, vb]), lambda: f"{va} & {vb} = {view(a & b)}")
        need(view(a | b) == ref_monotone("or", [va, vb]), lambda: f"{va} | {vb} = {view(a | b)}")
        sh = view(a >> b)
        need(ref_eval(sh, env) == ((not tv[0]) or tv[1]), lambda: f"{va} >> {vb} = {sh}")
        need(view(B.Imply(a, b)) == ("imply", va, vb), "Imply changed its operands")
    need(view(B.OneOf(*objs)) == ("oneof",) + tuple(views), lambda: f"OneOf{views} = {view(B.OneOf(*objs))}")
    need(view(B.Imply(*objs)) == ("imply",) + tuple(views), "Imply changed its operands")
    need(view(B.ensure_formula(None, True)) == ("and",) and view(B.ensure_formula(None, False)) == ("or",), "ensure_formula(None)")
    if objs:
        need(view(B.ensure_formula(objs[0], r.random() < 0.5)) == views[0], "ensure_formula(formula)")


# ------------------------------------------------------------------ C04
def num_eval(v, env):
    """Value of a numeric view, as a Fraction."""
    from fractions import Fraction

    k = v[0]
    if k in ("fn", "num"):
        return env(norm(v))
    xs = [num_eval(x, env) for x in v[1:]]
    if any(x is None for x in xs):
        return None
    if k == "+":
        return sum(xs, Fraction(0))
    if k == "*":
        p = Fraction(1)
        for x in xs:
            p *= x
        return p
    if k == "-":
        return -xs[0] if len(xs) == 1 else xs[0] - sum(xs[1:])
    if k == "/":
        p = xs[0]
        for x in xs[1:]:
            if x == 0:
                return None
            p = p / x
        return p
    raise ValueError(k)


def c04(r, i):
    from fractions import Fraction

    g = Gen(r, names=("f", "g"), typed=0.2, vars_=("x", "y"))
    k = r.choice(list(NUMOPS))
    n = r.choice([1, 2, 2, 2, 3, 4])
    ops = g.ops(lambda: g.nexp(r.choice([0, 1, 2, 3])), n, n)
    objs = [build(o) for o in ops]
    views = [view(o) for o in objs]
    for o, v in zip(ops, views):
        need(flat(o) == flat(v), lambda: f"{o} built as {v}")
    tab = {}

    def env(v):
        if v[0] == "num":
            return Fraction(v[1])
        return tab.setdefault(v, Fraction(r.randint(1, 9)))

    got = NUMOPS[k](*objs)
    gv = view(got)
    need([view(o) for o in objs] == views, "an operand was changed")
    if k in (PLUS, TIMES):
        need(flat(gv) == flat((k,) + tuple(views)), lambda: f"{k}{views} = {gv}")
    else:
        need(gv == (k,) + tuple(views), lambda: f"{k}{views} = {gv}")
    if k in "+*-/":
        a, b = num_eval((k,) + tuple(views), env), num_eval(gv, env)
        need(a == b, lambda: f"value of {k}{views} is {a}, but {gv} denotes {b}")
    m = g.mapping(("x",) + tuple(views))
    inst = view(got.instantiate(rand_map(r, m)))
    want = ref_inst((k,) + tuple(views), m)
    need(flat(inst) == flat(want), lambda: f"instantiate {gv} with {m}\n got {inst}\n want {want}")
    from pddl.parser._update_type_tags import update_type_tags

    tags = {x: g.tags() for x in g.vars if r.random() < 0.7}
    up = view(update_type_tags(got, tags))
    want = ref_retag((k,) + tuple(views), tags)
    need(flat(up) == flat(want), lambda: f"update_type_tags {gv} with {tags}\n got {up}\n want {want}")


def ref_retag(v, tags):
    """Free occurrences of the variables named in tags carry these tags."""
    k = v[0] if isinstance(v, tuple) and v else None
    if k == "var":
        return ("var", v[1], frozenset(tags[v[1]])) if v[1] in tags else v
    if k in ("const", "num"):
        return v
    if k in ("pred", "fn"):
        return v[:2] + tuple(ref_retag(x, tags) for x in v[2:])
    if k in ("and", "or"):
        return ref_monotone(k, [ref_retag(x, tags) for x in v[1:]])
    if k in ("forall", "exists", "forall_effect"):
        t2 = dict(tags)
        for x in v[1]:
            t2[x[1]] = x[2]
        return (k, v[1], ref_retag(v[2], t2))
    return (k,) + tuple(ref_retag(x, tags) for x in v[1:])


# ------------------------------------------------------------------ C05
def mutate(g, v):
    """A tree close to v (one random place changed), or equal to it."""
    r = g.r
    if not isinstance(v, tuple) or not v:
        return v
    k = v[0]
    x = r.random()
    if x < 0.25:
        return v
    if k == "const":
        return r.choice([("const", v[1], r.choice(g.types + (None,))), ("const", r.choice(g.consts), v[2]), ("var", v[1], frozenset())])
    if k == "var":
        return r.choice([("var", v[1], g.tags()), ("var", r.choice(g.vars), v[2]), ("const", v[1], None)])
    if k == "num":
        return ("num", r.choice([v[1], v[1] + 1, float(v[1])]))
    if k in ("pred", "fn"):
        if len(v) == 2 or r.random() < 0.2:
            return (r.choice(["pred", "fn"]), r.choice(g.names)) + v[2:]
        j = r.randrange(2, len(v))
        if r.random() < 0.2:
            w = list(v[2:])
            r.shuffle(w)
            return v[:2] + tuple(w)
        if r.random() < 0.15:
            return v[:j] + v[j + 1:]
        return v[:j] + (mutate(g, v[j]),) + v[j + 1:]
    if k == "action":
        j = r.choice([1, 2, 3, 4])
        w = list(v)
        if j == 1:
            w[1] = r.choice(["act", "act2"])
        elif j == 2:
            w[2] = w[2][:-1] if r.random() < 0.4 else tuple(mutate(g, t) for t in w[2])
            w[2] = tuple(t for t in w[2] if t[0] == "var")
        else:
            w[j] = None if w[j] is None or r.random() < 0.2 else mutate(g, w[j])
        return tuple(w)
    if k in ("forall", "exists", "forall_effect"):
        y = r.random()
        if y < 0.3 and k != "forall_effect":
            return ("exists" if k == "forall" else "forall",) + v[1:]
        if y < 0.6:
            return (k, g.qvars(), v[2])
        return (k, v[1], mutate(g, v[2]))
    if k == "metric":
        return ("metric", r.choice(["minimize", "maximize"]), v[2] if r.random() < 0.5 else mutate(g, v[2]))
    if k == "when" and r.random() < 0.2:
        return v
    if k in ("and", "or", "oneof", "imply") and r.random() < 0.35:
        return (r.choice(["and", "or", "oneof", "imply"]),) + v[1:]
    if k in NUMOPS and r.random() < 0.35:
        return (r.choice(["+", "*", "-", "/"]) if k in "+*-/" else r.choice(["n=", "<", "<=", ">", ">=", "assign", "increase"]),) + v[1:]
    if len(v) > 1:
        if r.random() < 0.2 and k in ("and", "or", "oneof"):
            w = list(v[1:])
            r.shuffle(w)
            return (k,) + tuple(w)
        j = r.randrange(1, len(v))
        w = mutate(g, v[j])
        return v[:j] + (w,) + v[j + 1:]
    return v


def any_object(g, d):
    r = g.r
    x = r.random()
    if x < 0.15:
        return g.term()
    if x < 0.25:
        return rand_action(g)
    return g.any_formula(d)


def okbuild(v):
    o, e = outcome(build, v)
    return None if e is not None else o


CHILD = r"""
import sys, pickle
sys.path.insert(0, sys.argv[1])
import rt.common as c
data = pickle.load(sys.stdin.buffer)
out = []
for v, blob in data:
    fresh = c.build(v)
    try:
        o = pickle.loads(blob)
    except Exception as e:
        out.append(f"cannot restore {v}: {e!r}"); continue
    if not (o == fresh and fresh == o): out.append(f"restored object differs from an equal one: {v}")
    elif hash(o) != hash(fresh): out.append(f"restored object has another hash than an equal one: {v}")
    elif o not in {fresh} or fresh not in {o}: out.append(f"restored object is not found in a set: {v}")
    elif pickle.loads(pickle.dumps(o)) != o: out.append(f"second pickling: {v}")
    if len(out) > 3: break
print("\n".join(out) if out else "OK")
"""


def c05(r, i):
    g = Gen(r)
    v1 = any_object(g, r.choice([0, 1, 2, 3]))
    v2 = v1 if r.random() < 0.25 else mutate(g, v1)
    v3 = mutate(g, v2)
    objs = [o for o in map(okbuild, (v1, v2, v3)) if o is not None]
    if r.random() < 0.15:
        objs.append(build(g.any_formula(2)))
    if i % 40 == 0:
        cross_interpreter(r)
    if i % 3 == 0:
        c05_core(r)
    vs = [view(o) for o in objs]
    ns = [flat_no(norm(v)) for v in vs]
    for o in objs:
        if r.random() < 0.4:
            hash(o)
    eqs = {}
    for a in range(len(objs)):
        for b in range(len(objs)):
            e = objs[a] == objs[b]
            need(isinstance(e, bool), lambda: f"{vs[a]} == {vs[b]} gave {e!r}")
            need((objs[a] != objs[b]) == (not e), lambda: f"!= disagrees with == on {vs[a]}, {vs[b]}")
            eqs[a, b] = e
            need(e == (ns[a] == ns[b]), lambda: f"{vs[a]} == {vs[b]} gave {e}")
            if e:
                need(hash(objs[a]) == hash(objs[b]), lambda: f"equal objects, different hashes: {vs[a]} {vs[b]}")
    o, v = objs[0], vs[0]
    h = hash(o)
    need(hash(o) == h, "hash changes")
    for mk in (copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, protocol=r.choice([2, 4, 5])))):
        c, e = outcome(mk, o)
        need(e is None, lambda: f"copy of {v} failed: {e!r}")
        need(c == o and o == c and hash(c) == h and view(c) == v, lambda: f"copy of {v} differs: {view(c)}")
        need(view(o) == v and hash(o) == h, "copying changed the object")
    for f in (None, 0, "x", str(v[1]) if len(v) > 1 else "", v, object(), [], Req.ADL):
        need(not (o == f) and not (f == o), lambda: f"{v} equals the foreign object {f!r}")


def c05_core(r):
    """Domains, problems, plans: equal exactly if built from equal components."""
    P, Q = PR.Predicate("p", Constant("a")), PR.Predicate("q")
    act = lambda n: Action(n, [], Q, P)  # noqa
    d1, d2 = Domain("dd"), Domain("dd", requirements=[Req.STRIPS])
    M = lambda o: FN.Metric(FN.NumericFunction("total-cost"), o)  # noqa
    fun = FN.NumericFunction("f", Variable("x"))
    kinds = {
        Domain: dict(name=["dd", "ee"], requirements=[{Req.TYPING, Req.NUMERIC_FLUENTS}, {Req.ADL, Req.NUMERIC_FLUENTS}], types=[{"t1": None, "t2": "t1"}, {"t1": None, "t2": None}, {"t2": None, "t1": "t2"}],
                     constants=[[], [Constant("a")], [Constant("a"), Constant("b")]], predicates=[[], [PR.Predicate("p", Variable("x", ["t1"]))], [PR.Predicate("p", Variable("x", ["t2"]))]],
                     derived_predicates=[[], [PR.DerivedPredicate(PR.Predicate("u"), Q)], [PR.DerivedPredicate(PR.Predicate("u"), B.Not(Q))]],
                     functions=[{}, {fun: None}, {fun: "number"}], actions=[[], [act("a1")], [act("a2")], [act("a1"), act("a2")]]),
        Problem: dict(name=["pp", "qq"], requirements=[None, {Req.STRIPS}, {Req.ADL}], objects=[[], [Constant("a")], [Constant("b")]], init=[[], [P], [P, Q]], goal=[P, Q, B.Not(Q)],
                      metric=[None, M("minimize"), M("maximize")], domain_name=["dd", "ee"], domain=[None]),
        Plan: dict(actions=[[], [("a1", [Constant("a")])], [("a1", [Constant("b")])], [("a1", [Constant("a")]), ("a2", [])], [("a2", []), ("a1", [Constant("a")])]]),
    }
    cls = r.choice(list(kinds))
    parts = dict(kinds[cls])
    if cls is Problem and r.random() < 0.4:
        parts.update(domain_name=[None], domain=[d1, d2], requirements=[None])
    k1 = {k: r.choice(v) for k, v in parts.items()}
    k2 = dict(k1)
    for k in r.choice([[], [r.choice(list(parts))], [r.choice(list(parts)), r.choice(list(parts))]]):
        k2[k] = r.choice(parts[k])
    x, e1 = outcome(lambda: cls(**copy.deepcopy(k1)))
    y, e2 = outcome(lambda: cls(**copy.deepcopy(k2)))
    need(e1 is None and e2 is None, lambda: f"{cls.__name__} rejected: {e1!r} {e2!r}")
    want = all(k1[k] is k2[k] or view_part(k1[k]) == view_part(k2[k]) for k in parts)
    for p, q in ((x, y), (y, x)):
        need((p == q) == want and (p != q) == (not want), lambda: f"{cls.__name__} of {k1} == {cls.__name__} of {k2} gave {p == q}")
    for f in (None, 0, "dd", [], d1 if cls is not Domain else P, Plan([]) if cls is not Plan else d1, Req.ADL):
        need(not (x == f) and not (f == x), lambda: f"{cls.__name__} equals {f!r}")


def view_part(v):
    return dict(v) if isinstance(v, dict) else v


def flat_no(v):
    return v


def cross_interpreter(r):
    """Pickles restored by an interpreter with another hash seed."""
    g = Gen(r)
    data = []
    for _ in range(60):
        v = any_object(g, r.choice([0, 1, 2]))
        o = okbuild(v)
        if o is None:
            continue
        if r.random() < 0.7:
            hash(o)
            [hash(x) for x in getattr(o, "operands", ())]
        data.append((v, pickle.dumps(o)))
    p = subprocess.run(
        [sys.executable, "-B", "-c", CHILD, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))],
        input=pickle.dumps(data), capture_output=True, env={**os.environ, "PYTHONHASHSEED": str(r.randint(1, 10**6))},
        timeout=120,
    )
    out = p.stdout.decode().strip()
    need(out == "OK", lambda: f"in another interpreter: {out or p.stderr.decode()[-400:]}")


# ------------------------------------------------------------------ C06
def term_key(v):
    return ("Constant", v[1]) if v[0] == "const" else ("Variable", v[1], sorted(v[2]))


def atom_lt(a, b):
    """Order of predicates or functions on views: name, then terms from left to right."""
    if a[1] != b[1]:
        return a[1] < b[1]
    for x, y in zip(a[2:], b[2:]):
        if norm(x) != norm(y):
            return term_key(x) < term_key(y)
    return len(a) < len(b)


def c06(r, i):
    g = Gen(r, names=("p", "q"), vars_=("x", "y"), consts=("a", "x"))
    g.loose = True
    kind = r.choice(["term", "pred", "fn", "num", "req", "derived"])
    if kind == "term":
        vs = [g.term() for _ in range(3)]
        lt = lambda a, b: norm(a) != norm(b) and term_key(a) < term_key(b)  # noqa
    elif kind in ("pred", "fn"):
        mk = g.pred if kind == "pred" else g.fn
        a = mk()
        vs = [a]
        while len(vs) < 3:
            b = mutate(g, vs[-1])
            vs.append(b if b[0] == kind and not inconsistent_atom(b) else mk())
        lt = atom_lt
    elif kind == "num":
        vs = [("num", r.choice([0, 1, 1.0, 2, 0.5, 10, 9])) for _ in range(3)]
        lt = lambda a, b: a[1] < b[1]  # noqa
    elif kind == "derived":
        vs = []
        cond = [g.pred() for _ in range(2)]
        while len(vs) < 3:
            vs.append(("derived", vs[-1][1] if vs and r.random() < 0.6 else g.pred(), r.choice(cond)))
        lt = lambda a, b: atom_lt(a[1], b[1]) if norm(a[1]) != norm(b[1]) else atom_lt(a[2], b[2])  # noqa
    else:
        vs = [r.choice(ALLREQ) for _ in range(3)]
        lt = lambda a, b: a.value < b.value  # noqa
    objs = vs if kind == "req" else [build(v) for v in vs]
    if r.random() < 0.3 and kind != "req":
        objs[2] = build(vs[2])
        for o in objs:
            hash(o)
    eq = (lambda a, b: a is b) if kind == "req" else (lambda a, b: norm(a) == norm(b))
    for a in range(3):
        for b in range(3):
            x, y = objs[a], objs[b]
            w = (lt(vs[a], vs[b]), eq(vs[a], vs[b]), lt(vs[b], vs[a]))
            got = ((x < y), (x == y), (x > y))
            need(got == w, lambda: f"{vs[a]} (<,==,>) {vs[b]}: {got}, expected {w}")
            got = ((x <= y), (x >= y))
            need(got == (w[0] or w[1], w[1] or w[2]), lambda: f"{vs[a]} (<=,>=) {vs[b]}: {got}")
    s = sorted(objs)
    for x, y in zip(s, s[1:]):
        need(not (y < x), "sorted() is not sorted")


# ------------------------------------------------------------------ C07
def rand_types(r, ok=False):
    n = r.randint(0, 7)
    pool = [f"t{j}" for j in range(n + 2)]
    d = {}
    keys = r.sample(pool, min(n, len(pool)))
    for j, k in enumerate(keys):
        x = r.random()
        if x < 0.25:
            d[k] = None
        elif x < 0.35:
            d[k] = "object"
        elif ok or x < 0.75:
            d[k] = r.choice(keys[:j] + ["u", None]) if j else None
        else:
            d[k] = r.choice(keys)
    if not ok and r.random() < 0.1:
        d["object"] = r.choice(keys + [None, "object"]) if keys else None
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def ref_types_ok(d, reqs):
    if any(v for v in d.values()) and Req.TYPING not in closure(reqs):
        return False
    if d.get("object"):
        return False
    for k in d:
        seen = set()
        c = k
        while c is not None and c not in seen:
            seen.add(c)
            c = d.get(c)
        if c is not None:
            return False
    return True


def c07(r, i):
    d = rand_types(r, ok=r.random() < 0.3)
    if r.random() < 0.1:
        n = r.randint(50, 300)
        d = {f"t{j}": f"t{j + 1}" for j in range(n)}
        if r.random() < 0.5:
            d[f"t{n}"] = f"t{r.randint(0, n)}"
    reqs = r.choice([set(), {Req.TYPING}, {Req.ADL}, {Req.STRIPS}, {Req.TYPING, Req.STRIPS}, rand_reqs(r)])
    d0 = dict(d)
    dom, e = outcome(lambda: Domain("d", requirements=reqs, types=d))
    need(d == d0, "the dictionary given was changed")
    ok = ref_types_ok(d, reqs)
    if not ok:
        need(isinstance(e, PDDLValidationError), lambda: f"types {d} with {reqs}: {e!r}")
        return
    need(e is None, lambda: f"types {d} with {reqs}: rejected with {e!r}")
    need(dict(dom.types) == d, lambda: f"types {d} reported as {dom.types}")
    avail = set(d) | {v for v in d.values() if v} | {"object"}
    if Req.TYPING in closure(reqs):
        for t in sorted(avail | {"t0", "u", "nope", "number"}):
            _, e = outcome(lambda: Domain("d", requirements=reqs, types=d, constants=[Constant("c", t)]))
            need((e is None) == (t in avail), lambda: f"type {t} with types {d}: {e!r}")
            need(e is None or isinstance(e, PDDLValidationError), lambda: f"{e!r}")
    f, e = outcome(lambda: __import__("pddl.helpers.base", fromlist=["find_cycle"]).find_cycle)
    if e is None:
        graph = {}
        ks = [f"n{j}" for j in range(r.randint(0, 6))]
        for k in ks:
            if r.random() < 0.9:
                graph[k] = None if r.random() < 0.2 else set(r.sample(ks, r.randint(0, min(2, len(ks)))))
        c, e = outcome(f, graph)
        need(e is None, lambda: f"find_cycle({graph}) raised {e!r}")
        cyc = has_cycle(graph)
        need((c is not None) == cyc, lambda: f"find_cycle({graph}) = {c}")


def has_cycle(g):
    for k in g:
        seen, todo = set(), list(g.get(k) or ())
        while todo:
            x = todo.pop()
            if x == k:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(g.get(x) or ())
    return False


# ------------------------------------------------------------------ C08, C17
def plant(g, v, bad):
    """Put the type tag `bad` on one random term or quantified variable of v."""
    r = g.r
    places = []

    def go(v, path):
        if isinstance(v, tuple):
            if v and v[0] in ("var", "const") and isinstance(v[0], str):
                places.append(path)
                return
            for j, x in enumerate(v):
                go(x, path + (j,))
        elif isinstance(v, frozenset):
            for x in sorted(v, key=repr):
                go(x, path + (("in", x),))

    go(v, ())
    if not places:
        return v
    p = r.choice(places)

    def put(v, path):
        if not path:
            if v[0] == "const":
                return ("const", v[1], bad)
            return ("var", v[1], v[2] | {bad} if r.random() < 0.5 else frozenset([bad]))
        h = path[0]
        if isinstance(h, tuple):
            return frozenset([x for x in v if x != h[1]] + [put(h[1], path[1:])])
        return v[:h] + (put(v[h], path[1:]),) + v[h + 1:]

    w = put(v, p)
    return w if not inconsistent(w) else v


def dom_gen(r):
    g = Gen(r, typed=r.choice([0.0, 0.3, 0.6]))
    g.types = ("t1", "t2", "object")
    return g


def c08(r, i):
    g = dom_gen(r)
    types = {"t1": r.choice([None, "t2", "object"]), "t2": r.choice([None, "t3"])}
    if r.random() < 0.2:
        types = {}
    reqs = {Req.TYPING} if r.random() < 0.6 else r.choice([{Req.ADL}, set(), {Req.STRIPS}, rand_reqs(r)])
    if not ref_types_ok(types, reqs):
        types = {k: None for k in types}
    reqs = set(reqs) | {Req.NUMERIC_FLUENTS}
    avail = set(types) | {v for v in types.values() if v} | {"object"}
    C = [("const", n, r.choice([None, "t1", "t2"]) if r.random() < g.typed else None) for n in r.sample(g.consts, r.randint(0, 3))]
    P = [Gen(r, names=(f"p{j}",), typed=g.typed, types=g.types).pred() for j in range(r.randint(0, 3))]
    Fn = [Gen(r, names=(f"f{j}",), typed=g.typed, types=g.types).fn() for j in range(r.randint(0, 2))]
    A = [rand_action(Gen(r, typed=g.typed, types=g.types), f"a{j}") for j in range(r.randint(0, 3))]
    D = [("derived", g.pred(), g.gd(2)) for _ in range(r.randint(0, 2))]
    parts = [C, P, Fn, A, D]
    if r.random() < 0.5:
        bad = r.choice(["nope", "t9", "t3"])
        cand = [(x, j) for x in parts for j in range(len(x))]
        if cand:
            lst, j = r.choice(cand)
            lst[j] = plant(g, lst[j], bad)
    objs = [[build(v) for v in x] for x in parts]
    views = [list(map(view, x)) for x in objs]
    used = set().union(*[tags_used(tuple(x)) for x in views])
    # occurrences that the constructors simplified away (repeated operands) do not count
    typed = Req.TYPING in closure(reqs)
    ok = (typed or not used) and used <= avail
    _, e = outcome(lambda: Domain("d", requirements=reqs, types=types, constants=objs[0], predicates=objs[1],
                                  functions={f: None for f in objs[2]}, actions=objs[3], derived_predicates=objs[4]))
    # equal elements are one element of a set: their tags may differ on constants only
    dup = any(len(set(map(norm, x))) < len(set(x)) for x in views)
    if dup:
        return
    if ok:
        need(e is None, lambda: f"rejected: {e!r}; types {types} reqs {reqs} {views}")
    else:
        need(isinstance(e, PDDLValidationError), lambda: f"types used {used}, available {avail}, typing {typed}: {e!r}\n{views}")


def c17(r, i):
    g = dom_gen(r)
    x = r.random()
    types = {"t1": None, "t2": "t1"} if r.random() < 0.7 else {}
    dreq = r.choice([{Req.TYPING}, {Req.ADL}, {Req.TYPING, Req.STRIPS}, {Req.STRIPS}, set()])
    if Req.TYPING not in closure(dreq):
        types = {k: None for k in types}
    dname = r.choice(["d", "D", "dom-1"])
    dom = Domain(dname, requirements=dreq, types=types, predicates=[build(("pred", "p", ("var", "x", frozenset())))])
    avail = set(types) | {v for v in types.values() if v} | {"object"}
    obj = [("const", n, r.choice([None, "t1", "object"]) if r.random() < g.typed else None) for n in r.sample(g.consts, r.randint(0, 3))]
    g.vars = ("x", "y")
    init, seenn = [], set()
    for _ in range(r.randint(0, 4)):
        v = r.choice([g.pred, lambda: ("not", g.pred()), lambda: ("n=", g.fn(), g.num()), g.eq])()
        if norm(v) not in seenn:
            seenn.add(norm(v))
            init.append(v)
    goal = None if r.random() < 0.1 else g.gd(r.choice([0, 1, 2, 3]))
    whole = [obj, init]
    if r.random() < 0.4:
        bad = r.choice(["nope", "t9"])
        w = r.randrange(3)
        if w == 2 and goal is not None:
            goal = plant(g, goal, bad)
        elif w < 2 and whole[w]:
            j = r.randrange(len(whole[w]))
            whole[w][j] = plant(g, whole[w][j], bad)
    notlit = r.random() < 0.08
    if notlit:
        init.append(r.choice([("and", ("pred", "p"), ("pred", "q")), ("not", ("not", ("pred", "p"))), ("oneof", ("pred", "p"), ("pred", "q")),
                              ("not", ("and",)), ("forall", frozenset(), ("pred", "p")), ("imply", ("pred", "p"), ("pred", "q"))]))
    preq = r.choice([None, set(dreq), set(dreq), {Req.STRIPS}, set(), {Req.TYPING}])
    pdname = dname if r.random() < 0.7 else r.choice([dname.upper(), dname.swapcase(), "other", dname + "x"])
    O, I = [build(v) for v in obj], [build(v) for v in init]
    G = None if goal is None else build(goal)
    used = tags_used((tuple(map(view, O)), tuple(map(view, I)), view(G)))
    typeok = used <= avail and (not used or Req.TYPING in closure(dreq))
    mode = r.choice(["name", "domain", "both", "none", "assign"])
    kw = dict(objects=O, init=I, goal=G)
    sets_before = (list(O), list(I), set(preq) if preq is not None else None)
    d0 = view(dom)
    if mode == "none":
        _, e = outcome(lambda: Problem("pb", requirements=preq, **kw))
        need(e is not None, "a problem with neither domain nor domain name was accepted")
        return
    if mode == "name":
        p, e = outcome(lambda: Problem("pb", domain_name=pdname, requirements=preq, **kw))
        if notlit:
            need(e is not None, lambda: f"initial facts {init} accepted")
            return
        need(e is None, lambda: f"problem rejected: {e!r}")
        p0 = view(p)
        _, e = outcome(p.check, dom)
        ok = pdname.lower() == dname.lower() and (preq is None or preq <= dreq) and typeok
        need(view(p) == p0 and view(dom) == d0, "check changed the problem or the domain")
        chk(e, ok, lambda: f"check: names {pdname}/{dname} reqs {preq}/{dreq} types used {used} available {avail}\n{view(p)}")
        return
    if mode == "assign":
        p, e = outcome(lambda: Problem("pb", domain_name=pdname, requirements=preq, **kw))
        if notlit:
            need(e is not None, lambda: f"initial facts {init} accepted")
            return
        need(e is None, lambda: f"problem rejected: {e!r}")

        def assign():
            p.domain = dom

        _, e = outcome(assign)
        ok = (preq is None or preq <= dreq) and typeok
        chk(e, ok, lambda: f"assignment: reqs {preq}/{dreq} types used {used} available {avail}\n{view(p)}")
        if ok:
            need(p.domain is dom and p.domain_name == dom.name and set(p.requirements) == set(dreq), "domain assigned is not reported")
        return
    _, e = outcome(lambda: Problem("pb", domain=dom, domain_name=pdname if mode == "both" else None, requirements=preq, **kw))
    same = mode == "domain" or pdname == dname
    if mode == "both" and pdname != dname and pdname.lower() == dname.lower():
        return  # disagreement up to case: accepted or rejected
    agree = preq is None or set(preq) == set(dreq)
    ok = same and agree and typeok and not notlit
    if ok:
        need(e is None, lambda: f"problem with domain rejected: {e!r}; {used} {avail} {preq} {dreq}")
    else:
        need(e is not None, lambda: f"accepted: mode {mode} names {pdname}/{dname} reqs {preq}/{dreq} types {used}/{avail} literals {not notlit}")
        if same and agree and not notlit:
            need(isinstance(e, PDDLValidationError), lambda: f"{e!r}")
    need((list(O), list(I), set(preq) if preq is not None else None) == sets_before, "arguments changed")


def chk(e, ok, msg):
    if ok:
        need(e is None, lambda: f"rejected with {e!r}: {msg()}")
    else:
        need(isinstance(e, PDDLValidationError), lambda: f"expected a validation error, got {e!r}: {msg()}")


# ------------------------------------------------------------------ C09
NAME = re.compile(r"[A-Za-z][-_A-Za-z0-9]*\Z")
KEYWORDS = set(ALL_SYMBOLS)
KW_REF = {
    "(", ")", "-", "=", ":action", "and", ":constants", "define", ":derived", "domain", ":domain", ":effect", "either",
    "exists", "forall", ":goal", "imply", ":init", "not", "object", ":objects", "oneof", "or", ":parameters", ":precondition",
    ":predicates", "problem", ":requirements", ":types", ":metric", "when", ">=", ">", "<=", "<", "+", "*", "/", "assign",
    "scale-up", "scale-down", "increase", "decrease", "maximize", "minimize", "total-cost",
}


def rand_name(r):
    x = r.random()
    if x < 0.25:
        return r.choice(sorted(KW_REF))
    if x < 0.35:
        w = r.choice(sorted(KW_REF))
        return r.choice([w.upper(), w + "s", w[:-1], "x" + w, w + "-", w + "\n", " " + w, w.capitalize()])
    if x < 0.6:
        return r.choice("abzAZ") + "".join(r.choice("abz-_09AZ") for _ in range(r.randint(0, 6)))
    if x < 0.65:
        return ""
    alpha = "abzAZ09-_ \n\t?:().éßµ٣²—'\"\0"
    return "".join(r.choice(alpha) for _ in range(r.randint(1, 5)))


def c09(r, i):
    s = rand_name(r)
    ctors = {
        "domain": (lambda: Domain(s).name, set()),
        "problem": (lambda: Problem(s, domain_name="d").name, set()),
        "problem domain": (lambda: Problem("p", domain_name=s).domain_name, set()),
        "action": (lambda: Action(s, []).name, set()),
        "predicate": (lambda: PR.Predicate(s).name, set()),
        "constant": (lambda: Constant(s).name, set()),
        "variable": (lambda: Variable(s).name, set()),
        "function": (lambda: FN.NumericFunction(s).name, {"total-cost"}),
        "constant type": (lambda: Constant("c", s).type_tag, {"object"}),
        "variable type": (lambda: next(iter(Variable("c", [s]).type_tags)), {"object"}),
        "declared type": (lambda: next(iter(Domain("d", [Req.TYPING], types={s: None}).types)), {"object"}),
        "supertype": (lambda: Domain("d", [Req.TYPING], types={"tt": s}).types["tt"], {"object"}),
    }
    for what, (f, extra) in ctors.items():
        got, e = outcome(f)
        if what == "supertype" and s in ("", "tt"):
            continue
        if s in KW_REF - extra:
            need(isinstance(e, PDDLValidationError), lambda: f"{what} name {s!r}: {got!r} {e!r}")
        elif NAME.match(s) and "\n" not in s:
            need(e is None and str(got) == s, lambda: f"{what} name {s!r}: {got!r} {e!r}")
        else:
            need(isinstance(e, ValueError), lambda: f"{what} name {s!r}: {got!r} {e!r}")


# ------------------------------------------------------------------ C10
def c10(r, i):
    s = rand_reqs(r, r.choice([0.05, 0.15, 0.3, 0.6]))
    want = closure(s)
    f = getattr(RQ, "_extend_domain_requirements", None)
    if f is not None:
        if i == 0:
            for m in range(1 << 16):
                x = {q for j, q in enumerate(ALLREQ) if m >> j & 1}
                y = f(x)
                need(set(y) == closure(x) and len(x) == bin(m).count("1"), lambda: f"closure of {x} is {y}")
        for arg in (set(s), frozenset(s)):
            got = f(arg)
            need(set(got) == want, lambda: f"closure of {s}\n got  {got}\n want {want}")
            need(set(arg) == s, "the given set was changed")
            need(got is not arg or got == arg, "")
            need(set(f(got)) == want, "closure is not idempotent")
    # observable through the type checks of a domain and the gates of the parser
    from pddl.parser.domain import DomainParser

    _, e = outcome(lambda: Domain("d", requirements=s, types={"t": None}, constants=[Constant("c", "t")]))
    need((e is None) == (Req.TYPING in want), lambda: f"typed constant with {s}: {e!r}")
    if i % 5 == 0:
        P = parser("domain")
        rq = f"(:requirements {' '.join(str(q) for q in sorted(s, key=str))})" if s else ""
        for body, q in (("(forall (?x) (p ?x))", Req.UNIVERSAL_PRECONDITION), ("(exists (?x) (p ?x))", Req.EXISTENTIAL_PRECONDITION),
                        ("(or (p) (q))", Req.DIS_PRECONDITION), ("(= ?y ?y)", Req.EQUALITY)):
            ok = q in want
            _, e = outcome(P, f"(define (domain d) {rq} (:predicates (p ?x) (q)) (:action a :parameters (?y) :precondition {body}))")
            need((e is None) == ok, lambda: f"{body} with {s}: {e!r}")


_parsers = {}


def parser(kind):
    """One parser object per kind and process."""
    if kind not in _parsers:
        from pddl.parser.domain import DomainParser
        from pddl.parser.plan import PlanParser
        from pddl.parser.problem import ProblemParser

        _parsers[kind] = {"domain": DomainParser, "problem": ProblemParser, "plan": PlanParser}[kind]()
    return _parsers[kind]


# ------------------------------------------------------------------ C16
def c16(r, i):
    acts = {n: r.randint(0, 3) for n in r.sample(["go", "take", "put", "Go"], r.randint(0, 4))}
    dc = r.sample(["a", "b"], r.randint(0, 2))
    po = r.sample(["b", "c", "e"], r.randint(0, 3))
    dom = Domain("d", requirements=[Req.TYPING], types={"t": None}, constants=[Constant(c, r.choice([None, "t"])) for c in dc],
                 actions=[Action(n, [Variable(x) for x in ("x", "y", "z")[:k]]) for n, k in acts.items()])
    prob = Problem("p", domain_name=r.choice(["d", "other"]), objects=[Constant(c, r.choice([None, "t"])) for c in po])
    objs = set(dc) | set(po)
    steps = []
    for _ in range(r.randint(0, 6)):
        n = r.choice(sorted(acts)) if acts and r.random() < 0.95 else r.choice(["nope", "GO"])
        k = acts.get(n, 1)
        if r.random() < 0.05:
            k = max(0, k + r.choice([-1, 1]))
        pool = sorted(objs) if objs and r.random() < 0.95 else ["zz", "a", "e"]
        steps.append((n, [Constant(r.choice(pool), r.choice([None, "t"])) for _ in range(k)]))
    plan = Plan(steps)
    before = (view(plan), view(dom), view(prob))
    _, e = outcome(plan.check, dom, prob)
    need((view(plan), view(dom), view(prob)) == before, "Plan.check changed something")
    ok = all(n in acts and len(ps) == acts[n] and all(str(p.name) in objs for p in ps) for n, ps in steps)
    chk(e, ok, lambda: f"plan {view(plan)} actions {acts} objects {sorted(objs)}")


# ------------------------------------------------------------------ C20
def c20(r, i):
    g = Gen(r)
    v = any_object(g, r.choice([0, 1, 2, 3]))
    o = build(v)
    want = ref_build(v)
    need(flat(view(o)) == flat(want), lambda: f"built from {v}\n reports {view(o)}\n expected {want}")
    v0 = view(o)
    extra_accessors(o, v0)
    g2 = build(any_object(g, 2))
    w0 = view(g2)
    for _ in range(4):
        op = r.choice(["inst", "cmp", "hash", "str", "repr", "comb", "sort", "copy"])
        if op == "inst" and hasattr(o, "instantiate"):
            if isinstance(o, Action):
                outcome(o.instantiate, [build(g.term()) for _ in o.parameters])
            else:
                m = rand_map(r, g.mapping(v0))
                m0 = {view(a): view(b) for a, b in m.items()}
                outcome(o.instantiate, m)
                need(m0 == {view(a): view(b) for a, b in m.items()}, "the mapping was changed")
        elif op == "cmp":
            outcome(lambda: (o == g2, g2 == o, o < g2))
        elif op == "hash":
            hash(o)
        elif op == "str":
            a, b = outcome(str, o)[0], outcome(str, o)[0]
            need(a == b, "printing is not repeatable")
        elif op == "repr":
            outcome(repr, o)
        elif op == "comb" and isinstance(o, B.Formula) and isinstance(g2, B.Formula):
            outcome(lambda: (o & g2, o | g2, ~o, o >> g2, B.And(o, g2, o), B.Or(o, B.Or(g2, o))))
        elif op == "copy":
            copy.deepcopy(o)
        need(view(o) == v0, lambda: f"{op} changed {v0} to {view(o)}")
        need(view(g2) == w0, lambda: f"{op} changed {w0} to {view(g2)}")
    which = r.choice(["domain", "problem", "plan", "term", "quant", "helpers"])
    globals()["c20_" + which](r, g)


def extra_accessors(o, v):
    if v[0] in ("pred", "fn"):
        need(o.arity == len(v) - 2, lambda: f"arity of {v} is {o.arity}")
        new = [Constant("k")] * (len(v) - 2) if v[0] == "pred" else list(o.terms)
        need(view(o(*new)) == v[:2] + tuple(map(view, new)), lambda: f"call of {v}")
        _, e = outcome(lambda: o(*(list(new) + [Constant("k")])))
        need(isinstance(e, AssertionError), "a call with another number of terms was accepted")
    if v[0] == "action":
        need(tuple(map(view, o.terms)) == v[2], "Action.terms")
    if v[0] == "var":
        w = o.with_type_tags(["t3"])
        need(view(w) == ("var", v[1], frozenset(["t3"])) and view(o) == v, "with_type_tags")
        need(view(o.with_type_tags(None)) == ("var", v[1], frozenset()), "with_type_tags(None)")
    for what in ("operands", "terms", "variables", "type_tags", "parameters"):
        if hasattr(o, what):
            x = getattr(o, what)
            need(isinstance(x, (tuple, frozenset)) or v[0] == "action", lambda: f"{what} of {v} is a mutable {type(x).__name__}")


def c20_term(r, g):
    tags = r.choice([None, [], ["t1"], ["t1", "t2"], ("t1",), {"t1", "t2"}, frozenset(["t2"]), ["t1", "t1"]])
    t0 = copy.copy(tags)
    o, e = outcome(Variable, "x", tags)
    if tags == ["t1", "t1"]:
        need(isinstance(e, ValueError), "duplicate type tags accepted")
        return
    need(e is None and set(o.type_tags) == set(tags or ()), lambda: f"tags {tags}: {e!r}")
    if isinstance(tags, (list, set)):
        tags.clear()
        need(set(o.type_tags) == set(t0), "the object shares the collection passed in")


def c20_quant(r, g):
    vs = [build(x) for x in sorted(g.qvars(), key=repr)]
    for cls in (B.ForallCondition, B.ExistsCondition, EF.Forall):
        arg = r.choice([list, tuple, set, frozenset])(vs)
        o = cls(PR.Predicate("p"), arg)
        need(set(o.variables) == set(vs) and len(o.variables) == len(set(vs)), "quantified variables")
        if isinstance(arg, (list, set)):
            arg.clear()
            need(set(o.variables) == set(vs), "the object shares the collection passed in")
    need(len(B.ForallCondition(PR.Predicate("p")).variables) == 0 and len(EF.Forall(PR.Predicate("p")).variables) == 0, "no variables")


def c20_plan(r, g):
    steps = [(r.choice(["go", "take"]), [build(g.const()) for _ in range(r.randint(0, 3))]) for _ in range(r.randint(0, 4))]
    s0 = tuple((n, tuple(map(view, ps))) for n, ps in steps)
    p = Plan(steps)
    str(p), repr(p), p == Plan([]), p == p
    need(view(p)[1:] == s0, "plan reports other steps")
    need(p == Plan(list(steps)) and (not steps or p != Plan(steps[:-1])), "plan equality")
    steps.clear()
    need(view(p)[1:] == s0, "the plan shares the list passed in")


def coll(r, xs):
    return r.choice([list, tuple, set, frozenset])(xs)


def c20_domain(r, g):
    types = {"t1": None, "t2": "t1", "t3": None}
    reqs = coll(r, {Req.ADL, Req.NUMERIC_FLUENTS} | rand_reqs(r, 0.1))
    C = coll(r, [Constant(n, r.choice([None, "t1"])) for n in r.sample("abc", r.randint(0, 3))])
    P = coll(r, [PR.Predicate(n, Variable("x", ["t1"])) for n in r.sample("pqr", r.randint(0, 3))])
    D = coll(r, [PR.DerivedPredicate(PR.Predicate(n), PR.Predicate("p")) for n in r.sample("uvw", r.randint(0, 2))])
    Fd = {FN.NumericFunction(n, Variable("x")): r.choice([None, "number"]) for n in r.sample("fgh", r.randint(0, 3))}
    A = coll(r, [build(rand_action(Gen(r), n)) for n in r.sample(["a1", "a2", "a3"], r.randint(0, 3))])
    miss = lambda x: None if not x and r.random() < 0.5 else x  # noqa
    args = dict(requirements=reqs, types=types, constants=miss(C), predicates=miss(P), derived_predicates=miss(D), functions=miss(Fd), actions=miss(A))
    snap = {k: (type(v), view(v) if not isinstance(v, dict) else [(view(a), b) for a, b in v.items()]) for k, v in args.items()}
    d, e = outcome(lambda: Domain("dd", **args))
    need(e is None, lambda: f"domain rejected: {e!r}")

    def report():
        need(d.name == "dd" and set(d.requirements) == set(reqs) and len(d.requirements) == len(set(reqs)), "name or requirements")
        need({str(k): v for k, v in d.types.items()} == types, "types")
        for k, x, y in (("constants", d.constants, C), ("predicates", d.predicates, P), ("derived", d.derived_predicates, D), ("actions", d.actions, A)):
            need(set(map(view, x)) == set(map(view, y)) and len(x) == len(set(y)), lambda: f"{k}: {x} built from {y}")
        need(dict(d.functions) == Fd, lambda: f"functions: {d.functions} built from {Fd}")

    report()
    outcome(lambda: (str(d), d == d, d == Domain("dd"), Plan([]).instantiate(d), Plan([]).check(d, Problem("p", domain=d))))
    pr, _ = outcome(lambda: Problem("p", domain=d, goal=PR.Predicate("p", Constant("a"))))
    outcome(lambda: (str(pr), pr.check(d), pr == pr))
    report()
    need(snap == {k: (type(v), view(v) if not isinstance(v, dict) else [(view(a), b) for a, b in v.items()]) for k, v in args.items()}, "an argument was changed")
    shown = [view(x) for x in (d.constants, d.predicates, d.derived_predicates, d.actions)], dict(d.types), set(d.requirements), [(view(a), x) for a, x in d.functions.items()]
    for x in (C, P, D, A, reqs, types, Fd):
        if isinstance(x, (list, set, dict)):
            y = copy.copy(x)
            x.clear()
            now = [view(x) for x in (d.constants, d.predicates, d.derived_predicates, d.actions)], dict(d.types), set(d.requirements), [(view(a), x) for a, x in d.functions.items()]
            need(now == shown, "the domain shares a collection passed in")
            x.extend(y) if isinstance(x, list) else x.update(y)
    for x in (C, P, D, A):
        if isinstance(x, (list, set)):
            n = list(x)
            x.clear()
            d2 = Domain("dd")
            need(len(d2.constants) == len(d2.predicates) == len(d2.actions) == len(d2.derived_predicates) == len(d2.functions) == len(d2.types) == len(d2.requirements) == 0, "missing collections")
            x.extend(n) if isinstance(x, list) else x.update(n)


def c20_problem(r, g):
    O = coll(r, [Constant(n, r.choice([None, "t1"])) for n in r.sample("abc", r.randint(0, 3))])
    I = coll(r, [PR.Predicate(n, Constant("a")) for n in r.sample("pqr", r.randint(0, 3))] + [B.Not(PR.Predicate("s"))])
    G = r.choice([None, PR.Predicate("p"), B.Not(PR.Predicate("p")), B.And(), B.Or()])
    M = r.choice([None, FN.Metric(FN.NumericFunction("total-cost"), r.choice(["minimize", "maximize"]))])
    q = r.choice([None, {Req.TYPING}, [Req.STRIPS, Req.ADL], set()])
    p = Problem("pp", domain_name="dd", requirements=q, objects=O, init=I, goal=G, metric=M)

    def report():
        need(p.name == "pp" and p.domain_name == "dd" and set(p.requirements) == set(q or ()), lambda: f"{p.requirements}")
        need(set(map(view, p.objects)) == set(map(view, O)) and set(map(view, p.init)) == set(map(view, I)), "objects or init")
        need(view(p.goal) == (("and",) if G is None else view(G)), lambda: f"goal {G!r} reported as {p.goal!r}")
        need(view(p.metric) == view(M), "metric")

    report()
    dom = Domain("dd", requirements=[Req.ADL, Req.STRIPS, Req.TYPING], types={"t1": None})
    outcome(lambda: (str(p), p == p, p.check(dom), p == Problem("x", domain_name="y")))
    report()
    for x in (O, I, q):
        if isinstance(x, (list, set)):
            y = copy.copy(x)
            want = set(map(view, p.objects)), set(map(view, p.init)), set(p.requirements)
            x.clear()
            need(want == (set(map(view, p.objects)), set(map(view, p.init)), set(p.requirements)), "the problem shares a collection passed in")
            x.extend(y) if isinstance(x, list) else x.update(y)
    need(dom.name == "dd" and set(dom.types) == {"t1"}, "check changed the domain")
    p2 = Problem("pp", domain=dom, objects=[], init=[])
    need(p2.domain is dom and set(p2.requirements) == set(dom.requirements) and view(p2.goal) == ("and",) and p2.metric is None, "problem with domain")


def c20_helpers(r, g):
    xs = r.choice([None, [], ["a", "b"], ("a",), {"a", "b"}, ["a", "a"]])
    x0 = copy.copy(xs)
    need(ensure_set(xs) == frozenset(xs or ()) and isinstance(ensure_set(xs), frozenset), "ensure_set")
    need(type(ensure_set(xs, immutable=False)) is set, "ensure_set mutable")
    need(ensure_sequence(xs) == tuple(xs or ()), "ensure_sequence")
    need(type(ensure_sequence(xs, immutable=False)) is list, "ensure_sequence mutable")
    c, e = outcome(check_no_duplicates, xs)
    if xs == ["a", "a"]:
        need(isinstance(e, ValueError), "duplicates accepted")
    else:
        need(e is None and c is xs, "check_no_duplicates")
    need(xs == x0, "argument changed")
