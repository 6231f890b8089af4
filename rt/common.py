"""Views of library objects, reference semantics on views, and generators.

A view is a nested tuple with what an object reports through its public accessors. The bounded
stand-ins and the replay of failed obligations compare views with reference functions on views;
none of them calls the code it is compared with.
"""
import itertools
import random

from pyvc.boot import boot  # noqa: F401  (puts /repo on sys.path)

from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.logic import base as B
from pddl.logic import effects as EF
from pddl.logic import functions as FN
from pddl.logic import predicates as PR
from pddl.logic.terms import Constant, Variable

PLUS, TIMES = "+", "*"
NUMOPS = {
    "+": FN.Plus, "*": FN.Times, "-": FN.Minus, "/": FN.Divide,
    "n=": FN.EqualTo, "<": FN.LesserThan, "<=": FN.LesserEqualThan, ">": FN.GreaterThan, ">=": FN.GreaterEqualThan,
    "assign": FN.Assign, "scale-up": FN.ScaleUp, "scale-down": FN.ScaleDown,
    "increase": FN.Increase, "decrease": FN.Decrease,
}
OPS = {"and": B.And, "or": B.Or, "oneof": B.OneOf, "imply": B.Imply}
KIND = {v: k for k, v in {**NUMOPS, **OPS}.items()}
QUANT = {"forall": B.ForallCondition, "exists": B.ExistsCondition}
QKIND = {v: k for k, v in QUANT.items()}


# ------------------------------------------------------------------ views
def view(o):
    """What an object reports through its accessors."""
    t = type(o)
    if o is None:
        return None
    if t is Constant:
        return ("const", str(o.name), None if o.type_tag is None else str(o.type_tag))
    if t is Variable:
        return ("var", str(o.name), frozenset(map(str, o.type_tags)))
    if t is PR.Predicate:
        return ("pred", str(o.name)) + tuple(map(view, o.terms))
    if t is PR.EqualTo:
        return ("=", view(o.left), view(o.right))
    if t is PR.DerivedPredicate:
        return ("derived", view(o.predicate), view(o.condition))
    if t is FN.NumericFunction:
        return ("fn", str(o.name)) + tuple(map(view, o.terms))
    if t is FN.NumericValue:
        return ("num", o.value)
    if t is FN.Metric:
        return ("metric", str(o.optimization), view(o.expression))
    if t in KIND:
        return (KIND[t],) + tuple(map(view, o.operands))
    if t is B.Not:
        return ("not", view(o.argument))
    if t in QKIND:
        return (QKIND[t], frozenset(map(view, o.variables)), view(o.condition))
    if t is EF.When:
        return ("when", view(o.condition), view(o.effect))
    if t is EF.Forall:
        return ("forall_effect", frozenset(map(view, o.variables)), view(o.effect))
    if t is Action:
        return ("action", str(o.name), tuple(map(view, o.parameters)), view(o.precondition), view(o.effect))
    if t is Plan:
        return ("plan",) + tuple((str(n), tuple(map(view, ps))) for n, ps in o.actions)
    if t is Domain:
        return (
            "domain", str(o.name), frozenset(o.requirements),
            frozenset((str(k), None if v is None else str(v)) for k, v in o.types.items()),
            fs(map(view, o.constants)), fs(map(view, o.predicates)), fs(map(view, o.derived_predicates)),
            fs((view(k), None if v is None else str(v)) for k, v in o.functions.items()), fs(map(view, o.actions)),
        )
    if t is Problem:
        return (
            "problem", str(o.name), str(o.domain_name), frozenset(o.requirements), fs(map(view, o.objects)),
            fs(map(view, o.init)), view(o.goal), view(o.metric),
        )
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], str):  # plan step
        return (str(o[0]), tuple(map(view, o[1])))
    if isinstance(o, (list, tuple)):
        return tuple(map(view, o))
    if isinstance(o, (set, frozenset)):
        return frozenset(map(view, o))
    if isinstance(o, dict):
        return frozenset((view(k), view(v)) for k, v in o.items())
    return (t.__name__, repr(o))


def fs(it):
    """A multiset as a frozenset of (element, count)."""
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return frozenset(d.items())


def norm(v):
    """Equality class of a view: constants by name only; numbers by value."""
    if isinstance(v, tuple) and v:
        if v[0] == "const":
            return ("const", v[1])
        return tuple(norm(x) for x in v)
    if isinstance(v, frozenset):
        return frozenset(norm(x) for x in v)
    return v


def flat(v):
    """Flatten nested sums and products (they may be flattened by the constructors)."""
    if isinstance(v, tuple) and v:
        v = tuple(flat(x) for x in v)
        if v[0] in (PLUS, TIMES):
            ops = []
            for x in v[1:]:
                if isinstance(x, tuple) and x and x[0] == v[0]:
                    ops.extend(x[1:])
                else:
                    ops.append(x)
            if len(ops) == 1:
                return ops[0]
            return (v[0],) + tuple(ops)
        return v
    if isinstance(v, frozenset):
        return frozenset(flat(x) for x in v)
    return v


# ------------------------------------------------------------------ reference semantics
def ref_monotone(kind, ops):
    """And/Or on views: flatten, drop repetitions, keep first occurrences."""
    out, seen = [], set()

    def go(v):
        if v[0] == kind:
            for x in v[1:]:
                go(x)
        elif norm(v) not in seen:
            seen.add(norm(v))
            out.append(v)

    for o in ops:
        go(o)
    return out[0] if len(out) == 1 else (kind,) + tuple(out)


def ref_build(v):
    """View of the object the public constructors build from the syntax v."""
    if not isinstance(v, tuple) or not v:
        return v
    k = v[0]
    if k in ("and", "or"):
        return ref_monotone(k, [ref_build(x) for x in v[1:]])
    if k in ("const", "var", "pred", "fn", "num", "="):
        return v
    return (k,) + tuple(ref_build(x) for x in v[1:])


def ref_inst(v, m):
    """Simultaneous substitution of the free occurrences of mapped variables."""
    k = v[0] if isinstance(v, tuple) and v else None
    if k == "var":
        return m.get(v, v)
    if k in ("pred", "fn"):
        return v[:2] + tuple(ref_inst(x, m) for x in v[2:])
    if k in ("const", "num", "metric"):
        return v
    if k in ("and", "or"):
        return ref_monotone(k, [ref_inst(x, m) for x in v[1:]])
    if k in ("forall", "exists", "forall_effect"):
        bound = {x[1] for x in v[1]}
        m2 = {a: b for a, b in m.items() if a[1] not in bound}
        return (k, v[1], ref_inst(v[2], m2))
    return (k,) + tuple(ref_inst(x, m) for x in v[1:])


def atoms(v):
    """All sub-views that are tagged tuples."""
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from atoms(x)
    elif isinstance(v, frozenset):
        for x in v:
            yield from atoms(x)


def inconsistent_atom(a):
    """Variables of an atom with the same name and different tags."""
    terms = a[2:] if a[0] == "pred" else a[1:] if a[0] == "=" else ()
    seen = {}
    for t in terms:
        if t and t[0] == "var" and seen.setdefault(t[1], t[2]) != t[2]:
            return True
    return False


def inconsistent(v):
    """Some predicate or equality that its constructor must reject."""
    return any(inconsistent_atom(a) for a in atoms(v))


def tags_used(v):
    """Type tags on terms and quantified variables, at any depth."""
    out = set()
    for a in atoms(v):
        if a[0] == "const" and len(a) == 3 and a[2] is not None:
            out.add(a[2])
        if a[0] == "var":
            out |= a[2]
    return out


def ref_eval(v, env):
    """Truth value of a boolean view; atoms are looked up by equality class."""
    k = v[0]
    if k == "and":
        return all(ref_eval(x, env) for x in v[1:])
    if k == "or":
        return any(ref_eval(x, env) for x in v[1:])
    if k == "not":
        return not ref_eval(v[1], env)
    if k == "imply" and len(v) == 3:
        return (not ref_eval(v[1], env)) or ref_eval(v[2], env)
    return env(norm(v))


# ------------------------------------------------------------------ construction
def build(v):
    """The library object of a syntax tree, through the public constructors."""
    k = v[0]
    if k == "const":
        return Constant(v[1], v[2])
    if k == "var":
        return Variable(v[1], set(v[2]) if v[2] else None)
    if k == "pred":
        return PR.Predicate(v[1], *map(build, v[2:]))
    if k == "=":
        return PR.EqualTo(build(v[1]), build(v[2]))
    if k == "fn":
        return FN.NumericFunction(v[1], *map(build, v[2:]))
    if k == "num":
        return FN.NumericValue(v[1])
    if k == "metric":
        return FN.Metric(build(v[2]), v[1])
    if k == "derived":
        return PR.DerivedPredicate(build(v[1]), build(v[2]))
    if k in NUMOPS:
        return NUMOPS[k](*map(build, v[1:]))
    if k in OPS:
        return OPS[k](*map(build, v[1:]))
    if k == "not":
        return B.Not(build(v[1]))
    if k in QUANT:
        return QUANT[k](build(v[2]), [build(x) for x in sorted(v[1], key=repr)])
    if k == "forall_effect":
        return EF.Forall(build(v[2]), [build(x) for x in sorted(v[1], key=repr)])
    if k == "when":
        return EF.When(build(v[1]), build(v[2]))
    if k == "action":
        return Action(v[1], [build(x) for x in v[2]], None if v[3] is None else build(v[3]),
                      None if v[4] is None else build(v[4]))
    raise ValueError(k)


class Gen:
    """Random syntax trees over small pools, so that coincidences are frequent."""

    def __init__(self, rng: random.Random, names=("p", "q", "r-1"), vars_=("x", "y", "z"), consts=("a", "b", "c_2"),
                 types=("t1", "t2", "t3"), typed=0.5):
        self.r = rng
        self.names, self.vars, self.consts, self.types, self.typed = names, vars_, consts, types, typed
        self.vartags = {}
        self.loose = rng.random() < 0.3  # variables of one name may carry different tags in different atoms

    def tags(self):
        r = self.r
        if r.random() > self.typed:
            return frozenset()
        return frozenset(r.sample(self.types, min(len(self.types), 1 if r.random() < 0.7 else 2)))

    def var(self):
        n = self.r.choice(self.vars)
        if self.loose and self.r.random() < 0.3:
            return ("var", n, self.tags())
        if n not in self.vartags:
            self.vartags[n] = self.tags()
        return ("var", n, self.vartags[n])

    def const(self):
        return ("const", self.r.choice(self.consts), self.r.choice(self.types) if self.r.random() < self.typed / 2 else None)

    def term(self):
        return self.var() if self.r.random() < 0.65 else self.const()

    def consistent(self, f):
        for _ in range(50):
            a = f()
            if not inconsistent_atom(a):
                return a
        return ("pred", self.r.choice(self.names))

    def pred(self):
        return self.consistent(lambda: ("pred", self.r.choice(self.names)) + tuple(self.term() for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, 4]))))

    def eq(self):
        return self.consistent(lambda: ("=", self.term(), self.term()))

    def fn(self):
        return ("fn", self.r.choice(self.names)) + tuple(self.term() for _ in range(self.r.choice([0, 1, 2, 3])))

    def num(self):
        r = self.r
        return ("num", r.choice([0, 1, 2, 3, 10, 0.5, 2.25, 1e-07, 123456789, 1e16, r.randint(0, 50), round(r.random() * 100, 4)]))

    def nexp(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return self.num() if r.random() < 0.4 else self.fn()
        k = r.choice(["+", "*", "-", "/", "+", "*"])
        n = 2 if k == "/" else r.choice([1, 2, 2]) if k == "-" else r.choice([2, 2, 3])
        ops = [self.nexp(d - 1) for _ in range(n)]
        if r.random() < 0.3 and n > 1:
            ops[1] = ops[0]
        return (k,) + tuple(ops)

    def comp(self, d):
        return (self.r.choice(["n=", "<", "<=", ">", ">="]), self.nexp(d - 1), self.nexp(d - 1))

    def assign(self, d):
        return (self.r.choice(["assign", "scale-up", "scale-down", "increase", "decrease"]), self.fn(), self.nexp(d - 1))

    def atom(self, d=1):
        x = self.r.random()
        return self.pred() if x < 0.7 else self.eq() if x < 0.85 else self.comp(d)

    def qvars(self, allow_empty=True):
        r = self.r
        ns = r.sample(self.vars, r.choice([1, 1, 2, 0 if allow_empty else 1]))
        return frozenset(("var", n, self.vartags.get(n, frozenset()) if r.random() < 0.5 else self.tags()) for n in ns)

    def ops(self, mk, lo, hi):
        r = self.r
        ops = [mk() for _ in range(r.randint(lo, hi))]
        if len(ops) > 1 and r.random() < 0.3:
            ops[r.randrange(len(ops))] = r.choice(ops)
        return ops

    def gd(self, d, quant=True):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return self.atom(max(d, 1))
        k = r.choice(["and", "or", "not", "imply", "forall", "exists", "and", "or"])
        if k in ("and", "or"):
            return (k,) + tuple(self.ops(lambda: self.gd(d - 1, quant), 0, 3))
        if k == "not":
            return ("not", self.gd(d - 1, quant))
        if k == "imply":
            return ("imply", self.gd(d - 1, quant), self.gd(d - 1, quant))
        if not quant:
            return self.atom()
        return (k, self.qvars(), self.gd(d - 1, quant))

    def peff(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return self.pred()
        if x < 0.75:
            return ("not", self.pred())
        return self.assign(2)

    def effect(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.peff()
        k = r.choice(["and", "when", "forall_effect", "oneof", "and"])
        if k == "and":
            return ("and",) + tuple(self.ops(lambda: self.ceffect(d - 1), 0, 3))
        return self.ceffect(d, k)

    def ceffect(self, d, k=None):
        r = self.r
        if d <= 0 or (k is None and r.random() < 0.3):
            return self.peff()
        k = k or r.choice(["when", "forall_effect", "oneof"])
        if k == "when":
            e = ("and",) + tuple(self.ops(self.peff, 0, 3)) if r.random() < 0.5 else self.peff()
            return ("when", self.gd(d - 1), e)
        if k == "forall_effect":
            return ("forall_effect", self.qvars(), self.effect(d - 1))
        return ("oneof",) + tuple(self.ops(lambda: self.effect(d - 1), 1, 3))

    def any_formula(self, d):
        x = self.r.random()
        if x < 0.4:
            return self.gd(d)
        if x < 0.7:
            return self.effect(d)
        if x < 0.78:
            return ("derived", self.pred(), self.gd(d - 1))
        if x < 0.88:
            return self.nexp(d)
        if x < 0.94:
            return self.comp(d)
        if x < 0.97:
            # operators applied to any number of formulas, of any class
            return (self.r.choice(["oneof", "imply"]),) + tuple(self.gd(d - 1) for _ in range(self.r.randint(0, 3)))
        return ("metric", self.r.choice(["minimize", "maximize"]), self.nexp(d))

    def mapping(self, v):
        """A mapping over variables of v and others."""
        r = self.r
        vs = [a for a in set(atoms(v)) if a[0] == "var"]
        vs = sorted(vs, key=repr)
        m = {}
        for x in vs:
            if r.random() < 0.7:
                m[x] = r.choice([self.const(), self.const(), self.var(), r.choice(vs)])
        for _ in range(r.choice([0, 0, 1, 2])):
            m[("var", r.choice(self.vars), self.tags())] = self.term()
        return m


class Violation(Exception):
    """A run of the real code that breaks the property."""


def need(cond, msg):
    """Raise a violation unless cond."""
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def outcome(f, *a):
    """(value, None) or (None, exception)."""
    try:
        return f(*a), None
    except RecursionError:
        raise
    except Exception as e:  # noqa
        return None, e
