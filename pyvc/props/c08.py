"""C08: every type used in a domain is declared, wherever it occurs."""
import inspect

import z3

from pyvc import boot  # noqa: F401
from pddl._validation import TypeChecker, Types
from pddl.exceptions import PDDLValidationError
from pyvc.obl import *  # noqa
from pyvc.world import *  # noqa
from specs import c08 as s

CHECKED = tuple(c for c in FORMULAS if c is not lf.Metric)
TTypes = TCls(Types)


def bad(it, types, reqs, x):
    """check_type of a formula: rejects it iff a type somewhere in it is not allowed (by this property's own obligations)."""
    it.w.used.add("TypeChecker.check_type")
    rs = it.to_v(b.mkset("frozenset", b.to_seq(it, reqs).segs if reqs is not None else ()))
    ts = [it.to_v(it.getattr_(types, "all_types")), rs, it.to_v(x)]
    if it.ctx.branch(F("badtypes", V, V, V, B)(*ts)):
        raise PyRaise(PDDLValidationError)
    return None


SPEC_CHECK = Native(lambda it, a, k: bad(it, *a), "check")


def checker_contract(it, v, a, args, kw, by=frozenset(FORMULAS + TERMS + (Action,))):
    """TypeChecker.check_type: by contract on formulas, by its body on everything else."""
    x = args[0] if args else next(iter(kw.values()))
    if isinstance(x, b.Uni):
        x = x.force(it)
    if isinstance(x, Sym) and x.ty.kind == "cls" and it.classes_of(x) <= by:
        reqs = it.known_args[id(v)]
        return bad(it, reqs[0], reqs[1], x)
    return it.call(it._bind_attr(a, v, TypeChecker, "check_type"), [x], {})


def make_checker(it, types, reqs=None):
    """A new checker; the contract of check_type speaks of what it was built from."""
    o = it.type_call(TypeChecker, [types, reqs], {})
    it.__dict__.setdefault("known_args", {})[id(o)] = (types, reqs, o)
    return o


def checker_world():
    w = with_closure(base_world())
    w.methods[(TypeChecker, "check_type")] = checker_contract
    w.class_contracts[TypeChecker] = lambda it, args, kw: make_checker(it, *(list(args) + [kw[k] for k in ("types", "requirements") if k in kw]))
    w.memo_fields = w.memo_fields | {"_extended_requirements"}
    virt(w, Types, "all_types", component("Types.all_types", TSet(TName, "set")))
    virt(w, Types, "raw", component("Types.raw", TMap(TName, TOpt(TName))))
    return w


def entry(cls):
    def real(it, a):
        types, reqs, x = a
        c = make_checker(it, types, reqs)
        return it.call(it._bind_attr(inspect.getattr_static(TypeChecker, "check_type"), c, TypeChecker, "check_type"), [x], {})

    return real


def obligations():
    out = []
    w = checker_world()
    T, R = ("types", TTypes), ("requirements", TSet(TReq, "set"))

    def ob(label, ty, spec):
        out.append(refine(f"C08.check_type.{label}", w, args_of(T, R, ("x", ty)), entry(None), spec, fns=[TypeChecker]))

    for c in TERMS:
        ob(c.__name__, TCls(c), s.term)
    ob("Predicate", TCls(lp.Predicate), s.atom(SPEC_CHECK))
    ob("NumericFunction", TCls(lf.NumericFunction), s.atom(SPEC_CHECK))
    ob("EqualTo", TCls(lp.EqualTo), s.equality(SPEC_CHECK))
    ob("NumericValue", TCls(lf.NumericValue), s.number)
    for c in CONN + BINFUN:
        ob(c.__module__.split(".")[-1] + "." + c.__name__, TCls(c), s.operands(SPEC_CHECK))
    ob("Not", TCls(lb.Not), s.argument(SPEC_CHECK))
    for c in QUANT:
        ob(c.__name__, TCls(c), s.quantified(SPEC_CHECK))
    ob("DerivedPredicate", TCls(lp.DerivedPredicate), s.derived(SPEC_CHECK))
    ob("When", TCls(le.When), s.when(SPEC_CHECK))
    ob("Forall", TCls(le.Forall), s.forall(SPEC_CHECK))
    ob("Action", TCls(Action), s.action(SPEC_CHECK))
    ob("None", TNone, s.number)
    from pyvc.props.domain import KINDS, domain_obligation, functions_obligations, terms_obligations

    for k in KINDS:
        out.append(domain_obligation(f"C08.domain.{k}", k))
    out += functions_obligations("C08.functions") + terms_obligations("C08.terms")
    return out
