"""C01: instantiation of formulas."""
from pyvc.obl import *  # noqa
from pyvc.world import *  # noqa
from specs import c01 as s

SPECS = {lb.Not: s.not_, lp.Predicate: s.predicate, lp.EqualTo: s.equal_to, lp.DerivedPredicate: s.derived,
         le.When: s.when, le.Forall: s.forall, lf.NumericFunction: s.function, lf.NumericValue: s.itself, lf.Metric: s.itself}
for c in CONN + BINFUN:
    SPECS[c] = s.operands(c)
for c in QUANT:
    SPECS[c] = s.quantified(c)


def obligations():
    w = base_world()
    out = []
    for c in FORMULAS:
        out.append(refine(f"C01.instantiate.{c.__module__.split('.')[-1]}.{c.__name__}", w,
                          args_of(("self", TCls(c)), ("m", TMap(TVar, TTerm), True)), c.instantiate, SPECS[c]))
    return out
