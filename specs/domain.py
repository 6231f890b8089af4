"""Building a domain (C07, C08, C20)."""
from pddl.custom_types import parse_name  # through its contract (C09)
from pddl.exceptions import PDDLValidationError
from pddl.requirements import Requirements

from specs.c10 import closure


def as_set(x):
    return frozenset(x) if x is not None else frozenset()


def functions(d, requirements):
    """Which functions need which requirements."""
    if not d:
        return {} if d is None else d
    requirements = as_set(requirements)
    costs = any(f.name == "total-cost" for f in d)
    others = any(f.name != "total-cost" for f in d)
    if costs and Requirements.ACTION_COSTS not in requirements:
        raise PDDLValidationError()
    if others and Requirements.NUMERIC_FLUENTS not in closure(set(requirements)):
        raise PDDLValidationError()
    return d


def domain(types_of, funs_of, check):
    """types_of: the contract of Types (C07); check: no term in it has a type that is not allowed (C08); funs_of: functions, below."""

    def f(name, requirements, types, constants, predicates, derived_predicates, funs, actions):
        n = parse_name(name)
        reqs = as_set(requirements)
        ts = types_of(types, reqs)
        fs = funs_of(funs, reqs).raw
        for x in as_set(constants):
            check(ts, reqs, x)
        for x in as_set(predicates):
            check(ts, reqs, x)
        for x in fs:
            check(ts, reqs, x)
        for x in as_set(actions):
            check(ts, reqs, x)
        for x in as_set(derived_predicates):
            check(ts, reqs, x)
        return (n, reqs, ts.raw, as_set(constants), as_set(predicates), fs, as_set(derived_predicates), as_set(actions))

    return f
