"""C17: building a problem, and checking it against a domain."""
from pddl.custom_types import parse_name  # through its contract (C09)
from pddl.exceptions import PDDLValidationError
from pddl.logic.base import And, Not
from pddl.logic.functions import FunctionExpression, Metric
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate

ATOMIC = (Predicate, EqualTo, DerivedPredicate, FunctionExpression, Metric)


def as_set(x):
    return frozenset(x) if x is not None else frozenset()


def literal(f):
    return isinstance(f, ATOMIC) or isinstance(f, Not) and isinstance(f.argument, ATOMIC)


def problem(types_of, type_ok):
    """types_of: the types of a domain; type_ok: contract of check_type (C08)."""

    def fits(domain_name, requirements, objects, init, goal, domain):
        if domain_name.lower() != domain.name.lower():
            raise PDDLValidationError()
        if requirements is not None and any(r not in domain.requirements for r in requirements):
            raise PDDLValidationError()
        ts = types_of(domain.types)
        for x in objects:
            type_ok(ts, domain.requirements, x)
        for x in init:
            type_ok(ts, domain.requirements, x)
        type_ok(ts, domain.requirements, goal)

    def new(name, domain, domain_name, requirements, objects, init, goal, metric):
        n = parse_name(name)
        reqs = as_set(requirements) if requirements is not None else None
        if domain is not None and domain_name is not None:
            if domain.name != domain_name:
                raise ValueError()
            dn = parse_name(domain_name)
        elif domain is not None:
            dn = domain.name
        elif domain_name is not None:
            dn = parse_name(domain_name)
        else:
            raise ValueError()
        if domain is not None and requirements is not None and reqs != domain.requirements:
            raise ValueError()
        objs, ini = as_set(objects), as_set(init)
        g = goal if goal is not None else And()
        if any(not literal(f) for f in ini):
            raise PDDLValidationError()
        if domain is not None:
            fits(domain.name, domain.requirements, objs, ini, g, domain)
        return n, dn, reqs, objs, ini, g, metric

    def report(name, domain, domain_name, requirements, objects, init, goal, metric):
        n, dn, reqs, objs, ini, g, m = new(name, domain, domain_name, requirements, objects, init, goal, metric)
        if domain is not None:
            reqs = domain.requirements
        return n, dn, reqs if reqs is not None else frozenset(), objs, ini, g, m

    def check(domain2, *args):
        n, dn, reqs, objs, ini, g, m = new(*args)
        if args[1] is not None:
            reqs = args[1].requirements
        fits(dn, reqs, objs, ini, g, domain2)

    def assign(domain2, *args):
        n, dn, reqs, objs, ini, g, m = new(*args)
        if args[1] is not None:
            reqs = args[1].requirements
        fits(domain2.name, reqs, objs, ini, g, domain2)
        return n, domain2.name, domain2.requirements, objs, ini, g, m, domain2

    return report, check, assign


def is_literal(f):
    return literal(f)
