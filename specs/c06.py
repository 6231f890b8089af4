"""C06: the orders."""
from pddl.logic.terms import Constant, Variable


def term(x, y):
    """By kind, then name, then (variables only) sorted type tags."""
    if type(x) is not type(y):
        return type(x) is Constant
    if x.name != y.name:
        return x.name < y.name
    if isinstance(x, Variable):
        return sorted(x.type_tags) < sorted(y.type_tags)
    return False


def atom(x, y):
    """By name, then the terms from left to right."""
    if x.name != y.name:
        return x.name < y.name
    return x.terms < y.terms


def value(x, y):
    return x.value < y.value


def derived(x, y):
    """By predicate, then condition (where conditions are comparable)."""
    if x.predicate != y.predicate:
        return x.predicate < y.predicate
    if x.condition != y.condition:
        return x.condition < y.condition
    return False
