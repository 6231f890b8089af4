"""C20: what objects report."""
from pddl.custom_types import parse_function, parse_name, parse_type  # through their contracts (C09)
from pddl.logic.terms import Variable


def as_set(x):
    return frozenset(x) if x is not None else frozenset()


def types_of(tags):
    if tags is None:
        return frozenset()
    for t in frozenset(tags):
        parse_type(t)
    return frozenset(tags)


def nodup(xs):
    if xs is None or isinstance(xs, (set, frozenset)):
        return
    if any(x in xs[:i] for i, x in enumerate(xs)):
        raise ValueError()


def constant(name, type_tag):
    parse_name(name)
    if type_tag is None:
        return (name, None, frozenset())
    parse_type(type_tag)
    return (name, type_tag, frozenset([type_tag]))


def variable(name, type_tags):
    parse_name(name)
    nodup(type_tags)
    return (name, types_of(type_tags))


def with_type_tags(v, type_tags):
    nodup(type_tags)
    return (v.name, types_of(type_tags))


def consistent(terms):
    """Variables with one name have one set of type tags."""
    if any(
        isinstance(x, Variable) and isinstance(y, Variable) and x.name == y.name and x.type_tags != y.type_tags
        for x in terms for y in terms
    ):
        raise ValueError()


def predicate(check):
    def f(name, terms):
        parse_name(name)
        check(terms)
        return (name, terms, len(terms))

    return f


def function(name, terms):
    parse_function(name)
    return (name, terms, len(terms))


def equal_to(check):
    def f(left, right):
        check((left, right))
        return (left, right)

    return f


def same(*xs):
    return xs


def quantified(cond, variables):
    return (cond, as_set(variables))


def metric(expression, optimization):
    if optimization != "minimize" and optimization != "maximize":
        raise ValueError()
    return (expression, optimization)


def action(name, parameters, precondition, effect):
    parse_name(name)
    if parameters is None:
        parameters = ()
    parameters = tuple(parameters)
    return (name, parameters, parameters, precondition, effect)


def nodup_(xs):
    nodup(xs)
    return xs
