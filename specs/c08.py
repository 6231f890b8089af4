"""C08: every type used is declared, wherever it occurs."""
from pddl.exceptions import PDDLValidationError
from pddl.requirements import Requirements

from specs.c10 import closure


def tags(types, requirements, type_tags):
    if type_tags and Requirements.TYPING not in closure(set(requirements)):
        raise PDDLValidationError()
    if any(t != "object" and t not in types.all_types for t in type_tags):
        raise PDDLValidationError()


def term(types, requirements, t):
    tags(types, requirements, t.type_tags)


def each(check, types, requirements, xs):
    for x in xs:
        check(types, requirements, x)


def atom(check):
    def f(types, requirements, a):
        each(check, types, requirements, a.terms)

    return f


def equality(check):
    def f(types, requirements, a):
        check(types, requirements, a.left)
        check(types, requirements, a.right)

    return f


def number(types, requirements, a):
    return None


def operands(check):
    def f(types, requirements, a):
        each(check, types, requirements, a.operands)

    return f


def argument(check):
    def f(types, requirements, a):
        check(types, requirements, a.argument)

    return f


def derived(check):
    def f(types, requirements, a):
        check(types, requirements, a.predicate)
        check(types, requirements, a.condition)

    return f


def quantified(check):
    def f(types, requirements, a):
        each(check, types, requirements, a.variables)
        check(types, requirements, a.condition)

    return f


def when(check):
    def f(types, requirements, a):
        check(types, requirements, a.condition)
        check(types, requirements, a.effect)

    return f


def forall(check):
    def f(types, requirements, a):
        each(check, types, requirements, a.variables)
        check(types, requirements, a.effect)

    return f


def action(check):
    def f(types, requirements, a):
        each(check, types, requirements, a.parameters)
        if a.precondition is not None:
            check(types, requirements, a.precondition)
        if a.effect is not None:
            check(types, requirements, a.effect)

    return f
