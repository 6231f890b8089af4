"""C05: when two objects are equal."""
from pddl.logic.terms import Constant, Variable


def components(*names):
    """The contract of == on one kind of object: the same kind, and equal components."""

    def f(x, y):
        if type(x) is not type(y):
            return False
        for n in names:
            if getattr(x, n) != getattr(y, n):
                return False
        return True

    return f


def foreign(x, y):
    return False


constant = components("name")
variable = components("name", "type_tags")
atom = components("name", "terms")
equal_to = components("left", "right")
derived = components("predicate", "condition")
operands = components("operands")
argument = components("argument")
quantified = components("variables", "condition")
when = components("condition", "effect")
forall = components("variables", "effect")
value = components("value")
metric = components("expression", "optimization")
action = components("name", "parameters", "precondition", "effect")
domain = components("name", "requirements", "types", "constants", "predicates", "functions", "derived_predicates", "actions")
plan = components("actions")
report = components("name", "domain_name", "requirements", "objects", "init", "goal", "metric")


def attached(x):
    """The domain of a problem, if it has one."""
    try:
        return x.domain
    except Exception:
        return None


def problem(x, y):
    return report(x, y) and attached(x) == attached(y)
