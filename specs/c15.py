"""C15: what is printed for the parts of domains, problems and plans denotes (as specs/grammar.py, but for the actions)."""
from pddl.action import Action
from pddl.exceptions import PDDLMissingRequirementError
from pddl.logic.predicates import DerivedPredicate
from pddl.requirements import Requirements
from specs.grammar import variables


def action(st, n, vs, precondition, effect):
    """As specs.grammar.action, for parameters with different names (an action that has been parsed has no others)."""
    return Action(n, variables(vs), precondition=precondition, effect=effect)


def derived(st, p, c):
    """A derived predicate that has been parsed has its types already (C19): they are kept."""
    return DerivedPredicate(p, c)


def types_read(requirements, types):
    """The types of a domain that are printed with their supertypes (every one has one: object at least) need typing."""
    if Requirements.TYPING not in requirements and Requirements.ADL not in requirements:
        raise PDDLMissingRequirementError(Requirements.TYPING)
    return types
