"""C07: exactly the well-formed type hierarchies are accepted."""
from pddl.custom_types import parse_type  # through its contract (C09)
from pddl.exceptions import PDDLValidationError
from pddl.requirements import Requirements

from specs.c10 import closure


def types(cyclic):
    """Building Types; cyclic(d) says whether the subtype relation of d has a cycle."""

    def f(given, requirements):
        d = {}
        if given is not None:
            d = {parse_type(t): parse_type(s) if s else None for t, s in given.items()}
        if any(s is not None for s in d.values()) and Requirements.TYPING not in closure(set(requirements) if requirements is not None else set()):
            raise PDDLValidationError()
        if "object" in d and d["object"] is not None:
            raise PDDLValidationError()
        if cyclic(d):
            raise PDDLValidationError()
        return d, set(d) | set(s for s in d.values() if s is not None)

    return f


def unchecked(given, requirements):
    """Types of a domain that has been accepted before."""
    d = {parse_type(t): parse_type(s) if s else None for t, s in given.items()}
    return d, set(d) | set(s for s in d.values() if s is not None)
