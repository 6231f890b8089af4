"""C10: the requirements implied by a set of requirements."""
from pddl.requirements import Requirements as R

QUANTIFIED = (R.UNIVERSAL_PRECONDITION, R.EXISTENTIAL_PRECONDITION)
ADL = (R.STRIPS, R.TYPING, R.NEG_PRECONDITION, R.DIS_PRECONDITION, R.EQUALITY, R.CONDITIONAL_EFFECTS) + QUANTIFIED
FLUENTS = (R.OBJECT_FLUENTS, R.NUMERIC_FLUENTS)


def closure(requirements):
    out = set(requirements)
    if R.QUANTIFIED_PRECONDITION in requirements:
        out = out | set(QUANTIFIED)
    if R.ADL in requirements:
        out = out | set(ADL)
    if R.FLUENTS in requirements:
        out = out | set(FLUENTS)
    return out


def quantified(cls):
    return set(QUANTIFIED)


def adl(cls):
    return set(ADL)


def fluents(cls):
    return set(FLUENTS)
