"""C09: which names are accepted."""
import re

from pddl.exceptions import PDDLValidationError

KEYWORDS = frozenset(
    "( ) - = :action and :constants define :derived domain :domain :effect either exists forall :goal imply :init not "
    "object :objects oneof or :parameters :precondition :predicates problem :requirements :types :metric when >= > <= < + "
    "* / assign scale-up scale-down increase decrease maximize minimize total-cost".split()
)
PATTERN = re.compile("[A-Za-z][-_A-Za-z0-9]*")


def accept(s, extra):
    if s in KEYWORDS and s != extra:
        raise PDDLValidationError()
    if not PATTERN.fullmatch(s):
        raise ValueError()
    return s


def parse_name(s):
    return accept(s, None)


def parse_type(s):
    return accept(s, "object")


def parse_function(s):
    return accept(s, "total-cost")
