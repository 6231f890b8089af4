"""C16: checking a plan against a domain and a problem."""
from pyvc.obl import *  # noqa
from pyvc.world import *  # noqa
from specs import c16 as s


def obligations():
    w = base_world()
    plan_world(w)
    return [refine("C16.Plan.check", w, args_of(("self", TCls(Plan)), ("domain", TCls(Domain)), ("problem", TCls(Problem))),
                   Plan.check, s.plan_check)]
