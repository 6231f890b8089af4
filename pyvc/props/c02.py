"""C02: instantiation of actions and plans."""
from pyvc.obl import *  # noqa
from pyvc.world import *  # noqa
from specs import c02 as s


def obligations():
    w = base_world()
    out = []
    for kind in ("list", "tuple"):
        out.append(refine(f"C02.Action.instantiate.{kind}", w,
                          args_of(("self", TCls(Action)), ("m", TSeq(TTerm, kind), True)), Action.instantiate, s.action))
    w2 = base_world()
    plan_world(w2)
    out.append(refine("C02.Plan.instantiate", w2, args_of(("self", TCls(Plan)), ("domain", TCls(Domain))), Plan.instantiate, s.plan))
    return out
