"""C10: requirement closure."""
import z3

from pyvc import boot  # noqa: F401
from pddl.requirements import Requirements, _extend_domain_requirements
from pyvc import builtins_ as b
from pyvc import verify
from pyvc.obl import *  # noqa
from pyvc.interp import z3b
from pyvc.same import Same
from pyvc.world import *  # noqa
from specs import c10 as s



def extend(it, x):
    return it.call_function(_extend_domain_requirements, [x], {})


def sym(it, name, kind="set"):
    v = it.mk(z3.Const(name, V), TSet(TReq, kind))
    v.input = True
    return v


def leq(it, x, y, why):
    """x is a subset of y: decided requirement by requirement."""
    for r in Requirements:
        Same(it).prove(z3.Implies(z3b(b.mem(it, r, x)), z3b(b.mem(it, r, y))), f"{why}: {r.name}")


def monotone(it):
    x, y = sym(it, "x"), sym(it, "y")
    for r in Requirements:
        it.ctx.assume(z3.Implies(z3b(b.mem(it, r, x)), z3b(b.mem(it, r, y))))
    leq(it, extend(it, x), extend(it, y), "monotone")
    return "ret"


def idempotent(it):
    c = extend(it, sym(it, "x"))
    cc = extend(it, c)
    leq(it, cc, c, "idempotent")
    leq(it, c, cc, "idempotent")
    return "ret"


def extensive(it):
    x = sym(it, "x")
    leq(it, x, extend(it, x), "includes the given requirements")
    return "ret"


def obligations():
    w = base_world()
    out = []
    for kind in ("set", "frozenset"):
        out.append(refine(f"C10.extend.{kind}", w, args_of(("requirements", TSet(TReq, kind), True)), _extend_domain_requirements, s.closure))
    C = args_of(lambda it: Requirements)
    for n, f in (("quantified_precondition_requirements", s.quantified), ("adl_requirements", s.adl), ("fluents_requirements", s.fluents)):
        out.append(refine(f"C10.{n}", w, C, getattr(Requirements, n).__func__, f))
    for f in (monotone, idempotent, extensive):
        n = f"C10.{f.__name__}"
        out.append(Ob(n, [qual(_extend_domain_requirements)], lambda f=f, n=n: verify.prove(n, w, f)))
    return out
