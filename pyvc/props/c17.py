"""C17: building a problem and checking it against a domain."""
import z3

from pyvc import boot  # noqa: F401
from pddl._validation import Types
from pyvc.obl import *  # noqa
from pyvc.props import c08
from pyvc.props.domain import KINDS, coll, domain_world
from pyvc.world import *  # noqa
from specs import c17 as s

PROPS = ("name", "domain_name", "requirements", "objects", "init", "goal", "metric")
TDom = TCls(Domain)


def of_domain(it, d):
    """The types of an accepted domain (unchecked: they have been accepted before)."""
    it.w.used.add("Types")
    return it.mk(F("Types.unchecked", V, V)(it.to_v(d)), c08.TTypes)


def problem_world():
    w = domain_world()
    checked = w.class_contracts[Types]

    def types(it, args, kw):
        kw = dict(kw)
        skip = kw.pop("skip_checks", args[2] if len(args) > 2 else False)
        if it.truth(skip):
            return of_domain(it, args[0] if args else kw.get("types"))
        return checked(it, args[:2], kw)

    w.class_contracts[Types] = types
    virt(w, Domain, "name", component("Domain.name", TName))
    virt(w, Domain, "requirements", component("Domain.requirements", TSet(TReq)))
    virt(w, Domain, "types", component("Domain.types", TMap(TName, TOpt(TName))))
    return w


def obligations():
    return [refine("C17.is_literal", base_world(), args_of(("f", TForm)), lb.is_literal, s.is_literal)] + report_obligations("C17")


def report_obligations(prefix):
    """Building, checking and assigning a domain (C20: only what a problem reports)."""
    w = problem_world()
    report, check, assign = s.problem(Native(lambda it, a, k: of_domain(it, *a), "types"), c08.SPEC_CHECK)
    out = []
    none = lambda it: None  # noqa

    def get(it, o, p):
        v = it.getattr_(o, p)
        if p in ("requirements", "objects", "init") and isinstance(v, SetV):
            v = b.mkset("frozenset", b.to_seq(it, v).segs)  # which kind of set is not specified
        return v

    tup = lambda it, o, ps: Seq("tuple", [E(get(it, o, p)) for p in ps])  # noqa

    def r_new(it, a):
        return tup(it, owned(it, it.construct(Problem, list(a), {}), a), PROPS)

    def r_check(it, a):
        return it.call(it.getattr_(it.construct(Problem, list(a[1:]), {}), "check"), [a[0]], {})

    def r_assign(it, a):
        o = it.construct(Problem, list(a[1:]), {})
        it.setattr_(o, "domain", a[0])
        return tup(it, o, PROPS + ("domain",))

    fns = [Problem.__init__, Problem.check, Problem.domain.fset] + [getattr(Problem, p) for p in PROPS]
    for dk in ("name", "domain", "both", "none"):
        for k in KINDS:
            args = [
                ("name", TStr), ("domain", TDom) if dk in ("domain", "both") else none, ("domain_name", TStr) if dk in ("name", "both") else none,
                coll(k, "requirements", TReq), coll(k, "objects", TConstant), coll(k, "init", TForm),
                none if k == "none" else ("goal", TForm), none if k == "none" else ("metric", TCls(lf.Metric))]
            out.append(refine(f"{prefix}.problem.{dk}.{k}" if prefix == "C17" else f"{prefix}.{dk}.{k}", w, args_of(*args), r_new, report, fns=fns, anyexc=True))
            if prefix == "C17" and k in ("none", "set") and dk != "none":
                dom2 = ("domain2", TDom)
                if dk == "name":
                    # nothing but the check itself can fail: it gives a validation error
                    args[0], args[2] = ("name", TName), ("domain_name", TName)
                out.append(refine(f"C17.check.{dk}.{k}", w, args_of(dom2, *args), r_check, check, fns=fns, anyexc=dk != "name"))
                out.append(refine(f"C17.assign.{dk}.{k}", w, args_of(dom2, *args), r_assign, assign, fns=fns, anyexc=dk != "name"))
    return out
