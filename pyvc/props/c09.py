"""C09: which names are accepted."""
from pyvc.obl import *  # noqa
from pyvc.world import *  # noqa
from specs import c09 as s


def plain_world():
    w = base_world()
    for k in ("name", "type", "function"):
        c = getattr(ct, "parse_" + k).__code__
        w.inside[c] = w.fn_contracts.pop(c)
    c = lp._check_terms_consistency.__code__
    w.inside[c] = w.fn_contracts.pop(c)
    return w


def obligations():
    out = []
    w = plain_world()
    for k in ("name", "type", "function"):
        real, spec = getattr(ct, "parse_" + k), getattr(s, "parse_" + k)
        out.append(refine(f"C09.parse_{k}.str", w, args_of(("s", TStr)), real, spec))
        out.append(refine(f"C09.parse_{k}.name", w, args_of(("s", TName)), real, spec))
    none = lambda it: {}  # noqa
    for c in (lt.Constant, lt.Variable, lp.Predicate, Action, Domain):
        kw = (lambda it: dict(parameters=Seq("tuple", ()))) if c is Action else none
        out.append(named(w, c.__name__, c, kw, "name", s.parse_name))
    out.append(named(w, "NumericFunction", lf.NumericFunction, none, "name", s.parse_function))
    out.append(named(w, "Problem", Problem, lambda it: dict(domain_name="d"), "name", s.parse_name))
    out.append(named(w, "Problem.domain", Problem, lambda it: dict(name="p"), "domain_name", s.parse_name))
    return out


def named(w, label, cls, kw, prop, spec):
    """The class's constructor takes its name through the contract; the name is reported unchanged."""
    def real(it, a):
        return it.getattr_(it.construct(cls, *((([a[0]], kw(it))) if prop == 'name' else ([], dict(kw(it), **{prop: a[0]})))), prop)

    return refine(f"C09.name.{label}", w, args_of(("s", TStr)), real, spec, fns=[cls.__init__, getattr(cls, prop)])
