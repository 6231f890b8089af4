"""Building a domain: which are rejected, and what an accepted one reports (C07, C08, C20)."""
import z3

from pyvc import boot  # noqa: F401
import pddl._validation as val
from pddl._validation import Functions, TypeChecker, Types
from pyvc.obl import *  # noqa
from pyvc.props import c08
from pyvc.world import *  # noqa
from specs import domain as s

TFun = TCls(lf.NumericFunction)
KINDS = ("none", "set", "frozenset", "list", "tuple")
PROPS = ("name", "requirements", "types", "constants", "predicates", "functions", "derived_predicates", "actions")


def frozen(it, x):
    return it.to_v(b.mkset("frozenset", b.to_seq(it, x).segs)) if x is not None else it.to_v(b.mkset("frozenset", ()))


def types_contract(it, types, reqs=None):
    """Types(types, requirements): a function of both; C07 says when it raises and what it reports."""
    from pddl.exceptions import PDDLValidationError

    it.w.used.add("Types")
    ts = [it.to_v(types), frozen(it, reqs)]
    d, r = ts
    if z3.is_app(d) and d.decl().name() == "Domain.types" and z3.is_app(r) and r.decl().name() == "Domain.requirements" and d.arg(0).eq(r.arg(0)):
        # the types of a domain have been accepted (C08.domain.*)
        it.ctx.assume(z3.Not(F("raises.Types", V, V, B)(*ts)))
    if it.ctx.branch(F("raises.Types", V, V, B)(*ts)):
        raise PyRaise(PDDLValidationError if it.ctx.branch(F("invalid.Types", V, V, B)(*ts)) else ValueError)
    return it.mk(F("Types", V, V, V)(*ts), c08.TTypes)


TFuns = TCls(Functions)


def functions_contract(it, funs, reqs=None):
    """Functions(functions, requirements): obligations C08.functions.*; its raw dict is the one given."""
    from pddl.exceptions import PDDLValidationError

    it.w.used.add("Functions")
    ts = [it.to_v(funs), frozen(it, reqs)]
    if it.ctx.branch(F("raises.Functions", V, V, B)(*ts)):
        raise PyRaise(PDDLValidationError)
    return it.mk(F("Functions", V, V, V)(*ts), TFuns)


def c_inconsistent(it, args, kw):
    """_find_inconsistencies_in_typed_terms: None iff no term has an unavailable type; then the owner passes check_type."""
    terms, all_types = args
    it.w.used.add("_find_inconsistencies_in_typed_terms")
    if isinstance(terms, b.Uni):
        terms = terms.force(it)
    p = F("badterms", V, V, B)(it.to_v(terms), it.to_v(all_types))
    sg = terms.segs[0] if isinstance(terms, Seq) and len(terms.segs) == 1 else None
    t = terms.t if isinstance(terms, Sym) else sg.t if isinstance(sg, S) else None
    if t is not None and z3.is_app(t) and t.num_args() == 1 and t.decl().name() in ("Action.parameters", "Predicate.terms"):
        owner = t.arg(0)
        chain = [owner]
        if z3.is_app(owner) and owner.num_args() == 1 and owner.decl().name() == "Derived.predicate":
            chain.append(owner.arg(0))
        for types, reqs, _ in it.__dict__.get("known_args", {}).values():
            if it.to_v(it.getattr_(types, "all_types")).eq(it.to_v(all_types)):
                for o in chain:
                    # obligations C08.terms.*, C08.check_type.DerivedPredicate
                    it.ctx.assume(z3.Implies(p, F("badtypes", V, V, V, B)(it.to_v(it.getattr_(types, "all_types")), frozen(it, reqs), o)))
    if it.ctx.branch(p):
        return Seq("tuple", [E(it.mk(F("bad.term", V, V)(it.to_v(terms)), TTerm)), E(it.mk(F("bad.tag", V, V)(it.to_v(terms)), TName))])
    return None


def all_types(it, v):
    """The available types depend on the dictionary only (obligations C07.types.*)."""
    it.w.used.add("Types.all_types")
    t = v.t
    if z3.is_app(t) and t.decl().name() in ("Types", "Types.unchecked"):
        t = F("alltypes", V, V)(t.arg(0))
    else:
        t = F("Types.all_types", V, V)(t)
    return it.mk_lazy(t, TSet(TName, "set"))


def domain_world():
    w = c08.checker_world()
    virt(w, Types, "all_types", all_types)
    w.class_contracts[Types] = lambda it, args, kw: types_contract(it, *(list(args) + [kw[k] for k in ("types", "requirements") if k in kw]))
    w.class_contracts[Functions] = lambda it, args, kw: functions_contract(it, *(list(args) + [kw[k] for k in ("functions", "requirements") if k in kw]))
    virt(w, Functions, "raw", component("Functions.raw", TMap(TFun, TOpt(TName))))
    w.fn_contracts[val._find_inconsistencies_in_typed_terms.__code__] = c_inconsistent
    return w


TYPES = Native(lambda it, a, k: types_contract(it, *a), "Types")
FUNCTIONS = Native(lambda it, a, k: functions_contract(it, *a), "Functions")


def build(props):
    def real(it, a):
        o = owned(it, it.type_call(Domain, list(a), {}), a)
        return Seq("tuple", [E(it.getattr_(o, p)) for p in props])

    return real


def coll(kind, name, ety):
    if kind == "none":
        return lambda it: None
    return (name, {"set": TSet(ety, "set"), "frozenset": TSet(ety), "list": TSeq(ety, "list"), "tuple": TSeq(ety)}[kind], True)


def domain_obligation(name, kind):
    w = domain_world()
    none = lambda it: None  # noqa
    args = [("name", TStr), coll(kind, "requirements", TReq), none if kind == "none" else ("types", TMap(TStr, TOpt(TStr)), True)]
    for n, t in (("constants", TConstant), ("predicates", TCls(lp.Predicate)), ("derived", TCls(lp.DerivedPredicate))):
        args.append(coll(kind, n, t))
    args.append(none if kind == "none" else ("functions", TMap(TFun, TOpt(TName)), True))
    args.append(coll(kind, "actions", TCls(Action)))
    return refine(name, w, args_of(*args), build(PROPS), s.domain(TYPES, FUNCTIONS, c08.SPEC_CHECK), fns=[Domain.__init__] + [getattr(Domain, p) for p in PROPS], anyexc=True, seconds=240)


def functions_obligations(prefix):
    w = with_closure(base_world())
    out = []
    for k, ty in (("none", None), ("dict", TMap(TFun, TOpt(TName)))):
        f = (lambda it: None) if ty is None else ("functions", ty, True)
        for rk in KINDS:
            out.append(refine(f"{prefix}.{k}.{rk}", w, args_of(f, coll(rk, "requirements", TReq)),
                              lambda it, a: it.getattr_(owned(it, it.type_call(Functions, list(a), {}), a), "raw"), s.functions, fns=[Functions]))
    return out


def terms_obligations(prefix):
    """An action or predicate that passes check_type has no term that _find_inconsistencies_in_typed_terms reports."""
    out = []
    for cls in (Action, lp.Predicate):
        w = c08.checker_world()
        w.methods[(TypeChecker, "check_type")] = lambda it, v, a, args, kw: c08.checker_contract(it, v, a, args, kw, frozenset(FORMULAS))

        def body(it, cls=cls):
            types, reqs = it.mk(z3.Const("types", V), c08.TTypes), it.mk(z3.Const("requirements", V), TSet(TReq, "set"))
            x = it.mk(z3.Const("x", V), TCls(cls))
            try:
                c08.entry(None)(it, (types, reqs, x))
            except PyRaise:
                return "rejected"
            r = it.call_function(val._find_inconsistencies_in_typed_terms, [it.getattr_(x, "terms"), it.getattr_(types, "all_types")], {})
            if r is not None:
                from pyvc.same import Same

                Same(it).differ("a term of an accepted object has an unavailable type")
            return "accepted"

        n = f"{prefix}.{cls.__name__}"
        out.append(Ob(n, [qual(val._find_inconsistencies_in_typed_terms), "pddl._validation.TypeChecker.check_type"],
                      lambda n=n, w=w, body=body: __import__("pyvc.verify", fromlist=["x"]).prove(n, w, body)))
    return out
