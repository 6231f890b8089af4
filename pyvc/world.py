"""The contracts of /repo's package: constructor shapes, callee contracts."""
import z3

from pyvc import boot  # noqa: F401
import pddl  # noqa: F401
import pddl.action
import pddl.core
import pddl.custom_types as ct
import pddl.helpers.base as hb
import pddl.logic.base as lb
import pddl.logic.effects as le
import pddl.logic.functions as lf
import pddl.logic.predicates as lp
import pddl.logic.terms as lt
from pddl.action import Action
from pddl.requirements import Requirements
from pyvc import builtins_ as b
from pyvc import reify
from pyvc.interp import World
from pyvc.values import *  # noqa

TERMS = (lt.Constant, lt.Variable)
COMPARE = (lf.EqualTo, lf.LesserThan, lf.LesserEqualThan, lf.GreaterThan, lf.GreaterEqualThan)
UPDATES = (lf.Assign, lf.ScaleUp, lf.ScaleDown, lf.Increase, lf.Decrease)
ARITH = (lf.Minus, lf.Plus, lf.Times, lf.Divide)
BINFUN = COMPARE + UPDATES + ARITH
NUMERIC = (lf.NumericFunction, lf.NumericValue) + ARITH
CONN = (lb.And, lb.Or, lb.OneOf, lb.Imply)
QUANT = (lb.ForallCondition, lb.ExistsCondition)
ATOMS = (lp.Predicate, lp.EqualTo, lp.DerivedPredicate)
EFFECTS = (le.When, le.Forall)
FORMULAS = CONN + (lb.Not,) + QUANT + ATOMS + EFFECTS + (lf.NumericFunction, lf.NumericValue, lf.Metric) + BINFUN
SIMPLIFYING = (lb.And, lb.Or, lf.Plus, lf.Times)

TTerm = TCls(*TERMS)
TVar = TCls(lt.Variable)
TConstant = TCls(lt.Constant)
TForm = TCls(*FORMULAS)
TReq = TEnum(Requirements)


def opaque_call(it, name, args, ret, raises=None):
    """A callee known by its contract only: a function of its arguments, that may raise.

    raises: None (never), True (any exception), or an exception class.
    """
    ts = [it.to_v(a) for a in args]
    it.w.used.add(name)
    if raises is not None:
        c = F(f"raises.{name}", *([V] * len(ts)), B)(*ts)
        if it.ctx.branch(c):
            if raises is True:
                raise PyRaise(None, (), F(f"exc.{name}", *([V] * len(ts)), V)(*ts))
            raise PyRaise(raises, ())
    if ret is None:
        return None
    t = F(name, *([V] * len(ts)), V)(*ts)
    return it.mk_lazy(t, ret)


def star_args(args):
    """Positional arguments as one tuple value."""
    segs = []
    for a in args:
        if isinstance(a, tuple) and len(a) == 2 and a[0] == "*":
            segs.extend(a[1].segs)
        else:
            segs.append(E(a))
    return Seq("tuple", segs)


def c_parse(kind):
    """parse_name / parse_type / parse_function: accepted names are returned unchanged (C09)."""

    from pddl.exceptions import PDDLValidationError

    def h(it, args, kw):
        v = args[0] if args else next(iter(kw.values()))
        it.w.used.add("parse_" + kind)
        if isinstance(v, b.Uni):
            v = v.force(it)
        if isinstance(v, Sym) and v.ty.kind == "str" and v.ty.a:
            return v
        if not b.is_strv(v):
            raise PyRaise(TypeError)
        if isinstance(v, str):
            err = None
            try:
                r = str(getattr(ct, "parse_" + kind)(v))
            except Exception as e:  # noqa
                err = type(e)
            t = it.lit(v)
            it.ctx.once(("ok", kind, v), reify.keep(z3.And(F(f"ok.{kind}", V, B)(t) == (err is None),
                                                           F(f"kw.{kind}", V, B)(t) == (err is not None and issubclass(err, PDDLValidationError)))))
            if err is not None:
                raise PyRaise(err)
            return r
        t = it.to_v(v)
        i = it.ctx.choose([F(f"ok.{kind}", V, B)(t), z3.And(z3.Not(F(f"ok.{kind}", V, B)(t)), F(f"kw.{kind}", V, B)(t)),
                           z3.And(z3.Not(F(f"ok.{kind}", V, B)(t)), z3.Not(F(f"kw.{kind}", V, B)(t)))])
        if i == 1:
            raise PyRaise(PDDLValidationError)
        if i == 2:
            raise PyRaise(ValueError)
        return it.mk(t, TName)

    return h


def c_consistency(it, args, kw):
    """_check_terms_consistency: raises ValueError exactly if the terms are inconsistent (C20 obligation)."""
    sq = b.to_seq(it, args[0])
    t = it.to_v(Seq("tuple", sq.segs))
    it.w.used.add("_check_terms_consistency")
    if not it.ctx.branch(F("consistent", V, B)(t)):
        raise PyRaise(ValueError)
    return None


def v_instantiate(it, v):
    """formula.instantiate(mapping): an unknown function of both (each class is verified on its own)."""

    def call(it2, args, kw):
        m = args[0] if args else kw["mapping"]
        cs = it2.classes_of(v)
        ret = TCls(*cs) if len(cs) == 1 and not (set(cs) & set(SIMPLIFYING)) else TForm
        return opaque_call(it2, "instantiate", [v, m], ret, raises=True)

    return b.Native(call, "instantiate")


def v_str(it, v):
    """str() of a library object: a text that depends on the object only (C14, C15)."""

    def call(it2, args, kw):
        it2.w.used.add("__str__")
        return it2.mk(F("str", V, V)(it2.to_v(v)), TStr)

    return b.Native(call, "__str__")


def c_mk(cls):
    """Construction of a simplifying node (And, Or, Plus, Times): its own obligations are C03 and C04."""

    def h(it, args, kw):
        if kw:
            raise PyRaise(TypeError)
        return opaque_call(it, "mk." + cls.__name__, [star_args(args)], TForm)

    return h


def eq_by_canon(it, a, x):
    """== between library objects: sameness of canonical representatives (C05)."""
    it.w.used.add("__eq__")
    ca, cb = it.classes_of(a), it.classes_of(x)
    if not (ca & cb):
        return False
    s, t = it.to_v(a), it.to_v(x)
    if s.eq(t):
        return True
    for u in (s, t):
        c = reify.keep(canon(u))
        it.ctx.once(("canoncls", c.get_id()), clsof(c) == clsof(u))
    return canon(s) == canon(t)


def hash_by_canon(it, v):
    """hash of library objects: a function of the canonical representative (C05)."""
    it.w.used.add("__hash__")
    return b.hfun(it)(canon(it.to_v(v)))


SHAPES = {
    lt.Constant: dict(key="Constant", pos=[("name", TName), ("type_tag", TOpt(TName))]),
    lt.Variable: dict(key="Variable", pos=[("name", TName), ("type_tags", TSet(TName))]),
    lb.BinaryOp: dict(key="BinaryOp", pos=[], var=("operands", TForm)),
    lb.UnaryOp: dict(key="UnaryOp", pos=[("arg", TForm)]),
    lb.QuantifiedCondition: dict(key="Quant", pos=[("cond", TForm), ("variables", TSet(TVar))]),
    lp.Predicate: dict(key="Predicate", pos=[("name", TName)], var=("terms", TTerm)),
    lp.EqualTo: dict(key="EqualTo", pos=[("left", TTerm), ("right", TTerm)]),
    lp.DerivedPredicate: dict(key="Derived", pos=[("predicate", TCls(lp.Predicate)), ("condition", TForm)]),
    le.When: dict(key="When", pos=[("condition", TForm), ("effect", TForm)]),
    le.Forall: dict(key="Forall", pos=[("effect", TForm), ("variables", TSet(TVar))]),
    lf.NumericFunction: dict(key="NumericFunction", pos=[("name", TName)], var=("terms", TTerm)),
    lf.NumericValue: dict(key="NumericValue", pos=[("value", TNum)]),
    lf.BinaryFunction: dict(key="BinaryFunction", pos=[], var=("operands", TForm)),
    lf.Metric: dict(key="Metric", pos=[("expression", TForm), ("optimization", TStr)]),
    Action: dict(key="Action", pos=[("name", TName), ("parameters", TSeq(TVar)), ("precondition", TOpt(TForm)), ("effect", TOpt(TForm))]),
}


def base_world():
    """Contracts used at call sites everywhere."""
    w = World()
    w.name_class = ct.name
    w.ctor_types = dict(SHAPES)
    for k in ("name", "type", "function"):
        w.fn_contracts[getattr(ct, "parse_" + k).__code__] = c_parse(k)
    w.fn_contracts[lp._check_terms_consistency.__code__] = c_consistency
    w.virtual["instantiate"] = [(frozenset(FORMULAS), v_instantiate)]
    for c in SIMPLIFYING:
        w.class_contracts[c] = c_mk(c)
    w.virtual["__str__"] = [(frozenset(FORMULAS + TERMS + (Action,)), v_str)]
    w.eq_contract = eq_by_canon
    w.hash_contract = hash_by_canon
    return w


from pddl.core import Domain, Plan, Problem  # noqa: E402

def c_closure(it, args, kw):
    """_extend_domain_requirements: by contract (C10)."""
    x = args[0] if args else next(iter(kw.values()))
    it.w.used.add("_extend_domain_requirements")
    t = it.to_v(b.mkset("frozenset", b.to_seq(it, x).segs if not isinstance(x, (set, frozenset)) else tuple(E(y) for y in x)))
    return it.mk(F("closure", V, V)(t), TSet(TReq, "set"))


def with_closure(w):
    from pddl.requirements import _extend_domain_requirements
    from specs import c10

    w.fn_contracts[_extend_domain_requirements.__code__] = c_closure
    w.fn_contracts[c10.closure.__code__] = c_closure
    return w


TStep = TTup(TStr, TSeq(TTerm, "list"))


def v_action_instantiate(it, v):
    def call(it2, args, kw):
        m = args[0] if args else kw["mapping"]
        return opaque_call(it2, "Action.instantiate", [v, m], TCls(Action), raises=True)

    return b.Native(call, "instantiate")


def component(key, ty):
    """Contract of a read-only property of a class: an opaque component (its constructor contract is in C20)."""

    def h(it, v):
        it.w.used.add(key)
        return it.mk_lazy(F(key, V, V)(v.t), ty)

    return h


def virt(w, cls, name, h):
    w.virtual.setdefault(name, []).insert(0, (frozenset([cls]), h))


def plan_world(w):
    w.ctor_types[Plan] = dict(key="Plan", pos=[("actions", TSeq(TStep, "list"))])
    virt(w, Domain, "actions", component("Domain.actions", TSet(TCls(Action))))
    virt(w, Domain, "constants", component("Domain.constants", TSet(TConstant)))
    virt(w, Problem, "objects", component("Problem.objects", TSet(TConstant)))
    virt(w, Action, "instantiate", v_action_instantiate)
