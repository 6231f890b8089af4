"""C20: objects report what they were built from."""
import inspect

import z3

from pyvc import verify
from pyvc.obl import *  # noqa
from pyvc.props import c06, c17
from pyvc.props import domain as dom
from pyvc.props.c09 import plain_world
from pyvc.props.domain import Functions, TFun
from pyvc.same import Same
from pyvc.world import *  # noqa
from specs import c20 as s
from specs import domain as sd

consistency = Native(lambda it, a, k: c_consistency(it, a, k), "consistency")


def report(w, label, cls, build, args, props, spec, fns=None):
    """The accessors of a new object give what the contract says."""

    def real(it, a):
        o = owned(it, build(it, a), a)
        return Seq("tuple", [E(it.getattr_(o, p)) for p in props])

    return refine(f"C20.report.{label}", w, args, real, spec, fns=fns or [cls.__init__] + [getattr(cls, p) for p in props], anyexc=True)


def new(cls):
    return lambda it, a: it.type_call(cls, list(a), {})


def tags(kind):
    if kind == "none":
        return lambda it: None
    ty = {"set": TSet(TStr, "set"), "frozenset": TSet(TStr), "list": TSeq(TStr, "list"), "tuple": TSeq(TStr)}[kind]
    return ("type_tags", ty, True)


def vars_(kind):
    if kind == "none":
        return lambda it: None
    ty = {"set": TSet(TVar, "set"), "frozenset": TSet(TVar), "list": TSeq(TVar, "list"), "tuple": TSeq(TVar)}[kind]
    return ("variables", ty, True)


KINDS = ("none", "set", "frozenset", "list", "tuple")


def obligations():
    w = base_world()
    out = []
    out.append(report(w, "Constant", lt.Constant, new(lt.Constant), args_of(("name", TStr), ("type_tag", TOpt(TStr))),
                      ("name", "type_tag", "type_tags"), s.constant))
    for k in KINDS:
        out.append(report(w, f"Variable.{k}", lt.Variable, new(lt.Variable), args_of(("name", TStr), tags(k)), ("name", "type_tags"), s.variable))
        out.append(report(w, f"Variable.with_type_tags.{k}", lt.Variable,
                          lambda it, a: it.call(it.getattr_(a[0], "with_type_tags"), [a[1]], {}),
                          args_of(("v", TVar), tags(k)), ("name", "type_tags"), s.with_type_tags))
    many = lambda ty, nm="terms": (nm, TSeq(ty))  # noqa
    star = lambda cls: lambda it, a: it.type_call(cls, [a[0], ("*", a[1])], {})  # noqa
    out.append(report(w, "Predicate", lp.Predicate, star(lp.Predicate), args_of(("name", TStr), many(TTerm)),
                      ("name", "terms", "arity"), s.predicate(consistency)))
    out.append(report(w, "NumericFunction", lf.NumericFunction, star(lf.NumericFunction), args_of(("name", TStr), many(TTerm)),
                      ("name", "terms", "arity"), s.function))
    out.append(report(w, "EqualTo", lp.EqualTo, new(lp.EqualTo), args_of(("left", TTerm), ("right", TTerm)), ("left", "right"), s.equal_to(consistency)))
    out.append(report(w, "DerivedPredicate", lp.DerivedPredicate, new(lp.DerivedPredicate),
                      args_of(("p", TCls(lp.Predicate)), ("c", TForm)), ("predicate", "condition"), s.same))
    out.append(report(w, "When", le.When, new(le.When), args_of(("c", TForm), ("e", TForm)), ("condition", "effect"), s.same))
    out.append(report(w, "Not", lb.Not, new(lb.Not), args_of(("a", TForm)), ("argument",), s.same))
    out.append(report(w, "NumericValue", lf.NumericValue, new(lf.NumericValue), args_of(("v", TNum)), ("value",), s.same))
    for k in KINDS:
        for c in QUANT:
            out.append(report(w, f"{c.__name__}.{k}", c, new(c), args_of(("cond", TForm), vars_(k)), ("condition", "variables"), s.quantified))
        out.append(report(w, f"Forall.{k}", le.Forall, new(le.Forall), args_of(("e", TForm), vars_(k)), ("effect", "variables"), s.quantified))
    out.append(report(w, "Metric", lf.Metric, new(lf.Metric), args_of(("e", TForm), ("optimization", TStr)), ("expression", "optimization"), s.metric))
    for k, ty in (("list", TSeq(TTerm, "list")), ("tuple", TSeq(TTerm))):
        out.append(report(w, f"Action.{k}", Action, new(Action),
                          args_of(("name", TStr), ("parameters", ty, True), ("pre", TOpt(TForm)), ("eff", TOpt(TForm))),
                          ("name", "parameters", "terms", "precondition", "effect"), s.action))
    for c in BINFUN + CONN:
        ety = TForm
        if c in SIMPLIFYING:
            continue
        out.append(report(w, f"{c.__name__}", c, lambda it, a, c=c: it.construct(c, [("*", a[0])], {}), args_of(("ops", TSeq(ety))), ("operands",), s.same))
    w = plain_world()
    out.append(refine("C20.consistency", w, args_of(("terms", TSeq(TTerm))), lp._check_terms_consistency, s.consistent, seconds=240))
    for k in KINDS:
        out.append(refine(f"C20.check_no_duplicates.{k}", w, args_of(tags(k)), hb.check_no_duplicates, s.nodup_))
    from pyvc.props import c20_core

    return out + frame_obligations() + core_obligations() + c20_core.obligations()


# ---------------------------------------------------------------- no operation changes an object
KIND_CLS = tuple(CONN + (lb.Not,) + QUANT + ATOMS + EFFECTS + BINFUN + (lf.NumericFunction, lf.NumericValue, lf.Metric) + TERMS + (Action,))
OPS = ("__str__", "__repr__", "__hash__", "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__invert__", "__and__", "__or__",
       "__rshift__", "instantiate")
UNARY = ("__str__", "__repr__", "__hash__", "__invert__")


def real_op(cls, op):
    """The method Python would call, if it is the library's."""
    for c in cls.__mro__:
        if op in c.__dict__:
            f = c.__dict__[op]
            return f if inspect.isfunction(f) and c.__module__.startswith("pddl") else None
    return None


def frame_ob(w, cls, op):
    """The operation writes to nothing but memo fields."""
    other = TForm if op in ("__and__", "__or__", "__rshift__") else TCls(*KIND_CLS)

    def body(it):
        x = it.mk(z3.Const("x", V), TCls(cls))
        args = [x]
        if op == "instantiate":
            if cls is Action:
                a = it.mk(z3.Const("m", V), TSeq(TTerm, "list"))
            else:
                a = it.mk(z3.Const("m", V), TMap(TVar, TTerm))
            a.input = True
            args.append(a)
        elif op not in UNARY:
            args.append(it.mk(z3.Const("y", V), other))
        mark = len(it.ctx.writes)
        try:
            it.call_function(getattr(cls, op), args, {})
        except PyRaise:
            pass
        bad = [k for _, k in it.ctx.writes[mark:] if k not in it.w.memo_fields]
        if bad:
            Same(it).differ(f"frame: write to {bad}")
        return "unchanged"

    n = f"C20.frame.{cls.__module__.split('.')[-1]}.{cls.__name__}.{op.strip('_')}"
    return Ob(n, [qual(getattr(cls, op))], lambda: verify.prove(n, w, body))


def any_order(it, op, a, x):
    """Comparing components says something, or raises (their own frames: these obligations)."""
    return opaque_call(it, "compare" + op, [a, x], TBool, raises=TypeError)


def frame_obligations():
    w = base_world()
    w.lt_contract = any_order
    w.seq_rank = c06.seq_rank  # a total order of sequences (C06)
    out = []
    for cls in KIND_CLS:
        for op in OPS:
            if real_op(cls, op) is not None:
                out.append(frame_ob(w, cls, op))
    return out


def core_obligations():
    out = []
    for k in KINDS:
        out.append(dom.domain_obligation(f"C20.report.Domain.{k}", k))
    for ob in c17.report_obligations("C20.report.Problem"):
        out.append(ob)
    w = base_world()
    out.append(report(w, "Plan", Plan, new(Plan), args_of(("actions", TSeq(TStep, "list"), True)), ("actions",), s.same))
    w = with_closure(base_world())
    out.append(refine("C20.report.Functions", w, args_of(("functions", TMap(TFun, TOpt(TName)), True), ("requirements", TSet(TReq, "set"), True)),
                      lambda it, a: it.getattr_(owned(it, it.type_call(Functions, list(a), {}), a), "raw"), sd.functions, fns=[Functions]))
    return out
