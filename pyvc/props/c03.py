"""C03: building boolean formulas (and the shared part of C04)."""
import z3

from pyvc import nary
from pyvc.lemma import lemma
from pyvc.obl import *  # noqa
from pyvc.world import *  # noqa
from specs import c03 as s


def raw(cls):
    """The node of a class with the operands given (its constructor: obligations C03/C04.operands)."""

    def h(it, args, kw):
        sq = b.to_seq(it, args[1])
        return it.type_call(args[0], [("*", Seq("tuple", sq.segs))], {})

    return Native(h, "node")


def ops_arg(n, ety):
    """n operands, or any number of them."""
    if n is None:
        return [lambda it: ("*", it.mk(z3.Const("ops", V), TSeq(ety)))]
    return [(f"op{i}", ety) for i in range(n)]


def build_obs(prop, cls, idem, ety):
    """Building a node of a simplifying class."""
    w = base_world()
    for c in SIMPLIFYING:
        w.class_contracts.pop(c, None)
    w.fn_contracts[s.flatten.__code__] = nary.spec_flatten(cls, idem, ety)
    w.while_specs = [nary.while_spec(cls, idem, ety)]
    spec = (s.simplifying if idem else s.flattening)(raw(cls), cls)
    nm = f"{prop}.build.{cls.__name__}"
    real = lambda it, a: it.construct(cls, a, {})  # noqa
    fns = [f"{cls.__module__}.{cls.__name__}", "pddl.logic.base.BinaryOpMetaclass.__call__", "pddl.logic.base._simplify_monotone_op_operands"]
    return [refine(f"{nm}.{k}", w, args_of(*ops_arg(n, ety)), real, spec, fns=fns, soft=True)
            for k, n in (("any", None), ("0", 0), ("1", 1), ("2", 2))]


def keep_obs(prop, cls, ety):
    """A node reports the operands it was given."""
    w = base_world()
    real = lambda it, a: it.getattr_(it.type_call(cls, a, {}), "operands")  # noqa
    spec = lambda it, a: Seq("tuple", a[0][1].segs)  # noqa
    return refine(f"{prop}.operands.{cls.__name__}", w, args_of(*ops_arg(None, ety)), real, spec, fns=[cls.__init__, cls.operands])


def plain_obs(prop, cls, ety):
    """A class that keeps its operands: the constructor called by users is the plain one."""
    w = base_world()
    real = lambda it, a: it.construct(cls, a, {})  # noqa
    return refine(f"{prop}.build.{cls.__name__}", w, args_of(*ops_arg(None, ety)), real, s.keeping(raw(cls), cls), fns=[cls.__init__])


def obligations():
    out = []
    for c in (lb.And, lb.Or):
        out += build_obs("C03", c, True, TForm)
    for c in CONN:
        out.append(keep_obs("C03", c, TForm))
    for c in (lb.OneOf, lb.Imply):
        out.append(plain_obs("C03", c, TForm))
    w = base_world()

    def mk(cls):
        return lambda it, *a: it.construct(cls, list(a), {})

    out.append(refine("C03.argument.Not", w, args_of(("arg", TForm)),
                      lambda it, a: it.getattr_(it.construct(lb.Not, a, {}), "argument"), lambda it, a: a[0],
                      fns=[lb.Not.__init__, lb.Not.argument]))
    F2 = args_of(("f", TCls(*OPERATORS)), ("g", TForm))
    F1 = args_of(("f", TCls(*OPERATORS)))
    un = lambda nm: (lambda it, a: it.call(it.getattr_(a[0], nm), a[1:], {}))  # noqa
    out.append(refine("C03.invert", w, F1, un("__invert__"), lambda it, a: it.construct(lb.Not, a, {}), fns=[lb.Formula.__invert__]))
    out.append(refine("C03.and", w, F2, un("__and__"), lambda it, a: it.construct(lb.And, a, {}), fns=[lb.Formula.__and__]))
    out.append(refine("C03.or", w, F2, un("__or__"), lambda it, a: it.construct(lb.Or, a, {}), fns=[lb.Formula.__or__]))
    out.append(refine("C03.rshift", w, F2, un("__rshift__"),
                      lambda it, a: it.construct(lb.Or, [it.construct(lb.Not, [a[0]], {}), a[1]], {}), fns=[lb.Formula.__rshift__]))
    empty = Native(lambda it, a, k: it.construct(lb.And if a[0] else lb.Or, [], {}), "empty")
    for v in (True, False):
        out.append(refine(f"C03.ensure_formula.{v}", w, args_of(("f", TOpt(TForm)), lambda it, v=v: v), lb.ensure_formula, s.ensure_formula(empty)))
    out += lemmas()
    return out


OPERATORS = tuple(c for c in FORMULAS if issubclass(c, lb.Formula))


def lemmas():
    """All operands of flat(new, stack) are true iff all of new and of the stack are (some, for Or).

    Induction on the number of nodes of the stack; ALL over a sequence is the conjunction over its elements.
    """
    out = []
    for cls, opn in (("And", z3.And), ("Or", z3.Or)):
        ALL = z3.Function("ALL", V, B)
        tr = z3.Function("tr", V, B)
        flat = z3.Function("flat", V, V, V)
        new, st, e, emp, ops, new2, st2, stk, old = (z3.Const(x, V) for x in "new st e empty ops new2 st2 stack old".split())
        unit = z3.BoolVal(cls == "And")
        # properties of ALL (conjunction / disjunction over a finite sequence)
        app = lambda s_, t_, x_: ALL(t_) == opn(ALL(s_), x_)  # noqa
        IH = lambda n, s_: ALL(flat(n, s_)) == opn(ALL(n), ALL(s_))  # noqa
        goal = IH(new, stk)
        hyps = [app(st, stk, tr(e))]
        out.append(lemma(f"C03.lemma.truth.{cls}", [
            ("empty", [ALL(emp) == unit, flat(new, emp) == new], IH(new, emp)),
            ("same kind", hyps + [flat(new, stk) == flat(new, st2), app(st, st2, ALL(ops)), tr(e) == ALL(ops), IH(new, st2)], goal),
            # e equals an element old of new: equal formulas have the same truth value
            ("repeated", hyps + [flat(new, stk) == flat(new, st), tr(e) == tr(old), ALL(new) == opn(ALL(new), tr(old)), IH(new, st)], goal),
            ("other", hyps + [flat(new, stk) == flat(new2, st), app(new, new2, tr(e)), IH(new2, st)], goal),
        ]))
    return out


TRUSTED = ["dict.fromkeys(xs) keeps the first occurrence of each element, in order",
           "equal formulas have the same truth value (C05)"]
ASSUME = ["the flattening loop ends: every step replaces a node by its operands or removes it (finite formulas)"]
