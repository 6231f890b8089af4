"""C20: no printing, comparison, check or instantiation changes a domain, problem or plan, or the collections it was built from.

The object is what the real constructor makes of arbitrary arguments that it accepts; what it reports, and what the collections
passed in contain, is compared before and after the operation, also if that raises.
"""
import z3

from pyvc import boot  # noqa: F401
from pyvc import verify
from pyvc.obl import *  # noqa
from pyvc.props import c05, c15, c15_texts, c17
from pyvc.props import domain as dom
from pyvc.same import Same
from pyvc.world import *  # noqa
from pddl._validation import Functions, Types
from pddl import formatter as fm

PROPS = {Domain: dom.PROPS, Problem: c17.PROPS + ("domain",), Plan: ("actions",)}
OPS = {Domain: ("__str__", "__repr__", "__eq__", "__ne__"), Problem: ("__str__", "__repr__", "__eq__", "__ne__", "check"),
       Plan: ("__str__", "__repr__", "__eq__", "__ne__", "check", "instantiate")}


def printing_world():
    """The contracts of sections (C15) and those of building domains and problems (C08, C17)."""
    w, pw = c15_texts.world(), c17.problem_world()
    for c in (Types, Functions):
        w.class_contracts[c] = pw.class_contracts[c]
    for k, h in pw.class_contracts.items():
        w.class_contracts.setdefault(k, h)
    w.memo_fields = w.memo_fields | pw.memo_fields
    for k, h in pw.methods.items():
        w.methods.setdefault(k, h)
    for k, h in pw.fn_contracts.items():
        w.fn_contracts.setdefault(k, h)
    for attr, hs in pw.virtual.items():
        w.virtual.setdefault(attr, []).extend(hs)
    for k, v in pw.ctor_types.items():
        w.ctor_types.setdefault(k, v)
    return w


def checking_world():
    w = c17.problem_world()
    plan_world(w)
    return w


def snap(it, vs):
    return [it.freeze(v) for v in vs]


def report(it, x, p):
    try:
        return it.getattr_(x, p)
    except PyRaise:
        return None


def frame_ob(w, cls, op, dk):
    def body(it):
        o, args = c05.built(it, "x", cls, dk)
        more = []
        if op in ("__eq__", "__ne__"):
            more = [c05.built(it, "y", cls, dk)[0]]
        elif op in ("check", "instantiate"):
            more = [it.mk(z3.Const("domain", V), c17.TDom)] + [it.mk(z3.Const("problem", V), TCls(Problem))] * (cls is Plan and op == "check")
        for a in args:
            if isinstance(a, (Seq, SetV, DictV)):
                a.input = True
        say = lambda: [report(it, x, p) for x in [o] + [y for y in more if isinstance(y, Obj)] for p in PROPS[cls]]  # noqa
        before, given = snap(it, say()), snap(it, args)
        mark = len(it.ctx.writes)
        try:
            it.call(it.getattr_(o, op), more, {})
        except PyRaise:
            pass
        for p, x, y in zip(PROPS[cls] * 2, before, say()):
            Same(it).same(y, x, f"{p} is not what it was")
        for x, y in zip(given, args):
            Same(it).same(y, x, "a collection passed in is not what it was")
        bad = [k for _, k in it.ctx.writes[mark:] if k not in it.w.memo_fields]
        if bad:
            Same(it).differ(f"frame: write to {bad}")
        return "unchanged"

    n = f"C20.frame.core.{cls.__name__}.{op.strip('_')}" + (f".{dk}" if cls is Problem else "")
    return Ob(n, [qual(getattr(cls, op))], lambda: verify.prove(n, w, body, seconds=200.0), 200)


def section_ob(name, fn, make):
    """Printing a section changes nothing that is printed."""

    def body(it):
        arg, txt, empty = make(it)
        arg.input = True
        before = it.freeze(arg)
        mark = len(it.ctx.writes)
        try:
            txt()
        except PyRaise:
            pass
        Same(it).same(arg, before, "what is printed is not what it was")
        bad = [k for _, k in it.ctx.writes[mark:] if k not in it.w.memo_fields]
        if bad:
            Same(it).differ(f"frame: write to {bad}")
        return "unchanged"

    n = f"C20.frame.formatter.{name}"
    w = c15.world()
    if name == "types":
        w.group_facts = c15.types_before
    return Ob(n, [qual(fn)], lambda: verify.prove(n, w, body, seconds=90.0), 90)


def obligations():
    import inspect

    out = []
    pw, cw = printing_world(), checking_world()
    for cls, ops in OPS.items():
        for op in ops:
            f = getattr(cls, op)
            if not inspect.isfunction(f):
                continue  # object's own
            for dk in ("name", "domain") if cls is Problem else ("name",):
                out.append(frame_ob(pw if op in ("__str__", "__repr__") else cw, cls, op, dk))
    for name, fn, make in (("constants", fm.print_constants, c15.constants_make("(:constants")), ("functions", fm.print_types_or_functions_with_parents, c15.functions_make),
                           ("types", fm.print_types_or_functions_with_parents, c15.types_make), ("predicates", fm.print_predicates_with_types, c15.predicates_make)):
        out.append(section_ob(name, fn, make))
    return out
