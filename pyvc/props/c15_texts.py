"""C15, whole texts: what is printed for a domain, problem or plan is read back as an equal one.

The texts of parts and sections are used by contract (C14.*, C15.domain.*, C15.plan.*, C15.print_*): atoms "text:RULE"(x), read
as RULE with the value x.  White space between tokens does not matter.
"""
import textwrap

import z3

from pyvc import boot  # noqa: F401
from pddl import formatter as fm
from pyvc import builtins_ as b
from pyvc import grammar as gm
from pyvc import readback as rb
from pyvc import verify
from pyvc.obl import *  # noqa
from pyvc.props import c13, c15
from pyvc.props.c13 import KINDS, VALUES, TOKENS, Run
from pyvc.interp import z3b
from pyvc.same import Same
from pyvc.world import *  # noqa
from specs import c15 as s
from specs import grammar as sg

TSteps = TSeq(TTup(TName, TSeq(TConstant, "list")), "list")
TTypes = TMap(TName, TOpt(TName))
PARTS = {
    Domain: dict(name=TName, requirements=TSet(TReq), types=TTypes, constants=TSet(TConstant), predicates=TSet(TCls(lp.Predicate)),
                 functions=TMap(c13.TFun, TOpt(TName)), derived_predicates=TSet(TCls(lp.DerivedPredicate)), actions=TSet(TCls(Action))),
    Problem: dict(name=TName, domain_name=TName, requirements=TSet(TReq), objects=TSet(TConstant), init=TSet(TForm), goal=TForm, metric=TOpt(TCls(lf.Metric))),
    Plan: dict(actions=TSteps),
}
START = {Domain: "domain", Problem: "problem", Plan: "plan"}
DERIVED = "derived_predicates: ( :derived atomic_formula_skeleton gd )"
KEYS = "token " + sg.KEYS


def atom(it, rule, t):
    return it.mk(F("text:" + rule, V, V)(t), TStr)


def component_term(v):
    if isinstance(v, SetV) and v.expr[0] == "sym":
        return v.expr[1]
    if isinstance(v, DictV) and len(v.entries) == 1 and v.entries[0][0] == "sym":
        return v.entries[0][1]
    raise Unsupported("a collection that is not one of the object's")


# ------------------------------------------------------------ sections, by contract
def c_constants(it, args, kw):
    """print_constants (obligations C15.print_constants, C15.print_objects)."""
    prefix, cs, postfix = args
    if kw or prefix not in ("(:constants", "(:objects") or not (isinstance(postfix, str) and postfix.strip() == ")"):
        raise Unsupported("printing constants")
    it.w.used.add("print_constants")
    if not it.truth(cs):
        return ""
    t = F("typed list", V, V)(component_term(cs))
    return it.norm_str(Str([prefix + " ", atom(it, "typed_list_name", t), postfix]))


def c_typed(it, args, kw):
    """print_types_or_functions_with_parents (obligations C15.print_functions, C15.print_types)."""
    prefix, d, postfix = args[:3]
    to_string = args[3] if len(args) > 3 else kw.get("to_string", str)
    if set(kw) - {"to_string"} or not (isinstance(postfix, str) and postfix.strip() == ")"):
        raise Unsupported("printing types or functions")
    it.w.used.add("print_types_or_functions_with_parents")
    if not it.truth(d):
        return ""
    if prefix == "(:functions" and to_string is fm.print_function_skeleton:
        return it.norm_str(Str([prefix + " ", atom(it, "f_typed_list_atomic_function_skeleton", component_term(d)), postfix]))
    if prefix == "(:types" and to_string is str:
        return it.norm_str(Str([prefix + " ", atom(it, "typed_list_name", F("typed types", V, V)(component_term(d))), postfix]))
    raise Unsupported("printing types or functions")


def c_skeletons(it, args, kw):
    """print_predicates_with_types of one predicate (obligation C15.domain.atomic_formula_skeleton) or of a set."""
    q = b.to_seq(it, args[0])
    if len(q.segs) == 1 and isinstance(q.segs[0], E) and isinstance(args[0], Seq) and not kw:
        it.w.used.add("print_predicates_with_types")
        return atom(it, "atomic_formula_skeleton", it.to_v(q.segs[0].v))
    if isinstance(args[0], SetV) and args[0].expr[0] == "sym" and not kw:
        # obligation C15.print_predicates: each once, in an order that is determined
        it.w.used.add("print_predicates_with_types")
        u = args[0].expr[1]
        ix, o = it.ctx.fresh_ix(), F("sorted", V, V)(u)
        it.ctx.assume(slen(o) == F("card", V, I)(u))
        return Str([Rep(slen(o), ix, [(True, (atom(it, "atomic_formula_skeleton", sat(o, ix)), " "))])])
    f = fm.print_predicates_with_types
    h = it.w.fn_contracts.pop(f.__code__)
    try:
        return it.call_function(f, args, kw)
    finally:
        it.w.fn_contracts[f.__code__] = h


def c_indent(it, args, kw):
    """textwrap.indent adds its prefix to lines."""
    a = dict(zip(("text", "prefix", "predicate"), args), **kw)
    if not (isinstance(a["prefix"], str) and not a["prefix"].strip()):
        raise Unsupported("indent")
    return a["text"]


def c_key(it, args, kw):
    """str(requirement): its key (obligation C15.requirements)."""
    v = args[0]
    if not isinstance(v, Sym):
        return f":{v.value}"
    t = F("key", V, V)(v.t)
    return it.mk(t, TStr)


def requirement(it, args, kw):
    v = args[0]
    if isinstance(v, Sym) and v.t.decl().name() == "slice[1:None]" and z3.is_app(v.t.arg(0)) and v.t.arg(0).decl().name() == "key":
        return it.mk(v.t.arg(0).arg(0), TReq)
    return c13.requirement(it, args, kw)


# ------------------------------------------------------------ what sections say
def c_types_of(it, args, kw):
    """specs.grammar.types_of, of the types of a domain as they are printed."""
    reqs, types = args
    if types is None:
        return None
    d = it.__dict__["whole"]["types"]
    if isinstance(types, DictV):
        t = component_term(types)
        if not (z3.is_app(t) and t.decl().name() == "typed types" and t.arg(0).eq(component_term(d))):
            raise Unsupported("types")
        return it.call_function(s.types_read, [reqs, d], {})
    # without supertypes (an accepted domain without typing has none: C07)
    if len(types.segs) != 1 or not isinstance(types.segs[0], E):
        Same(it).differ("the types")
    names, ty = [e.v for e in types.segs[0].v.segs]
    if ty is not None:
        Same(it).differ("types with a supertype without typing")
    c15.whole(it, names, b.dict_ord(it, component_term(d)), "the types")
    return d


def c_constants_of(it, args, kw):
    """specs.grammar.constants_of, of constants as they are printed."""
    v = args[0]
    if v is None:
        return None
    t = component_term(v)
    if not (z3.is_app(t) and t.decl().name() == "typed list"):
        raise Unsupported("constants")
    return SetV("frozenset", ("sym", t.arg(0), TConstant))


def facts(it, arg, xs):
    """Texts of requirements are keys; actions, conditions, initial literals and the goal are texts that were read (C14)."""
    for x in xs:
        if x[0] != "sym" or not z3.is_app(x[1].t):
            continue
        t = x[1].t
        if t.decl().name() == "key":
            it.ctx.assume(F(KEYS, V, B)(t))
        if t.decl().name() == "Metric.optimization":
            it.ctx.assume(F("token <maximize|minimize>", V, B)(t))
        if t.decl().name() == "str" and z3.is_app(t.arg(0)):
            u = t.arg(0)
            n = u.decl().name()
            if n == "Derived.condition" or u.eq(z3.Const("Problem.goal", V)):
                it.ctx.assume(rb.reads("gd", u))
            if n == "Metric.expression":
                it.ctx.assume(rb.reads("metric_f_exp", u))
            if u.decl().eq(sat) and b.enumerates(u.arg(0)) is not None:
                e = str(b.enumerates(u.arg(0)))
                if e in ("Domain.actions", "Problem.init"):
                    it.ctx.assume(rb.reads({"Domain.actions": "action_def", "Problem.init": "init_el"}[e], u))
    c15.skeleton_facts(it, arg, [x for x in xs if x[0] in ("sym", "rep")])


def part(cls, n, ty):
    """A component of the object that is printed."""
    other = component(f"{cls.__name__}.{n}", ty)
    return lambda it, v: it.__dict__["whole"][n] if "whole" in it.__dict__ else other(it, v)


def world():
    w = c15.world()
    for f, h in ((fm.print_constants, c_constants), (fm.print_types_or_functions_with_parents, c_typed), (fm.print_predicates_with_types, c_skeletons),
                 (textwrap.indent, c_indent), (Requirements.__str__, c_key), (sg.types_of, c_types_of), (sg.constants_of, c_constants_of)):
        w.fn_contracts[f.__code__] = h
    w.class_contracts[Requirements] = requirement
    for cls, parts in PARTS.items():
        for n, ty in parts.items():
            virt(w, cls, n, part(cls, n, ty))
    w.ctor_types[Plan] = dict(key="Plan", pos=[("actions", TSteps)])
    for cls in (lf.Metric, lt.Constant):
        virt(w, cls, "__str__", lambda it, v, cls=cls: it.call_function(cls.__str__, [v], {}))
    return w


def whole_ob(cls):
    kind = START[cls]
    n = f"C15.{kind}"
    g = gm.Grammar()
    parts = PARTS[cls]

    def body(it):
        r = Run(it, g, kind, [])
        bd = rb.ReadBuilder(it, g, r.o, VALUES, TOKENS)
        o = it.mk(z3.Const(kind, V), TCls(cls))
        name = lambda k: F("Plan.actions", V, V)(z3.Const(kind, V)) if cls is Plan else z3.Const(f"{cls.__name__}.{k}", V)  # noqa
        it.__dict__["whole"] = {k: it.mk(name(k), ty) for k, ty in parts.items()}
        before = dict(it.__dict__["whole"])
        try:
            txt = it.call_function(cls.__str__, [o], {})
        except PyRaise as e:
            Same(it).differ(f"printing raises {e.cls}")
        (key, prod), = g.productions(kind)
        rd = rb.Reader(it, g, kind, r.st, {**KINDS[kind][1], DERIVED: s.derived}, bd)
        rd.facts.append(lambda xs: facts(it, o, xs))
        try:
            toks = rb.Tokens(it).of(txt)
            rb.determined(it, toks)
            rd.about(toks)
            leaves, rest = rd.seq(prod, toks)
            rd.nothing(rest)
        except rb.NoMatch as e:
            Same(it).differ(f"text not read back: {e}")
        y = verify.outcome(it, lambda: it.call_function(KINDS[kind][1][key], [r.st] + [x.v for x in leaves], {}))
        if y.kind != "ret":
            Same(it).differ("the text is rejected")
        got = dict(zip(names_of(cls), [x.v for x in y.v.segs[1:]]))
        for k, v in before.items():
            equal(it, got.get(k), v, k)
        return "read back"

    w = world()
    if cls is Plan:
        # the constants of a plan that was read have no type (C13)
        w.ctor_types = {**w.ctor_types, lt.Constant: dict(key="Constant", pos=[("name", TName), ("type_tag", TNone)])}
    return Ob(n, [qual(cls.__str__), qual(fm.remove_empty_lines), qual(fm.sort_and_print_collection)], lambda: verify.prove(n, w, body, seconds=500.0), 500)


def names_of(cls):
    import inspect

    return [p for p in inspect.signature(cls.__init__).parameters][1:]


def equal(it, got, want, what):
    """What was read equals the component (a missing collection is an empty one: C20)."""
    if got is None and not isinstance(want, (SetV, DictV)):
        return Same(it).same(got, want, what)
    if got is None:
        return Same(it).prove(z3.Not(z3b(it.truthz(want))), f"{what} are left out")
    if isinstance(want, SetV):
        u = want.expr[1]
        if isinstance(got, SetV):
            if got.expr[0] != "seq":
                return Same(it).same(SetV(want.kind, got.expr), want, what)
            got = Seq("list", got.expr[1])
        q = b.to_seq(it, got)
        if not q.segs:
            return Same(it).prove(z3.Not(z3b(it.truthz(want))), f"{what} are left out")
        return c15.whole(it, q, F("ord", V, V)(u), what)
    Same(it).same(got, want, what)


def requirement_texts_ob():
    n = "C15.requirements"

    def run():
        r = verify.Result(n)
        for x in Requirements:
            r.vcs += 1
            if sg.REQUIREMENTS.get(str(x)) is not x:
                r.fails.append((f"{x!r} is printed as {x}", True))
        r.paths = r.outcomes["keys"] = 1
        return r

    return Ob(n, [qual(Requirements.__str__)], run)


def obligations():
    return [whole_ob(c) for c in PARTS] + [requirement_texts_ob()]
