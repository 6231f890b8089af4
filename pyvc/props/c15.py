"""C15: the text of a domain, problem or plan is read back as an equal one.

As C14 (pyvc/props/c14.py): what is printed for a section or a part of one is cut into tokens and read as the production of the
grammar, and the contract of the production must give what was printed.
"""
import z3

from pyvc import boot  # noqa: F401
from pddl import core
from pddl import formatter as fm
from pyvc import builtins_ as b
from pyvc import grammar as gm
from pyvc import grouping
from pyvc import readback as rb
from pyvc import typeorder
from pyvc import verify
from pyvc import world as world_
from pyvc.obl import *  # noqa
from pyvc.props import c13, c14
from pyvc.props.c13 import KINDS, VALUES, TOKENS, Run, labels, state_for
from pyvc.interp import z3b
from pyvc.same import Mismatch, Same
from pyvc.world import *  # noqa
from specs import c15 as s
from specs import grammar as sg


def by_str(it, v):
    return c14.text(it, v)


def predicate_text(it, v):
    return it.call_function(fm.print_predicates_with_types, [Seq("list", [E(v)])], {})


def function_text(it, v):
    return it.call_function(fm.print_function_skeleton, [v], {})


def step_text(it, v):
    f = Plan._action_to_string
    q = b.to_seq(it, v)
    p = Obj(Plan)
    return it.call_function(f, [p] + [x.v for x in q.segs], {})


PRINTERS = {"action_def": (by_str, Action.__str__), "atomic_formula_skeleton": (predicate_text, fm.print_predicates_with_types),
            "atomic_function_skeleton": (function_text, fm.print_function_skeleton), "ground_action": (step_text, Plan._action_to_string)}


ACTION = "action_def: ( :action NAME :parameters action_parameters action_body_def )"


def part_obs():
    g = gm.Grammar()
    out = []
    for kind in KINDS:
        ls, _, _ = labels(g, kind)
        for lab, key, rule, items, spec in ls:
            if rule not in PRINTERS:
                continue
            dec = state_for(kind, rule)[0]
            out.append(c14.production_ob(g, kind, key, rule, items, spec, dec, lab, "C15", *PRINTERS[rule], specs={ACTION: s.action}))
    return out


# ------------------------------------------------------------ sections
def world():
    w = c14.world()
    w.sorted_texts = True
    w.for_specs = [grouping.for_spec]
    w.while_specs = [typeorder.while_spec(is_perm)]
    grouping.methods(w)
    w.fn_contracts[lp._check_terms_consistency.__code__] = c_consistency
    # predicates and functions that are declared have variables
    w.ctor_types = {**w.ctor_types, **{c: dict(w.ctor_types[c], var=("terms", TVar)) for c in (lp.Predicate, lf.NumericFunction)}}
    return w


def c_consistency(it, args, kw):
    """As in world.py; the terms of a predicate that exists are consistent (its constructor has checked them)."""
    sq = b.to_seq(it, args[0])
    if it.ctx.proves(z3b(it.seq_len(sq)) <= 0):
        return None
    if len(sq.segs) == 1 and isinstance(sq.segs[0], S) and z3.is_app(sq.segs[0].t) and sq.segs[0].t.decl().name() == "Predicate.terms":
        return None
    todo, done = b.terms_in(reified(Seq("list", [E(x) for s in sq.segs if isinstance(s, C) for _, ss in s.cases for y in ss if isinstance(y, E) for x in [y.v]]))), set()
    while todo:
        t = todo.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        if z3.is_app(t) and t.decl().name() == "Predicate.terms" and it.ctx.proves(slen(t) == z3b(it.seq_len(sq))):
            try:
                Same(it).same(Seq("tuple", sq.segs), it.mk(t, TSeq(TVar, "tuple")), "terms")
                return None
            except Mismatch:
                pass
        todo.extend(t.children())
    return world_.c_consistency(it, args, kw)


def section_ob(name, fns, make, production, check, facts=None, kind="domain", seconds=90.0, before=None):
    """What is printed by a function is a text of these items of the grammar, and check() holds of what it says."""
    n = f"C15.{name}"
    g = gm.Grammar()

    def body(it):
        r = Run(it, g, kind, [])
        bd = rb.ReadBuilder(it, g, r.o, VALUES, TOKENS)
        arg, txt, empty = make(it)
        if it.ctx.branch(z3b(empty)):
            Same(it).same(txt(), "", "an empty section")
            return "nothing"
        try:
            t = txt()
        except PyRaise as e:
            Same(it).differ(f"printing raises {e.cls}")
        rd = rb.Reader(it, g, kind, r.st, KINDS[kind][1], bd)
        if facts:
            rd.facts.append(lambda xs: facts(it, arg, xs))
        try:
            toks = rb.Tokens(it).of(t)
            rb.determined(it, toks)
            rd.about(toks)
            leaves, rest = rd.seq(production, toks)
            rd.nothing(rest)
        except rb.NoMatch as e:
            Same(it).differ(f"text not read back: {e}")
        check(it, arg, *[x.v for x in leaves])
        return "read back"

    w = world()
    if before:
        w.group_facts = before
    return Ob(n, [qual(f) for f in fns], lambda: verify.prove(n, w, body, seconds=seconds), seconds)


def lit(*ts):
    return [("lit", t, "") for t in ts]


def is_perm(it, t, u):
    """t is, by its form, a list of the elements of the list u in some order."""
    if t.eq(u):
        return True
    if z3.is_app(u) and u.decl().name() == "ord" and z3.is_app(t) and b.enumerates(t) is not None and b.enumerates(t).eq(u.arg(0)):
        return True
    return z3.is_app(t) and t.decl().name() in ("sorted-seq", "sortedby-seq", "sorted-rev-seq", "sortedby-rev-seq", "sortedtexts-seq", "sortedtexts-rev-seq", "typeorder") and t.arg(0).eq(u)


def element(it, v, c, u):
    """The element of a repetition is the one of the list u (in some order) at its index."""
    for t in b.terms_in(reified(v)):
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.decl().eq(sat) and x.arg(1).eq(c.ix) and is_perm(it, x.arg(0), u):
                return x
            todo.extend(x.children())
    return None


def reified(v):
    if isinstance(v, SetV):
        return []
    return [reified(x) for x in v.fields.values()] if isinstance(v, Obj) else v if not isinstance(v, Seq) else [reified(x.v) for x in v.segs if isinstance(x, E)]


def whole(it, q, u, what):
    """The list has exactly the elements of the list u."""
    if not (isinstance(q, Seq) and len(q.segs) == 1):
        Same(it).differ(what)
    s = q.segs[0]
    if isinstance(s, S) and is_perm(it, s.t, u):
        return
    if isinstance(s, C) and all(len(ss) == 1 and isinstance(ss[0], E) for _, ss in s.cases):
        x = [element(it, ss[0].v, s, u) for _, ss in s.cases]
        x = x[0] if x and all(y is not None and y.eq(x[0]) for y in x) else None
        if x is not None:
            it.ctx.assume(slen(x.arg(0)) == slen(u))  # the same elements in some order
        if x is not None and it.ctx.proves(s.n == slen(x.arg(0))):
            m = it.ctx.push()
            it.ctx.ixs.append(s.ix)
            try:
                it.ctx.assume(z3.And(s.ix >= 0, s.ix < s.n))
                it.ctx.add_index(s.n, s.ix, 0)
                Same(it).prove(z3.Or(*[z3b(c) for c, _ in s.cases]), what)
                for c, ss in s.cases:
                    v = ss[0].v
                    m2 = it.ctx.push()
                    it.ctx.assume(z3b(c))
                    if isinstance(v, Obj):
                        Same(it).same(v, it.mk(x, TCls(v.cls)), what)
                    elif not (isinstance(v, Sym) and v.t.eq(x)):
                        raise Unsupported(f"{what}: {v}"[:200])
                    it.ctx.pop(m2)
            finally:
                it.ctx.ixs.pop()
                it.ctx.pop(m)
            return
    Same(it).differ(f"{what}: {q}"[:300])


def group_facts(it, arg, xs):
    """Of a group at a key of the dict: it is not empty."""
    for u, *_ in it.__dict__.get("groups", {}).values():
        k = xs[-1][1] if xs and xs[-1][0] == "sym" else None
        if k is not None:
            ks = F("keys", V, V)(u)
            if z3.is_app(k.t) and k.t.decl().eq(sat) and is_perm(it, k.t.arg(0), ks) and it.ctx.proves(z3.And(0 <= k.t.arg(1), k.t.arg(1) < slen(ks))):
                it.ctx.assume(slen(mget(u, k.t)) >= 1)


def skeleton_facts(it, arg, xs):
    """Of a declared predicate or function: what has no types is at the end of its variables (C12)."""
    group_facts(it, arg, xs)
    todo, done = [x[1].t for x in xs if x[0] == "sym"] + [x[1] for x in xs if x[0] == "rep"], set()
    while todo:
        t = todo.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in ("Predicate.terms", "NumericFunction.terms"):
            rb.typed_list(it, t, lambda k, t=t: F("Variable.type_tags", V, V)(sat(t, k)))
        todo.extend(t.children())


def typed(key, value):
    """The typed list read has exactly the elements grouped, with the right types."""

    def check(it, arg, groups):
        gs = list(it.__dict__["groups"].values())
        if len(gs) != 1:
            raise Unsupported("groups")
        u = grouped_by(it, gs[0], key, value)
        sm = Same(it)
        ks = b.dict_ord(it, u)
        r = F("untyped", V, V)(u)
        has_typed, has_rest = it.ctx.branch(slen(ks) >= 1), it.ctx.branch(slen(r) >= 1)
        segs = list(groups.segs)
        if has_typed:
            if not segs or not isinstance(segs[0], C):
                sm.differ("no groups with types")
            c = segs.pop(0)
            if len(c.cases) != 1:
                raise Unsupported("cases of groups")
            names, ty = [e.v for e in c.cases[0][1][0].v.segs]
            t = ty.t
            if not (z3.is_app(t) and t.decl().eq(sat) and t.arg(1).eq(c.ix) and it.ctx.proves(c.n == slen(ks))):
                sm.differ("the types of the groups")
            keys_of(it, t.arg(0), u, ks)
            whole(it, names, mget(u, t), "the items of a group")
        elif segs and isinstance(segs[0], C):
            c = segs.pop(0)
            if not it.ctx.proves(c.n <= 0):
                sm.differ("groups with types")
        if has_rest:
            if not segs:
                sm.differ("what has no type is not printed")
            names, ty = [e.v for e in segs.pop(0).v.segs]
            if ty is not None:
                sm.differ("what has no type has one")
            whole(it, names, r, "what has no type")
        if segs:
            sm.differ("groups left")

    return check


def grouped_by(it, g, key, value):
    """All elements are grouped, by key, and what is kept of each is its value.  Returns the groups."""
    u, q, ix, paths, v, n = g
    el = it.seq_at(q, ix)
    sm = Same(it)
    m = it.ctx.push()
    it.ctx.ixs.append(ix)
    it.ctx.assume(z3.And(ix >= 0, ix < n))
    sm.same(v, value(it, el), "what is printed")
    for fs, k in paths:
        m2 = it.ctx.push()
        try:
            for f in fs:
                it.ctx.assume(f)
            if it.ctx.check() == z3.unsat:
                continue
            x = key(it, el)
            x = x.force(it) if isinstance(x, b.Uni) else x
            sm.same(k, x, "grouped by type")
        except Infeasible:
            continue
        finally:
            it.ctx.pop(m2)
    it.ctx.ixs.pop()
    it.ctx.pop(m)
    if isinstance(q.segs[0], S) and not (z3.is_app(q.segs[0].t) and b.enumerates(q.segs[0].t) is not None):
        raise Unsupported("the elements that are grouped")
    return u


def types_before(it):
    """Of the types of a domain that was read: no supertype is object (specs/grammar.py: types_of); without a cycle (C07)
    and with all supertypes declared, one has no supertype."""
    for u, *_ in it.__dict__.get("groups", {}).values():
        it.ctx.assume(slen(F("untyped", V, V)(u)) >= 1)
        j = z3.Int("$j")
        r, ks, o = F("untyped", V, V)(u), F("keys", V, V)(u), b.key_t(it, "object")
        b.forall(it, j, slen(r), sat(r, j) != o)
        b.forall(it, j, slen(ks), sat(ks, j) != o)
        it.ctx.assume(z3.Not(b.dom_fact(it, u, o)))


def types_facts(it, arg, xs):
    group_facts(it, arg, xs)
    for x in xs:
        if x[0] == "rep":
            for c, ys in x[3]:
                for y in ys:
                    nonempty(it, y)


def nonempty(it, y):
    """A list of all elements of a set that is not empty is not empty."""
    if y[0] == "sym" and z3.is_app(y[1].t) and y[1].t.decl().eq(sat):
        u = b.enumerates(y[1].t.arg(0))
        e = b._compound.get(u.get_id()) if u is not None else None
        for g, *_ in it.__dict__.get("groups", {}).values() if e is not None else ():
            r = F("untyped", V, V)(g)
            it.ctx.add_index(slen(r), z3.IntVal(0), 1)
            if it.ctx.proves(z3b(b.mem_e(it, it.mk(sat(r, 0), TName), e))):
                it.ctx.assume(F("card", V, I)(u) >= 1)


def types_check(it, arg, groups):
    """Those without a supertype are printed as below object, the others by supertype."""
    gs = list(it.__dict__["groups"].values())
    if len(gs) != 1:
        raise Unsupported("groups")
    u = grouped_by(it, gs[0], lambda it, x: x.segs[1].v, lambda it, x: x.segs[0].v)
    sm = Same(it)
    ks, r = b.dict_ord(it, u), F("untyped", V, V)(u)
    segs = list(groups.segs)
    if not segs or not isinstance(segs[0], E):
        sm.differ("types without supertype")
    names, ty = [e.v for e in segs.pop(0).v.segs]
    sm.same(ty, "object", "types without supertype")
    same_elements(it, names, u, r)
    if not segs:
        sm.prove(slen(ks) <= 0, "types with a supertype are not printed")
        return
    c = segs.pop(0)
    if segs or not isinstance(c, C) or len(c.cases) != 1:
        sm.differ("groups of types")
    names, ty = [e.v for e in c.cases[0][1][0].v.segs]
    t = ty.t
    if not (z3.is_app(t) and t.decl().eq(sat) and t.arg(1).eq(c.ix) and it.ctx.proves(c.n == slen(ks))):
        sm.differ("the supertypes of the groups")
    keys_of(it, t.arg(0), u, ks)
    whole(it, names, mget(u, t), "the types of a group")


def same_elements(it, names, u, r):
    """The names printed are those of the types that have no supertype."""
    s = names.segs[0] if len(names.segs) == 1 else None
    if isinstance(s, S):
        e = b.enumerates(s.t)
    else:
        x = s.cases[0][1][0].v.t if isinstance(s, C) and len(s.cases) == 1 else None
        e = b.enumerates(x.arg(0)) if x is not None and z3.is_app(x) and x.decl().eq(sat) and x.arg(1).eq(s.ix) else None
        e = e if e is not None and it.ctx.proves(s.n == F("card", V, I)(e)) else None
    ex = b._compound.get(e.get_id()) if e is not None else None
    if ex is None:
        raise Unsupported(f"types without supertype: {names}"[:300])
    y = it.mk(z3.Const("some type", V), TName)
    printed, below = z3b(b.mem_e(it, y, ex)), z3b(b.mem_seg(it, y, S(r, TName)))
    # a type is among those without a supertype or in the group of its supertype; a supertype is a type
    T, ks = z3.Const("types", V), F("keys", V, V)(u)
    i, j = z3.Int("at supertype"), z3.Int("at type")
    k = sat(ks, i)
    it.ctx.assume(z3.Implies(b.dom_fact(it, u, y.t), z3.Or(below, z3.And(0 <= i, i < slen(ks), b.dom_fact(it, u, k), 0 <= j, j < slen(mget(u, k)), sat(mget(u, k), j) == y.t))))
    it.ctx.add_index(slen(ks), i, 1)
    it.ctx.add_index(slen(mget(u, k)), j, 1)
    Same(it).prove(printed == below, "types without supertype")


def keys_of(it, t, u, ks):
    """The list is of the keys, each once."""
    if not is_perm(it, t, ks):
        raise Unsupported(f"keys: {t}")


def constants_make(prefix):
    def make(it):
        c = it.mk(z3.Const("constants", V), TSet(TConstant))
        return c, lambda: it.call_function(fm.print_constants, [prefix, c, ")\n"], {}), z3.Not(z3b(it.truthz(c)))

    return make


def section_obs():
    out = []
    for sec in ("constants", "objects"):
        out.append(section_ob(f"print_{sec}", [fm.print_constants, fm.print_typed_lists], constants_make(f"(:{sec}"),
                              lit("(", f":{sec}") + [("nt", "typed_list_name")] + lit(")"),
                              typed(lambda it, x: it.getattr_(x, "type_tag"), lambda it, x: it.getattr_(x, "name")), group_facts))
    out.append(section_ob("print_functions", [fm.print_types_or_functions_with_parents, fm.print_typed_lists, fm.print_function_skeleton], functions_make,
                          lit("(", ":functions") + [("nt", "f_typed_list_atomic_function_skeleton")] + lit(")"),
                          typed(lambda it, x: x.segs[1].v, lambda it, x: x.segs[0].v), skeleton_facts))
    out.append(section_ob("print_types", [fm.print_types_or_functions_with_parents, fm.print_typed_lists], types_make,
                          lit("(", ":types") + [("nt", "typed_list_name")] + lit(")"),
                          types_check, types_facts, before=types_before))
    out.append(section_ob("print_predicates", [fm.print_predicates_with_types], predicates_make, [("plus", [("nt", "atomic_formula_skeleton")])],
                          lambda it, arg, q: whole(it, q, F("ord", V, V)(arg.expr[1]), "the predicates"), skeleton_facts))
    return out


def types_make(it):
    d = it.mk(z3.Const("types", V), TMap(TName, TOpt(TName)))
    return d, lambda: it.call_function(fm.print_types_or_functions_with_parents, ["(:types", d, ")\n"], {}), z3.Not(z3b(it.truthz(d)))


def predicates_make(it):
    c = it.mk(z3.Const("predicates", V), TSet(TCls(lp.Predicate)))
    it.ctx.assume(z3b(it.truthz(c)))
    return c, lambda: it.call_function(fm.print_predicates_with_types, [c], {}), False


def functions_make(it):
    d = it.mk(z3.Const("functions", V), TMap(c13.TFun, TOpt(TName)))
    return d, lambda: it.call_function(fm.print_types_or_functions_with_parents, ["(:functions", d, ")\n", fm.print_function_skeleton], {}), z3.Not(z3b(it.truthz(d)))


def obligations():
    from pyvc.props import c15_texts

    return part_obs() + section_obs() + c15_texts.obligations()


TRUSTED = c14.TRUSTED + ["textwrap.indent only adds its prefix to lines; leaving out blank lines keeps all other characters",
                         "white space between two tokens does not matter (the grammar ignores it)"]
ASSUME = [
    "parts are used by contract: formulas (C14), actions, predicates, functions, plan steps and sections (C15.*)",
    "the object printed was read: constants of problems' formulas, of functions and of plans have no type (C13); declared variables without a type "
    "come last, parameters of an action are distinct (C12); a domain accepted without typing has no supertypes, no supertype is object, all "
    "supertypes are declared and there is no cycle (C07), so that types have a rank smaller than that of their supertype and one has no supertype",
    "the derived predicates read back have the types they had (C19)",
]
