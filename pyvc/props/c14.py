"""C14: the text of a formula is read back as the formula, production by production.

x: the value of a production (C13: what the parser builds).  Its text is cut into tokens and read as a production of the
same nonterminal; the contract of that production, on what the text says, must give x.  Texts of parts are read back as the
parts (induction on the size of the formula).
"""
import re
from decimal import Decimal

import z3

from pyvc import builtins_ as b
from pyvc import grammar as gm
from pyvc import readback as rb
from pyvc import regexlang as rl
from pyvc import verify
from pyvc.lemma import lemma
from pyvc.obl import *  # noqa
from pyvc.props import c13
from pyvc.props.c13 import VALUES, TOKENS, KINDS, Run, labels, state_for
from pyvc.same import Mismatch, Same
from pyvc.world import *  # noqa
from specs import c09 as s09
from specs import grammar as sg

READ = (lt.Constant,)


def world():
    w = c13.world()
    w.tokens_only = True
    w.sortable = lambda it, ety: True
    w.virtual["__str__"] = [(frozenset(FORMULAS + READ + (Action,)), v_str)]
    w.class_contracts[Decimal] = lambda it, a, k: it.mk(F("decimal", V, V)(it.to_v(a[0])), TAny)
    w.fn_contracts[sg.variables.__code__] = variables
    return w


def variables(it, args, kw):
    """specs.grammar.variables; the pairs (name, types) of a variable v give v (obligation C14.lemma.Variable)."""
    pairs = args[0]
    if isinstance(pairs, Seq) and len(pairs.segs) == 1 and isinstance(pairs.segs[0], C):
        c = pairs.segs[0]
        e = c.cases[0][1][0].v if len(c.cases) == 1 and c.cases[0][0] is True else None
        if isinstance(e, Seq) and len(e.segs) == 2:
            n, t = e.segs[0].v, e.segs[1].v
            if (isinstance(n, Sym) and isinstance(t, SetV) and t.expr[0] == "sym" and z3.is_app(n.t) and n.t.decl().name() == "Variable.name"
                    and t.expr[1].decl().name() == "Variable.type_tags" and t.expr[1].arg(0).eq(n.t.arg(0))):
                x = n.t.arg(0)
                if z3.is_app(x) and x.decl().eq(sat) and x.arg(1).eq(c.ix) and it.ctx.proves(slen(x.arg(0)) == c.n):
                    return Seq("list", [S(x.arg(0), TVar)])
    fn = sg.variables
    h = it.w.fn_contracts.pop(fn.__code__)
    try:
        return it.call_function(fn, args, kw)
    finally:
        it.w.fn_contracts[fn.__code__] = h


def canonical(it, v, bd, items):
    """A node built by And, Or, Plus or Times: one of its operands, or a node of the class whose operands build it again.

    C14.lemma.canonical, C14.lemma.rebuild.
    """
    if not (isinstance(v, Sym) and z3.is_app(v.t) and v.t.decl().name().startswith("mk.")):
        return v, v
    cls = {c.__name__: c for c in SIMPLIFYING}[v.t.decl().name()[3:]]
    part = operand(bd.g, items)
    u = it.mk(z3.Const("node", V) if part else v.t, TCls(cls))
    key = "BinaryOp.operands" if issubclass(cls, lb.BinaryOp) else "BinaryFunction.operands"
    ops = F(key, V, V)(u.t)
    if part is None:
        it.ctx.assume(ops == v.t.arg(0))
        return u, v
    ix = z3.Int("$k")
    b.forall(it, ix, slen(ops), bd.lexed(part, sat(ops, ix)))
    if cls in (lf.Plus, lf.Times):
        it.ctx.assume(slen(ops) >= 2)
    return u, it.call(cls, [("*", Seq("tuple", [S(ops, TForm)]))], {})


def operand(g, items):
    """The nonterminal of the operands of a production."""
    ns = {x[1] for s in items for x in (s[1] if s[0] in ("star", "plus") else [s]) for x in [g.resolve(x)] if x[0] == "nt"}
    if len(ns) > 1:
        raise Unsupported(f"operands of {g.key(items)}")
    return ("nt", ns.pop()) if ns else None


def text(it, v):
    """str(v), by the real method of its class."""
    if isinstance(v, Sym) and v.ty.kind == "cls":
        v = it.mk(v.t, v.ty)
    cs = it.classes_of(v)
    if len(cs) != 1:
        raise Unsupported(f"text of {v}")
    f = next(iter(cs)).__str__
    return it.call_function(f, [v], {})


def production_ob(g, kind, key, rule, items, spec, declared, label, prop="C14", text=text, fn=None, specs=None):
    n = f"{prop}.{kind}.{label}"
    specs = {**KINDS[kind][1], **(specs or {})}
    spec = specs[key]
    w = world()

    def body(it):
        r = Run(it, g, kind, declared)
        bd = rb.ReadBuilder(it, g, r.o, VALUES, TOKENS)
        _, lv = bd.production(items)
        x = verify.outcome(it, lambda: it.call_function(spec, [r.st] + [l.v for l in lv], {}))
        if x.kind != "ret":
            return "rejected"
        v, again = canonical(it, x.v, bd, items)
        try:
            txt = text(it, v)
        except PyRaise as e:
            Same(it).differ(f"printing raises {e.cls}")
        rd = rb.Reader(it, g, kind, r.st, specs, bd)
        try:
            toks = rb.Tokens(it).of(txt)
            rb.determined(it, toks)
            ways = rd.read(rule, toks)
        except rb.NoMatch as e:
            Same(it).differ(f"text not read back: {e}")
        for k2, leaves in ways:
            y = verify.outcome(it, lambda: it.call_function(specs[k2], [r.st] + [l.v for l in leaves], {}))
            if y.kind != "ret":
                Same(it).differ(f"the text is rejected ({k2})")
            Same(it).same(again, y.v, f"read back as {k2}")
        return "read back"

    T = KINDS[kind][0]
    return Ob(n, [qual(fn) if fn else f"{T.__module__}.{T.__name__}.{rule}"], lambda: verify.prove(n, w, body, seconds=90.0), 90)


def obligations():
    g = gm.Grammar()
    out = []
    for kind in KINDS:
        ls, _, _ = labels(g, kind)
        for lab, key, rule, items, spec in ls:
            if rule in SKIP or spec.__name__ == "same":
                continue
            for i, dec in enumerate(state_for(kind, rule)):
                out.append(production_ob(g, kind, key, rule, items, spec, dec, lab + (".initial" if i else "")))
    return out + lemmas() + [names_ob(g)]


def lemmas():
    """flat(new, stack), by its specification (C03, C04): induction on the number of nodes of the stack.

    good: no element of new is of the class, none is there twice if the operator is idempotent, each is a text's operand
    (reads, also of the operands of nodes of the class).  Operands that are good already are left as they are.
    """
    out = []
    for cls, idem in (("And", True), ("Or", True), ("Plus", False), ("Times", False)):
        good, clean = z3.Function("good", V, B), z3.Function("clean", V, B)
        okst, rd, isc = z3.Function("okst", V, B), z3.Function("rd", V, B), z3.Function("isc", V, B)
        mem = z3.Function("in", V, V, B)
        flat, cat, push = z3.Function("flat", V, V, V), z3.Function("cat", V, V, V), z3.Function("push", V, V, V)
        dis = z3.Function("disjoint", V, V, B)
        new, st, e, emp, st2, stk = (z3.Const(x, V) for x in "new st e empty st2 stk".split())
        IH = lambda n, s_: z3.Implies(z3.And(good(n), okst(s_)), good(flat(n, s_)))  # noqa
        one = [good(push(new, e)) == z3.And(good(new), z3.Not(isc(e)), rd(e), z3.Not(mem(e, new)) if idem else True)]
        hyps = [okst(stk) == z3.And(okst(st), rd(e))]
        cases = [("empty", [flat(new, emp) == new], IH(new, emp)),
                 # what the operands of a node that is read are, is read (it was built from operands that are)
                 ("same kind", hyps + [isc(e), flat(new, stk) == flat(new, st2), z3.Implies(z3.And(okst(st), rd(e)), okst(st2)), IH(new, st2)], IH(new, stk)),
                 ("other", hyps + one + [z3.Not(isc(e)), z3.Not(mem(e, new)), flat(new, stk) == flat(push(new, e), st), IH(push(new, e), st)], IH(new, stk))]
        if idem:
            cases.append(("repeated", hyps + [mem(e, new), flat(new, stk) == flat(new, st), IH(new, st)], IH(new, stk)))
        elif True:
            cases.append(("repeated", hyps + one + [z3.Not(isc(e)), mem(e, new), flat(new, stk) == flat(push(new, e), st), IH(push(new, e), st)], IH(new, stk)))
        out.append(lemma(f"C14.lemma.canonical.{cls}", cases))
        # clean(new ++ reversed stack): operands as they are in a node
        JH = lambda n, s_: z3.Implies(clean(cat(n, s_)), flat(n, s_) == cat(n, s_))  # noqa
        step = [cat(new, stk) == cat(push(new, e), st), z3.Implies(clean(cat(new, stk)), z3.And(z3.Not(isc(e)), z3.Not(mem(e, new)) if idem else True))]
        cases = [("empty", [flat(new, emp) == new, cat(new, emp) == new], JH(new, emp)),
                 ("same kind", step + [isc(e), flat(new, stk) == flat(new, st2)], JH(new, stk)),
                 ("other", step + [z3.Not(isc(e)), flat(new, stk) == flat(push(new, e), st), JH(push(new, e), st)], JH(new, stk))]
        if idem:
            cases.append(("repeated", step + [mem(e, new), flat(new, stk) == flat(new, st)], JH(new, stk)))
        out.append(lemma(f"C14.lemma.rebuild.{cls}", cases))
    out.append(variable_lemma())
    return out


def variable_lemma():
    """A variable is what its name and its types build."""
    w = base_world()
    n = "C14.lemma.Variable"

    def body(it):
        v = it.mk(z3.Const("v", V), TVar)
        nm, tags = it.getattr_(v, "name"), it.getattr_(v, "type_tags")
        u = it.construct(lt.Variable, [nm, tags], {})
        Same(it).same(it.getattr_(u, "name"), nm, "name")
        Same(it).same(it.getattr_(u, "type_tags"), tags, "types")
        return "same"

    return Ob(n, ["pddl.logic.terms.Variable.__init__"], lambda: verify.prove(n, w, body))


def names_ob(g):
    """Names that are accepted (C09) are tokens NAME of the grammar."""
    n = "C14.names"

    def run():
        r = verify.Result(n)
        kind, pat = g.terms["NAME"]
        ok = rl.included(rl.language(s09.PATTERN, "fullmatch"), rl.language(re.compile(pat[1:-1]), "fullmatch"))
        if not ok:
            r.fails.append(("a name is not a token NAME", True))
        r.paths = r.outcomes["included"] = 1
        return r

    return Ob(n, ["pddl.custom_types.name"], run)


SKIP = ("domain", "problem", "plan", "action_def", "type_def", "num_literal", "atomic_formula_skeleton", "atomic_function_skeleton", "ground_action")


TRUSTED = ["Lark accepts every text that its grammar derives, with the derivation read here (LALR(1) without conflicts; obligations C13.* give the callbacks)",
           "repr of a number is read back by float()/int() as the same number"]
ASSUME = ["the text of a part of a formula is read back as that part (induction on the size of the formula)"]
