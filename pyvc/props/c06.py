"""C06: the orders on terms, atoms, numbers and requirements are strict and total."""
from pyvc import verify
from pyvc.obl import *  # noqa
from pyvc.props.c05 import b_, raises_nothing, spec_eq, sym
from pyvc.same import Same
from pyvc.world import *  # noqa
from specs import c06 as s

TPred, TDer = TCls(lp.Predicate), TCls(lp.DerivedPredicate)
TOPS = {"Term": (TTerm, s.term, lt.Term), "Predicate": (TPred, s.atom, lp.Predicate),
        "NumericFunction": (TCls(lf.NumericFunction), s.atom, lf.NumericFunction), "NumericValue": (TCls(lf.NumericValue), s.value, lf.NumericValue),
        "Requirements": (TReq, s.value, Requirements), "DerivedPredicate": (TDer, s.derived, lp.DerivedPredicate)}
NAMES = ("x", "y", "z")


def top(v):
    return isinstance(v, Sym) and z3.is_const(v.t) and v.t.decl().name() in NAMES


def eq_here(it, a, x):
    """== of the objects that are ordered: by its contract (C05); of their components: an equivalence."""
    if top(a) and top(x) and isinstance(a, Sym) and a.ty.kind == "cls":
        return spec_eq(it, a, x)
    return eq_by_canon(it, a, x)


def total_rank(it, c, what):
    """Any total order on countably many values embeds in the rationals."""
    r = F("orank", V, R)(c)
    it.ctx.keep.append(c)
    rs = it.ctx.known.get(("oranked", what), ())
    if not any(c.eq(d) for d in rs):
        for d in rs:
            it.ctx.assume((F("orank", V, R)(d) == r) == (c == d))
        it.ctx.dset(it.ctx.known, ("oranked", what), rs + (c,))
    return r


def seq_rank(it, sq):
    """Sequences of totally ordered elements, ordered lexicographically, are totally ordered (trusted lemma)."""
    return total_rank(it, canon(it.to_v(sq)), "seq")


def lt_here(it, op, a, x):
    """The order of components, by contract; None: the real methods are run."""
    if top(a) and top(x):
        return None
    ca, cb = it.classes_of(a), it.classes_of(x)
    for group in ({lt.Constant, lt.Variable}, {lp.Predicate}):
        if ca <= group and cb <= group:
            it.w.used.add("component order (C06)")
            return b.zcmp(op, total_rank(it, canon(it.to_v(a)), tuple(sorted(c.__name__ for c in group))),
                          total_rank(it, canon(it.to_v(x)), tuple(sorted(c.__name__ for c in group))))
    if op != "<":
        return None
    r = opaque_call(it, "condition<", [a, x], TBool, raises=TypeError)
    it.ctx.assume(z3.Implies(r, canon(it.to_v(a)) != canon(it.to_v(x))))
    return r


def world():
    w = base_world()
    w.eq_contract = eq_here
    w.lt_contract = lt_here
    w.seq_rank = seq_rank
    w.extensional = True
    return w


OPS = {
    "lt": ("<", lambda lt_, eq: lt_),
    "le": ("<=", lambda lt_, eq: z3.Or(lt_, eq)),
    "gt": (">", lambda lt_, eq: z3.Not(z3.Or(lt_, eq))),
    "ge": (">=", lambda lt_, eq: z3.Not(lt_)),
}


def op_ob(w, nm, opn):
    ty, spec, cls = TOPS[nm]
    op, want = OPS[opn]

    def expected(it, a):
        x, y = a
        e = it.truth(b.eq(it, x, y))
        l_ = it.truth(it.call(spec, [x, y], {}))
        return it.truthz(want(z3.BoolVal(l_), z3.BoolVal(e)))

    return refine(f"C06.{opn}.{nm}", w, args_of(("x", ty), ("y", ty)), lambda it, a: it.truth(b.order(it, op, *a)),
                  lambda it, a: it.truth(expected(it, a)), fns=[cls.__lt__] + ([getattr(cls, f"__{opn}__")] if opn != "lt" else []), seconds=60)


def laws_ob(w, nm):
    ty, spec, cls = TOPS[nm]

    def body(it):
        x, y = sym(it, "x", ty), sym(it, "y", ty)
        less = lambda p, q: it.truth(it.call(spec, [p, q], {}))  # noqa
        n = less(x, y) + less(y, x) + it.truth(b.eq(it, x, y))
        if n != 1:
            Same(it).differ(f"{n} of x < y, x == y, y < x hold")
        if less(x, x):
            Same(it).differ("x < x")
        if not less(x, y):
            return "not less"
        z = sym(it, "z", ty)
        if less(y, z) and not less(x, z):
            Same(it).differ("not transitive")
        return "less"

    return Ob(f"C06.lemma.total.{nm}", [], lambda: verify.prove(f"C06.lemma.total.{nm}", w, raises_nothing(body)))


def obligations():
    w = world()
    out = []
    for nm in TOPS:
        for o in OPS:
            out.append(op_ob(w, nm, o))
        if nm != "DerivedPredicate":
            out.append(laws_ob(w, nm))
    return out


TRUSTED = [
    "the lexicographic order on sequences of totally ordered elements is total, and embeds in the rationals",
    "strings (and the numbers other than NaN) are totally ordered by <; sorted() of a set of strings depends on the set only and determines it",
    "== of terms, atoms and numbers is by components (C05)",
]
