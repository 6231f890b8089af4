"""C19: derived predicates take their types from the predicate definition."""
import z3

from pyvc import boot  # noqa: F401
from pddl.parser import _update_type_tags as ut
from pyvc import chain, verify
from pyvc.same import Mismatch, Same
from pyvc import grammar as gm
from pyvc.props import c13
from pddl.exceptions import PDDLParsingError
from pddl.parser import domain as pd
from pyvc.obl import *  # noqa
from pyvc.world import *  # noqa
from specs import c19 as s

# what a condition is made of
WALKED = tuple(c for c in CONN + BINFUN + QUANT) + (lb.Not, lp.Predicate, lp.EqualTo, lf.NumericFunction, lf.NumericValue)
TTags = TMap(TStr, TSet(TName, "frozenset"))


def known_map(it, m):
    """A mapping met before that has the same entries, if any: the callee's result depends on the entries only."""
    ms = it.__dict__.setdefault("maps", [])
    for x in ms:
        try:
            Same(it).dicts(x, m, "types")
            return x
        except Mismatch as e:
            if not (e.sat and e.snap is not None and it.ctx.deep_check(e.snap, 2000) == z3.sat):
                it.__dict__["unsure"] = True
    x = DictV(m.entries)
    ms.append(x)
    return x


def again(it, args, kw):
    """update_type_tags on a part, by contract."""
    f, m = args
    it.w.used.add("update_type_tags")
    if not isinstance(m, DictV):
        raise Unsupported("mapping of types")
    m = known_map(it, m)
    cs = it.classes_of(f)
    ret = TCls(*cs) if len(cs) == 1 and not (set(cs) & set(SIMPLIFYING)) else TForm
    return opaque_call(it, "retag", [f, m], ret, raises=True)


AGAIN = Native(again, "again")


def walk_contract(run):
    """The walk: by its body on the formula under verification, by contract on its parts."""

    def h(it, args, kw):
        if args[0] is it.__dict__.get("root"):
            return run(it, args, kw)
        return again(it, args, kw)

    return h


def copied(it, v):
    """copy.copy of a library object has the same components (state and its restoring: C05)."""
    it.w.used.add("copy.copy")
    return v


def walk_world():
    w = base_world()
    w.copy_contract = copied

    def body(it, args, kw):
        return b.dispatch(it, ut._update_type_tags, MISSING, args, kw)

    w.fn_contracts[ut._update_type_tags] = walk_contract(body)
    return w


def entry(it, a):
    it.__dict__["root"] = a[0]
    return it.call_function(ut.update_type_tags, list(a), {})


SPECS = {lb.Not: s.negation(AGAIN), lp.Predicate: s.predicate, lp.EqualTo: s.equality, lf.NumericFunction: s.function, lf.NumericValue: s.number}
for c in CONN + BINFUN:
    SPECS[c] = s.operands(c, AGAIN)
for c in QUANT:
    SPECS[c] = s.quantified(c, AGAIN)


def parent(it, t):
    """The supertype that the text gives; object is none."""
    d = it.__dict__["given_types"]
    if d is None:
        return None
    v = b.dict_lookup(it, d, t)
    if isinstance(v, b.Uni):
        v = v.force(it)
    if v is MISSING or v is None or it.truth(b.eq(it, v, "object")):
        return None
    return v


def below(it, args, kw):
    t, right = args
    return chain.BELOW(it.to_v(t))


def subtypes_ob(typed):
    """_check_subtypes: every type on the left is one of the right, or below one of them."""
    n = "C19.subtypes" + ("" if typed else ".untyped")
    w = c13.world()
    w.while_specs = [chain.while_spec]

    def body(it):
        g = gm.Grammar()
        o = Obj(pd.DomainTransformer)
        it.call_function(o.cls.__init__, [o], {})
        it.__dict__["given_types"] = None
        if typed:
            bd = gm.Builder(it, g, o, c13.VALUES, c13.TOKENS)
            try:
                bd.callback("requirements", [E("("), E(":requirements"), E(":typing"), E(")")])
                _, lv = bd.rule("types")
            except PyRaise:
                raise Infeasible()
            it.__dict__["given_types"] = lv[0].v
        left, right = it.mk(z3.Const("left", V), TSet(TName, "frozenset")), it.mk(z3.Const("right", V), TSet(TName, "frozenset"))
        it.__dict__["wanted"], it.__dict__["parent"] = right, parent
        x = verify.outcome(it, lambda: it.call(it.getattr_(o, "_check_subtypes"), [left, right], {}))
        y = verify.outcome(it, lambda: it.call_function(s.subtypes(Native(below, "below")), [left, right], {}))
        verify.compare_out(it, x, y, anyexc=True)
        return "accepted" if x.kind == "ret" else "rejected"

    return Ob(n, ["pddl.parser.domain.DomainTransformer._check_subtypes"], lambda: verify.prove(n, w, body, seconds=120.0), 120)


def check(it, args, kw):
    """_check_subtypes, by contract (C19.subtypes)."""
    left, right = args
    it.w.used.add("DomainTransformer._check_subtypes")
    if not it.ctx.branch(F("subtypes", V, V, B)(it.to_v(left), it.to_v(right))):
        raise PyRaise(PDDLParsingError)
    return None


def derived_ob():
    """The callback: types from the definition, or its own after a check; the condition is that of the text, retagged."""
    n = "C19.derived"
    w = c13.world()
    w.fn_contracts[ut._update_type_tags] = again
    w.fn_contracts[ut.update_type_tags.__code__] = again
    w.fn_contracts[pd.DomainTransformer._check_subtypes.__code__] = lambda it, a, k: check(it, a[1:], k)
    # the predicates here are skeletons: their arguments are variables (C13.domain.atomic_formula_skeleton)
    w.ctor_types[lp.Predicate] = dict(w.ctor_types[lp.Predicate], var=("terms", TVar))
    spec = s.derived(Native(check, "check"), AGAIN)

    def body(it):
        g = gm.Grammar()
        o = Obj(pd.DomainTransformer)
        it.call_function(o.cls.__init__, [o], {})
        bd = gm.Builder(it, g, o, c13.VALUES, c13.TOKENS)
        _, lv = bd.rule("predicates")
        ds = lv[0].v
        definitions = it.call_function(s.by_name, [ds], {})
        (p,) = g.rules["derived_predicates"]
        ch, leaves = bd.production(p)
        sk, cond = [l.v for l in leaves]
        x = verify.outcome(it, lambda: bd.callback("derived_predicates", ch))
        y = verify.outcome(it, lambda: it.call_function(spec, [definitions, sk, cond], {}))
        verify.compare_out(it, x, y, anyexc=True)
        return "accepted" if x.kind == "ret" else "rejected"

    return Ob(n, ["pddl.parser.domain.DomainTransformer.derived_predicates"], lambda: verify.prove(n, w, body, seconds=120.0), 120)


def obligations():
    w = walk_world()
    out = []
    for c in WALKED:
        out.append(refine(f"C19.types.{c.__module__.split('.')[-1]}.{c.__name__}", w, args_of(("formula", TCls(c)), ("types", TTags, True)), entry, SPECS[c],
                          fns=[ut.update_type_tags]))
    return out + [subtypes_ob(True), subtypes_ob(False), derived_ob()]
