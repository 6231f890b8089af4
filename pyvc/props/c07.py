"""C07: type hierarchies."""
import z3

from pyvc import boot  # noqa: F401
from pddl._validation import Types
from pyvc import dfs, verify
from pyvc.lemma import lemma
from pyvc.same import Mismatch, Same
from pyvc.interp import z3b
from pyvc.obl import *  # noqa
from pyvc.world import *  # noqa
from specs import c07 as s

TNames = TMap(TName, TOpt(TName))
TStrs = TMap(TStr, TOpt(TStr))


def graph_edge(it, d, k, x):
    """Is there an edge from k to x in the adjacency dict d?"""
    if not it.truth(b.dict_has(it, d, k)):
        return False
    nb = b.getitem(it, d, k)
    if isinstance(nb, b.Uni):
        nb = nb.force(it)
    if nb is None:
        return False
    return b.contains(it, x, nb)


def type_edge(it, d, k, x):
    if not it.truth(b.dict_has(it, d, k)):
        return False
    v = b.getitem(it, d, k)
    if isinstance(v, b.Uni):
        v = v.force(it)
    return it.truth(v) and b.eq(it, v, x)


def edges_of_types(it, g, edge, soft=True):
    """The graph has exactly the edges of the subtype relation given: an arbitrary pair of names."""
    given = it.__dict__["types_given"]
    ctx = it.ctx
    err = []

    def run():
        x, y = it.mk(ctx.fresh("sub", V), TName), it.mk(ctx.fresh("super", V), TName)
        try:
            p = False if given is None else type_edge(it, given, x, y)
            q = edge(it, g, x, y)
            Same(it).prove(z3b(p) == z3b(q), "the graph has the edges of the type hierarchy")
        except Mismatch as e:
            err.append(e)
        except PyRaise as e:
            err.append(Unsupported(f"exception {e.cls} while reading the graph"))

    nf = ctx.nofork
    ctx.nofork = 0
    try:
        ctx.explore(run, lambda *a: None)
    finally:
        ctx.nofork = nf
    if err:
        raise err[0]


def is_cyclic(it):
    """Has the subtype relation given a cycle?  If so, it has an edge."""
    if not it.ctx.branch(z3.Const("cyclic", B)):
        return False
    given = it.__dict__["types_given"]
    if given is None or not it.truth(type_edge(it, given, it.mk(z3.Const("sub", V), TName), it.mk(z3.Const("super", V), TName))):
        raise Infeasible()
    return True


def c_find_cycle(it, args, kw):
    """find_cycle: a list if the edges have a cycle, None otherwise (obligations C07.find_cycle)."""
    it.w.used.add("find_cycle")
    edges_of_types(it, args[0] if args else kw["graph"], graph_edge)
    if is_cyclic(it):
        return it.mk(z3.Const("cycle", V), TSeq(TName, "list"))
    return None


def spec_cyclic(it, args, kw):
    edges_of_types(it, args[0], type_edge)
    return is_cyclic(it)


def type_world():
    w = with_closure(base_world())
    w.fn_contracts[hb.find_cycle.__code__] = c_find_cycle
    return w


def given(ty):
    def mk(it):
        v = it.mk(z3.Const("given", V), ty) if ty is not None else None
        if ty is not None:
            v.input = True
        it.__dict__["types_given"] = v
        return v

    return mk


def obligations():
    w = type_world()
    out = []
    spec = s.types(Native(spec_cyclic, "cyclic"))
    rs = (("set", TSet(TReq, "set")), ("list", TSeq(TReq, "list")), ("none", None))
    for tl, ty in (("names", TNames), ("strings", TStrs), ("none", None)):
        for rl, rt in rs:
            if tl != "names" and rl != "set":
                continue
            r = ("requirements", rt, True) if rt is not None else (lambda it: None)
            real = lambda it, a: pair(it, owned(it, it.type_call(Types, list(a), {}), a))  # noqa
            out.append(refine(f"C07.types.{tl}.{rl}", w, args_of(given(ty), r), real, spec, fns=[Types], anyexc=tl == "strings"))
    real = lambda it, a: pair(it, owned(it, it.type_call(Types, list(a), {"skip_checks": True}), a))  # noqa
    out.append(refine("C07.types.unchecked", w, args_of(given(TNames), ("requirements", TSet(TReq, "set"))), real, s.unchecked, fns=[Types]))
    out.append(search())
    return out + lemmas()


def search():
    """find_cycle searches below every node, and returns a list iff some search meets a node on its own walk."""
    n = "C07.find_cycle"
    w = base_world()
    w.while_specs = [dfs.while_spec("graph")]
    w.for_specs = [dfs.for_spec()]

    def body(it):
        g = it.mk(z3.Const("graph", V), TMap(TStr, TOpt(TSet(TStr))))
        g.input = True
        it.graph, it.flags, it.gsets = g, {}, []
        w0 = len(it.ctx.writes)
        r = it.call_function(hb.find_cycle, [g], {})
        sm = Same(it)
        if it.flags.get("bad"):
            if r is None:
                sm.differ("a cycle that was found is reported")
        elif it.flags.get("all"):
            if r is not None:
                sm.differ("None is returned if no cycle was found")
        else:
            sm.differ("every node is searched")
        if len(it.ctx.writes) > w0:
            sm.differ("frame: the graph is not changed")
        return "cycle" if it.flags.get("bad") else "none"

    return Ob(n, [qual(hb.find_cycle)], lambda: verify.prove(n, w, body, soft=True))


def lemmas():
    """good(c, p): c is not on p, and good(m, p + [c]) for every neighbour m (the search below ends without a cycle).

    If some entry is not good then some walk from a root meets itself; if all roots have a good entry there is no cycle.
    """
    good, on, edge = F("good2", V, V, B), F("on", V, V, B), F("edge", V, V, B)
    snoc, walk = F("snoc", V, V, V), F("walk", V, V, B)
    c, p, m, x, y, q = (z3.Const(k, V) for k in "c p m x y q".split())
    unfold = lambda c, p, m: z3.Implies(good(c, p), z3.And(z3.Not(on(c, p)), z3.Implies(edge(c, m), good(m, snoc(p, c)))))  # noqa
    member = lambda z, p, c: on(z, snoc(p, c)) == z3.Or(on(z, p), z == c)  # noqa
    # walk(p, c): p + [c] is a walk from a root
    step = lambda p, c, m: z3.Implies(z3.And(walk(p, c), edge(c, m)), walk(snoc(p, c), m))  # noqa
    x0 = z3.Const("x0", V)
    return [
        lemma("C07.lemma.walk", [
            # along a cycle x0 -> ... -> c -> m: every node met stays on the walk; induction on the distance from x0
            ("start", [good(x0, p), unfold(x0, p, m), edge(x0, m), member(x0, p, x0)], z3.And(good(m, snoc(p, x0)), on(x0, snoc(p, x0)))),
            ("step", [good(c, q), on(x0, q), unfold(c, q, m), edge(c, m), member(x0, q, c)], z3.And(good(m, snoc(q, c)), on(x0, snoc(q, c)))),
            ("end", [on(x0, q), unfold(x0, q, m)], z3.Not(good(x0, q))),
        ]),
        lemma("C07.lemma.reported", [
            # entries of the stack are walks; one that repeats a node contains a cycle
            ("pushed", [walk(p, c), edge(c, m), step(p, c, m)], walk(snoc(p, c), m)),
        ]),
    ]


TRUSTED = []
ASSUME = ["the search ends: it pushes only walks one node longer than the one popped, without repeated nodes (lemma C07.find_cycle), "
          "so their length is bounded by the number of nodes and each has finitely many neighbours",
          "a walk that meets itself contains a cycle; every node of a cycle is a key of the graph (definition of a cycle)"]


def pair(it, o):
    return Seq("tuple", [E(it.getattr_(o, "raw")), E(it.getattr_(o, "all_types"))])
