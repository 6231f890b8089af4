"""C11, C13: every production of the grammar denotes what its contract (specs/grammar.py) says.

The productions are read from the grammar file; each one's callback is run on what the parser hands over for it, with the
state that the callbacks of the declarations before it have left.  Values of parts that are library objects are arbitrary.
"""
import z3
import lark

from pyvc import grammar as gm
from pyvc import verify
from pyvc.interp import z3b
from pyvc.obl import *  # noqa
from pyvc.same import Same
from pyvc.world import *  # noqa
from pddl.exceptions import PDDLMissingRequirementError
from pddl.parser import domain as pd
from pddl.parser import plan as pp
from pddl.parser import problem as pr
from pddl.requirements import _extend_domain_requirements
from specs import c10
from specs import grammar as sg

TFun = TCls(lf.NumericFunction)
TPairs = TSeq(TTup(TName, TSet(TName, "set")))
TNumeric = TCls(*NUMERIC)
TAtom = TCls(lp.Predicate, lp.EqualTo)

VALUES = {
    "gd": TForm, "emptyor_pregd": TForm, "emptyor_effect": TForm, "effect": TForm, "c_effect": TForm, "p_effect": TForm, "cond_effect": TForm,
    "num_effect": TForm, "atomic_formula_term": TAtom, "f_exp": TForm, "num_literal": TNum, "f_head": TFun, "constant": TConstant,
    "typed_list_variable": TPairs, "typed_list_name": TMap(TName, TOpt(TName)), "atomic_formula_skeleton": TCls(lp.Predicate),
    "atomic_function_skeleton": TFun, "f_typed_list_atomic_function_skeleton": TMap(TFun, TOpt(TName)),
    "action_def": TCls(Action), "derived_predicates": TCls(lp.DerivedPredicate), "type_def": TSeq(TStr, "list"),
    "init_el": TForm, "literal_name": TForm, "basic_function_term": TFun, "atomic_formula_name": TForm, "metric_f_exp": TForm,
    "ground_action": TStep,
}
TOKENS = {"NAME": TStr, "NUMBER": TStr, "alt": lambda ts: TStr}

KINDS = {"domain": (pd.DomainTransformer, {**sg.DOMAIN, **sg.BOTH}), "problem": (pr.ProblemTransformer, {**sg.PROBLEM, **sg.BOTH}),
         "plan": (pp.PlanTransformer, sg.PLAN)}


def mk_recorded(cls):
    """Construction of a Domain, Problem or Plan: by contract, a function of what is given for each parameter."""
    import inspect

    names = [p for p in inspect.signature(cls.__init__).parameters][1:]

    def h(it, args, kw):
        d = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names or k in d:
                raise PyRaise(TypeError)
            d[k] = v
        return Seq("tuple", [E(cls.__name__)] + [E(coll(it, d.get(n))) for n in names])

    return h


def coll(it, v):
    """A collection given to a constructor: it is taken as a set (C20)."""
    return v


def requirement(it, args, kw):
    """Requirements(key[1:]) for a key of the grammar: each names a requirement (obligation requirements.keys)."""
    v = args[0]
    if isinstance(v, str):
        return Requirements(v)
    t = it.to_v(v)
    if not (isinstance(v, Sym) and t.decl().name() == "slice[1:None]" and z3.is_app(t.arg(0)) and t.arg(0).decl().eq(sat) and t.arg(0).arg(0).decl().name() == "keys"):
        raise Unsupported("a requirement of another text")
    return it.mk(F("requirement", V, V)(t.arg(0)), TReq)


def keys_ob(prop, kind):
    """Each key of the grammar declares the requirement it names."""
    n = f"{prop}.{kind}.requirements.keys"
    w = world()

    def body(it):
        g = gm.Grammar()
        keys = g.resolve(g.rules["requirements"][0][2][1][0])[1]
        if sorted(keys) != sorted(sg.REQUIREMENTS):
            raise Unsupported("keys of the grammar")
        for k in keys:
            o = Obj(KINDS[kind][0])
            it.call_function(o.cls.__init__, [o], {})
            v = gm.Builder(it, g, o, VALUES, TOKENS).callback("requirements", [E("("), E(":requirements"), E(k), E(")")])
            if isinstance(v, DictV):
                v = b.getitem(it, v, "requirements")
            else:
                v = v.segs[1].v
            Same(it).same(v, SetV("set", ("seq", (E(sg.REQUIREMENTS[k]),))), f"requirement {k}")
        return "keys"

    return Ob(n, [f"{KINDS[kind][0].__module__}.{KINDS[kind][0].__name__}.requirements"], lambda: verify.prove(n, w, body))


def world():
    w = base_world()
    w.regexes = gm.languages(gm.Grammar())
    w.class_contracts[Requirements] = requirement
    w.fn_contracts[lark.Transformer.__init__.__code__] = lambda it, a, k: None
    w.fn_contracts[_extend_domain_requirements.__code__] = lambda it, a, k: it.call_function(c10.closure, list(a), k)
    for c in (Domain, Problem, Plan):
        w.class_contracts[c] = mk_recorded(c)
    return w


def nt(*items):
    return list(items)


def setter(g, rule):
    """The only production of a rule of declarations."""
    ps = g.rules[rule]
    if len(ps) != 1:
        raise Unsupported(f"productions of {rule}")
    return ps[0]


class Run:
    """A transformer, brought by its own callbacks to the state after some declarations; and that state for the contract."""

    def __init__(self, it, g, kind, declared):
        T = KINDS[kind][0]
        self.it, self.g, self.kind = it, g, kind
        self.o = Obj(T)
        it.call_function(T.__init__, [self.o], {})
        self.b = gm.Builder(it, g, self.o, VALUES, TOKENS)
        self.st = Obj(sg.St)
        f = {"requirements": SetV("frozenset", ("seq", ())) if kind == "domain" else None, "declared": None, "constants": DictV(), "objects": DictV(),
             "params": Seq("tuple", [])}
        self.leaves = {}
        first = state(self.o)
        for d in declared:
            try:
                _, lv = self.b.rule(d)
            except PyRaise:
                raise Infeasible()  # the text has been rejected: see the production that has this part
            self.leaves[d] = [x.v for x in lv]
        if "requirements" in self.leaves:
            f["declared"] = f["requirements"] = it.call_function(sg.declared_of, [self.leaves["requirements"][0]], {})
        for d, k in (("constants", "constants"), ("objects", "objects"), ("action_parameters", "params")):
            if d in self.leaves:
                f[k] = self.leaves[d][0]
        for k, v in f.items():
            self.st.fields[k] = v
        self.before = state(self.o)
        if set(first) != set(self.before):
            raise Unsupported("the state of the parser")
        # the fields that the declarations are kept in
        self.kept = [k for k in first if self.before[k][0] is not first[k][0]]
        if declared and declared != DECLARED[kind]:
            self.kept = Run(it, g, kind, DECLARED[kind]).kept


def state(o):
    """What the parser object knows: its fields, and those of the parser objects it has."""
    out = {}
    for k, v in o.fields.items():
        if isinstance(v, Obj) and v.cls.__module__.startswith("pddl.parser"):
            out.update({(k,) + p: x for p, x in state(v).items()})
        elif isinstance(v, (DictV, SetV, Seq)):
            out[(k,)] = (v, DictV(v.entries) if isinstance(v, DictV) else SetV(v.kind, v.expr) if isinstance(v, SetV) else Seq(v.kind, v.segs))
        else:
            out[(k,)] = (v, v)
    return out


def same_state(it, o, before, fields):
    """What the declarations have left is still there."""
    after = state(o)
    for k in fields:
        if k not in after:
            raise Unsupported("the state of the parser")
        Same(it).same(after[k][0], before[k][1], f"state {'.'.join(k)}")


DECLARED = {"domain": ["requirements", "constants", "action_parameters"], "problem": ["requirements", "objects"], "plan": []}


def production_ob(prop, g, kind, key, rule, items, spec, declared, label, post=None, seconds=60.0, frame=False):
    n = f"{prop}.{kind}.{label}"
    w = world()

    def body(it):
        r = Run(it, g, kind, declared)
        ch, lv = r.b.production(items)
        x = verify.outcome(it, lambda: r.b.callback(rule, ch))
        if frame and x.kind == "ret":
            same_state(it, r.o, r.before, r.kept)
        y = verify.outcome(it, lambda: it.call_function(spec, [r.st] + [l.v for l in lv], {}))
        return post(it, r, x, y)

    T = KINDS[kind][0]
    return Ob(n, [f"{T.__module__}.{T.__name__}.{rule}"], lambda: verify.prove(n, w, body, seconds=seconds), seconds)


def value_post(it, r, x, y):
    verify.compare_out(it, x, y, anyexc=True)
    return "value" if x.kind == "ret" else "rejected"


def missing(o):
    return o.kind == "exc" and o.v.cls is PDDLMissingRequirementError


def gate_post(it, r, x, y):
    """Rejected for lack of a requirement exactly if the contract says so, and the same one is named."""
    sm = Same(it)
    if missing(x) != missing(y):
        sm.differ("missing requirement: code " + ("rejects" if missing(x) else "accepts") + ", contract " + ("rejects" if missing(y) else "accepts"))
    if missing(x):
        sm.same(Seq("tuple", [E(a) for a in x.v.pyargs]), Seq("tuple", [E(a) for a in y.v.pyargs]), "the requirement named")
    return "missing" if missing(x) else "not missing"


SECTIONS = {"domain": ["domain_def", "types", "predicates", "functions"], "problem": ["problem_def", "problem_domain", "init", "goal", "metric_spec"]}


def frame_ob(prop, g, kind, rule):
    """A section other than the declarations leaves what they have recorded as it is."""
    n = f"{prop}.{kind}.{rule}.frame"
    w = world()

    def body(it):
        dec = [d for d in DECLARED[kind] if d != "action_parameters"]
        r = Run(it, g, kind, dec)
        try:
            r.b.rule(rule)
        except PyRaise:
            return "rejected"
        same_state(it, r.o, r.before, r.kept)
        return "kept"

    T = KINDS[kind][0]
    return Ob(n, [f"{T.__module__}.{T.__name__}.{rule}"], lambda: verify.prove(n, w, body, seconds=60.0), 60)


def labels(g, kind):
    """(label, key, rule, items, spec) of the productions of a transformer that have a contract."""
    T, specs = KINDS[kind]
    out, unknown = [], []
    start = {"domain": "domain", "problem": "problem", "plan": "plan"}[kind]
    seen, todo = set(), [start]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in g.single:
            for s in g.single[n]:
                if s[0] == "nt":
                    todo.append(s[1])
            continue
        for i, (k, items) in enumerate(g.productions(n)):
            if k in specs:
                out.append((f"{n}.{i}" if len(g.rules[n]) > 1 else n, k, n, items, specs[k]))
            elif k not in sg.PARTS:
                unknown.append(k)
            todo += nts(items)
    return out, unknown, [k for k in specs if k not in [x[1] for x in out]]


def nts(items):
    out = []
    for s in items:
        if s[0] == "nt":
            out.append(s[1])
        elif isinstance(s[1], list):
            out += nts(s[1])
    return out


def grammar_ob(prop, g, kind):
    """The grammar has exactly the productions that have contracts, and its tokens are those of PDDL."""
    n = f"{prop}.{kind}.grammar"

    def run():
        r = verify.Result(n)
        r.soft = True
        _, unknown, gone = labels(g, kind)
        for k in unknown:
            r.undecided.append(f"production without contract: {k}")
        for k in gone:
            r.undecided.append(f"contract without production: {k}")
        for t, e in sg.TERMINALS.items():
            r.vcs += 1
            if g.terms.get(t) != ("re", f"/{e}/"):
                r.undecided.append(f"token {t}: {g.terms.get(t)}")
        if sorted(g.ignore) != ["COMMENT", "__IGNORE_0"] or g.terms["__IGNORE_0"] != ("re", r"/\s+/"):
            r.undecided.append("what is ignored")
        T = KINDS[kind][0]
        for t in g.terms:
            if hasattr(T, t):
                r.undecided.append(f"the transformer changes tokens {t}")
        r.paths = 1
        return r

    return Ob(n, [f"{KINDS[kind][0].__module__}.{KINDS[kind][0].__name__}"], run)


def state_for(kind, rule):
    if rule in ("domain", "problem", "plan"):
        return [[]]  # its declarations are part of it
    if rule == "action_def":
        return [["requirements", "constants"]]  # it has its own parameters
    if kind == "plan":
        return [[]]
    return [DECLARED[kind], []]


def production_obs(prop, post):
    g = gm.Grammar()
    out = []
    for kind in KINDS:
        if prop == "C11" and kind == "plan":
            continue
        ls, _, _ = labels(g, kind)
        for lab, key, rule, items, spec in ls:
            for i, dec in enumerate(state_for(kind, rule)):
                out.append(production_ob(prop, g, kind, key, rule, items, spec, dec, lab + (".initial" if i else ""), post, 240 if rule in ("domain", "problem") else 90,
                                         prop == "C13" and rule not in ("domain", "problem", "plan", "requirements", "constants", "objects", "action_parameters")))
        out.append(grammar_ob(prop, g, kind))
        if kind != "plan":
            if prop == "C13":
                out += [frame_ob(prop, g, kind, r) for r in SECTIONS[kind] if r in g.rules]
            out.append(keys_ob(prop, kind))
    return out


def obligations():
    return production_obs("C13", value_post)
