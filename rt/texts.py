"""Executable contracts of the text-level properties (parsing and printing), run on the real code (bounded)."""
import os
import pickle
import random
import re
import subprocess
import sys

from rt.common import *  # noqa
from rt.common import need, outcome, view, norm, flat
from rt.objects import ALLREQ, closure, parser, ref_retag, ref_types_ok

from pddl.exceptions import PDDLMissingRequirementError
from pddl.requirements import Requirements as Req

REQS_FULL = [Req.ADL, Req.NON_DETERMINISTIC, Req.NUMERIC_FLUENTS, Req.DERIVED_PREDICATES, Req.ACTION_COSTS]


# ------------------------------------------------------------------ rendering
def toks(x):
    """Flatten nested lists of tokens."""
    if isinstance(x, str):
        return [x]
    out = []
    for y in x:
        out.extend(toks(y))
    return out


def text(r, x):
    """Tokens as text with arbitrary layout and comments."""
    out = []
    ts = toks(x)
    style = r.random()
    for a, b in zip(ts, ts[1:] + [""]):
        out.append(a)
        tight = a == "(" or b == ")" or (a == ")" and style < 0.3)
        if tight and r.random() < 0.8:
            continue
        y = r.random()
        out.append(" " if y < 0.9 or style < 0.5 else "\n" if y < 0.94 else "\t \n" if y < 0.97 else " ; a comment ( ?x\n")
    return "".join(out)


def P(*xs):
    return ["("] + list(xs) + [")"]


def num_text(r, n):
    """A literal of a number."""
    if isinstance(n, int):
        return str(n)
    s = f"{n:.10f}".rstrip("0")
    if s.endswith("."):
        s += "0"
    return s + "0" * r.choice([0, 0, 1])


def tl(r, items):
    """A typed list [(name, [types])] as tokens; groups of equal types may be joined."""
    out = []
    k = 0
    while k < len(items):
        j = k + 1
        while j < len(items) and items[j][1] == items[k][1] and (not items[k][1] or r.random() < 0.7):
            j += 1
        ns = [x[0] for x in items[k:j]]
        ty = items[k][1]
        out += ns
        if ty:
            out.append("-")
            if len(ty) == 1 and r.random() < 0.85:
                out.append(ty[0])
            elif len(ty) == 1:
                out.append(ty[0])
            else:
                out.append(P("either", *ty))
        k = j
    return out


def untyped_last(items):
    return [x for x in items if x[1]] + [x for x in items if not x[1]]


def tr(r, v):
    """Tokens of a term, formula, effect or numeric expression (a syntax tree, not simplified)."""
    k = v[0]
    if k == "const":
        return v[1]
    if k == "var":
        return "?" + v[1]
    if k in ("pred",):
        return P(v[1], *[tr(r, x) for x in v[2:]])
    if k == "fn":
        if len(v) == 2 and r.random() < 0.3:
            return v[1]
        return P(v[1], *[tr(r, x) for x in v[2:]])
    if k == "num":
        return num_text(r, v[1])
    if k in ("forall", "exists", "forall_effect"):
        vs = untyped_last([("?" + x[1], sorted(x[2])) for x in sorted(v[1], key=repr)])
        return P("exists" if k == "exists" else "forall", P(*tl(r, vs)), tr(r, v[2]))
    if k == "n=":
        # a name alone is read as a term after "="
        first = P(v[1][1]) if v[1][0] == "fn" and len(v[1]) == 2 else tr(r, v[1])
        return P("=", first, *[tr(r, x) for x in v[2:]])
    return P(k, *[tr(r, x) for x in v[1:]])


# ------------------------------------------------------------------ domains
class Dom:
    """A random domain: syntax, text, and the views the parser must produce."""

    def __init__(self, r, reqs=None, derived=True, shadow=False, types_ok=True, actions=None, nonum=False, hier="implicit", force_types=None):
        self.r = r
        self.name = r.choice(["dom", "my-domain", "d_1"])
        self.reqs = list(REQS_FULL) if reqs is None else reqs
        r.shuffle(self.reqs)
        tn = r.sample(["t1", "t2", "t3", "t4"], r.randint(2, 4))
        self.types = []
        for j, t in enumerate(tn):
            x = r.random()
            self.types.append((t, [] if x < 0.4 else ["object"] if x < 0.5 else [tn[r.randrange(j)]] if j else []))
        if force_types:
            self.types = force_types
        self.hier = hier
        if force_types:
            pass
        elif hier == "implicit" and r.random() < 0.2:
            self.types.append(("t5", ["thing"]))
        typing = Req.TYPING in closure(self.reqs)
        if not typing and not force_types:
            self.types = [(t, []) for t, _ in self.types]
        r.shuffle(self.types)
        self.types = untyped_last(self.types)
        self.with_types = r.random() < 0.9 or typing
        if not typing and not force_types:
            self.with_types = False
        self.tnames = [t for t, _ in self.types] if typing else []
        some = lambda p=0.6: [r.choice(self.tnames + ["object"] * (r.random() < 0.3))] if self.tnames and r.random() < p else []  # noqa
        self.consts = untyped_last([(c, some()) for c in r.sample(["a", "b", "c_2", "d-x"], r.randint(0, 4))])
        self.ctag = {c: (t[0] if t else None) for c, t in self.consts}
        self.preds = {}
        for p in r.sample(["p", "q", "r-1", "s"], r.randint(1, 4)):
            self.preds[p] = self.varlist()
        self.funs = {}
        if not nonum and r.random() < 0.8:
            for f in r.sample(["f", "g", "h"], r.randint(1, 3)):
                self.funs[f] = (self.varlist(2), r.choice([["number"], []]))
            if r.random() < 0.3:
                self.funs["total-cost"] = ([], r.choice([["number"], []]))
        self.funs = dict(untyped_last_map(self.funs))
        self.shadow = shadow
        self.acts = []
        for a in r.sample(["go", "take-it", "put_2", "x"], r.randint(0, 3) if actions is None else actions):
            self.acts.append(self.action(a))
        self.derived = []
        if derived:
            for _ in range(r.choice([0, 0, 1, 2])):
                d = self.derive()
                if d is not None:
                    self.derived.append(d)
        self.order = [("a", a) for a in self.acts] + [("d", d) for d in self.derived]
        r.shuffle(self.order)

    def tagset(self):
        r = self.r
        if not self.tnames or r.random() < 0.4:
            return []
        return sorted(r.sample(self.tnames, min(len(self.tnames), r.choice([1, 1, 1, 2, 2, 3])))) if r.random() < 0.93 else ["object"]

    def varlist(self, hi=4):
        r = self.r
        return untyped_last([(n, self.tagset()) for n in r.sample(["x", "y", "z", "w"], r.randint(0, hi))])

    def gen(self, scope, quant):
        """Generator of syntax trees; variables are in scope or free, without tags (the parser adds them)."""
        g = TextGen(self.r, self, scope, quant)
        return g

    def action(self, name):
        r = self.r
        params = self.varlist()
        g = self.gen([n for n, _ in params], ["x", "y", "z", "v", "u"] if self.shadow else [n for n in ["x", "y", "z", "v", "u"] if n not in dict(params)])
        pre = r.choice([None, "()"]) if r.random() < 0.15 else g.gd(r.choice([0, 1, 2, 3, 4]))
        eff = r.choice([None, "()"]) if r.random() < 0.15 else g.effect(r.choice([0, 1, 2, 3]))
        return (name, params, pre, eff)

    def derive(self):
        r = self.r
        p = r.choice(sorted(self.preds))
        d = self.preds[p]
        names = r.sample(["x", "y", "z", "w", "v"], len(d))
        head = []
        for n, (_, ty) in zip(names, d):
            t = []
            if ty and "object" not in ty and r.random() < 0.35:
                t = sorted({r.choice(self.below(ty))})
            elif not ty and r.random() < 0.2:
                t = self.tagset()
            head.append((n, t))
        # typed arguments first is not possible here: arguments are positional
        head = self.fix_head(head, d)
        g = self.gen(names, ["x", "y", "v", "u"])
        g.nested = 3
        return (p, head, g.gd(r.choice([0, 1, 2, 3])))

    def fix_head(self, head, d):
        """An untyped argument cannot precede a typed one (it would be in its group)."""
        out, seen = [], False
        for (n, t), (_, ty) in zip(reversed(head), reversed(d)):
            if t:
                seen = True
            elif seen:
                t = [ty[0]] if ty and ty != ["object"] else ["object"] if not ty else list(ty)
            out.append((n, t))
        return out[::-1]

    def below(self, ty):
        """Types at or below one of ty."""
        h = {t: (p[0] if p else None) for t, p in self.types}
        out = []
        for t in self.tnames:
            c = t
            while c is not None:
                if c in ty:
                    out.append(t)
                    break
                c = h.get(c)
        return out or list(ty)

    # tokens -----------------------------------------------------------
    def section_types(self):
        return P(":types", *tl(self.r, self.types))

    def skel(self, name, vs):
        return P(name, *tl(self.r, [("?" + n, t) for n, t in vs]))

    def structure(self, kind, x):
        r = self.r
        if kind == "d":
            return P(":derived", self.skel(x[0], x[1]), tr(r, x[2]))
        name, params, pre, eff = x
        out = [":action", name, ":parameters", P(*tl(r, [("?" + n, t) for n, t in params]))]
        if pre is not None:
            out += [":precondition", P() if pre == "()" else tr(r, pre)]
        if eff is not None:
            out += [":effect", P() if eff == "()" else tr(r, eff)]
        return P(*out)

    def tokens(self):
        r = self.r
        out = ["define", P("domain", self.name)]
        if self.reqs:
            out.append(P(":requirements", *[str(q) for q in self.reqs]))
        if self.with_types and self.types:
            out.append(self.section_types())
        if self.consts:
            out.append(P(":constants", *tl(r, self.consts)))
        if self.preds:
            out.append(P(":predicates", *[self.skel(p, vs) for p, vs in self.preds.items()]))
        if self.funs:
            body = []
            items = list(self.funs.items())
            k = 0
            while k < len(items):
                j = k + 1
                while j < len(items) and items[j][1][1] == items[k][1][1] and (not items[k][1][1] or r.random() < 0.6):
                    j += 1
                body += [self.skel(f, vs) for f, (vs, _) in items[k:j]]
                if items[k][1][1]:
                    body += ["-", "number"]
                k = j
            out.append(P(":functions", *body))
        for kind, x in self.order:
            out.append(self.structure(kind, x))
        return P(*out)

    def text(self):
        return text(self.r, self.tokens())

    # expected views ----------------------------------------------------
    def expected(self, v, params):
        """View of the parsed formula of an action with these parameters."""
        k = v[0] if isinstance(v, tuple) and v else None
        if k == "var":
            return ("var", v[1], params.get(v[1], frozenset()))
        if k == "const":
            return ("const", v[1], self.ctag[v[1]])
        if k in ("pred", "fn"):
            return v[:2] + tuple(self.expected(x, params) for x in v[2:])
        if k == "num":
            return v
        if k in ("and", "or"):
            return ref_monotone(k, [self.expected(x, params) for x in v[1:]])
        if k in ("forall", "exists", "forall_effect"):
            return (k, v[1], self.expected(v[2], params))
        return (k,) + tuple(self.expected(x, params) for x in v[1:])

    def exp_action(self, a):
        name, params, pre, eff = a
        pt = {n: frozenset(t) for n, t in params}
        go = lambda f: None if f is None else ("and",) if f == "()" else self.expected(f, pt)  # noqa
        return ("action", name, tuple(("var", n, frozenset(t)) for n, t in params), go(pre), go(eff))

    def exp_derived(self, d):
        p, head, cond = d
        tags = {}
        for (n, t), (_, ty) in zip(head, self.preds[p]):
            if t:
                tags[n] = frozenset(t)
            elif ty:
                tags[n] = frozenset(ty)
        pred = ("pred", p) + tuple(("var", n, frozenset(t)) for n, t in head)
        return ("derived", ref_retag(pred, tags), ref_retag(self.expected(cond, {}), tags))

    def exp_view(self):
        types = [(t, None if not p or p == ["object"] else p[0]) for t, p in self.types] if self.with_types else []
        return (
            "domain", self.name, frozenset(self.reqs), frozenset(types),
            fs(("const", c, t[0] if t else None) for c, t in self.consts),
            fs(("pred", p) + tuple(("var", n, frozenset(t)) for n, t in vs) for p, vs in self.preds.items()),
            fs(dedup(self.exp_derived(d) for d in self.derived)),
            fs((("fn", f) + tuple(("var", n, frozenset(t)) for n, t in vs), t2[0] if t2 else None) for f, (vs, t2) in self.funs.items()),
            fs(self.exp_action(a) for a in self.acts),
        )


def dedup(it):
    """Elements that are not equal to an earlier one."""
    out, seen = [], set()
    for x in it:
        k = flat(norm(x))
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def untyped_last_map(d):
    items = list(d.items())
    return [x for x in items if x[1][1]] + [x for x in items if not x[1][1]]


class TextGen(Gen):
    """Syntax trees over the symbols of a domain; variables carry no tags."""

    def __init__(self, r, dom, scope, quant):
        super().__init__(r, names=tuple(sorted(dom.preds)), vars_=tuple(scope) + ("free",) * (r.random() < 0.1) or ("x",),
                         consts=tuple(dom.ctag) or ("a",), types=tuple(dom.tnames) or ("t1",), typed=0.0)
        self.d, self.q = dom, quant
        self.loose = False
        self.bound = []
        self.nested = 2

    def var(self):
        pool = self.vars + tuple(self.bound) * 2
        return ("var", self.r.choice(pool), frozenset())

    def const(self):
        return ("const", self.r.choice(self.consts), None) if self.d.ctag else self.var()

    def fn(self):
        r = self.r
        return ("fn", r.choice(["f", "g", "h", "total-cost"] if r.random() < 0.2 else ["f", "g", "h"])) + tuple(self.term() for _ in range(r.choice([0, 1, 2])))

    def atom(self, d=1):
        x = self.r.random()
        return self.pred() if x < 0.7 else self.eq() if x < 0.85 else self.comp(d)

    def qv(self):
        r = self.r
        ns = r.sample(self.q, min(len(self.q), r.choice([1, 1, 2, 0])))
        out = frozenset(("var", n, frozenset(self.d.tagset())) for n in ns)
        return out

    def _quant(self, k, mk):
        q = self.qv()
        old = self.bound
        self.bound = old + [x[1] for x in q]
        try:
            return (k, q, mk())
        finally:
            self.bound = old

    def gd(self, d, quant=True):
        r = self.r
        if d > 0 and r.random() < 0.25:
            return self._quant(r.choice(["forall", "exists"]), lambda: self.gd(d - 1))
        return super().gd(d, quant=False)

    def effect(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.peff()
        if r.random() < 0.5:
            return ("and",) + tuple(self.ops(lambda: self.ceffect(d - 1), 0, 3))
        return self.ceffect(d)

    def ceffect(self, d, k=None):
        r = self.r
        if d <= 0 or (k is None and r.random() < 0.3):
            return self.peff()
        k = k or r.choice(["when", "forall_effect", "oneof"])
        if k == "when":
            e = ("and",) + tuple(self.ops(self.peff, 0, 3)) if r.random() < 0.5 else self.peff()
            return ("when", self.gd(d - 1), e)
        if k == "forall_effect":
            return self._quant(k, lambda: self.effect(d - 1))
        return ("oneof",) + tuple(self.ops(lambda: self.effect(d - 1), 1, 3))

    def peff(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return self.pred()
        if x < 0.75:
            return ("not", self.pred() if r.random() < 0.8 else self.eq())
        return self.assign(2)

    def num(self):
        r = self.r
        return ("num", r.choice([0, 1, 2, 3, 10, 0.5, 2.25, 1e-07, 123456789, 10.0, 1e17, 1.5e22, 0.000123, r.randint(0, 50), round(r.random() * 100, 4)]))


# ------------------------------------------------------------------ problems and plans
class Prob:
    """A random problem: syntax, text, expected view."""

    def __init__(self, r, reqs="rand"):
        self.r = r
        self.dname = r.choice(["dom", "d-1"])
        self.name = r.choice(["pb", "prob-1", "p_2"])
        self.reqs = r.choice([[], list(REQS_FULL), [Req.ADL], [Req.TYPING, Req.ADL, Req.STRIPS]]) if reqs == "rand" else reqs
        self.tnames = ["t1", "t2"]
        self.objs = untyped_last([(o, [r.choice(self.tnames + ["object"])] if r.random() < 0.6 else []) for o in r.sample(["a", "b", "c_2", "o1", "o2"], r.randint(0, 5))])
        self.with_objs = bool(self.objs) or r.random() < 0.3
        self.ctag = dict(self.objs)
        self.preds = {"p": [], "q": [], "r-1": []}
        self.init = []
        names = [o for o, _ in self.objs] + ["a", "zz"]
        for _ in range(r.randint(0, 6)):
            x = r.random()
            at = ("pred", r.choice(["p", "q", "r-1"])) + tuple(("const", r.choice(names), None) for _ in range(r.randint(0, 3)))
            if x < 0.55:
                self.init.append(at)
            elif x < 0.75:
                self.init.append(("not", at))
            else:
                f = ("fn", r.choice(["f", "g", "total-cost"])) + tuple(("const", r.choice(names), None) for _ in range(r.randint(0, 2)))
                self.init.append(("n=", f, ("num", r.choice([0, 1, 2.5, 100, 7, 0.001]))))
        g = ProbGen(r, self)
        ok = not self.reqs or Req.ADL in self.reqs
        self.goal = g.gd(r.choice([0, 1, 2, 3])) if ok else ("and",) + tuple(g.pred() for _ in range(r.randint(0, 3)))
        self.metric = None if r.random() < 0.5 else (r.choice(["minimize", "maximize"]), g.nexp(r.choice([0, 1, 2])))
        # the functions of a metric take names only
        if self.metric:
            self.metric = ("metric", self.metric[0], only_consts(self.metric[1]))

    def tokens(self):
        r = self.r
        out = ["define", P("problem", self.name), P(":domain", self.dname)]
        if self.reqs:
            out.append(P(":requirements", *[str(q) for q in self.reqs]))
        if self.with_objs:
            out.append(P(":objects", *tl(r, self.objs)))
        out.append(P(":init", *[self.init_tok(x) for x in self.init]))
        out.append(P(":goal", tr(r, self.goal)))
        if self.metric:
            out.append(P(":metric", self.metric[1], tr(r, self.metric[2])))
        return P(*out)

    def init_tok(self, x):
        return tr(self.r, x)

    def text(self):
        return text(self.r, self.tokens())

    def typed(self, v):
        """Arguments of atomic facts carry the type of the object."""
        if isinstance(v, tuple) and v and v[0] == "const":
            t = self.ctag.get(v[1])
            return ("const", v[1], t[0] if t else None)
        if isinstance(v, tuple):
            return tuple(self.typed(x) for x in v)
        return v

    def exp_view(self):
        init = dedup(self.init)
        return (
            "problem", self.name, self.dname, frozenset(self.reqs), fs(("const", o, t[0] if t else None) for o, t in self.objs),
            fs(norm(x) for x in init), norm(ref_build(self.goal)), norm(self.metric) if self.metric else None,
        )

    def exp_init_typed(self):
        return frozenset(self.typed(x) for x in self.init if x[0] != "n=")


def only_consts(v):
    if isinstance(v, tuple) and v and v[0] == "var":
        return ("const", "a", None)
    if isinstance(v, tuple):
        return tuple(only_consts(x) for x in v)
    return v


class ProbGen(TextGen):
    """Goals: quantified variables and any names."""

    def __init__(self, r, prob):
        Gen.__init__(self, r, names=("p", "q", "r-1"), vars_=("x", "y"), consts=tuple(o for o, _ in prob.objs) + ("zz",), types=("t1", "t2"), typed=0.0)
        self.d = prob
        self.q = ["x", "y", "v"]
        self.loose = False
        self.bound = []
        prob.tagset = lambda: r.choice([[], ["t1"], ["t1", "t2"], ["object"]])

    def const(self):
        return ("const", self.r.choice(self.consts), None)


# ------------------------------------------------------------------ helpers
def chain(e):
    """The exception and those it wraps."""
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        if x is None or x in out:
            continue
        out.append(x)
        todo += [getattr(x, "orig_exc", None), x.__cause__, x.__context__]
    return out


def short(t):
    t = re.sub(r"\s+", " ", t)
    return t if len(t) < 1500 else t[:1500] + "..."


def parse_need(kind, t, msg="rejected"):
    o, e = outcome(parser(kind), t)
    need(e is None, lambda: f"{msg}: {type(e).__name__}: {e}\n{short(t)}")
    return o


# ------------------------------------------------------------------ C11
GATES = {
    "or": (Req.DIS_PRECONDITION, {Req.DIS_PRECONDITION}), "imply": (Req.DIS_PRECONDITION, {Req.DIS_PRECONDITION}),
    "forall": (Req.UNIVERSAL_PRECONDITION, {Req.UNIVERSAL_PRECONDITION}),
    "exists": (Req.EXISTENTIAL_PRECONDITION, {Req.EXISTENTIAL_PRECONDITION}), "=": (Req.EQUALITY, {Req.EQUALITY}),
    "oneof": (Req.NON_DETERMINISTIC, {Req.NON_DETERMINISTIC}),
}


def gates_of(v):
    """Requirements the constructs of a syntax tree ask for."""
    out = set()
    for a in atoms(v):
        if a[0] in GATES and not (a[0] == "=" and len(a) != 3):
            out.add(GATES[a[0]][0])
    return out


def c11(r, i):
    x = r.random()
    single = r.random() < 0.5
    if single:
        reqs = r.sample(ALLREQ, r.randint(0, 3))
    else:
        reqs = [q for q in ALLREQ if r.random() < 0.5]
    have = closure(reqs)
    if x < 0.6:
        ft = None if r.random() < 0.75 else r.choice([[("t1", ["t2"]), ("t2", [])], [("t1", []), ("t2", [])], [("t1", ["object"])]])
        d = Dom(r, reqs=reqs, shadow=True, nonum=not (have & {Req.NUMERIC_FLUENTS}), force_types=ft)
        if Req.ACTION_COSTS not in reqs:
            d.funs.pop("total-cost", None)
        # functions used in formulas are not checked against the declared ones
        if ft:
            d.with_types = True
        asked = set()
        for a in d.acts:
            asked |= gates_of(tuple(f for f in a[2:] if isinstance(f, tuple)))
        for q in d.derived:
            asked |= gates_of(q[2])
        if d.with_types and any(p for _, p in d.types):
            asked.add(Req.TYPING)
        t = d.text()
        kind = "domain"
    else:
        if r.random() < 0.3:
            reqs = []
        if not reqs:
            have = set(ALLREQ)
        p = Prob(r, reqs=list(reqs))
        g = ProbGen(r, p)
        p.goal = g.gd(r.choice([1, 2, 3]))
        asked = gates_of(p.goal)
        t = p.text()
        kind = "problem"
    missing = asked - have
    o, e = outcome(parser(kind), t)
    ms = [y for y in chain(e) if isinstance(y, PDDLMissingRequirementError)] if e is not None else []
    if missing:
        need(ms, lambda: f"{sorted(q.value for q in missing)} not declared but {'accepted' if e is None else repr(e)}: {short(t)}")
        named = str(ms[0])
        need(any(re.search(re.escape(q.value) + r"(?![-\w])", named) for q in missing), lambda: f"error names {named!r}, missing {missing}: {short(t)}")
    else:
        need(not ms, lambda: f"rejected for {ms[0]} although {sorted(q.value for q in reqs)} is declared: {short(t)}")
        need(e is None, lambda: f"rejected: {e!r}: {short(t)}")


# ------------------------------------------------------------------ C12
def rand_tl(r, pool, types, either=False):
    """Random items [(name,[types])], with repetitions."""
    items = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        k = r.randint(1, 3)
        ty = [] if r.random() < 0.2 else r.sample(types, r.choice([1, 1, 2]) if either else 1)
        for _ in range(k):
            items.append((r.choice(pool), ty))
    items = untyped_last(items)
    return items


def rand_distinct(r, pool, types, either=False):
    ns = r.sample(pool, r.randint(0, len(pool)))
    return untyped_last([(n, [] if r.random() < 0.3 else r.sample(types, r.choice([1, 1, 2]) if either else 1)) for n in ns])


def c12(r, i):
    types = ["t1", "t2", "t3", "object"]
    rq = P(":requirements", ":typing", ":numeric-fluents")
    decl = P(":types", "t1", "t2", "t3")
    kind = r.choice(["types", "constants", "objects", "pred", "params", "quant", "functions"])
    pool = ["a", "b", "c", "d", "e-1", "F", "g_2"]
    mk = rand_distinct if r.random() < 0.6 else rand_tl
    if kind in ("types", "constants", "objects"):
        if kind == "types":
            pool = ["u1", "u2", "u3", "u4", "u5"]
            items = mk(r, pool, ["w1", "w2", "object"])
        else:
            items = mk(r, pool, types)
        dup = len({n for n, _ in items}) < len(items)
        body = P(f":{kind}", *tl(r, items))
        if kind == "objects":
            t = text(r, P("define", P("problem", "pb"), P(":domain", "d"), body, P(":init"), P(":goal", P("p"))))
            o, e = outcome(parser("problem"), t)
        else:
            t = text(r, P("define", P("domain", "d"), rq, decl if kind != "types" else [], body))
            o, e = outcome(parser("domain"), t)
        if dup:
            need(e is not None, lambda: f"repeated name accepted: {short(t)}")
            return
        need(e is None, lambda: f"rejected: {e!r}: {short(t)}")
        if kind == "types":
            got = [(str(k), v) for k, v in o.types.items()]
            want = [(n, None if not ty or ty == ["object"] else ty[0]) for n, ty in items]
            need(got == want, lambda: f"{short(t)}\n got  {got}\n want {want}")
        else:
            got = fs(map(view, o.constants if kind == "constants" else o.objects))
            want = fs(("const", n, ty[0] if ty else None) for n, ty in items)
            need(got == want, lambda: f"{short(t)}\n got  {got}\n want {want}")
        return
    if kind == "functions":
        fs_ = r.sample(pool, r.randint(1, 5))
        items = [(f, ["number"] if r.random() < 0.6 else []) for f in fs_]
        if r.random() < 0.25:
            items.append((r.choice(fs_), []))
        items = untyped_last(items)
        dup = len({n for n, _ in items}) < len(items)
        body, k = [], 0
        while k < len(items):
            j = k + 1
            while j < len(items) and items[j][1] == items[k][1] and (not items[k][1] or r.random() < 0.5):
                j += 1
            body += [P(f, "?x") for f, _ in items[k:j]] + (["-", "number"] if items[k][1] else [])
            k = j
        t = text(r, P("define", P("domain", "d"), rq, P(":predicates", P("p")), P(":functions", *body)))
        o, e = outcome(parser("domain"), t)
        if dup:
            need(e is not None, lambda: f"repeated function accepted: {short(t)}")
            return
        need(e is None, lambda: f"rejected: {e!r}: {short(t)}")
        got = [(str(f.name), v) for f, v in o.functions.items()]
        want = [(f, ty[0] if ty else None) for f, ty in items]
        need(got == want, lambda: f"{short(t)}\n got  {got}\n want {want}")
        return
    items = mk(r, pool, types, True)
    tags = {}
    bad = False
    for n, ty in items:
        if tags.setdefault(n, frozenset(ty)) != frozenset(ty):
            bad = True
    lst = tl(r, [("?" + n, ty) for n, ty in items])
    if kind == "pred":
        t = text(r, P("define", P("domain", "d"), rq, decl, P(":predicates", P("p", *lst))))
    elif kind == "params":
        t = text(r, P("define", P("domain", "d"), rq, decl, P(":predicates", P("p")), P(":action", "a", ":parameters", P(*lst))))
    else:
        t = text(r, P("define", P("domain", "d"), P(":requirements", ":adl"), decl, P(":predicates", P("p")),
                      P(":action", "a", ":parameters", P(), ":precondition", P("exists", P(*lst), P("p")))))
    o, e = outcome(parser("domain"), t)
    if bad:
        need(e is not None, lambda: f"variable with several type sets accepted: {short(t)}")
        return
    need(e is None, lambda: f"rejected: {e!r}: {short(t)}")
    want = [("var", n, frozenset(ty)) for n, ty in items]
    if kind == "pred":
        got = [view(x) for x in next(iter(o.predicates)).terms]
    elif kind == "params":
        if len(set(want)) < len(want):
            return
        got = [view(x) for x in next(iter(o.actions)).parameters]
    else:
        got = sorted(map(view, next(iter(o.actions)).precondition.variables), key=repr)
        want = sorted(set(want), key=repr)
    need(got == want, lambda: f"{short(t)}\n got  {got}\n want {want}")


# ------------------------------------------------------------------ C13
def cmp_domain(o, d, t):
    got, want = view(o), d.exp_view()
    if flat(got) != flat(want):
        for g, w, what in zip(got, want, ("", "name", "requirements", "types", "constants", "predicates", "derived", "functions", "actions")):
            if flat(g) != flat(w):
                raise Violation(f"{what} differ\n got  {g}\n want {w}\n{short(t)}")


def c13(r, i):
    x = r.random()
    if x < 0.55:
        d = Dom(r)
        t = d.text()
        if r.random() < 0.08 and d.acts:
            # an undeclared constant
            t2 = re.sub(r"\(p[ )]", "(p undeclared-c ", t, count=0)
            a = ("x9", [], ("pred", "p", ("const", "undeclared-c", None)), None)
            d.ctag["undeclared-c"] = None
            d.order.append(("a", a))
            t = d.text()
            _, e = outcome(parser("domain"), t)
            need(e is not None, lambda: f"undeclared constant accepted: {short(t)}")
            return
        o = parse_need("domain", t)
        cmp_domain(o, d, t)
    elif x < 0.85:
        p = Prob(r)
        t = p.text()
        o = parse_need("problem", t)
        v = view(o)
        got = v[:5] + (fs(norm(view(f)) for f in o.init), norm(v[6]), norm(v[7]) if v[7] else None)
        want = p.exp_view()
        need(flat(got) == flat(want), lambda: f"{short(t)}\n got  {got}\n want {want}")
        ti = frozenset(view(f) for f in o.init if view(f)[0] != "n=")
        need(ti <= p.exp_init_typed() and len(ti) == len({norm(y) for y in p.exp_init_typed()}), lambda: f"types of initial facts: {short(t)}\n{ti}")
    else:
        steps = [(r.choice(["go", "take-it", "x_1"]), [r.choice(["a", "b", "c-1"]) for _ in range(r.randint(0, 4))]) for _ in range(r.randint(0, 6))]
        t = text(r, [P(n, *ps) for n, ps in steps])
        if r.random() < 0.3:
            t = "\n".join(f"({n}{''.join(' ' + p for p in ps)})" for n, ps in steps) + "; cost = 3 (unit cost)"
        o = parse_need("plan", t)
        need(view(o) == ("plan",) + tuple((n, tuple(("const", p, None) for p in ps)) for n, ps in steps), lambda: f"{short(t)}\n{view(o)}")


# ------------------------------------------------------------------ C14
PRINT_CHILD = r"""
import sys, pickle
sys.path.insert(0, sys.argv[1])
from rt.objects import parser
data = pickle.load(sys.stdin.buffer)
out = []
for kind, t in data:
    o = parser(kind)(t)
    out.append([str(o)] + ([str(a) for a in sorted(o.actions, key=lambda a: a.name)] if kind == "domain" else []))
sys.stdout.buffer.write(pickle.dumps(out))
"""


def other_seed(r, data):
    """Texts printed by an interpreter with another hash seed."""
    p = subprocess.run([sys.executable, "-B", "-c", PRINT_CHILD, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))],
                       input=pickle.dumps(data), capture_output=True, timeout=120,
                       env={**os.environ, "PYTHONHASHSEED": str(r.randint(1, 10**6))})
    need(p.returncode == 0, lambda: f"printing failed: {p.stderr.decode()[-500:]}")
    return pickle.loads(p.stdout)


def print_seeds(r, kinds):
    data = []
    for _ in range(25):
        k = r.choice(kinds)
        data.append((k, (Dom(r, shadow=True) if k == "domain" else Prob(r)).text()))
    ref = other_seed(r, data)
    for _ in range(2):
        for (k, t), a, b in zip(data, ref, other_seed(r, data)):
            need(a == b, lambda: f"printed differently under another hash seed\n{a}\n{b}")


def c14(r, i):
    if i % 250 == 0:
        print_seeds(r, ["domain"])
    d = Dom(r, shadow=r.random() < 0.4, derived=False, actions=1)
    t = d.text()
    o = parse_need("domain", t)
    name, params, pre, eff = d.acts[0]
    a = next(iter(o.actions))
    for what, f in (("precondition", a.precondition), ("effect", a.effect)):
        if f is None:
            continue
        s = str(f)
        need(s == str(f), "printing twice gives different texts")
        hash(f)
        need(s == str(f), "hashing changes the printed text")
        import copy as cp

        need(str(cp.deepcopy(f)) == s, "a copy is printed differently")
        rest = P("define", P("domain", "dd"), P(":requirements", *[str(q) for q in d.reqs]), d.section_types() if d.with_types and d.types else [],
                 P(":constants", *tl(r, d.consts)) if d.consts else [],
                 P(":action", name, ":parameters", P(*tl(r, [("?" + n, ty) for n, ty in params])), ":" + what, "@@"))
        t2 = text(r, rest).replace("@@", s)
        o2, e = outcome(parser("domain"), t2)
        need(e is None, lambda: f"the printed {what} is not accepted: {e!r}\n{s}\nfrom {short(t)}")
        b = next(iter(o2.actions))
        f2 = b.precondition if what == "precondition" else b.effect
        need(view(f2) == view(f), lambda: f"{what} read back differs\n {view(f)}\n {view(f2)}\n text {s}")
        need(f2 == f and f == f2 and hash(f2) == hash(f), lambda: f"{what} read back is not equal: {s}")
        need(str(f2) == s, lambda: f"printed again differently: {s}\n{str(f2)}")


# ------------------------------------------------------------------ C15
def sexp(t):
    """S-expressions of a text."""
    ts = re.findall(r"[()]|[^\s()]+", t)
    stack = [[]]
    for x in ts:
        if x == "(":
            stack.append([])
        elif x == ")":
            y = stack.pop()
            stack[-1].append(y)
        else:
            stack[-1].append(x)
    need(len(stack) == 1, "unbalanced text")
    return stack[0]


def c15(r, i):
    if i % 250 == 0:
        print_seeds(r, ["domain", "problem"])
    x = r.random()
    if x < 0.5:
        d = Dom(r, hier="declared", shadow=True)
        t = d.text()
        o = parse_need("domain", t)
        s = str(o)
        o2, e = outcome(parser("domain"), s)
        need(e is None, lambda: f"the printed domain is not accepted: {e!r}\n{s}\nfrom {short(t)}")
        need(o2 == o and o == o2, lambda: f"the domain read back is not equal\n{s}\n{view(o)}\n{view(o2)}")
        need(view(o2) == view(o), lambda: f"the domain read back differs\n{s}\n{view(o)}\n{view(o2)}")
        need(str(o2) == s and str(o) == s, lambda: f"printed differently\n{s}\n{str(o2)}")
        secs = sexp(s)[0]
        by = {}
        for q in secs[1:]:
            by.setdefault(q[0], []).append(q)
        cnt = lambda k: len([y for q in by.get(k, []) for y in q[1:] if isinstance(y, list)])  # noqa
        need(cnt(":predicates") == len(o.predicates), lambda: f"predicates printed {cnt(':predicates')} times\n{s}")
        need(cnt(":functions") == len(o.functions), lambda: f"functions\n{s}")
        need(len(by.get(":action", [])) == len(o.actions), lambda: f"actions\n{s}")
        need(len(by.get(":derived", [])) == len(o.derived_predicates), lambda: f"derived\n{s}")
        need(sum(len(q) - 1 for q in by.get(":requirements", [])) == len(o.requirements), lambda: f"requirements\n{s}")
        for k, xs in ((":constants", [str(c.name) for c in o.constants]), (":types", [str(y) for y in o.types])):
            body = [y for q in by.get(k, []) for y in q[1:]]
            names = [y for j, y in enumerate(body) if y != "-" and (j == 0 or body[j - 1] != "-")]
            need(sorted(names) == sorted(xs), lambda: f"{k} printed as {names}\n{s}")
        sh = lambda it: shuffled(r, it)  # noqa
        o3 = Domain(o.name, sh(o.requirements), dict(sh(o.types.items())), sh(o.constants), sh(o.predicates), sh(o.derived_predicates),
                    dict(sh(o.functions.items())), sh(o.actions))
        need(str(o3) == s, lambda: f"the text depends on the order given\n{s}\n{str(o3)}")
        need(o3 == o, "the same domain built in another order is not equal")
    elif x < 0.85:
        p = Prob(r)
        t = p.text()
        o = parse_need("problem", t)
        s = str(o)
        o2, e = outcome(parser("problem"), s)
        need(e is None, lambda: f"the printed problem is not accepted: {e!r}\n{s}\nfrom {short(t)}")
        need(o2 == o and o == o2, lambda: f"the problem read back is not equal\n{s}\n{view(o)}\n{view(o2)}")
        need(view(o2)[:5] == view(o)[:5] and set(map(view, o2.objects)) == set(map(view, o.objects)), lambda: f"the problem read back differs\n{s}")
        need(str(o2) == s and str(o) == s, lambda: f"printed differently\n{s}\n{str(o2)}")
        by = {}
        for q in sexp(s)[0][1:]:
            by.setdefault(q[0], []).append(q)
        need(len(by[":init"]) == 1 and len(by[":init"][0]) - 1 == len(o.init), lambda: f"initial facts\n{s}")
        body = [y for q in by.get(":objects", []) for y in q[1:]]
        names = [y for j, y in enumerate(body) if y != "-" and (j == 0 or body[j - 1] != "-")]
        need(sorted(names) == sorted(str(c.name) for c in o.objects), lambda: f"objects printed as {names}\n{s}")
        o3 = Problem(o.name, domain_name=o.domain_name, requirements=shuffled(r, o.requirements), objects=shuffled(r, o.objects),
                     init=shuffled(r, o.init), goal=o.goal, metric=o.metric)
        need(str(o3) == s, lambda: f"the text depends on the order given\n{s}\n{str(o3)}")
    else:
        steps = [(r.choice(["go", "take-it", "x_1"]), [r.choice(["a", "b", "c-1"]) for _ in range(r.randint(0, 4))]) for _ in range(r.randint(0, 6))]
        o = parse_need("plan", text(r, [P(n, *ps) for n, ps in steps]))
        s = str(o)
        o2, e = outcome(parser("plan"), s)
        need(e is None and o2 == o and view(o2) == view(o) and str(o2) == s, lambda: f"the plan read back differs: {e!r}\n{s}\n{view(o)}")
        need(len(sexp(s)) == len(steps), "number of steps printed")


def shuffled(r, it):
    x = list(it)
    r.shuffle(x)
    return x


# ------------------------------------------------------------------ C18
def broken(r, t):
    """A text that probably fails, in any phase of parsing."""
    x = r.random()
    if x < 0.3:
        k = r.randrange(1, len(t))
        return t[:k]
    if x < 0.5:
        ts = t.split(" ")
        k = r.randrange(len(ts))
        return " ".join(ts[:k] + ts[k + 1:])
    if x < 0.7:
        return t.rstrip()[:-1] + " (:action zz :parameters (?u - t1) :precondition (p undeclared-c ?u)))"
    if x < 0.85:
        return t.rstrip()[:-1] + " (:action zz :parameters (?x - nope ?y) :precondition (p ?x)))"
    return t.replace("p", "and", 1)


def c18_text(r, kind):
    if kind == "domain":
        x = r.random()
        reqs = None if x < 0.5 else r.sample(ALLREQ, r.randint(0, 4))
        d = Dom(r, reqs=reqs, shadow=True, nonum=reqs is not None)
        if r.random() < 0.15:
            d.consts = []
        t = d.text()
    elif kind == "problem":
        p = Prob(r)
        if r.random() < 0.2:
            p.reqs = []
        if r.random() < 0.2:
            p.with_objs = False
        t = p.text()
    else:
        t = text(r, [P(r.choice(["go", "x"]), *[r.choice(["a", "b"]) for _ in range(r.randint(0, 3))]) for _ in range(r.randint(0, 4))])
    return broken(r, t) if r.random() < 0.4 and t else t


def result(f, t):
    o, e = outcome(f, t)
    if e is not None:
        return o, ("error", type(e).__name__, canon_msg(str(e)))
    return o, ("ok", view(o), str(o))


def canon_msg(s):
    """Error text without the order of sets."""
    return " ".join(sorted(re.findall(r"[\w?-]+", s)))


def c18(r, i):
    """A history of texts, each parsed by the parsers used before; the last one also where nothing was parsed before."""
    for k in ("domain", "problem", "plan"):
        parser(k)  # built, not used: what parses is a child
    why, hist, last = apart(lambda: history(r))
    need(why is None, lambda: why)
    k, t = hist[-1]
    first = apart(lambda: result(parser(k), t)[1])
    need(last == first, lambda: f"after {len(hist) - 1} earlier texts: {str(last)[:700]}\nas the first text: {str(first)[:700]}\n{short(t)}"
         + "".join(f"\nearlier {x}: {short(y)}" for x, y in hist[:-1]))


def apart(f):
    """The value of f() in a child process, which leaves nothing behind here."""
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(rd)
            with os.fdopen(wr, "wb") as g:
                try:
                    x = ("value", f())
                except Exception as e:  # noqa
                    x = ("raised", f"{type(e).__name__}: {e}")
                g.write(pickle.dumps(x))
            code = 0
        finally:
            os._exit(code)
    try:
        os.close(wr)
        with os.fdopen(rd, "rb") as g:
            data = g.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    how, x = pickle.loads(data)
    if how == "raised":
        raise RuntimeError(x)
    return x


def history(r):
    """What is wrong with it (or None), the texts, and the result for the last one."""
    kinds = ["domain", "domain", "problem", "problem", "plan"]
    old = []
    hist = []
    had = hasattr(sys, "tracebacklimit")
    mode = r.choice(["none", "set", "del"])
    if mode == "set":
        sys.tracebacklimit = 7
    elif mode == "del" and had:
        del sys.tracebacklimit
    before = getattr(sys, "tracebacklimit", None), hasattr(sys, "tracebacklimit"), sys.getrecursionlimit()
    for _ in range(r.randint(2, 6)):
        k = r.choice(kinds)
        t = c18_text(r, k)
        o, res = result(parser(k), t)
        hist.append((k, t, res))
        texts = [x[:2] for x in hist]
        after = getattr(sys, "tracebacklimit", None), hasattr(sys, "tracebacklimit"), sys.getrecursionlimit()
        if after != before:
            return f"interpreter settings {before} became {after} after {res[0]}", texts, res
        if o is not None:
            old.append((o, res))
        for q, w in old:
            if (view(q), str(q)) != w[1:]:
                return f"an object returned earlier has changed: {short(str(q))}", texts, res
    if r.random() < 0.3:
        k0, t0, res0 = r.choice(hist)
        _, again = result(parser(k0), t0)
        if again != res0:
            return f"parsing the text again: {str(res0)[:700]}\n now {str(again)[:700]}\n{short(t0)}", texts, res
    return None, texts, res


# ------------------------------------------------------------------ C19
def c19(r, i):
    n = r.randint(1, 6)
    ts = [f"t{j}" for j in range(n)]
    types = {}
    for j, t in enumerate(ts):
        x = r.random()
        types[t] = None if x < 0.15 or not j else "object" if x < 0.2 else ts[j - 1] if x < 0.7 else r.choice(ts[:j])
    cyc = r.random() < 0.07
    if cyc:
        types[r.choice(ts)] = r.choice(ts)
    ref_t = {k: (None if v == "object" else v) for k, v in types.items()}
    legal = ref_types_ok(ref_t, {Req.TYPING})
    tset = lambda p: [] if r.random() < p else ["object"] if r.random() < 0.07 else sorted(r.sample(ts, min(n, r.choice([1, 1, 2]))))  # noqa
    k = r.randint(0, 4)
    dvars = untyped_last([(x, tset(0.3)) for x in r.sample(["x", "y", "z", "w", "v"], k)])
    k2 = k if r.random() < 0.95 else r.randint(0, 4)
    head = untyped_last([(x, tset(0.5)) for x in r.sample(["x", "y", "z", "w", "v"], k2)])
    pname = "p" if r.random() < 0.95 else "undefined"

    class D0:
        preds = {"q": [], "p": []}
        ctag = {"a": "t0", "b": None}
        tnames = ts

        def tagset(self):
            return tset(0.4)

    g = TextGen(r, D0(), [x for x, _ in head] or ["x"], ["x", "y", "z", "u"])
    cond = g.gd(r.choice([0, 1, 2, 3, 4]))
    decl = [(t, [p] if p else []) for t, p in types.items()]
    r.shuffle(decl)
    notypes = False
    t = text(r, P(
        "define", P("domain", "d"), P(":requirements", ":typing", ":adl", ":derived-predicates", ":numeric-fluents"),
        P(":types", *tl(r, untyped_last(decl))), P(":constants", "a", "-", "t0", "b"),
        P(":predicates", P("q"), P("p", *tl(r, [("?" + x, y) for x, y in dvars]))),
        P(":derived", P(pname, *tl(r, [("?" + x, y) for x, y in head])), tr(r, cond))))
    o, e = outcome(parser("domain"), t)
    ok = legal and pname == "p" and k2 == k
    if ok:
        for (_, h), (_, d) in zip(head, dvars):
            if h and d and "object" not in d:
                for x in h:
                    c, seen = x, set()
                    while c is not None and c not in d and c not in seen:
                        seen.add(c)
                        c = ref_t.get(c)
                    if c is None or c not in d:
                        ok = False
    if not ok:
        need(e is not None, lambda: f"accepted: {short(t)}")
        return
    need(e is None, lambda: f"rejected with {e!r}: {short(t)}")
    tags = {}
    for (x, h), (_, d) in zip(head, dvars):
        if h or d:
            tags[x] = frozenset(h or d)
    f = Dom.__new__(Dom)
    f.ctag = D0.ctag
    pred = ("pred", "p") + tuple(("var", x, tags.get(x, frozenset())) for x, _ in head)
    want = ("derived", pred, ref_retag(f.expected(cond, {}), tags))
    got = view(next(iter(o.derived_predicates)))
    need(flat(got) == flat(want), lambda: f"{short(t)}\n got  {got}\n want {want}")
