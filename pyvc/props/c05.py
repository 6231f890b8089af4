"""C05: equality is an equivalence that agrees with hashing."""
import copyreg
import inspect

from pyvc import verify
from pyvc.obl import *  # noqa
from pyvc.props import c17
from pyvc.props import domain as dom
from pyvc.same import Same
from pyvc.world import *  # noqa
from specs import c05 as s

SPEC = {lt.Constant: s.constant, lt.Variable: s.variable, lp.Predicate: s.atom, lf.NumericFunction: s.atom, lp.EqualTo: s.equal_to,
        lp.DerivedPredicate: s.derived, lb.Not: s.argument, lb.ForallCondition: s.quantified, lb.ExistsCondition: s.quantified,
        le.When: s.when, le.Forall: s.forall, lf.NumericValue: s.value, lf.Metric: s.metric, Action: s.action}
for c in CONN + BINFUN:
    SPEC[c] = s.operands
KINDS = tuple(SPEC)
TKind = TCls(*KINDS)
FOREIGN = {"None": TNone, "str": TStr, "number": TNum, "tuple": TSeq(TKind), "list": TSeq(TKind, "list"), "set": TSet(TKind),
           "requirement": TReq}


def special(it, x, name):
    """type(x).name, bound to x: how Python finds a special method."""
    m = it.getattr_(x, name)
    if m is None:
        raise PyRaise(TypeError)
    return m


def obj(x):
    return isinstance(x, Obj) or isinstance(x, Sym) and x.ty.kind == "cls"


def sub_first(it, x, y, name):
    """Does Python ask y first (its class is a proper subclass that overrides the method)?"""
    if not obj(y):
        return False
    cx, cy = it.exact(x) if isinstance(x, Sym) else x.cls, None
    cs = it.classes_of(y)
    subs = {c for c in cs if c is not cx and issubclass(c, cx)}
    if not subs:
        return False
    if isinstance(y, Sym) and not it.narrow(y, subs):
        return False
    cy = it.exact(y) if isinstance(y, Sym) else y.cls
    return inspect.getattr_static(cy, name) is not inspect.getattr_static(cx, name)


def dunder_eq(it, x, y):
    """x == y as Python evaluates it, with the real methods; == between components is by contract."""
    first = sub_first(it, x, y, "__eq__")
    for p, q in ((y, x), (x, y)) if first else ((x, y), (y, x)):
        if not obj(p):
            continue
        r = it.call(special(it, p, "__eq__"), [q], {})
        if r is not NotImplemented:
            return it.truthz(r)
    return b.is_(it, x, y) if obj(x) and obj(y) and isinstance(x, Sym) and isinstance(y, Sym) and x.t.eq(y.t) else False


def dunder_hash(it, x):
    r = it.call(special(it, x, "__hash__"), [], {})
    if not (is_z3i(r) or isinstance(r, int) and not isinstance(r, bool)):
        raise PyRaise(TypeError)
    return r


def sym(it, name, ty):
    return it.mk(z3.Const(name, V), ty)


def only_memo(it, mark):
    bad = [w for w in it.ctx.writes[mark:] if w[1] not in it.w.memo_fields]
    if bad:
        Same(it).differ(f"frame: write to {[k for _, k in bad]}")


def eq_ob(w, cls):
    def spec(it, a):
        return it.truthz(it.call(SPEC[cls], a, {}))

    return refine(f"C05.eq.{cls.__module__.split('.')[-1]}.{cls.__name__}", w, args_of(("x", TCls(cls)), ("y", TKind)),
                  lambda it, a: dunder_eq(it, *a), spec, fns=[cls.__eq__], seconds=60)


def foreign_ob(w, nm, ty):
    return refine(f"C05.eq.foreign.{nm}", w, args_of(("x", TKind), ("y", ty)), lambda it, a: dunder_eq(it, *a), s.foreign,
                  fns=[c.__eq__ for c in KINDS], seconds=60)


def raises_nothing(f):
    def body(it):
        try:
            return f(it)
        except PyRaise as e:
            Same(it).differ(f"raises {e.cls}")

    return body


def spec_eq(it, x, y):
    """The contract of == (C05.eq)."""
    for c in sorted(it.classes_of(x), key=lambda c: (c.__module__, c.__qualname__)):
        if it.narrow(x, {c}) if isinstance(x, Sym) else x.cls is c:
            return it.truthz(it.call(SPEC[c], [x, y], {}))
    raise Infeasible()


def laws_ob(w, cls):
    """Reflexive, symmetric and transitive: lemmas over the contracts of ==."""

    def body(it):
        x, y = sym(it, "x", TCls(cls)), sym(it, "y", TKind)
        Same(it).prove(b_(spec_eq(it, x, x)), "reflexive")
        if not it.truth(spec_eq(it, x, y)):
            Same(it).prove(z3.Not(b_(spec_eq(it, y, x))), "symmetric")
            return "different"
        Same(it).prove(b_(spec_eq(it, y, x)), "symmetric")
        z = sym(it, "z", TKind)
        if not it.truth(spec_eq(it, y, z)):
            return "equal"
        Same(it).prove(b_(spec_eq(it, x, z)), "transitive")
        return "all equal"

    nm = f"C05.lemma.equivalence.{cls.__module__.split('.')[-1]}.{cls.__name__}"
    return Ob(nm, [], lambda: verify.prove(nm, w, raises_nothing(body)))


def b_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def related(it, us, vs):
    """Collections are equal exactly if their elements are (facts about the pairs that were hashed)."""
    for u in us:
        for v in vs:
            if isinstance(u, Seq) and isinstance(v, Seq) and u.kind == v.kind:
                b.seq_eq(it, u, v)
            elif isinstance(u, SetV) and isinstance(v, SetV) and u.expr[0] == v.expr[0] == "sym":
                b.set_ext(it, u, v)


def hash_ob(w, cls):
    """Equal objects have equal hashes, whether or not they were hashed before; equality does not depend on it."""

    def body(it):
        mark = len(it.ctx.writes)
        x, y = sym(it, "x", TCls(cls)), sym(it, "y", TKind)
        e = it.truth(spec_eq(it, x, y))
        h1, h2 = dunder_hash(it, x), None
        Same(it).same(dunder_hash(it, x), h1, "hash computed again")
        only_memo(it, mark)
        if it.truth(dunder_eq(it, x, y)) != e:
            Same(it).differ("equality after hashing")
        if not e:
            return "different"
        k = len(it.hashed)
        h2 = dunder_hash(it, y)
        related(it, it.hashed[:k], it.hashed[k:])
        Same(it).same(h1, h2, "hash of equal objects")
        Same(it).same(dunder_hash(it, y), h2, "hash computed again")
        only_memo(it, mark)
        return "equal"

    nm = f"C05.hash.{cls.__module__.split('.')[-1]}.{cls.__name__}"
    return Ob(nm, [qual(cls.__eq__), qual(cls.__hash__)], lambda: verify.prove(nm, w, raises_nothing(body)))


def make_obj(it, cls):
    """An object built by the real constructor from opaque components."""
    sh = next(SHAPES[c] for c in cls.__mro__ if c in SHAPES)
    args = [sym(it, nm, ty) for nm, ty in sh["pos"]]
    if sh.get("var"):
        args.append(("*", sym(it, sh["var"][0], TSeq(sh["var"][1]))))
    it.ctx.assume_ok += 1
    try:
        o = Obj(cls)
        it.call_function(cls.__init__, [o] + args, {})
    except PyRaise:
        raise Infeasible()
    finally:
        it.ctx.assume_ok -= 1
    return o


def restore_ob(w0, cls, hashed, shallow):
    """The state protocol of copy and pickle: the restored object is equal and hashes as a new object does there."""

    def body(it):
        it.w.seed = ""
        x, fresh = make_obj(it, cls), make_obj(it, cls)
        if hashed:
            h0 = dunder_hash(it, x)
        state = it.call(special(it, x, "__getstate__"), [], {})
        if state is None:
            Same(it).differ("no state")
        if not shallow and isinstance(state, DictOf):
            state = b.fields_dict(it, state)  # through the byte stream: a new dict of restored components
        if not shallow:
            it.w.seed = "@restored"  # another interpreter: other hashes
        y = Obj(cls)
        m = it.getattr_(y, "__setstate__", None)
        if m is not None:
            it.call(m, [state], {})
        else:  # object's own protocol
            b.fd_update(it, DictOf(y), state)
        Same(it).prove(b_(dunder_eq(it, x, y)), "equal to the original")
        Same(it).prove(b_(dunder_eq(it, y, x)), "equal to the original")
        hy = dunder_hash(it, y)
        Same(it).same(hy, dunder_hash(it, fresh), "hash of the restored object")
        Same(it).same(dunder_hash(it, y), hy, "hash computed again")
        for f, v in fresh.fields.items():
            if f not in it.w.memo_fields:
                if f not in y.fields or f not in x.fields:
                    Same(it).differ(f"field {f} lost")
                Same(it).same(y.fields[f], v, f"field {f}")
                Same(it).same(x.fields[f], v, f"field {f} of the original")
        if not shallow:
            it.w.seed = ""
        Same(it).same(dunder_hash(it, x), h0 if hashed else dunder_hash(it, fresh0(it, cls)), "hash of the original afterwards")
        return "ok"

    def fresh0(it, cls_):
        return make_obj(it, cls_)

    nm = f"C05.{'copy' if shallow else 'pickle'}.{'hashed' if hashed else 'new'}.{cls.__module__.split('.')[-1]}.{cls.__name__}"
    return Ob(nm, [qual(m) for m in (cls.__hash__, getattr(cls, "__getstate__"), getattr(cls, "__setstate__", "object.__setstate__"))
                   if inspect.isfunction(m)],
              lambda: verify.prove(nm, w0, raises_nothing(body)))


# ------------------------------------------------------------ domains, problems, plans
def core_args(tag, cls, dk):
    """Arbitrary arguments of a constructor."""
    t = lambda n, ty: (f"{tag}.{n}", ty)  # noqa
    none = lambda it: None  # noqa
    if cls is Domain:
        return [t("name", TStr), t("requirements", TSet(TReq)), t("types", TMap(TStr, TOpt(TStr))), t("constants", TSet(TConstant)), t("predicates", TSet(TCls(lp.Predicate))),
                t("derived", TSet(TCls(lp.DerivedPredicate))), t("functions", TMap(dom.TFun, TOpt(TName))), t("actions", TSet(TCls(Action)))]
    if cls is Plan:
        return [t("actions", TSeq(TStep, "list"))]
    return [t("name", TStr), t("domain", c17.TDom) if dk == "domain" else none, none if dk == "domain" else t("domain_name", TStr), t("requirements", TSet(TReq)),
            t("objects", TSet(TConstant)), t("init", TSet(TForm)), t("goal", TForm), t("metric", TOpt(TCls(lf.Metric)))]


def built(it, tag, cls, dk):
    """An object that the real constructor accepts."""
    args = [a(it) if callable(a) else it.mk(z3.Const(a[0], V), a[1]) for a in core_args(tag, cls, dk)]
    it.ctx.assume_ok += 1
    try:
        return it.type_call(cls, args, {}), args
    except PyRaise:
        raise Infeasible()
    finally:
        it.ctx.assume_ok -= 1


CORE_SPEC = {Domain: s.domain, Problem: s.problem, Plan: s.plan}


def core_eq_ob(w, cls, d1, d2):
    """== of two domains, problems or plans: everything they report is equal."""

    def body(it):
        x, y = built(it, "x", cls, d1)[0], built(it, "y", cls, d2)[0]
        want = it.truth(it.call(CORE_SPEC[cls], [x, y], {}))
        mark = len(it.ctx.writes)
        for p, q in ((x, y), (y, x)):
            try:
                r = dunder_eq(it, p, q)
            except PyRaise as e:
                Same(it).differ(f"== raises {e.cls}")
            Same(it).prove(b_(r) == want, "equal exactly if the components are")
        only_memo(it, mark)
        return "equal" if want else "different"

    nm = f"C05.eq.core.{cls.__name__}" + (f".{d1}.{d2}" if cls is Problem else "")
    return Ob(nm, [qual(cls.__eq__)], lambda: verify.prove(nm, w, body, seconds=120.0), 120)


def core_foreign_ob(w, cls, nm, ty):
    def body(it):
        x = built(it, "x", cls, "name")[0]
        y = built(it, "y", ty, "name")[0] if isinstance(ty, type) else it.mk(z3.Const("y", V), ty)
        for p, q in ((x, y), (y, x)):
            if obj(p):
                Same(it).prove(z3.Not(b_(dunder_eq(it, p, q))), "equal to something else")
        return "different"

    n = f"C05.eq.core.{cls.__name__}.foreign.{nm}"
    return Ob(n, [qual(cls.__eq__)], lambda: verify.prove(n, w, raises_nothing(body)))


def core_obligations():
    w = c17.problem_world()
    dw = dom.domain_world()
    for x in (w, dw):
        x.extensional = True
    out = [core_eq_ob(dw, Domain, "", ""), core_eq_ob(base_world(), Plan, "", "")]
    for d1 in ("name", "domain"):
        for d2 in ("name", "domain"):
            out.append(core_eq_ob(w, Problem, d1, d2))
    for cls, x in ((Domain, dw), (Problem, w), (Plan, base_world())):
        for nm, ty in {**FOREIGN, "kinds": TKind, **({"domain": c17.TDom} if cls is not Domain else {})}.items():
            out.append(core_foreign_ob(x, cls, nm, ty))
    return out


def obligations():
    w = base_world()
    w.extensional = True
    out = []
    for c in KINDS:
        out.append(eq_ob(w, c))
        out.append(laws_ob(w, c))
        out.append(hash_ob(w, c))
        for h in (False, True):
            out.append(restore_ob(w, c, h, False))
            out.append(restore_ob(w, c, h, True))
    for nm, ty in FOREIGN.items():
        out.append(foreign_ob(w, nm, ty))
    return out + core_obligations()


TRUSTED = [
    "copy and pickle use __reduce_ex__(2 or more): cls.__new__(cls), then __setstate__(state) with the (restored) value of __getstate__()",
    "== and hash on components are an equivalence and agree with each other (induction on the depth of the object: these obligations are the step)",
]
