"""C04: building numeric expressions."""
import z3

from pyvc.lemma import lemma
from pyvc.obl import *  # noqa
from pyvc.props import c01, c03
from pyvc.world import *  # noqa

TNumExpr = TCls(*(NUMERIC))


def obligations():
    out = []
    for c in (lf.Plus, lf.Times):
        out += c03.build_obs("C04", c, False, TNumExpr)
    for c in BINFUN:
        out.append(c03.keep_obs("C04", c, TNumExpr))
        if c not in (lf.Plus, lf.Times):
            out.append(c03.plain_obs("C04", c, TNumExpr))
    w = base_world()
    out.append(refine("C04.value.NumericValue", w, args_of(("v", TNum)), lambda it, a: it.getattr_(it.construct(lf.NumericValue, a, {}), "value"),
                      lambda it, a: a[0], fns=[lf.NumericValue.__init__, lf.NumericValue.value]))
    for c in BINFUN + (lf.NumericFunction, lf.NumericValue, lf.Metric):
        out.append(refine(f"C04.instantiate.{c.__name__}", w, args_of(("self", TCls(c)), ("m", TMap(TVar, TTerm), True)),
                          c.instantiate, c01.SPECS[c]))
    return out + lemmas()


def lemmas():
    """The sum (product) over flat(new, stack) is the sum (product) over new and the stack: induction on its nodes."""
    out = []
    V_ = V
    for cls, op in (("Plus", lambda x, y: x + y), ("Times", lambda x, y: z3.Function("times", R, R, R)(x, y))):
        TOT = z3.Function("TOTAL", V_, R)
        val = z3.Function("val", V_, R)
        flat = z3.Function("flat", V_, V_, V_)
        new, st, e, emp, ops, new2, st2, stk = (z3.Const(x, V_) for x in "new st e empty ops new2 st2 stack".split())
        unit = z3.RealVal(0 if cls == "Plus" else 1)
        app = lambda s_, t_, x_: TOT(t_) == op(TOT(s_), x_)  # noqa
        IH = lambda n, s_: TOT(flat(n, s_)) == op(TOT(n), TOT(s_))  # noqa
        a, b_, c = TOT(new), TOT(st), val(e)
        # associativity and commutativity at the operands used
        ac = [op(op(a, c), b_) == op(a, op(b_, c)), op(TOT(new), unit) == TOT(new)]
        hyps = [app(st, stk, val(e))] + ac
        goal = IH(new, stk)
        out.append(lemma(f"C04.lemma.value.{cls}", [
            ("empty", [TOT(emp) == unit, flat(new, emp) == new] + ac, IH(new, emp)),
            ("same kind", hyps + [flat(new, stk) == flat(new, st2), app(st, st2, TOT(ops)), val(e) == TOT(ops), IH(new, st2)], goal),
            ("other", hyps + [flat(new, stk) == flat(new2, st), app(new, new2, val(e)), IH(new2, st)], goal),
        ]))
    return out


TRUSTED = ["addition and multiplication of numbers are associative and commutative with units 0 and 1 (exact arithmetic)"]
ASSUME = c03.ASSUME
