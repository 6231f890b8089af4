"""The grammar, production by production, and what each production denotes (C11, C13).

A production's function gets the state st (what the text declared before) and what the production says: names, texts
that vary, values of the parts; None where an optional part is left out.
"""
from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.exceptions import PDDLMissingRequirementError, PDDLParsingError
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic.functions import Assign, Decrease, Divide
from pddl.logic.functions import EqualTo as NumericEqual
from pddl.logic.functions import (GreaterEqualThan, GreaterThan, Increase, LesserEqualThan, LesserThan, Metric, Minus, NumericFunction, NumericValue, Plus,
                                  ScaleDown, ScaleUp, Times)
from pddl.logic.predicates import EqualTo, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements


class St:
    """What the text has declared: requirements, constants and objects with their types, parameters of the action."""


def declared_of(keys):
    return {Requirements(k[1:]) for k in keys}


REQUIREMENTS = {
    ":action-costs": Requirements.ACTION_COSTS,
    ":adl": Requirements.ADL,
    ":conditional-effects": Requirements.CONDITIONAL_EFFECTS,
    ":derived-predicates": Requirements.DERIVED_PREDICATES,
    ":disjunctive-preconditions": Requirements.DIS_PRECONDITION,
    ":equality": Requirements.EQUALITY,
    ":existential-preconditions": Requirements.EXISTENTIAL_PRECONDITION,
    ":fluents": Requirements.FLUENTS,
    ":negative-preconditions": Requirements.NEG_PRECONDITION,
    ":non-deterministic": Requirements.NON_DETERMINISTIC,
    ":numeric-fluents": Requirements.NUMERIC_FLUENTS,
    ":object-fluents": Requirements.OBJECT_FLUENTS,
    ":quantified-preconditions": Requirements.QUANTIFIED_PRECONDITION,
    ":strips": Requirements.STRIPS,
    ":typing": Requirements.TYPING,
    ":universal-preconditions": Requirements.UNIVERSAL_PRECONDITION,
}


def need(st, *rs):
    """One of these must be declared; the first is the one reported."""
    if st.requirements is None:
        return
    for r in rs:
        if r in st.requirements:
            return
    raise PDDLMissingRequirementError(rs[0])


def term(st, t):
    if isinstance(t, Constant):
        return t
    params = {n: Variable(n, tags) for n, tags in st.params}
    return params[t] if t in params else Variable(t, set())


def terms(st, ts):
    return [term(st, t) for t in ts]


def variables(pairs):
    return [Variable(n, tags) for n, tags in pairs]


def same(st, x):
    return x


def empty(st):
    return And()


# conditions

def gd_or(st, xs):
    need(st, Requirements.DIS_PRECONDITION, Requirements.ADL)
    return Or(*xs)


def gd_not(st, x):
    return Not(x)


def conj(st, xs):
    return And(*xs)


def gd_imply(st, x, y):
    need(st, Requirements.DIS_PRECONDITION, Requirements.ADL)
    return Imply(x, y)


def gd_exists(st, vs, x):
    need(st, Requirements.EXISTENTIAL_PRECONDITION, Requirements.QUANTIFIED_PRECONDITION, Requirements.ADL)
    return ExistsCondition(cond=x, variables=variables(vs))


def gd_forall(st, vs, x):
    need(st, Requirements.UNIVERSAL_PRECONDITION, Requirements.QUANTIFIED_PRECONDITION, Requirements.ADL)
    return ForallCondition(cond=x, variables=variables(vs))


def gd_comparison(st, op, x, y):
    if op == "<":
        return LesserThan(x, y)
    if op == "<=":
        return LesserEqualThan(x, y)
    if op == "=":
        return NumericEqual(x, y)
    if op == ">":
        return GreaterThan(x, y)
    return GreaterEqualThan(x, y)


def atom(st, p, ts):
    return Predicate(p, *terms(st, ts))


def equality(st, x, y):
    need(st, Requirements.EQUALITY, Requirements.ADL)
    return EqualTo(term(st, x), term(st, y))


def constant(st, n):
    """A constant of the domain, with its type; other names are rejected."""
    if n not in st.constants:
        raise PDDLParsingError()
    return Constant(n, st.constants[n])


# effects

def c_forall(st, vs, x):
    return Forall(effect=x, variables=variables(vs))


def c_when(st, x, y):
    return When(x, y)


def c_oneof(st, xs):
    need(st, Requirements.NON_DETERMINISTIC)
    return OneOf(*xs)


def update(st, op, x, y):
    if op == "assign":
        return Assign(x, y)
    if op == "scale-up":
        return ScaleUp(x, y)
    if op == "scale-down":
        return ScaleDown(x, y)
    if op == "increase":
        return Increase(x, y)
    return Decrease(x, y)


# numeric expressions

def number(st, text):
    return float(text) if "." in text else int(text)


def value(st, n):
    return NumericValue(n)


def arithmetic(st, op, x, y):
    if op == "+":
        return Plus(x, y)
    if op == "*":
        return Times(x, y)
    return Divide(x, y)


def arithmetic_n(st, op, x, ys):
    return Plus(x, *ys) if op == "+" else Times(x, *ys)


def minus(st, x, y):
    return Minus(x) if y is None else Minus(x, y)


def function(st, f):
    return NumericFunction(f)


def function_of(st, f, ts):
    return NumericFunction(f, *terms(st, ts))


# declarations

def skeleton(st, p, vs):
    return Predicate(p, *variables(vs))


def function_skeleton(st, f, vs):
    return NumericFunction(f, *variables(vs))


def action(st, n, vs, precondition, effect):
    return Action(n, list({v: Variable(v, tags) for v, tags in vs}.values()), precondition=precondition, effect=effect)


def types_of(requirements, types):
    if types is None:
        return None
    if any(types.values()) and Requirements.TYPING not in requirements and Requirements.ADL not in requirements:
        raise PDDLMissingRequirementError(Requirements.TYPING)
    return {n: (None if t == "object" else t) for n, t in types.items()}


def constants_of(cs):
    return None if cs is None else [Constant(n, t) for n, t in cs.items()]


def domain(st, n, keys, types, constants, predicates, functions, structures):
    requirements = None if keys is None else declared_of(keys)
    return Domain(name=n, requirements=requirements, types=types_of(requirements or set(), types), constants=constants_of(constants), predicates=predicates, functions=functions,
                  actions=[x for x in structures if isinstance(x, Action)], derived_predicates=[x for x in structures if not isinstance(x, Action)])


# problems

def problem(st, n, d, keys, objects, init, goal, optimization, metric):
    return Problem(name=n, domain_name=d, requirements=None if keys is None else declared_of(keys), objects=constants_of(objects), init=init, goal=goal,
                   metric=None if metric is None else Metric(metric, optimization))


def init_value(st, f, n):
    return NumericEqual(f, NumericValue(n))


def obj(st, n):
    return Constant(n, st.objects[n]) if n in st.objects else Constant(n)


def ground(st, p, ns):
    return Predicate(p, *[obj(st, n) for n in ns])


def goal_constant(st, n):
    return Constant(n)


def ground_function(st, f, ns):
    return NumericFunction(f, *[Constant(n) for n in ns])


# plans

def plan(st, steps):
    return Plan(actions=steps)


def step(st, a, ns):
    return (a, [Constant(n) for n in ns])


def either(st, ns):
    return ns


def one_type(st, n):
    return [n]


KEYS = ("<:action-costs|:adl|:conditional-effects|:derived-predicates|:disjunctive-preconditions|:equality|:existential-preconditions|:fluents"
        "|:negative-preconditions|:non-deterministic|:numeric-fluents|:object-fluents|:quantified-preconditions|:strips|:typing|:universal-preconditions>")

# part of the productions that contain them
PARTS = [
    "domain_def: ( domain NAME )",
    f"requirements: ( :requirements {KEYS}+ )",
    "types: ( :types typed_list_name )",
    "constants: ( :constants typed_list_name )",
    "predicates: ( :predicates atomic_formula_skeleton+ )",
    "functions: ( :functions f_typed_list_atomic_function_skeleton )",
    "action_parameters: ( typed_list_variable )",
    "action_body_def: [:precondition emptyor_pregd] [:effect emptyor_effect]",
    "problem_def: ( problem NAME )",
    "problem_domain: ( :domain NAME )",
    "objects: ( :objects typed_list_name )",
    "init: ( :init init_el* )",
    "goal: ( :goal gd )",
    "metric_spec: ( :metric <maximize|minimize> metric_f_exp )",
    # typed lists: C12
    "f_typed_list_atomic_function_skeleton: atomic_function_skeleton+",
    "f_typed_list_atomic_function_skeleton: {atomic_function_skeleton+ - number}+ atomic_function_skeleton*",
    "typed_list_variable: ?NAME*",
    "typed_list_variable: {?NAME+ - type_def}+ ?NAME*",
    "typed_list_name: NAME*",
    "typed_list_name: {NAME+ - <NAME|object>}+ NAME*",
    # C19
    "derived_predicates: ( :derived atomic_formula_skeleton gd )",
]

DOMAIN = {
    "domain: ( define domain_def [requirements] [types] [constants] [predicates] [functions] <action_def|derived_predicates>* )": domain,
    "atomic_formula_skeleton: ( NAME typed_list_variable )": skeleton,
    "atomic_function_skeleton: ( NAME typed_list_variable )": function_skeleton,
    "action_def: ( :action NAME :parameters action_parameters action_body_def )": action,
    "emptyor_pregd: ( )": empty,
    "emptyor_pregd: gd": same,
    "emptyor_effect: ( )": empty,
    "emptyor_effect: effect": same,
    "effect: ( and c_effect* )": conj,
    "effect: c_effect": same,
    "c_effect: ( forall ( typed_list_variable ) effect )": c_forall,
    "c_effect: ( when gd cond_effect )": c_when,
    "c_effect: ( oneof effect+ )": c_oneof,
    "c_effect: p_effect": same,
    "p_effect: ( not atomic_formula_term )": gd_not,
    "p_effect: atomic_formula_term": same,
    "p_effect: num_effect": same,
    "cond_effect: ( and p_effect* )": conj,
    "cond_effect: p_effect": same,
    "num_effect: ( <assign|decrease|increase|scale-down|scale-up> f_head f_exp )": update,
    "constant: NAME": constant,
}

# in domains and in problems
BOTH = {
    "gd: atomic_formula_term": same,
    "gd: ( or gd* )": gd_or,
    "gd: ( not gd )": gd_not,
    "gd: ( and gd* )": conj,
    "gd: ( imply gd gd )": gd_imply,
    "gd: ( exists ( typed_list_variable ) gd )": gd_exists,
    "gd: ( forall ( typed_list_variable ) gd )": gd_forall,
    "gd: ( <<|<=|=|>|>=> f_exp f_exp )": gd_comparison,
    "atomic_formula_term: ( NAME <constant|?NAME>* )": atom,
    "atomic_formula_term: ( = <constant|?NAME> <constant|?NAME> )": equality,
    "type_def: ( either <NAME|object>+ )": either,
    "type_def: <NAME|object>": one_type,
    "num_literal: NUMBER": number,
    "f_exp: num_literal": value,
    "f_exp: ( <*|+|/> f_exp f_exp )": arithmetic,
    "f_exp: ( <*|+> f_exp f_exp+ )": arithmetic_n,
    "f_exp: ( - f_exp f_exp? )": minus,
    "f_exp: f_head": same,
    "f_head: NAME": function,
    "f_head: ( NAME <constant|?NAME>* )": function_of,
}

PROBLEM = {
    "problem: ( define problem_def problem_domain [requirements] [objects] init goal [metric_spec] )": problem,
    "init_el: literal_name": same,
    "init_el: ( = basic_function_term num_literal )": init_value,
    "literal_name: atomic_formula_name": same,
    "literal_name: ( not atomic_formula_name )": gd_not,
    "basic_function_term: NAME": function,
    "basic_function_term: ( NAME NAME* )": ground_function,
    "atomic_formula_name: ( NAME NAME* )": ground,
    "metric_f_exp: ( <*|+|/> metric_f_exp metric_f_exp )": arithmetic,
    "metric_f_exp: ( <*|+> metric_f_exp metric_f_exp+ )": arithmetic_n,
    "metric_f_exp: ( - metric_f_exp metric_f_exp? )": minus,
    "metric_f_exp: basic_function_term": same,
    "metric_f_exp: num_literal": value,
    "constant: NAME": goal_constant,
}

PLAN = {
    "plan: ground_action*": plan,
    "ground_action: ( NAME NAME* )": step,
}

TERMINALS = {
    "NAME": "[a-zA-Z][a-zA-Z0-9-_]*",
    "NUMBER": r"[0-9]+(\.[0-9]+)?",
    "COMMENT": r";[^\n]*",
}
