"""C19: types of the variables of a derived predicate."""
from pddl.exceptions import PDDLParsingError
from pddl.logic.base import Not
from pddl.logic.functions import NumericFunction, NumericValue
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Variable


# the types of the free occurrences of variables, class by class (recursive calls by contract)

def retag(t, m):
    return Variable(t.name, m[t.name]) if isinstance(t, Variable) and t.name in m else t


def operands(cls, again):
    return lambda f, m: cls(*[again(x, m) for x in f.operands])


def negation(again):
    return lambda f, m: Not(again(f.argument, m))


def quantified(cls, again):
    """A quantified variable has its own types in its scope."""
    return lambda f, m: cls(again(f.condition, {**m, **{v.name: v.type_tags for v in f.variables}}), list(f.variables))


def predicate(f, m):
    return Predicate(f.name, *[retag(t, m) for t in f.terms])


def function(f, m):
    return NumericFunction(f.name, *[retag(t, m) for t in f.terms])


def equality(f, m):
    return EqualTo(retag(f.left, m), retag(f.right, m))


def number(f, m):
    return NumericValue(f.value)


# the subtype check

def subtypes(below):
    """below(t, rs): is t or a type above it in rs?"""
    def check(left, right):
        if len(right) == 0 or "object" in right:
            return
        for t in left:
            if not below(t, right):
                raise PDDLParsingError()

    return check


# the derived predicate

def by_name(predicates):
    return {p.name: p for p in predicates}


def derived(check, again):
    def make(definitions, p, condition):
        if p.name not in definitions:
            raise PDDLParsingError()
        d = definitions[p.name]
        if len(d.terms) != len(p.terms):
            raise PDDLParsingError()
        m = {}
        for t, u in zip(p.terms, d.terms):
            if t.type_tags:
                check(t.type_tags, u.type_tags)
                m[t.name] = t.type_tags
            elif u.type_tags:
                m[t.name] = u.type_tags
        return DerivedPredicate(again(p, m), again(condition, m))

    return make
