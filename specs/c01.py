"""C01: the result of instantiate, class by class (recursive calls by contract)."""
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic.functions import Metric, NumericFunction, NumericValue
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Variable


def sub(term, mapping):
    """The mapped term, if it is a mapped variable; the term itself otherwise."""
    if isinstance(term, Variable) and term in mapping:
        return mapping[term]
    return term


def subs(terms, mapping):
    return [sub(t, mapping) for t in terms]


def free(mapping, variables):
    """The mapping without the variables bound by a quantifier (identified by name)."""
    return {v: t for v, t in mapping.items() if all(v.name != x.name for x in variables)}


def operands(cls):
    def inst(self, mapping):
        return cls(*[op.instantiate(mapping) for op in self.operands])

    return inst


def not_(self, mapping):
    return Not(self.argument.instantiate(mapping))


def quantified(cls):
    def inst(self, mapping):
        return cls(self.condition.instantiate(free(mapping, self.variables)), self.variables)

    return inst


def predicate(self, mapping):
    return Predicate(self.name, *subs(self.terms, mapping))


def equal_to(self, mapping):
    return EqualTo(sub(self.left, mapping), sub(self.right, mapping))


def derived(self, mapping):
    return DerivedPredicate(self.predicate.instantiate(mapping), self.condition.instantiate(mapping))


def when(self, mapping):
    return When(self.condition.instantiate(mapping), self.effect.instantiate(mapping))


def forall(self, mapping):
    return Forall(self.effect.instantiate(free(mapping, self.variables)), self.variables)


def function(self, mapping):
    return NumericFunction(self.name, *subs(self.terms, mapping))


def itself(self, mapping):
    return self
