"""C02: instantiation of actions and plans."""
from pddl.action import Action


def action(self, mapping):
    if len(mapping) != len(self.parameters):
        raise ValueError()
    replace = dict(zip(self.parameters, mapping))
    pre = self.precondition
    eff = self.effect
    return Action(
        self.name,
        mapping,
        None if pre is None else pre.instantiate(replace),
        None if eff is None else eff.instantiate(replace),
    )


def plan(self, domain):
    schemas = {}
    for a in domain.actions:
        schemas[a.name] = a
    result = []
    for step in self.actions:
        if step[0] not in schemas:
            raise ValueError()
        result.append(schemas[step[0]].instantiate(step[1]))
    return result
