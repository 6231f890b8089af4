"""C16: checking a plan."""
from pddl.exceptions import PDDLValidationError


def plan_check(self, domain, problem):
    schemas = {}
    for a in domain.actions:
        schemas[a.name] = a
    for step in self.actions:
        if step[0] not in schemas:
            raise PDDLValidationError()
        if len(schemas[step[0]].parameters) != len(step[1]):
            raise PDDLValidationError()
        for arg in step[1]:
            if arg not in problem.objects and arg not in domain.constants:
                raise PDDLValidationError()
