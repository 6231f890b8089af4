"""C11: which constructs are rejected for lack of a requirement: the contracts of C13, as far as requirements go."""
from pyvc.props import c13


def obligations():
    return c13.production_obs("C11", c13.gate_post)
