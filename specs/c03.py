"""C03 / C04: nodes built from operands."""


def flatten(ops):
    """Contract function: see pyvc/nary.py (its handler is installed per class)."""
    raise NotImplementedError


def distinct(ops):
    return list(dict.fromkeys(ops))


def simplifying(make, cls):
    """And, Or: repeated operands dropped, same connective flattened, a single operand returned."""

    def build(*operands):
        ops = distinct(operands)
        if len(ops) == 1:
            return ops[0]
        if len(ops) > 1:
            ops = flatten(ops)
        if len(ops) == 1:
            return ops[0]
        return make(cls, ops)

    return build


def flattening(make, cls):
    """Plus, Times: the same kind may be flattened; every operand counts."""

    def build(*operands):
        if len(operands) > 1:
            operands = flatten(operands)
        return make(cls, operands)

    return build


def keeping(make, cls):
    def build(*operands):
        return make(cls, operands)

    return build


def ensure_formula(mk):
    def f(f, is_none_true):
        if f is not None:
            return f
        if is_none_true:
            return mk(True)
        return mk(False)

    return f
