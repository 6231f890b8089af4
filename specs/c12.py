"""C12: typed lists."""
from pddl.custom_types import parse_name, parse_type  # through their contracts (C09)


def add(present, tags_before, item, tags, duplicates):
    """May (item, tags) follow what has been read?  Without duplicates: only a new name; with them: only with the same types."""
    if present and (not duplicates or tags_before != tags):
        raise ValueError()


def names(pairs):
    """The result for types, constants, objects and functions: every name has at most one type."""
    out = {}
    for item, tags in pairs:
        if len(tags) > 1:
            raise ValueError()
        out[item] = next(iter(tags)) if len(tags) == 1 else None
    return out


def groups(gs):
    """Groups of names, each with the types that follow its dash; the pairs in the order written."""
    out = []
    for items, types in gs:
        for x in items:
            tags = set(parse_type(t) for t in types)
            out.append((parse_name(x) if isinstance(x, str) else x, tags))
    return out


class Sink:
    """A dictionary of sets that is only written to."""

    def setdefault(self, k, v):
        return self

    def add(self, x):
        return None

    def update(self, x):
        return None

    def append(self, x):
        return None
