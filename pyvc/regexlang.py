"""Regular expressions as languages: two patterns that accept the same strings get the same name.

A compiled pattern (with the method used) is translated to an automaton over classes of code points, found by
asking re itself about single characters; equivalence is decided by exploring the product of subset states.
"""
import functools
import re
import re._constants as sc
import re._parser as sp

MAXCP = 0x110000
_chars = None


def one_char(op, arg, flags):
    """The set of code points matched by a one-character item, as a sorted tuple of ranges."""
    global _chars
    if _chars is None:
        _chars = "".join(chr(i) for i in range(MAXCP) if not 0xD800 <= i < 0xE000)
    if flags & re.ASCII:
        flags &= ~re.UNICODE
    st = sp.State()
    st.flags = flags
    st.str = "x"
    sub = sp.SubPattern(st, [(op, arg)])
    import re._compiler as co

    code = co._code(sub, flags)
    import _sre

    pat = _sre.compile("x", flags, code, 0, {}, (None,))
    out = []
    for m in pat.finditer(_chars):
        o = ord(m.group())
        if out and out[-1][1] == o - 1:
            out[-1][1] = o
        else:
            out.append([o, o])
    return tuple(map(tuple, out))


class Unsupported(Exception):
    pass


class NFA:
    def __init__(self):
        self.eps = []
        self.on = []

    def new(self):
        self.eps.append(set())
        self.on.append([])
        return len(self.eps) - 1


def build(n, tree, flags, start):
    """Add the pattern's automaton from a state; gives its last state."""
    cur = start
    for op, arg in tree:
        nx = n.new()
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
            n.on[cur].append((one_char(op, arg, flags), nx))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, sub = arg
            if op is sc.POSSESSIVE_REPEAT or lo > 50 or (hi is not sc.MAXREPEAT and hi > 50):
                raise Unsupported("repeat")
            for _ in range(lo):
                a = n.new()
                n.eps[cur].add(a)
                cur = build(n, sub, flags, a)
            if hi is sc.MAXREPEAT:
                a = n.new()
                n.eps[cur].add(a)
                e = build(n, sub, flags, a)
                n.eps[e].add(a)
                n.eps[a].add(nx)
            else:
                for _ in range(hi - lo):
                    n.eps[cur].add(nx)
                    a = n.new()
                    n.eps[cur].add(a)
                    cur = build(n, sub, flags, a)
                n.eps[cur].add(nx)
        elif op is sc.SUBPATTERN:
            _, add, dele, sub = arg
            n.eps[build(n, sub, (flags | add) & ~dele, cur)].add(nx)
        elif op is sc.BRANCH:
            for sub in arg[1]:
                a = n.new()
                n.eps[cur].add(a)
                n.eps[build(n, sub, flags, a)].add(nx)
        elif op is sc.AT and arg in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and cur == 0 and not flags & re.MULTILINE:
            n.eps[cur].add(nx)
        else:
            raise Unsupported(str(op))
        cur = nx
    return cur


def language(pat, method):
    n = NFA()
    s = n.new()
    tree = list(sp.parse(pat.pattern, pat.flags & ~re.DEBUG))
    tail = None
    if tree and tree[-1][0] is sc.AT and tree[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        if pat.flags & re.MULTILINE and tree[-1][1] is sc.AT_END:
            raise Unsupported("multiline")
        tail = tree.pop()[1]
    e = build(n, tree, pat.flags, s)
    if method == "search" and tree[:1] not in ([(sc.AT, sc.AT_BEGINNING)], [(sc.AT, sc.AT_BEGINNING_STRING)]):
        if any(o is sc.AT for o, _ in tree):
            raise Unsupported("search")
        n.on[s].append((((0, MAXCP - 1),), s))
    if method in ("match", "search"):
        if tail is None:
            n.on[e].append((((0, MAXCP - 1),), e))
        elif tail is sc.AT_END:
            f = n.new()
            n.on[e].append((((10, 10),), f))
            g = n.new()
            n.eps[f].add(g)
            n.eps[e].add(g)
            e = g
    elif method != "fullmatch":
        raise Unsupported(method)
    return n, s, e


def close(n, states):
    out, todo = set(states), list(states)
    while todo:
        for x in n.eps[todo.pop()]:
            if x not in out:
                out.add(x)
                todo.append(x)
    return frozenset(out)


def has(ranges, c):
    return any(a <= c <= b for a, b in ranges)


def included(l1, l2):
    """Is every text of the first language one of the second?"""
    return equivalent(l1, l2, lambda a, b: a and not b)


def equivalent(l1, l2, differ=lambda a, b: a != b):
    (n1, s1, e1), (n2, s2, e2) = l1, l2
    cuts = {0}
    for n in (n1, n2):
        for on in n.on:
            for r, _ in on:
                for a, b in r:
                    cuts |= {a, b + 1}
    reps = sorted(c for c in cuts if c < MAXCP)
    # one representative for every class of code points
    sig = {}
    for c in reps:
        k = (tuple(has(r, c) for on in n1.on for r, _ in on), tuple(has(r, c) for on in n2.on for r, _ in on))
        sig.setdefault(k, c)
    a = (close(n1, {s1}), close(n2, {s2}))
    seen, todo = {a}, [a]
    while todo:
        x, y = todo.pop()
        if differ(e1 in x, e2 in y):
            return False
        for c in sig.values():
            z = (close(n1, {t for q in x for r, t in n1.on[q] if has(r, c)}), close(n2, {t for q in y for r, t in n2.on[q] if has(r, c)}))
            if z not in seen:
                if len(seen) > 5000:
                    raise Unsupported("states")
                seen.add(z)
                todo.append(z)
    return True


_known = []


@functools.lru_cache(None)
def name_of(pat, method):
    """A name of the language accepted; the same for equivalent patterns."""
    try:
        lang = language(pat, method)
        for nm, l2 in _known:
            if equivalent(lang, l2):
                return nm
    except Unsupported:
        return f"re.{method}:{pat.pattern}:{pat.flags}"
    nm = f"re:{len(_known)}:{method}:{pat.pattern}"
    _known.append((nm, lang))
    return nm
