"""C12: typed lists.

The parser of typed lists keeps the list of pairs (name, types) read so far and, per name, its types.
Representation invariant (INV): the names of the dictionary are exactly the names of the pairs, each with the types of
each of its pairs.  add_item is verified against it; where typed lists are read add_item is used by contract: it
appends a pair, or rejects the list.
"""
import z3

from pyvc import verify
from pyvc.interp import Break_, Continue_, z3b
from pyvc.nary import assigned_names
from pyvc.obl import *  # noqa
from pyvc.same import Same
from pyvc.world import *  # noqa
from pddl.parser import domain as dp
from pddl.parser import typed_list_parser as tp
from specs import c12 as s

TLP = tp.TypedListParser
TFun = TCls(lf.NumericFunction)
TTags = TSet(TName, "set")


def state(it, kty, dup):
    o = Obj(TLP)
    it.call_function(TLP.__init__, [o], {"allow_duplicates": dup})
    maps = [k for k, v in o.fields.items() if isinstance(v, DictV)]
    lists = [k for k, v in o.fields.items() if isinstance(v, Seq)]
    if len(lists) != 1 or not maps:
        raise Unsupported("state of the typed list parser")
    return o, maps, lists[0]


def add_ob(kind, kty, dup):
    n = f"C12.add_item.{kind}.{'duplicates' if dup else 'distinct'}"
    w = base_world()
    w.extensional = True

    def body(it):
        o, maps, lst = state(it, kty, dup)
        pairs = it.mk(z3.Const("pairs", V), TSeq(TTup(kty, TTags), "list"))
        it.ctx.dset(o.fields, lst, pairs)
        item, tags = it.mk(z3.Const("item", V), kty), it.mk(z3.Const("tags", V), TTags)
        other = it.mk(z3.Const("other", V), kty)
        ds = {}
        for k in maps:
            # the dictionary from names to types; the other indexes the same pairs by type
            if "item_to" in k:
                ds[k] = it.mk(z3.Const("types_of", V), TMap(kty, TTags))
            else:
                ds[k] = Obj(s.Sink)  # never read: whatever is read from it leaves the obligation undecided
            it.ctx.dset(o.fields, k, ds[k])
        main = [k for k in maps if "item_to" in k]
        if len(main) != 1:
            raise Unsupported("state of the typed list parser")
        d0 = DictV(ds[main[0]].entries)
        present = it.truth(b.dict_has(it, d0, item))
        before = SetV("set", b.getitem(it, d0, item).expr) if present else None
        y = verify.outcome(it, lambda: it.call_function(s.add, [present, before, item, tags, dup], {}))
        x = verify.outcome(it, lambda: it.call(it.getattr_(o, "add_item"), [item, tags], {}))
        verify.compare_out(it, x, y)
        if x.kind == "exc":
            return "rejected"
        sm = Same(it)
        sm.same(o.fields[lst], Seq("list", [S(z3.Const("pairs", V), TTup(kty, TTags)), E(Seq("tuple", [E(item), E(tags)]))]), "the pair is appended")
        d1 = o.fields[main[0]]
        if not present:
            e = d1.entries[len(d0.entries):]
            if d1.entries[:len(d0.entries)] != d0.entries or any(x[0] != "kv" for x in e):
                raise Unsupported("order of the names")
            for x in e:
                sm.same(x[1], item, "a new name is the last one")
        # INV afterwards, for an arbitrary name
        e = z3b(b.eq(it, other, item))
        sm.prove(z3b(b.dict_has(it, d1, other)) == z3.Or(e, z3b(b.dict_has(it, d0, other))), "names present")
        if it.ctx.branch(e):
            sm.same(b.getitem(it, d1, other), tags, "types of the name")
        elif it.truth(b.dict_has(it, d0, other)):
            sm.same(b.getitem(it, d1, other), SetV("set", b.getitem(it, d0, other).expr), "types of the other names")
        return "appended"

    return Ob(n, [qual(TLP.add_item), qual(TLP._add_item), qual(TLP._check_item_types)], lambda: verify.prove(n, w, body))


def appended(it, v, a, args, kw):
    """add_item, where lists are read: a pair is appended, or the list is rejected (by what its pairs are: C12.add_item)."""
    it.w.used.add("TypedListParser.add_item")
    names = ["item_name", "type_tags"]
    args = list(args) + [kw[k] for k in names[len(args):]]
    lst = [k for k, x in v.fields.items() if isinstance(x, Seq)]
    if len(lst) != 1:
        raise Unsupported("state of the typed list parser")
    q = v.fields[lst[0]]
    b.mutate(it, q, "segs", q.segs + (E(Seq("tuple", [E(x) for x in args])),))
    return None


TTypes = TSeq(TStr, "list")


def tokens(it, ety, g, either):
    """g groups of names with types, and names without: what the grammar hands over."""
    segs, parts = [], []

    def items(nm, least):
        q = it.mk(z3.Const(nm, V), TSeq(ety, "list"))
        t = q.segs[0].t
        it.ctx.assume(slen(t) >= least)
        if ety.kind == "str":
            ix = z3.Int("$k")
            b.forall(it, ix, slen(t), sat(t, ix) != it.to_v("-"))  # a NAME is no dash (terminals of the grammar)
        return q

    for i in range(g):
        q = items(f"names{i}", 1)
        ty = it.mk(z3.Const(f"type{i}", V), TTypes if either else TStr)
        segs += list(q.segs) + [E("-"), E(ty)]
        parts.append(E(Seq("tuple", [E(q), E(ty if either else Seq("tuple", [E(ty)]))])))
    q = items("rest", 0)
    parts.append(E(Seq("tuple", [E(q), E(Seq("tuple", []))])))
    out = Seq("list", segs + list(q.segs), True)
    return out, Seq("tuple", parts)


def read_ob(kind, ety, g, either, dup):
    w = base_world()
    w.methods[(TLP, "add_item")] = appended

    def make(it):
        return list(tokens(it, ety, g, either))

    def real(it, a):
        o = it.call(it.getattr_(TLP, "parse_typed_list"), [a[0]], {"allow_duplicates": dup})
        return [v for v in o.fields.values() if isinstance(v, Seq)][0]

    return refine(f"C12.read.{kind}.{'either' if either else 'single'}.{g}", w, make, real, lambda it, a: it.call_function(s.groups, [a[1]], {}),
                  fns=[TLP.parse_typed_list, TLP._add_typed_lists, hb.safe_index], anyexc=True, seconds=200)


class Stepped(Exception):
    """The iteration has been checked."""


def step_ob(kind, ety, either, later, more):
    """One iteration of the loop over groups: at the start of a group, it reads the group and is at the start of the next.

    Invariant: start is the place where a group (or the untyped rest) starts, sep that of the next dash from there, None if
    there is none, and the pairs are those of the groups before.  The first group, or (later) any other one; more: it is
    followed by another group.
    """
    w = base_world()
    w.methods[(TLP, "add_item")] = appended
    n = f"C12.read.{kind}.{'either' if either else 'single'}.{'later' if later else 'first'}.{'next' if more else 'last'}"

    def body(it):
        ctx = it.ctx
        ix = z3.Int("$k")

        def items(nm, least):
            q = it.mk(z3.Const(nm, V), TSeq(ety, "list"))
            t = q.segs[0].t
            ctx.assume(slen(t) >= least)
            if ety.kind == "str":
                b.forall(it, ix, slen(t), sat(t, ix) != it.to_v("-"))
            return q, slen(t)

        segs, at = [], z3.IntVal(0)
        tty = TTypes if either else TStr
        if later:
            # the groups before: the list starts with one
            q, k = items("first", 1)
            segs += list(q.segs) + [E("-"), E(it.mk(z3.Const("firsttype", V), tty))]
            q = it.mk(z3.Const("before", V), TSeq(ety, "list"))
            segs += list(q.segs)
            at = k + 2 + slen(q.segs[0].t)
        names, k = items("names", 1)
        ty = it.mk(z3.Const("type", V), tty)
        segs += list(names.segs) + [E("-"), E(ty)]
        sep, nxt = at + k, at + k + 2
        rest, k2 = items("rest", 1 if more else 0)
        segs += list(rest.segs)
        if more:
            segs += [E("-"), E(it.mk(z3.Const("nexttype", V), tty))] + list(it.mk(z3.Const("after", V), TSeq(ety, "list")).segs)
        toks = Seq("list", segs, True)
        groups = [E(Seq("tuple", [E(names), E(ty if either else Seq("tuple", [E(ty)]))]))]
        if not more:
            groups.append(E(Seq("tuple", [E(rest), E(Seq("tuple", []))])))
        want = verify.outcome(it, lambda: it.call_function(s.groups, [Seq("tuple", groups)], {}))
        pairs0 = it.mk(z3.Const("pairs", V), TSeq(TTup(TName if ety.kind == "str" else TFun, TTags), "list")).segs if later else ()
        seen = []

        def sink(fr):
            os = [v for v in fr.vars.values() if isinstance(v, Obj) and v.cls is TLP]
            if len(os) != 1:
                raise Unsupported("the list being built")
            fs = [k for k, v in os[0].fields.items() if isinstance(v, Seq)]
            if len(fs) != 1:
                raise Unsupported("state of the typed list parser")
            return os[0], fs[0]

        def loop(it2, st, fr):
            if seen or not any(v is toks for v in fr.vars.values()):
                return False
            seen.append(st)
            o, f = sink(fr)
            if not ctx.proves(z3b(it.seq_len(o.fields[f]) == 0)):
                raise Unsupported("pairs before the loop")
            stored = [x for x in assigned_names(st) if x in fr.vars]
            first = k if not later else slen(segs[0].t)
            num = lambda v: isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and z3.is_int(v)  # noqa
            seps = [x for x in stored if num(fr.vars[x]) and ctx.proves(first == fr.vars[x])]
            starts = [x for x in stored if num(fr.vars[x]) and ctx.proves(z3.IntVal(0) == fr.vars[x])]
            if len(seps) != 1 or len(starts) != 1:
                raise Unsupported("loop over groups")
            for x in assigned_names(st):
                if x not in starts + seps and x in fr.vars:
                    ctx.dset(fr.vars, x, Poison("loop temporary"))
            ctx.dset(fr.vars, seps[0], sep)
            ctx.dset(fr.vars, starts[0], at)
            if later:
                ctx.dset(o.fields, f, Seq("list", pairs0, True))
            if not it.truth(it.eval(st.test, fr)):
                Same(it).differ("the loop ends before a group")
            try:
                it.exec_block(st.body, fr)
            except Continue_:
                pass
            except Break_:
                return True
            o, f = sink(fr)
            goes = it.truth(it.eval(st.test, fr))
            if not more:
                if goes:
                    Same(it).differ("the loop goes on without a dash")
                it.exec_block(st.orelse, fr)
                return True
            if not goes:
                Same(it).differ("the loop ends before a group")
            if not (num(fr.vars[starts[0]]) and num(fr.vars[seps[0]])):
                raise Unsupported("loop over groups")
            sm = Same(it)
            sm.prove(nxt == fr.vars[starts[0]], "the next group starts after the type")
            sm.prove(nxt + k2 == fr.vars[seps[0]], "the next dash")
            raise Stepped(o.fields[f])

        def real():
            w.while_specs = [loop]
            try:
                o = it.call(it.getattr_(TLP, "parse_typed_list"), [toks], {"allow_duplicates": either})
            except Stepped as e:
                return Seq("tuple", e.args[0].segs)
            if more:
                raise Unsupported("no loop over groups")
            v = [v for v in o.fields.values() if isinstance(v, Seq)][0]
            return Seq("tuple", v.segs)

        got = verify.outcome(it, real)
        if not seen:
            raise Unsupported("no loop over groups")
        if want.kind == "ret":
            want.v = Seq("tuple", tuple(pairs0) + tuple(b.to_seq(it, want.v).segs))
        verify.compare_out(it, got, want, anyexc=True)
        return got.kind

    return Ob(n, [qual(TLP.parse_typed_list), qual(TLP._add_typed_lists), qual(hb.safe_index)], lambda: verify.prove(n, w, body, seconds=120.0, soft=True), 120)


def result_obs(kind, kty):
    """What is reported of the pairs read; for names: of the dictionary (INV, and its names are in the order of the pairs)."""
    out = []

    def real(method, field):
        def f(it, a):
            o, maps, lst = state(it, kty, method.endswith("variables"))
            if field == "pairs":
                it.ctx.dset(o.fields, lst, a[0])
            else:
                it.ctx.dset(o.fields, [k for k in maps if "item_to" in k][0], a[0])
            return it.call(it.getattr_(o, method), [], {})

        return f

    if kind == "names":
        out.append(refine("C12.report.variables", base_world(), args_of(("pairs", TSeq(TTup(TName, TTags), "list"), True)),
                          real("get_typed_list_of_variables", "pairs"), lambda it, a: Seq("tuple", a[0].segs), fns=[TLP.get_typed_list_of_variables]))
    out.append(refine(f"C12.report.{kind}", base_world(), args_of(("types_of", TMap(kty, TTags), True)), real("get_typed_list_of_names", "types"),
                      lambda it, a: it.call_function(s.names, [it.call(it.getattr_(a[0], "items"), [], {})], {}), fns=[TLP.get_typed_list_of_names]))
    return out


def callback(f):
    return lambda it, a: it.call_function(f, [Obj(dp.DomainTransformer), a[0]], {})


def expected(read, dup, nm):
    return lambda it, a: it.call(it.getattr_(read(it, [a[0], dup], {}), f"get_typed_list_of_{nm}"), [], {})


def callback_obs():
    """The callbacks read the list given: names and functions without duplicates, variables with them; a rejection is an error."""
    w = base_world()

    def read(it, args, kw):
        it.w.used.add("TypedListParser.parse_typed_list")
        args = [a for a in args if not isinstance(a, type)]
        dup = args[1] if len(args) > 1 else kw.get("allow_duplicates", False)
        t = it.to_v(args[0] if args else kw["tokens"])
        if it.ctx.branch(F("rejected", V, B, B)(t, z3.BoolVal(dup))):
            raise PyRaise(ValueError)
        return it.mk(F("read", V, B, V)(t, z3.BoolVal(dup)), TCls(TLP))

    w.fn_contracts[TLP.parse_typed_list.__func__.__code__] = read
    for m, ty in (("names", TMap(TName, TOpt(TName))), ("variables", TSeq(TTup(TName, TTags)))):
        nm = f"get_typed_list_of_{m}"
        w.virtual[nm] = [(frozenset([TLP]), lambda it, v, nm=nm, ty=ty: Native(lambda it2, a, k: opaque_call(it2, nm, [v], ty, raises=ValueError), nm))]
    out = []
    T = dp.DomainTransformer
    for cb, dup, nm in (("typed_list_name", False, "names"), ("f_typed_list_atomic_function_skeleton", False, "names"), ("typed_list_variable", True, "variables")):
        out.append(refine(f"C12.callback.{cb}", w, args_of(("tokens", TSeq(TStr, "list"), True)), callback(getattr(T, cb)),
                          expected(read, dup, nm), fns=[getattr(T, cb)], anyexc=True))
    return out


def obligations():
    out = []
    for kind, ety, either in (("names", TStr, False), ("variables", TStr, True), ("functions", TFun, False)):
        for g in range(3 if either else 4):
            out.append(read_ob(kind, ety, g, either, either))
        out += [step_ob(kind, ety, either, later, more) for later in (False, True) for more in (False, True)]
    for kind, kty in (("names", TName), ("functions", TFun)):
        for dup in (False, True):
            out.append(add_ob(kind, kty, dup))
        out += result_obs(kind, kty)
    out += callback_obs()
    return out
