"""C18: parsing does not depend on what was parsed before.

A parser object, after any history of parses (its transformer is in an arbitrary state), is called with a text: Lark parses
it with a transformer whose state is that of a new one, the result or the error is Lark's, and the interpreter's settings
are as before.  Nothing else in the package keeps anything from one call to the next.
"""
import ast
import inspect
import sys
import textwrap

import z3
from lark import Lark, Transformer

from pyvc import boot, purity  # noqa: F401
from pyvc import verify
from pyvc.obl import *  # noqa
from pyvc.props.c13 import state
from pyvc.same import Same
from pyvc.world import *  # noqa
from pddl.parser.domain import DomainParser
from pddl.parser.plan import PlanParser
from pddl.parser.problem import ProblemParser

PARSERS = {"domain": DomainParser, "problem": ProblemParser, "plan": PlanParser}


def stored_attributes(cls):
    """Names of the attributes that some method of the class, or of its bases in the package, assigns on self."""
    out = set()
    for c in cls.__mro__:
        if not c.__module__.startswith("pddl."):
            continue
        for n in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(c)))):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add(n.attr)
    return out


def objects_below(o):
    """The parser objects (transformers) that an object has, and itself."""
    out = [o]
    for v in o.fields.values():
        if isinstance(v, Obj) and v.cls.__module__.startswith("pddl.parser"):
            out += objects_below(v)
    return out


def call_ob(kind):
    cls = PARSERS[kind]
    n = f"C18.call.{kind}"
    w = base_world()
    w.fn_contracts[Transformer.__init__.__code__] = lambda it, a, k: None

    def new_lark(it, args, kw):
        o = Obj(Lark)
        o.fields["transformer"] = kw.get("transformer")
        o.fields["start"] = kw.get("start")
        o.fields["parser"] = kw.get("parser")
        o.fields["text"] = args[0] if args else None
        return o

    w.class_contracts[Lark] = new_lark

    def parse(it, v, a, args, kw):
        """Lark's parse: a function of the text, if the transformer is as new (and of the state it is in otherwise)."""
        it.w.used.add("lark.Lark.parse")
        t = v.fields["transformer"]
        if not isinstance(t, Obj) or t.cls is not cls.transformer_cls:
            raise Unsupported("the transformer given to Lark")
        new = it.type_call(t.cls, [], {})
        old, ref = state(t), state(new)
        if set(old) - set(ref):
            Same(it).differ(f"the transformer keeps {sorted(set(old) - set(ref))} of earlier texts")
        for k in ref:
            if k not in old:
                Same(it).differ(f"the transformer has no {'.'.join(k)}")
            Same(it).same(old[k][0], ref[k][0], f"state {'.'.join(k)}")
        it.__dict__["parsed"] = it.__dict__.get("parsed", 0) + 1
        x = args[0] if args else kw.get("text")
        if v.fields["start"] != cls.start_symbol or v.fields["parser"] != "lalr":
            raise Unsupported("options given to Lark")
        ts = it.to_v(x)
        it.ctx.lappend(it.ctx.writes, (v, "parse"))
        if it.ctx.branch(F("fails", V, B)(ts)):
            raise PyRaise(None, (), F("error", V, V)(ts))
        return it.mk(F("parsed", V, V)(ts), TAny)

    w.methods[(Lark, "parse")] = parse

    def body(it):
        ctx = it.ctx
        # the interpreter's settings: set to something, or not set
        limit = it.mk(z3.Const("limit", V), TAny)
        given = ctx.branch(z3.Const("limited", B))
        ctx.dset(ctx.known, ("modattr", "sys", "tracebacklimit"), limit if given else b.DELETED)
        p = Obj(cls)
        it.call_function(cls.__init__, [p], {})
        # history
        for o in [x for v in p.fields.values() if isinstance(v, Obj) for x in ([v] if v.cls is Lark else objects_below(v))]:
            if o.cls is Lark:
                continue
            for k in sorted(set(o.fields) | stored_attributes(o.cls)):
                if not (isinstance(o.fields.get(k), Obj) and o.fields[k].cls.__module__.startswith("pddl.parser")):
                    o.fields[k] = it.mk(z3.Const("history " + k, V), TAny)
        text = it.mk(z3.Const("text", V), TStr)
        x = verify.outcome(it, lambda: it.call(it.getattr_(p, "__call__"), [text], {}))
        if it.__dict__.get("parsed") != 1:
            Same(it).differ("the text is parsed once")
        sm = Same(it)
        fails = F("fails", V, B)(text.t)
        if x.kind == "ret":
            sm.prove(z3.Not(fails), "the error of the parse is raised")
            sm.term(it.to_v(x.v), F("parsed", V, V)(text.t), "the result of the parse")
        else:
            if x.v.cls is not None:
                sm.differ(f"raises {x.v.cls}")
            sm.term(x.v.opaque, F("error", V, V)(text.t), "the error of the parse")
        now = ctx.known.get(("modattr", "sys", "tracebacklimit"))
        if (now is b.DELETED) != (not given):
            sm.differ("sys.tracebacklimit is " + ("not " if given else "") + "set after the parse")
        if given:
            sm.term(it.to_v(now), limit.t, "sys.tracebacklimit")
        for o, a in ctx.writes:
            if not (inspect.ismodule(o) and o is sys and a == "tracebacklimit" or o.__class__ is Obj):
                sm.differ(f"writes {a} of {o}")
        return x.kind

    return Ob(n, [f"{cls.__module__}.{cls.__name__}.__call__", "pddl.parser.base.BaseParser._call_parser"], lambda: verify.prove(n, w, body, seconds=60.0), 60)


def purity_ob():
    """No function of the package writes to module globals, classes, or default arguments, or remembers results."""
    n = "C18.package.keeps-nothing"

    def run():
        r = verify.Result(n)
        r.soft = True
        for m in purity.modules():
            found = [f"{q}: {x}" for q, _, x in purity.scan(m) if not (x == "sys.tracebacklimit")]
            found += [f"cache {x}" for x in purity.caches(m)]
            names = [x for x in purity.class_containers(m) if not x.endswith("._unhashable_values_")]
            found += [f"shared container {x}" for x in names]
            r.vcs += 1
            r.undecided += found
        r.paths = 1
        return r

    return Ob(n, ["pddl"], run)


def obligations():
    return [call_ob(k) for k in PARSERS] + [purity_ob()]
