"""Proof obligations: the real function refines its contract on every path."""
import os
import time
import traceback

from pyvc import builtins_ as b
from pyvc import ctx as ctxm
from pyvc.ctx import Budget, Ctx, Stats
from pyvc.interp import Interp
from pyvc.same import Mismatch, Same
from pyvc.values import *  # noqa


DEBUG = bool(os.environ.get("PYVC_DEBUG"))


class Stop(Exception):
    """The obligation has failed."""


class Result:
    """Outcome of one obligation."""

    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.vcs = 0
        self.fails = []
        self.undecided = []
        self.seconds = 0.0
        self.outcomes = {}
        self.soft = False  # the obligation speaks of how the code computes: its failure alone is no violation
        self.real = set()
        self.used = set()

    @property
    def status(self):
        if self.fails:
            return "failed"
        if self.undecided or not self.paths:
            return "undecided"
        return "discharged"

    def as_dict(self):
        why = ""
        definite = False
        if self.fails:
            why = "; ".join(w for w, _ in self.fails[:3])
            definite = any(d for _, d in self.fails) and not self.soft
        elif self.undecided:
            why = "; ".join(sorted(set(self.undecided))[:3])
        elif not self.paths:
            why = "no feasible path (vacuous)"
        return dict(name=self.name, status=self.status, why=why[:600], definite=definite, paths=self.paths, vcs=self.vcs,
                    seconds=round(self.seconds, 2), outcomes=self.outcomes)


class Out:
    """Outcome of a call: a value or an exception."""

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v

    def __repr__(self):
        return f"{self.kind}:{self.v!r}"


def outcome(it, thunk):
    try:
        return Out("ret", thunk())
    except PyRaise as e:
        return Out("exc", e)


def compare_out(it, a, s, why="result", anyexc=False):
    sm = Same(it)
    if a.kind != s.kind:
        d = lambda o: (o.v.cls.__name__ if o.v.cls else "exception of callee") if o.kind == "exc" else "value"  # noqa
        sm.differ(f"{why}: code gives {d(a)}, contract gives {d(s)}")
    if a.kind == "ret":
        sm.same(a.v, s.v, why)
    elif not anyexc:
        x, y = a.v, s.v
        if (x.cls is None) != (y.cls is None) or x.cls is not y.cls:
            sm.differ(f"{why}: exception {x.cls} / {y.cls}")
        if x.cls is None:
            sm.term(x.opaque, y.opaque, why)


def prove(name, world, body, seconds=60.0, **kw):
    """Prove an obligation; if it fails only because instances of universal facts are missing, prove it with quantifiers."""
    t0 = time.time()
    r = prove1(name, world, body, seconds=seconds, **kw)
    if r.fails and not any(d for _, d in r.fails) and time.time() - t0 < seconds:
        q = prove1(name, world, body, seconds=seconds - (time.time() - t0), deep=True, **kw)
        q.seconds, q.vcs = q.seconds + r.seconds, q.vcs + r.vcs
        if q.status != "undecided":
            return q
        r.undecided = q.undecided
    return r


def prove1(name, world, body, seconds=60.0, max_paths=4000, timeout_ms=3000, soft=False, deep=False):
    """body(it) runs on every path; it raises Mismatch where the obligation fails.  It returns a label of the path."""
    r = Result(name)
    r.soft = soft
    t0 = time.time()
    ctx = Ctx(max_paths=max_paths, deadline=t0 + seconds, timeout_ms=timeout_ms)
    ctx.deep = deep
    n0 = Stats.checks

    def run():
        it = Interp(ctx, world, b)
        it.executed = r.real
        try:
            lab = body(it)
            r.outcomes[lab] = r.outcomes.get(lab, 0) + 1
        except Mismatch as e:
            # an infeasible path proves anything
            import z3

            if DEBUG:
                traceback.print_exc()
            c = ctx.check()
            if c == z3.unsat:
                raise Infeasible()
            d = e.sat and c == z3.sat
            if d and e.snap is not None and not deep:
                d = ctx.deep_check(e.snap, 5000) == z3.sat
            elif e.snap is None:
                d = False
            if it.__dict__.get("unsure"):
                d = False  # arguments of a callee may be the same although this was not shown
            r.fails.append((str(e)[:400], d))
            if r.fails[-1][1] or len(r.fails) > 5:
                r.paths += 1
                raise Stop()
        except Unsupported as e:
            if DEBUG:
                traceback.print_exc()
            r.undecided.append(f"unsupported: {e}"[:300])
        except PyRaise as e:
            r.undecided.append(f"exception in the contract: {e.cls} {e.pyargs}"[:300])
        except RecursionError:
            r.undecided.append("recursion")
        r.paths += 1

    try:
        ctx.explore(run, lambda *a: None, top=True)
    except Stop:
        pass
    except Budget as e:
        r.undecided.append(f"budget: {e}")
    except Infeasible:
        pass
    r.used = set(world.used)
    r.seconds = time.time() - t0
    r.vcs = Stats.checks - n0
    return r


def refine(name, world, make, real, spec, seconds=60.0, frame=True, post=None, anyexc=False, **kw):
    """real(it, args) behaves as spec(it, args) on all arguments built by make(it).

    anyexc: where the contract raises, any exception will do (which one comes first is not specified).
    """

    def body(it):
        a1, a2 = make(it), make(it)
        w0 = len(it.ctx.writes)
        x = outcome(it, lambda: real(it, a1))
        ws = it.ctx.writes[w0:]
        y = outcome(it, lambda: spec(it, a2))
        compare_out(it, x, y, anyexc=anyexc)
        if frame:
            bad = [w for w in ws if not (w[1] in it.w.memo_fields)]
            if bad:
                Same(it).differ(f"frame: write to {[ (type(o).__name__, k) for o, k in bad]}")
        for p, q in zip(a1, a2):
            if isinstance(p, (Seq, SetV, DictV, Obj)):
                Same(it).same(p, q, "argument afterwards")
        if post:
            post(it, a1, x)
        return x.kind if x.kind == "ret" else f"raise {x.v.cls.__name__ if x.v.cls else 'callee'}"

    return prove(name, world, body, seconds=seconds, **kw)
