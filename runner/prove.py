"""Runs the obligations of a property, each in its own process, and reports what was discharged."""
import importlib
import multiprocessing as mp
import os
import re
import resource
import sys
import time
import traceback

from runner.levels import LEVELS, NOTES, TECH  # noqa: F401

HARD = {"quick": 420, "thorough": 420}
JOBS = 8


def child(ob, conn):
    try:
        sys.setrecursionlimit(20000)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from pyvc import ctx as c

        r = ob.run()
        d = r.as_dict()
        d["solver_s"] = round(c.Stats.solver_s, 2)
        d["unknown"] = c.Stats.unknown
        d["used"] = sorted(str(u) for u in getattr(r, "used", ()))
        d["real"] = sorted(getattr(r, "real", ()))
        d["spec"] = sorted(getattr(r, "spec", ()))
    except MemoryError:
        d = dict(name=ob.name, status="undecided", why="memory", definite=False)
    except BaseException as e:  # noqa
        d = dict(name=ob.name, status="undecided", definite=False,
                 why=f"engine: {type(e).__name__}: {e}"[:300] + " @" + traceback.format_exc().strip().splitlines()[-3].strip()[:120])
    try:
        conn.send(d)
        conn.close()
    finally:
        os._exit(0)


def run_all(obs, wall):
    ctx = mp.get_context("fork")
    todo = list(enumerate(obs))[::-1]
    live = {}
    out = [None] * len(obs)
    t0 = time.time()
    while todo or live:
        while todo and len(live) < JOBS and time.time() - t0 < wall:
            i, o = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(o, b), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        if todo and time.time() - t0 >= wall:
            for i, o in todo:
                out[i] = dict(name=o.name, status="undecided", why="no time left", definite=False)
            todo = []
        done = mp.connection.wait([a for _, a, _ in live.values()], timeout=0.5) if live else []
        for i, (p, a, t) in list(live.items()):
            if a in done:
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = dict(name=obs[i].name, status="undecided", why=f"verifier process ended ({p.exitcode})", definite=False)
            elif time.time() - t > obs[i].limit + 30 or time.time() - t0 > wall + 60:
                out[i] = dict(name=obs[i].name, status="undecided", why="time", definite=False)
            else:
                continue
            p.kill()
            p.join()
            a.close()
            del live[i]
    return out


def source_scan():
    """Counts of assumptions written in the verifier's contracts: reported, not hidden."""
    n = 0
    for d in ("pyvc/props", "specs"):
        for f in os.listdir(d):
            if f.endswith(".py"):
                n += len(re.findall(r"\btrusted\(", open(os.path.join(d, f)).read()))
    return n


def run(prop, tier, seed):
    out = {"obligations": [], "trusted": [], "functions": [], "solver": {}, "bounded": [], "assumptions": [], "explanation": NOTES[prop]}
    if not os.path.exists(f"pyvc/props/{prop.lower()}.py"):
        return out
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(f"pyvc.props.{prop.lower()}")
    try:
        obs = mod.obligations()
    except Exception as e:  # noqa: the contracts cannot be attached to this tree
        traceback.print_exc()
        out["obligations"] = [dict(name=f"{prop}.contracts", status="undecided", why=f"{type(e).__name__}: {e}", definite=False)]
        return out
    res = run_all(obs, HARD[tier])
    out["obligations"] = res
    fns, used, real = {}, set(), set()
    for o, d in zip(obs, res):
        for f in o.fns:
            fns.setdefault(f, True)
            fns[f] &= d["status"] == "discharged"
        used |= set(d.get("used", ()))
        real |= set(d.get("real", ()))
    out["functions"] = [f"{f}: {'proved' if ok else 'not proved on this run'}" for f, ok in sorted(fns.items())]
    out["inlined"] = sorted(real)
    out["trusted"] = BASE + [f"callee contract: {u}" for u in sorted(used)] + list(getattr(mod, "TRUSTED", []))
    import z3

    out["solver"] = {"back_end": f"z3 {z3.get_version_string()} (Python API)", "paths": sum(d.get("paths", 0) for d in res),
                     "queries": sum(d.get("vcs", 0) for d in res), "unknown_answers": sum(d.get("unknown", 0) for d in res),
                     "solver_s": round(sum(d.get("solver_s", 0) for d in res), 2)}
    out["bounded"] = list(getattr(mod, "BOUNDED", []))
    out["assumptions"] = ASSUME + list(getattr(mod, "ASSUME", []))
    return out


BASE = [
    "pyvc (this directory): symbolic execution of the Python AST read from /repo on every run; its models of the builtins",
    "z3 (unsat answers)",
    "CPython: inspect.getsource returns the text of the code that runs",
]
ASSUME = [
    "library objects are used as documented: arguments have the types of the annotations",
    "collections and formulas are finite and acyclic (structural recursion ends); memory and recursion depth are not exhausted",
    "Python integers are mathematical integers; floats are opaque values",
]
