"""Run the executable contract of one property on the real code over generated inputs (bounded)."""
import faulthandler
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

ITER_TIMEOUT = 40
WORKERS = 8
MEM = 3 << 30


class Hang(Exception):
    pass


def _alarm(sig, frame):
    raise Hang(f"no answer within {ITER_TIMEOUT} s")


def contract(prop):
    import pyvc.boot  # noqa: F401
    import rt.objects as O

    f = getattr(O, prop.lower(), None)
    if f is None:
        import rt.texts as T

        f = getattr(T, prop.lower())
    return f


def run_one(prop, seed, i, f=None):
    """None, or a description of the violation."""
    f = f or contract(prop)
    r = random.Random(f"{prop.lower()}:{seed}:{i}")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ITER_TIMEOUT)
    try:
        f(r, i)
        return None
    except Exception as e:
        if type(e).__name__ == "Violation":
            return str(e)
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{x.filename}:{x.lineno}" for x in tb][-3:]
        return f"contract not satisfied: {type(e).__name__}: {str(e)[:600]} at {where}"
    finally:
        signal.alarm(0)


def _worker(prop, seed, start, step, stop_at, limit, q):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(5000)
    n = 0
    try:
        f = contract(prop)
        i = start
        while time.time() < stop_at and i < limit:
            v = run_one(prop, seed, i, f)
            n += 1
            if v is not None:
                q.put(("bad", i, v))
                break
            i += step
        q.put(("done", start, n))
    except BaseException:
        q.put(("crash", start, traceback.format_exc()))


def search(prop, seed, seconds, workers=WORKERS, limit=10**9):
    """Explore; returns dict(evaluations, violation=None|(i,msg), crash)."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop_at = time.time() + seconds
    ps = [ctx.Process(target=_worker, args=(prop, seed, w, workers, stop_at, limit, q), daemon=True) for w in range(workers)]
    for p in ps:
        p.start()
    res = {"evaluations": 0, "violation": None, "crash": None}
    bad = []
    live = set(range(workers))
    grace = stop_at + ITER_TIMEOUT + 20
    while live and time.time() < grace:
        try:
            m = q.get(timeout=1)
        except Exception:
            live = {w for w in live if ps[w].is_alive() or not q.empty()}
            if bad and time.time() > bad[0][2] + 3:
                break
            continue
        if m[0] == "bad":
            bad.append((m[1], m[2], time.time()))
            stop_at = 0
        elif m[0] == "done":
            res["evaluations"] += m[2]
            live.discard(m[1])
        else:
            res["crash"] = m[2]
            live.discard(m[1])
        if bad and time.time() > bad[0][2] + 3:
            break
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.kill()
    if bad:
        bad.sort(key=lambda b: len(b[1]))
        res["violation"] = bad[0][:2]
    return res


if __name__ == "__main__":
    # replay: bounded.py PROP SEED ITER, or START:STEP:ITER for a history of cases -> exit 1 if the violation shows
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.setrecursionlimit(5000)
    ks = [int(k) for k in sys.argv[3].split(":")]
    for k in [ks[0]] if len(ks) == 1 else range(ks[0], ks[2] + 1, ks[1]):
        v = run_one(sys.argv[1], int(sys.argv[2]), k)
    print(json.dumps({"violation": v}))
    sys.exit(1 if v else 0)
