"""Decide one property: deductive verification of the real code, then replay / bounded stand-in.

usage: python3-vt -B -m runner.main C01 [quick|thorough]      (in /verif)
       python3-vt -B -m runner.main --replay FILE
Exit 0: no violation; 1: VIOLATION line; 2: the check itself failed.
"""
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)

QUICK_BOUNDED_S = 25
THOROUGH_BOUNDED_S = 420


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("finding:"):
            rest = l[len("finding:"):].strip()
            if rest.startswith(f"property={prop} "):
                out.append(rest)
    return out


def replay_file(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, f"{prop}.json")
    with open(fn, "w") as f:
        json.dump(data, f, indent=1)
    return os.path.relpath(fn, HERE)


def confirm(prop, seed, i, seconds=150):
    """Run the failing case, or a history of cases, again in a fresh interpreter."""
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "runner.bounded", prop, str(seed), str(i)], cwd=HERE,
                           capture_output=True, text=True, timeout=seconds)
    except subprocess.TimeoutExpired:
        return "no answer" if isinstance(i, int) else None
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])["violation"]
    except Exception:
        return f"interpreter died (status {p.returncode}): {p.stderr[-800:]}" if p.returncode < 0 else None


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from runner import bounded, prove

    level = prove.LEVELS[prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    # 1. the verifier
    proof = prove.run(prop, tier, seed)
    for o in proof["obligations"]:
        print(f"obligation {o['status']:<11} {o['name']}" + (f"  [{o['why']}]" if o.get("why") else ""))
    failed = [o for o in proof["obligations"] if o["status"] == "failed"]
    undecided = [o for o in proof["obligations"] if o["status"] == "undecided"]

    # 2. the executable contract on the real code (bounded): replay of a failed obligation, stand-in
    # for an undecided one, cross-check of the proved ones
    secs = THOROUGH_BOUNDED_S if tier == "thorough" else QUICK_BOUNDED_S
    if failed or undecided:
        secs = max(secs, 90)
    res = bounded.search(prop, seed, secs)
    vio = None
    if res["violation"]:
        i, msg = res["violation"]
        again = confirm(prop, seed, i)
        if not again:
            # it may need what the cases before it left behind
            i = f"{i % bounded.WORKERS}:{bounded.WORKERS}:{i}"
            again = confirm(prop, seed, i, 300)
        if again:
            vio = {"property": prop, "kind": "replayed", "seed": seed, "iteration": i, "message": msg,
                   "obligations": [o["name"] for o in failed],
                   "how": f"python3-vt -B -m runner.bounded {prop} {seed} {i}"}
        elif not failed:
            print("a violation did not show again in a fresh interpreter:", msg)
            res["crash"] = res["crash"] or "unstable violation"
    if vio is None and failed:
        hard = [o for o in failed if o.get("definite")]
        if hard:
            vio = {"property": prop, "kind": "obligation", "message": hard[0]["name"], "verifier": hard}
    code = 0
    if vio:
        fn = replay_file(prop, vio)
        print(vio["message"])
        print(f"VIOLATION property={prop} replay={fn}" + ("" if vio["kind"] == "replayed" else " no-failing-input-found"))
        code = 1
    elif res["crash"]:
        print(res["crash"])
        code = 2
    elif res["evaluations"] == 0:
        print("nothing was explored")
        code = 2
    elif not proof["obligations"] and level == "proof":
        print("no obligation was generated")
        code = 2
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: {k}")

    nobl = len(proof["obligations"])
    ndis = sum(o["status"] == "discharged" for o in proof["obligations"])
    cov = {
        "obligations": nobl,
        "discharged": ndis,
        "undecided": [f"{o['name']}: {o.get('why', '')}" for o in undecided],
        "failed": [f"{o['name']}: {o.get('why', '')}" for o in failed],
        "checker_cmd": f"python3-vt -B -m runner.main {prop} {tier}",
        "trusted_base": proof["trusted"],
        "functions_under_contract": proof["functions"],
        "functions_executed_symbolically": proof.get("inlined", []),
        "obligation_list": [{k: o[k] for k in ("name", "status", "paths", "vcs", "seconds") if k in o} for o in proof["obligations"]],
        "solver": proof["solver"],
        "bounded": proof["bounded"],
        "evaluations": res["evaluations"],
        "rule": "bounded cross-check: seeded random inputs of the property's executable contract, run on the real code; "
                "not counted as proved",
        "distinct_nontrivial": res["evaluations"],
        "samples": [f"{prop}:{seed}:{i}" for i in range(3)],
    }
    if level != "proof":
        cov["explanation"] = proof.get("explanation", "")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": proof["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if code == 1 else 0,
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {ndis}/{nobl} obligations discharged, {res['evaluations']} bounded evaluations, {ev['wall_s']} s")
    return code


def replay(fn):
    d = json.load(open(fn))
    print(d["message"])
    if d["kind"] == "replayed":
        again = confirm(d["property"], d["seed"], d["iteration"])
        print("shows again" if again else "does not show")
        return 1 if again else 0
    from runner import prove

    names = {o["name"] for o in d["verifier"]}
    bad = [o for o in prove.run(d["property"], "quick", 1)["obligations"] if o["status"] == "failed" and o["name"] in names]
    for o in bad:
        print("fails again:", o["name"], o.get("why", ""))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            rc = replay(sys.argv[2])
        else:
            rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
