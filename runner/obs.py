"""Run obligations: python3-vt -B -m runner.obs C01 [name filter]"""
import importlib
import sys
import time

sys.path.insert(0, ".")
sys.setrecursionlimit(20000)


def load(prop):
    return importlib.import_module(f"pyvc.props.{prop.lower()}").obligations()


if __name__ == "__main__":
    t = time.time()
    bad = 0
    for o in load(sys.argv[1]):
        if len(sys.argv) > 2 and not any(x in o.name for x in sys.argv[2:]):
            continue
        d = o.run().as_dict()
        bad += d["status"] != "discharged"
        print(d["status"], d["name"], d["paths"], d["vcs"], d["seconds"], d["outcomes"], d["why"], "DEF" if d["definite"] else "", flush=True)
    print("bad", bad, "time", round(time.time() - t, 1))
