"""Lemmas over the contracts: each is a set of implications proved by the solver (one induction step per case)."""
import time

import z3

from pyvc.ctx import Stats
from pyvc.obl import Ob
from pyvc.verify import Result


def lemma(name, cases, fns=()):
    """cases: [(label, [hypotheses], conclusion)]; every one is proved, and its hypotheses are consistent."""

    def run():
        r = Result(name)
        t0 = time.time()
        for lab, hyps, concl in cases:
            s = z3.Solver()
            s.set("timeout", 10000)
            s.add(*hyps)
            Stats.checks += 2
            r.vcs += 2
            if s.check() == z3.unsat:
                r.undecided.append(f"{lab}: hypotheses are contradictory")
                continue
            s.add(z3.Not(concl))
            c = s.check()
            if c == z3.sat:
                r.undecided.append(f"{lab}: does not follow")
            elif c == z3.unknown:
                r.undecided.append(f"{lab}: unknown")
            else:
                r.outcomes[lab] = 1
                r.paths += 1
        r.seconds = time.time() - t0
        return r

    return Ob(name, list(fns), run)
