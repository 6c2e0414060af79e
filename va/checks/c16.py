"""C16: the read-ahead cache stays consistent under concurrency, failure and cancellation."""
from checks.c15 import *

RULE = ("fetches on one cache where, at each suspension point in turn, the source fails, the fetch is dropped, or another task's fetch runs as far as the locks held there allow: "
        "every completed fetch and every later fetch of any range returns the source's bytes of its range")
TECHNIQUE = "abstract interpretation of MIR coroutines: the cache state at every suspension point (with the locks held there) is carried into failing, dropped and interleaved continuations"


def obligations(P, tier):
    obs = []
    for name, pre in (("first", [(0, 8)]), ("second", [(0, 3), (8, 18)]), ("hit", [(0, 8), (2, 5)])):
        k = len(pre) - 1
        for ini, mult in ((4, None), (16, 1.0)):
            for s in range(3):
                for act in ("fail", "drop", (0, 6), (5, 20)):
                    nm = act if isinstance(act, str) else "other-%d-%d" % act
                    obs.append(("%s/%d/suspension-%d/%s" % (name, ini, s, nm), history(P, pre, 30, ini, mult, {(k, s): act})))
    for act in ("fail", "drop"):
        obs.append(("retry/" + act, history(P, [(0, 8), (0, 8)], 30, 4, None, {(0, s): act for s in range(3)})))
        obs.append(("retry2/" + act, history(P, [(0, 4), (6, 18), (6, 18)], 30, 4, None, {(1, s): act for s in range(3)})))
    return obs
