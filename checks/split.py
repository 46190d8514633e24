"""P06: contiguous, complete, disjoint, balanced shares."""
from vf import Cfg


def P06(c):
    big = c.thorough
    n, t = (70, 20) if not big else (160, 40)
    k = {"MaxN": n, "MaxT": t, "Bug": '"none"'}
    c.design("Split", Cfg(k, ["Correct", "Partial", "Fewer"], ["Finishes"]), deadlock=True)
    c.mutant("Split", Cfg(dict(k, Bug='"no_end"', MaxN=6, MaxT=6), ["Correct"]), "no_end")
    c.mutant("Split", Cfg(dict(k, Bug='"no_round"', MaxN=6, MaxT=6), ["Correct"]), "no_round")
    recs = c.generate("Split", Cfg(k, ["Gen"]))
    cases = [{"n": r["n"], "t": r["t"]} for r in recs]
    for _ in range(400 if not big else 5000):
        t = c.rng.choice([1, 2, 3, 7, 8, 12, 20, 64, c.rng.randrange(1, 300)])
        n = c.rng.choice([0, 1, t - 1, t, t + 1, 2 * t, 2 * t - 1, 10 * t - 1, c.rng.randrange(0, 2 ** c.rng.randrange(1, 31)), 2 ** 31 - 1 - c.rng.randrange(5),
                          2 ** 24 + c.rng.randrange(-3, 4), 10 ** 9 + c.rng.randrange(100)])
        cases.append({"n": min(n, 2 ** 31 - 600), "t": t})
    recs = c.drive("split", cases)
    groups = [r["events"] for r in recs if r]
    for g in groups[:2] + groups[-2:]:
        c.sample(g[0])
    c.validate_all("SplitTrace", groups, lambda g, k: "P06: splitting %s items over %s workers gives %s" % (g[k].get("n"), g[k].get("t"), g[k].get("bounds", g[k])))
    if not c.violations:
        c.canary("SplitTrace", [{"ev": "Split", "n": 5, "t": 2, "bounds": [0, 1, 5]}])
    c.extra["exhaustive"] = False
