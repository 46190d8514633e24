"""P12, P13: the Huffman tree and the cached paths."""
from vf import Cfg


def descr(prop):
    def d(g, k):
        e = g[k]
        return "%s: frequencies %s: %s is not what the specification allows: %s" % (prop, str(g[0].get("freq"))[:300], e.get("ev"), str({x: y for x, y in e.items() if x != "ev"})[:1500])
    return d


def freqs(rng, n):
    k = rng.choice(["flat", "zipf", "fib", "rand", "steps"])
    if k == "flat":
        return [rng.choice([1, 2, 7])] * n
    if k == "zipf":
        f = [max(1, int(3000 / (i + 1))) for i in range(n)]
    elif k == "fib":
        a, b, f = 1, 1, []
        for i in range(n):
            f.append(a)
            if b < 6000:
                a, b = b, a + b
    elif k == "steps":
        f = [2 ** min(i, 12) for i in range(n)]
    else:
        f = [rng.randrange(1, rng.choice([3, 10, 1000])) for _ in range(n)]
    if rng.random() < 0.7:
        rng.shuffle(f)
    return f


def P12(c):
    big = c.thorough
    k = {"MaxWords": 4 if not big else 5, "MaxFreq": 4, "Bug": '"none"'}
    c.design("Huffman", Cfg(k, ["Sorted", "Tree", "Optimal", "CostsAgree"], ["Finishes"]), "Huffman (all shapes)")
    c.design("Huffman", Cfg({"MaxWords": 6, "MaxFreq": 2, "Bug": '"none"'}, ["Tree", "Optimal", "CostsAgree"]), "Huffman (six words)")
    c.mutant("Huffman", Cfg(dict(k, Bug='"no_sort"'), ["Optimal"]), "no_sort")
    c.mutant("Huffman", Cfg(dict(k, Bug='"append"'), ["Optimal"]), "append")
    recs = c.generate("Huffman", Cfg({"MaxWords": 5, "MaxFreq": 3 if not big else 5, "Bug": '"none"'}, ["Gen"]))
    cases = [{"freq": list(r["f"]), "dim": c.rng.choice([1, 2, 5])} for r in recs]
    nsmall = len(cases)
    for _ in range(150 if not big else 1200):
        n = c.rng.choice([0, 1, 2, 3, 5, 8, 17, 40, 100, c.rng.randrange(2, 200)])
        cases.append({"freq": freqs(c.rng, n), "dim": c.rng.choice([1, 3, 10])})
    for n in ([1000, 2000] if not big else [1000, 2000, 4000]):
        cases.append({"freq": freqs(c.rng, n), "dim": 2})
    for i in range(40 if not big else 300):      # frequencies and sums of them around powers of two
        b = 2 ** (23 if i < (3 if not big else 8) else c.rng.choice([7, 8, 14, 15, 15, 16]))
        f = [b, b + c.rng.choice([1, 1, 3]), b + c.rng.randrange(6), 2 * b + c.rng.choice([0, 0, 1, -1])]
        if i == 0:
            f = [b, b + 1, b + 5, 2 * b]
        if b < 2 ** 20:
            f += [c.rng.choice([1, 2, 3, b - 1, b, 2 * b - 1, 2 * b, 2 * b + 1]) for _ in range(c.rng.randrange(6))]
        c.rng.shuffle(f)
        cases.append({"freq": f, "dim": 1})
    out = c.drive("huffman", cases, per_case=60.0)
    for r, o in zip(recs, out):
        if not o:
            continue
        e = o["events"][0]
        nodes, n = e.get("nodes"), len(r["f"])
        if nodes is None or sum(x["v"] for x in nodes[n:]) != r["cost"]:
            c.violation("P12: frequencies %s: the optimal weighted depth is %d, the tree is %s" % (r["f"], r["cost"], str(e)[:800]), {"freq": r["f"], "observed": e})
            break
    c.count("generated_behaviours_replayed", nsmall)
    groups = [o["events"] for o in out if o]
    for g in (groups[3], groups[nsmall // 2]):
        c.sample(g[0])
    c.validate_all("HuffmanTrace", groups, descr("P12"))
    if not c.violations:
        bad = [dict(g[0]) for g in groups if len(g[0]["freq"]) == 4][0]
        bad["nodes"] = [dict(x) for x in bad["nodes"]]
        bad["nodes"][-1]["v"] += 1
        c.canary("HuffmanTrace", [bad])


def P13(c):
    big = c.thorough
    for th, h in ([("{1, 2}", 3), ("{1, 2, 3}", 2)] if not big else [("{1, 2}", 4), ("{1, 2, 3}", 3), ("{1, 2, 3, 4}", 2)]):
        c.design("PathCache", Cfg({"Threads": th, "Height": h, "MaxDepth": h + 1, "Once": "TRUE"}, ["Correct"], ["Stable", "Finishes"]), "PathCache %s threads, path of %d" % (th, h))
    c.mutant("PathCache", Cfg({"Threads": "{1, 2}", "Height": 3, "MaxDepth": 1, "Once": "FALSE"}, ["Correct"]), "unguarded cache")
    cases = []
    for _ in range(120 if not big else 800):
        n = c.rng.choice([1, 2, 3, 5, 8, 12, 20, 30])
        f = freqs(c.rng, n)
        cases.append({"freq": f, "dim": 1, "given": True, "lookups": [[c.rng.randrange(n), c.rng.choice([0, 1, 2, 3, n, n + 5, c.rng.randrange(0, 20)])] for _ in range(3 * n)]})
    for n in [22, 24, 26, 28, 30, 35] if not big else list(range(20, 37)):
        a, b, f = 1, 1, []
        for i in range(n):            # a path of n nodes
            f.append(a)
            a, b = b, a + b
        if c.rng.random() < 0.5:
            c.rng.shuffle(f)
        cases.append({"freq": f, "dim": 1, "given": True, "lookups": [[w, d] for w in range(n) for d in (0, n, n - 1, n + 5, c.rng.randrange(1, n))]})
    conc = []
    for _ in range(12 if not big else 60):
        n = c.rng.choice([2, 6, 12, 18, 20, 23])
        a, b, f = 1, 1, []
        for i in range(n):            # as deep as trees get
            f.append(a)
            a, b = b, a + b
        th = c.rng.choice([2, 4, 8, 16])
        same = c.rng.random() < 0.6
        plan = [[n - 1 - i, c.rng.choice([0, 0, 3, 100])] for i in range(n)]
        threads = []
        for t in range(th):
            p = [[w, d if same else c.rng.choice([0, 1, 5, 100])] for w, d in plan]
            if not same:
                c.rng.shuffle(p)
            threads.append(p)
        conc.append({"freq": f, "dim": 1, "given": True, "Threads": threads, "repeat": 150 if not big else 600})
    out = c.drive("huffman", cases + conc)
    groups = [o["events"] for o in out if o]
    c.sample(groups[3][1])
    c.sample(groups[-1][-1])
    c.validate_all("HuffmanTrace", groups, descr("P13"))
    c.count("concurrent_trees", sum(x["repeat"] for x in conc))
    if not c.violations:
        # the same lookups under the race detector
        raced = [dict(x, repeat=20 if not big else 60) for x in conc]
        out = c.drive("huffman", raced, race=True, env={"GORACE": "halt_on_error=1 exitcode=66"}, per_case=120)
        c.validate_all("HuffmanTrace", [o["events"] for o in out if o], descr("P13"))
    if not c.violations:
        g = [dict(e) for e in groups[4]]
        q = [list(x) for x in g[1]["lookups"]]
        q[0][2] = q[0][2][:-1]
        g[1] = dict(g[1], lookups=q)
        c.canary("HuffmanTrace", g)
