"""P21, P22: similarity search."""
import math
from fractions import Fraction
from vf import Cfg, CheckError

VECS = "{<<0, 0>>, <<1, 0>>, <<2, 0>>, <<1, 1>>, <<-1, 0>>, <<0, 1>>, <<1, 2>>}"


def consts(**kw):
    k = {"Vecs": VECS, "MaxItems": 3, "Queries": VECS, "Ks": "{-1, 0, 1, 2, 3, 5}", "Threads": "{1}", "Shared": "FALSE", "Bug": '"none"'}
    k.update(kw)
    return k


class Ambiguous(Exception):
    pass


def levels(items, q):
    """Similarity levels and exact cosines. NaN and infinite values have no positive similarity worth
    returning; the generator keeps away from values where rounding could decide: two similarities count as
    different only if they differ by more than the rounding errors of any reasonable way to compute them."""
    cos, sq, err = [], [], []
    for v in items:
        if any(math.isnan(x) or math.isinf(x) for x in v) or any(math.isnan(x) or math.isinf(x) for x in q):
            cos.append(None)
            err.append(0.0)
            continue
        fv, fq = [Fraction(x) for x in v], [Fraction(x) for x in q]
        d = sum(a * b for a, b in zip(fv, fq))
        mag = sum(abs(a * b) for a, b in zip(fv, fq))
        nv, nq = sum(a * a for a in fv), sum(b * b for b in fq)
        tol = 4.0 * (len(v) + 8) * 2.0 ** -53
        if d and float(abs(d) / mag) < 16 * tol:
            raise Ambiguous()
        if d <= 0 or nv == 0 or nq == 0:
            cos.append(Fraction(0))
            err.append(0.0)
            continue
        cos.append(d * d / (nv * nq))
        err.append(tol * (2 + float(mag / d)))
    vals = sorted({(x, e) for x, e in zip(cos, err) if x})
    for (a, ea), (b, eb) in zip(vals, vals[1:]):
        if a != b and float((b - a) / b) < 2 * (ea + eb):
            raise Ambiguous()
    if vals and float(vals[0][0]) < 1e-200:
        raise Ambiguous()
    rank = {x: i + 1 for i, x in enumerate(sorted({x for x in cos if x}))}
    # how far a returned similarity may be from the exact one
    return [0 if not x else rank[x] for x in cos], [(0.0, 1e-12) if not x else (math.sqrt(float(x)), 1e-12 + 4 * e) for x, e in zip(cos, err)]


def abstract(cs, rec):
    items = [[float(x) for x in it] for it in cs["items"]]
    evs = []
    for e in rec["events"]:
        e = dict(e)
        if e["ev"] == "Search":
            op = cs["ops"][e["op"]]
            names = {w: i + 1 for i, w in enumerate(cs.get("names") or ["w%d" % (i + 1) for i in range(len(items))])}
            known = True
            if op["kind"] == "word":
                known = op["word"] in names
                q = items[names[op["word"]] - 1] if known else None
                out = [names[op["word"]]] if known else []
            else:
                q = [float(x) for x in op["vec"]]
                out = [names[w] for w in op.get("ignore", []) if w in names] if op["kind"] == "emb" else []
            lev, cos = levels(items, q) if known else ([0] * len(items), [(0.0, 0.0)] * len(items))
            res = []
            for w, r, s in e["res"]:
                i = names.get(w, 0)
                try:
                    s = float(s)
                except ValueError:
                    s = float("nan")
                res.append([i, r, bool(i and abs(s - cos[i - 1][0]) <= cos[i - 1][1] * max(cos[i - 1][0], 1e-6))])
            e.update(known=known, lev=lev, out=out, k=max(-10 ** 6, min(10 ** 6, op["k"])), res=res, err=e["err"])
        evs.append(e)
    return evs


def rnd_vec(rng, dim, style):
    if style == "int":
        return [float(rng.randrange(-3, 4)) for _ in range(dim)]
    if style == "sparse":
        return [float(rng.choice([0, 0, 0, 1, -1])) for _ in range(dim)]
    if style == "near":      # similarities that differ in their last digits
        return [float(rng.choice([1, 1, 2, 3]))] + [rng.choice([-1, 1]) * rng.randrange(1, 10) * 10.0 ** -rng.randrange(3, 8) if rng.random() < 0.5 else 0.0 for _ in range(dim - 1)]
    if style == "faint":     # similarities close to zero
        return [rng.choice([-1, 1, 1]) * 10.0 ** -rng.randrange(0, 40)] + [float(rng.choice([1, 2, 0])) for _ in range(dim - 1)]
    if style == "big":
        return [rng.uniform(-1, 1) * 10.0 ** rng.randrange(-60, 60)] * 1 + [rng.uniform(-1, 1) for _ in range(dim - 1)]
    return [rng.gauss(0, 1) for _ in range(dim)]


NAMES = ["foo", "Foo", "FOO", "fo", "fooo", "f", "F", "é", "e\u0301", "É", "w1", "w01", "W1", "w10", "w1.", " w1", "w1 ", "1", "01", "1.0", "-", "--", "ß", "ss", "SS", "\u017f", "s", "K", "\u212a", "k", "NaN", "nan", "nil", "<nil>",
         "a b", "a\tb", "\u3000", "\u00a0x", "x", "\ufeffx", "x\u200b", "x" * 300, "x" * 299 + "y", "x" * 64, "x" * 63, "日本", "日本語", "costarring", "liquid", "creamwove", "quists", "plumless", "buckeroo", "Aa", "BB", "AaAa", "BBBB", "AaBB"]


def rename(rng, cs):
    """words that are easily mistaken for each other"""
    n = len(cs["items"])
    names = rng.sample(NAMES, min(n, len(NAMES))) + ["n%d" % i for i in range(n - len(NAMES))]
    of = {"w%d" % (i + 1): w for i, w in enumerate(names)}
    for op in cs["ops"]:
        op["word"] = of.get(op["word"], op["word"] if op["word"] not in names else "unknown")
        if op["kind"] == "word" and rng.random() < 0.2:
            op["word"] = rng.choice(NAMES)
        op["ignore"] = [of.get(w, w) if rng.random() < 0.8 else rng.choice(NAMES) for w in op["ignore"]]
    cs["names"] = names


def fmt(v):
    return [repr(x) for x in v]


def rand_case(rng, big, nops, special=True, n=None):
    dim = rng.choice([1, 2, 3, 10, 50] if n is None else [1, 2, 3])
    n = rng.choice([0, 1, 2, 3, 5, 12, 20, 20, 60, 100 if not big else 400]) if n is None else n
    style = rng.choice(["int", "int", "sparse", "gauss", "big", "near", "near", "faint"])
    items = [rnd_vec(rng, dim, style) for _ in range(n)]
    if style in ("int", "near", "sparse", "gauss") and rng.random() < 0.15:      # no similarity depends on how long the vectors are
        scale = rng.choice([(2.0 ** -503,), (2.0 ** 400,), (2.0 ** -200, 1.0, 2.0 ** 200), (2.0 ** -100, 2.0 ** -60)])
        items = [[x * f for x in v] for v in items for f in [rng.choice(scale)]]
    if n and rng.random() < 0.4:          # directions that occur several times
        for _ in range(min(n, 3)):
            items[rng.randrange(n)] = [2 * x for x in items[rng.randrange(n)]]
    if n and special and rng.random() < 0.3:
        items[rng.randrange(n)] = [float("nan")] + [1.0] * (dim - 1)
    if n and special and rng.random() < 0.15:
        items[rng.randrange(n)] = [float("inf")] + [1.0] * (dim - 1)
    if n and rng.random() < 0.3:
        items[rng.randrange(n)] = [0.0] * dim
    ops = []
    for _ in range(nops):
        k = rng.choice([1, 10, 100, 200, 500, 1000] + ([1023, 1025, n - 1, n, n + 1] if n <= 3000 else [])) if n > 500 else rng.choice([-1, 0, 1, 2, 3, 10, n - 1, n, n + 1, 10 * n + 7, 2 ** 31 - 1, -2 ** 31])
        kind = rng.choice(["word", "vec", "emb"])
        op = {"kind": kind, "k": k, "vec": [], "word": "", "ignore": []}
        if kind == "word":
            op["word"] = rng.choice(["w%d" % (rng.randrange(n) + 1) if n else "w1", "w%d" % (rng.randrange(n) + 1) if n else "w1", "unknown", "", "w0", "w"])
        else:
            op["vec"] = fmt(rng.choice([rnd_vec(rng, dim, style), rnd_vec(rng, dim, "sparse"), [1.0] + [0.0] * (dim - 1), items[rng.randrange(n)] if n else [1.0] * dim]))
            if special and rng.random() < 0.05:
                op["vec"] = fmt([float("nan")] * dim)
            if kind == "emb":
                op["ignore"] = ["w%d" % rng.randrange(1, n + 2) for _ in range(rng.choice([0, 1, 2, n]))]
        ops.append(op)
    cs = {"items": [fmt(v) for v in items], "ops": ops, "conc": 0, "rounds": 0}
    if rng.random() < 0.4:
        rename(rng, cs)
    return cs


def descr(prop):
    return lambda g, k: "%s: over %s items: %s" % (prop, g[0].get("n"), str(g[k])[:1500])


def P21(c):
    big = c.thorough
    c.design("Search", Cfg(consts(MaxItems=3 if not big else 4), ["Correct", "Prefix"], ["Finishes"]), "Search")
    c.mutant("Search", Cfg(consts(MaxItems=3, Bug='"stale_low"'), ["Correct"]), "stale_low")
    recs = c.generate("Search", Cfg(consts(MaxItems=3), ["Gen"]))
    if len(recs) > 25000 and not big:
        recs = c.rng.sample(recs, 25000)
    cases = []
    for i in range(0, len(recs)):
        r = recs[i]
        op = {"kind": "emb" if r["ex"] else c.rng.choice(["vec", "emb"]), "vec": fmt(map(float, r["q"])), "k": r["k"], "word": "",
              "ignore": ["w%d" % r["ex"]] if r["ex"] else []}
        if r["ex"] and list(r["items"][r["ex"] - 1]) == list(r["q"]) and list(r["q"]) not in [list(x) for x in r["items"][:r["ex"] - 1]]:
            op = {"kind": "word", "word": "w%d" % r["ex"], "vec": [], "k": r["k"], "ignore": []}
        cases.append({"items": [fmt(map(float, x)) for x in r["items"]], "ops": [op], "conc": 0, "rounds": 0})
    out = c.drive("search", cases, oom=True)
    for r, cs, o in zip(recs, cases, out):
        if not o:
            continue
        e = o["events"][-1]
        bad = None
        if e["ev"] != "Search":
            bad = str(e)[:500]
        else:
            lev = list(r["lev"])
            cand = [i + 1 for i in range(len(lev)) if lev[i] > 0 and i + 1 != r["ex"]]
            want = max(0, min(r["k"], len(cand)))
            got = [int(x[0][1:]) if x[0][1:].isdigit() else 0 for x in e["res"]]
            best = sorted((lev[i - 1] for i in cand), reverse=True)[:want]
            if e["err"] or len(set(got)) != len(got) or any(i not in cand for i in got) or [lev[i - 1] for i in got] != best or \
                    [x[1] for x in e["res"]] != list(range(1, want + 1)):
                bad = "returned %s, levels are %s" % (e["res"], lev)
        if bad:
            c.violation("P21: items %s, %s: %s" % (cs["items"], cs["ops"], bad), {"case": cs, "observed": e})
            break
    c.count("generated_behaviours_replayed", len(recs))
    c.sample({"generated": recs[len(recs) // 2]})
    # validation of random searches, including all generated ones as traces
    rcases, groups = [], []
    many = [1000, 1025, 2500, 5000, 11000] if not big else [1000, 1023, 1025, 2048, 2500, 4097, 5000, 8200, 11000, 20000, 40000]
    while len(rcases) < (1600 if not big else 8000):
        cs = rand_case(c.rng, big, c.rng.choice([1, 5, 10])) if not many else rand_case(c.rng, big, 3, n=many[0])
        if many and many[0] <= 3000:
            for op in cs["ops"]:
                op["k"] = many[0] + c.rng.choice([-1, 0, 1])
        try:
            for op in cs["ops"]:
                if op["kind"] != "word":
                    levels([[float(x) for x in it] for it in cs["items"]], [float(x) for x in op["vec"]])
                else:
                    names = cs.get("names") or ["w%d" % (i + 1) for i in range(len(cs["items"]))]
                    if op["word"] in names:
                        levels([[float(x) for x in it] for it in cs["items"]], [float(x) for x in cs["items"][names.index(op["word"])]])
        except Ambiguous:
            continue
        rcases.append(cs)
        many = many[1:]
    out = c.drive("search", rcases, oom=True)
    groups = [abstract(cs, o) for cs, o in zip(rcases, out) if o]
    c.sample(groups[5][-1])
    c.validate_all("SearchTrace", groups, descr("P21"))
    if not c.violations:
        c.canary("SearchTrace", [{"ev": "Searcher", "n": 2}, {"ev": "Search", "known": True, "err": "", "lev": [1, 2], "out": [], "k": 2,
                                                              "res": [[1, 1, True], [2, 2, True]]}])


def P22(c):
    big = c.thorough
    two = "{1, 2}" if not big else "{1, 2, 3}"
    small = "{<<1, 0>>, <<1, 1>>, <<0, 1>>}"
    c.design("Search", Cfg(consts(Vecs=small, Queries="{<<1, 0>>, <<0, 1>>}", MaxItems=2 if big else 3, Ks="{1, 2}", Threads=two), ["Correct"], ["Finishes"]), "Search, concurrent")
    c.mutant("Search", Cfg(consts(Vecs=small, Queries="{<<1, 0>>, <<0, 1>>}", MaxItems=2, Ks="{1, 2}", Threads="{1, 2}", Shared="TRUE"), ["Correct"]), "shared result buffer")
    cases = []
    for _ in range(60 if not big else 400):
        cs = rand_case(c.rng, big, c.rng.choice([3, 6, 12]))
        for op in cs["ops"]:
            op["k"] = max(1, min(op["k"], len(cs["items"]) + 3))
        cs.update(conc=c.rng.choice([2, 4, 8]), rounds=c.rng.choice([3, 10]) if len(cs["items"]) > 50 else 40)
        cases.append(cs)
    out = c.drive("search", cases)
    groups = [o["events"] for o in out if o]
    c.sample(groups[0][:4])
    c.validate_all("SearchTrace", groups, descr("P22"))
    c.count("concurrent_searches", sum(x["conc"] * x["rounds"] * len(x["ops"]) for x in cases))
    if not c.violations:
        raced = [dict(x, rounds=2) for x in cases]
        out = c.drive("search", raced, race=True, env={"GORACE": "halt_on_error=1 exitcode=66"}, per_case=120)
        c.validate_all("SearchTrace", [o["events"] for o in out if o], descr("P22"))
    if not c.violations:
        g = [dict(e) for e in groups[0]]
        g[-1] = dict(g[-1], after=["x"])
        c.canary("SearchTrace", g)
