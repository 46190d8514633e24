"""P30, P31: what training does to the vectors, in numbers; subsampling."""
import math
from vf import Cfg, CheckError
from trainlib import *

S = 262144


def fx(m):
    return [[round(x * S) for x in r] for r in m]


def solve(basis, d):
    """coefficients of d on the basis vectors (least squares)"""
    n = len(basis)
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    a = [[dot(basis[i], basis[j]) for j in range(n)] + [dot(basis[i], d)] for i in range(n)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(a[i][k]))
        a[k], a[p] = a[p], a[k]
        for i in range(n):
            if i != k:
                f = a[i][k] / a[k][k]
                a[i] = [x - f * y for x, y in zip(a[i], a[k])]
    return [a[k][n] / a[k][k] for k in range(n)]


def pairs_of(t):
    """co-occurring pairs by first appearance: (a, b) -> weighted count"""
    ids, ws = {}, [w.lower() if t.lower else w for w in t.words]
    for w in ws:
        ids.setdefault(w, len(ids))
    co = {}
    for i in range(len(ws)):
        for j in range(i + 1, min(len(ws), i + t.window + 1)):
            k = tuple(sorted((ids[ws[i]], ids[ws[j]])))
            co[k] = co.get(k, 0) + (1 / (j - i) if t.ctype == "prox" else 1)
    return co


def biases(t, tiny, lr):
    """The initial biases of a GloVe model, up to a constant that no step can show: read off a training with the
    same initial parameters and a tiny learning rate."""
    v = len(tiny["w0"])
    co = pairs_of(t)
    total = {}           # (own, context) -> sum of the two biases
    for a in range(v):
        part = sorted({y if x == a else x for x, y in co if a in (x, y)})
        if not part:
            continue
        d = [(y - x) / lr for x, y in zip(tiny["w0"][a], tiny["w"][a])]
        cf = solve([tiny["c0"][b] for b in part], d)
        for b, x in zip(part, cf):
            f = co[(min(a, b), max(a, b))]
            weight = (min(1.0, (f / t.xmax) ** t.alpha)) * t.iters * (2 if a == b else 1)
            total[(a, b)] = -x / weight - sum(p * q for p, q in zip(tiny["w0"][a], tiny["c0"][b])) + math.log(f)
    b = [[None] * v, [None] * v]
    for a in range(v):
        if b[0][a] is None:
            b[0][a] = 0.0
            todo = [(0, a)]
            while todo:
                s, i = todo.pop()
                for (x, y), tot in total.items():
                    if (x, y)[s] == i and b[1 - s][(y, x)[s]] is None:
                        b[1 - s][(y, x)[s]] = tot - b[s][i]
                        todo.append((1 - s, (y, x)[s]))
    return [[round((x or 0.0) * S) for x in r] for r in b]


def branches(t):
    """how many behaviours the specification allows for this training"""
    n, v = len(t.words), t.v()
    ctx = sum(min(n - 1, i + t.window) - max(0, i - t.window) for i in range(n)) * t.iters
    pos = n * t.iters
    if t.model == "glove":
        return math.factorial(len(pairs_of(t))) ** t.iters
    draws = 0 if t.opt == "hs" else t.ns
    return t.window ** pos * v ** (draws * (pos if t.kind == "cbow" and t.model == "word2vec" else ctx))


def rand_training(rng):
    model = rng.choice(["word2vec", "word2vec", "word2vec", "word2vec", "lexvec", "lexvec", "glove", "glove"])
    while True:
        v = rng.choice([1, 2, 2, 3, 3, 4])
        words = ["w%d" % rng.randrange(v) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8]))]
        if model == "word2vec":
            t = T(model, words, kind=rng.choice(["skipgram", "cbow"]), opt=rng.choice(["ns", "ns", "hs"]), ns=rng.choice([0, 0, 1, 1, 2, 3]), window=rng.choice([1, 1, 1, 2, 3]),
                  iters=rng.choice([1, 1, 2, 3, 6]), dim=rng.choice([1, 2, 2, 3, 5, 8, 17]), lr=rng.choice([0.25, 1.0, 1.0, 4.0, 16.0, 40.0]), depth=rng.choice([0, 0, 1, 2, 3, 9]), mode="mem")
        elif model == "lexvec":
            t = T(model, words, rel=rng.choice(["co", "logco", "pmi", "ppmi"]), smooth=rng.choice([0.25, 0.5, 0.75, 0.75, 1.0, 1.0]), ns=rng.choice([0, 0, 1, 1, 2]), window=rng.choice([1, 1, 1, 2]), iters=rng.choice([1, 2, 3, 6]), dim=rng.choice([1, 2, 2, 3, 5, 8, 17]),
                  lr=rng.choice([0.0625, 0.25, 0.5, 1.0]), mode="mem")
        else:
            t = T(model, words, ctype=rng.choice(["inc", "prox"]), window=rng.choice([1, 1, 2, 3]), iters=rng.choice([1, 1, 2, 3, 4]), dim=rng.choice([4, 5, 6, 9, 17]), solver=rng.choice(["sgd", "adagrad"]),
                  lr=rng.choice([0.0625, 0.125, 0.25, 0.5]), xmax=rng.choice([1, 2, 3, 5, 10]), alpha=rng.choice([0.0, 0.25, 0.5, 0.75, 1.0]), mode="mem")
        t.batch = 1000
        if rng.random() < 0.3:
            t.mode = "stream"
        if branches(t) <= 1500 and len(t.words) * t.iters <= 24:
            return t


def long_training(rng):
    """hundreds of steps without a choice"""
    v = rng.choice([1, 2, 3, 5])
    model = rng.choice(["word2vec", "word2vec", "word2vec", "lexvec", "glove"])
    if model == "glove":
        return T(model, rng.choice(["w0 w1", "w0 w1 w0 w1", "w0 w0 w0"]).split() if rng.random() < 0.7 else ["w0", "w1"] * 150, ctype="inc", window=1, iters=rng.choice([20, 40]), dim=rng.choice([4, 5]), solver=rng.choice(["sgd", "adagrad"]),
                 lr=rng.choice([0.0625, 0.25]), xmax=rng.choice([1, 10]), alpha=0.75, mode=rng.choice(["mem", "stream"]), batch=100000)
    words = ["w%d" % rng.randrange(v) for _ in range(rng.choice([80, 210, 260, 400]))]
    if model == "lexvec":
        return T(model, words, rel=rng.choice(["logco", "pmi", "ppmi"]), smooth=1.0, ns=0, window=1, iters=1, dim=rng.choice([2, 3]), lr=rng.choice([0.00390625, 0.015625, 0.0625, 0.25]), mode=rng.choice(["mem", "stream"]), batch=100000)
    return T(model, words, kind=rng.choice(["skipgram", "cbow", "cbow"]), opt=rng.choice(["ns", "hs"]), ns=0, window=1, iters=1, dim=rng.choice([2, 3, 5]), lr=rng.choice([0.00390625, 0.015625, 0.0625, 0.25]), depth=rng.choice([0, 2, 3]),
             mode=rng.choice(["mem", "stream"]), batch=100000)


def wide_training(rng):
    """vectors of hundreds of numbers"""
    words = ["w%d" % rng.randrange(2) for _ in range(rng.choice([2, 3, 4]))]
    model, dim = rng.choice(["word2vec", "word2vec", "word2vec", "lexvec", "glove"]), rng.choice([100, 257, 400, 513, 700])
    if model == "glove":
        return T(model, ["w0", "w1"], ctype="inc", window=1, iters=2, dim=dim, solver=rng.choice(["sgd", "adagrad"]), lr=0.25, xmax=1, alpha=0.75, mode="mem", batch=1000)
    if model == "lexvec":
        return T(model, words, rel="logco", smooth=1.0, ns=0, window=1, iters=1, dim=dim, lr=0.25, mode="mem", batch=1000)
    return T(model, words, kind=rng.choice(["skipgram", "cbow"]), opt=rng.choice(["ns", "hs"]), ns=0, window=1, iters=rng.choice([2, 3, 4, 6]), dim=dim, lr=rng.choice([16.0, 40.0, 40.0]), mode=rng.choice(["mem", "stream"]), batch=1000)


def case(t, seed, **kw):
    o = t.opts()
    o.update(kw)
    return {"model": t.model, "opts": o, "text": b64(t.text), "seed": seed, "basis": True, "unit": 1.0, "hs": t.model == "word2vec" and t.opt == "hs", "raw": True, "noleak": True}


TINY = 1e-6


def gevent(t, r, tiny, path):
    e = t.event()
    last = r["events"][-1]
    if last["ev"] != "Return" or last["err"] or "finite" not in last:
        return last
    if not last["finite"] or any(abs(x) > 1900 for m in ("w", "c") for row in last[m] for x in row):
        return None         # beyond the range of the specification's numbers
    e.update(ev="Grad", lr=round(t.lr * S), w0=fx(last["w0"]), c0=fx(last["c0"]), w=fx(last["w"]), c=fx(last["c"]), solver=t.solver, xmax=t.xmax, quarters=round(t.alpha * 4), paths=[], nodes=0, b0=[])
    if t.model == "word2vec" and t.opt == "hs":
        e.update(paths=path["paths"], nodes=path["nodes"])
    if t.model == "glove":
        e["b0"] = biases(t, tiny, TINY)
    return e


GRID = {"Grid": "{-6, -4, -1, 0, 1, 3, 4}", "Rates": "{1, 2, 16}", "Kinds": '{"pos", "neg", "glove", "lex"}', "Bug": '"none"'}


def P30(c):
    big = c.thorough
    k = GRID if not big else dict(GRID, Grid="{-12, -6, -4, -2, -1, 0, 1, 2, 3, 4, 8}")
    c.design("Gradient", Cfg(k, ["Along", "Factor", "Toward", "Moves"]), "Gradient (one step)", deadlock=False, timeout=3000, heap="16g")
    c.design("Gradient", Cfg(dict(k, Rates="{1}", Kinds='{"pos"}'), ["Arithmetic"]), "Gradient (arithmetic)", deadlock=False, timeout=3000)
    for b, i in (("sign", "Toward"), ("fresh", "Along")):
        c.mutant("Gradient", Cfg(dict(GRID, Bug='"%s"' % b), [i]), b, deadlock=False)
    # every small training, up to a choice of its numbers
    recs = c.generate("GradGen", Cfg({"MaxLen": 4 if big else 3, "V": 3}, ["Gen"]), "GradGen")
    c.rng.shuffle(recs)
    ts = []
    for r in recs:
        o = dict(r["conf"])
        o["lr"] = o["lr"] / 4
        o["dim"] = 4 if o["model"] == "glove" else c.rng.choice([1, 2, 3, 4, 7])
        t = T(o.pop("model"), ["w%d" % x for x in r["doc"]], mode=c.rng.choice(["mem", "stream"]), batch=1000, alpha=c.rng.choice([0.25, 0.5, 0.75]), **o)
        if branches(t) <= 700:
            ts.append(t)
    ts = ts[:400 if not big else 4000]
    c.count("generated_behaviours_replayed", len(ts))
    ts += [rand_training(c.rng) for _ in range(500 if not big else 6000)]
    ts += [long_training(c.rng) for _ in range(40 if not big else 300)]
    ts += [wide_training(c.rng) for _ in range(30 if not big else 150)]
    seeds = [c.rng.randrange(1, 10 ** 6) for _ in ts]
    recs = c.drive("train", [case(t, s) for t, s in zip(ts, seeds)], per_case=20.0)
    tiny = c.drive("train", [case(t, s, Initlr=TINY) if t.model == "glove" else {"op": "paths", "text": b64(t.text)} for t, s in zip(ts, seeds)], per_case=20.0)
    groups = []
    for t, r, y in zip(ts, recs, tiny):
        if r and y:
            e = gevent(t, r, y["events"][-1], y["events"][0])
            if e:
                groups.append([e])
    c.count("trainings_validated", len(groups))
    c.sample(groups[0])
    c.validate_par("GradTrace", groups, descr("P30"))
    if c.violations:
        return
    # corrupted results
    for model in ("word2vec", "glove", "lexvec"):
        for g in [g[0] for g in groups if g[0]["model"] == model and g[0].get("ev") == "Grad" and g[0]["w"] != g[0]["w0"] and g[0]["lr"] <= S and g[0]["iters"] == 1][:3]:
            i, j = max(((i, j) for i in range(len(g["w"])) for j in range(len(g["w"][0]))), key=lambda ij: abs(g["w"][ij[0]][ij[1]] - g["w0"][ij[0]][ij[1]]))
            d = g["w"][i][j] - g["w0"][i][j]
            if abs(d) > 20000:
                bad = [list(r) for r in g["w"]]
                bad[i][j] += d // 3
                c.canary("GradTrace", [dict(g, w=bad)])
    c.assumptions.append("trainings of one worker and one share with a constant learning rate; GloVe: the initial biases are read off a second training with the same random choices and a tiny rate")
    c.assumptions.append("numbers are followed as intervals in fixed point; a training whose intervals grow wider than one is not followed to its end")


def sub_event(t, rec, thr):
    last = rec["events"][-1]
    if last["ev"] != "Return" or last["err"]:
        return last
    k = [e for e in rec["events"] if e["ev"] == "K" and e.get("final")]
    if not k:
        return last
    o = OBS["steps" if t.model == "word2vec" else "lex"](k[-1], t)
    if t.model == "lexvec":
        ms, v = mats(k[-1], t.v()), t.v()
        o["s"] = dense(v, lambda x, y: max(-10 ** 9, min(10 ** 9, round(ms.get((0, 0), {}).get((x, y), 0.0)))))
    return dict(t.event(), ev="Sub", thr=thr, k=o["kc"] if t.model == "word2vec" else o["s"], odd=[x for x in o["odd"] if "shape" in x])       # small second-order effects of thousands of steps are no matter here


def rand_sub(rng):
    """a text, a threshold (in 1/1024)"""
    v = rng.choice([1, 2, 3, 5, 10, 20, 40])
    model = rng.choice(["word2vec", "word2vec", "lexvec"])
    words, extra = [], {}
    if rng.random() < 0.3:          # few words, very frequent, in one pass
        v = rng.choice([2, 3, 5])
        while len(words) < rng.choice([300, 500]):
            w = "w%d" % rng.randrange(v)
            if model == "word2vec" or not words or words[-1] != w:
                words.append(w)
        f = min(words.count(w) for w in set(words))
        thr = rng.choice([0, 256 * f, 256 * f, 100 * f, 600 * f])
        return T(model, words, kind=rng.choice(["skipgram", "cbow"]), window=1, iters=rng.choice([1, 1, 2, 3]), mode=rng.choice(["mem", "stream"]), g=1, batch=100000, threshold=thr / 1024, rel="co", lr=1e-10), thr
    if rng.random() < 0.5:
        words = distinct(rng.choice([1, 2, 3, 10, 40, 80]))
    else:
        for _ in range(rng.choice([2, 5, 20, 60, 120])):
            w = "w%d" % min(rng.randrange(v + 1), rng.randrange(v + 1))
            if model == "word2vec" or not words or words[-1] != w:
                words.append(w)
        if model == "word2vec":
            extra = dict(max=rng.choice([-1, -1, -1, 3]), min=rng.choice([0, 0, 2]))
    fs = sorted(words.count(w) for w in set(words))
    thr = rng.choice([0, 1, 1, rng.randrange(1, 1024), rng.randrange(1, 1024), 1023, 1024, 1025, 1024 * rng.choice(fs), 1024 * rng.choice(fs) - 300, 1024 * rng.choice(fs) + 1, rng.randrange(1, 1024 * fs[-1] + 1), 512 * fs[-1], 90000])
    iters = rng.choice([1, 10, 60, 250]) if len(words) > 30 else rng.choice([30, 200, 800])
    t = T(model, words, kind=rng.choice(["skipgram", "cbow"]), window=1, iters=iters, mode=rng.choice(["mem", "stream"]), g=1, batch=100000, threshold=thr / 1024, rel="co", lr=1e-10, **extra)
    if model == "word2vec" and len(words) >= 10 and len(set(words)) == len(words) and rng.random() < 0.6:
        t.window, t.g, t.min, t.max = rng.choice([1, 2, 3, 5]), rng.choice([1, 1, 2, 3, 4]), 0, -1
        t.batch = rng.choice([100000, 5]) if t.mode == "stream" and t.g > 1 else 100000
    return t, thr


def P31(c):
    big = c.thorough
    k = {"MaxLen": 5 if big else 4, "V": 3, "Thresholds": "{0, 1, 300, 512, 1023, 1024, 1025, 2000, 3000, 9000}", "D": 10, "Bug": '"none"'}
    inv = ["Independent", "Extremes", "Contexts", "Monotone", "Rule"]
    c.design("Subsample", Cfg(k, inv), "Subsample", deadlock=False, timeout=3000)
    c.design("Subsample", Cfg(dict(k, MaxLen=1, V=1, Thresholds="{0}"), ["Bound"]), "Subsample (acceptance bound)", deadlock=False, min_states=2)
    for b, i in (("inverted", "Extremes"), ("cached", "Independent"), ("dropped", "Contexts")):
        c.mutant("Subsample", Cfg(dict(k, MaxLen=3, V=2, Bug='"%s"' % b), [i]), b, deadlock=False)
    cases, groups = [], []
    for _ in range(60 if not big else 600):
        fs = [c.rng.choice([1, 1, 2, 3, 5, 10, 30, 100, 1000, 1001, 2000, 5000]) for _ in range(c.rng.choice([1, 2, 3, 8]))]
        f = c.rng.choice(fs)
        thr = c.rng.choice([0, 1, 10, 102, 512, 1023, 1024, 1025, min(800000, 1024 * f), min(800000, 512 * f), min(800000, 1024 * f + 1), c.rng.randrange(1, min(800000, 1024 * f) + 1)])
        calls = c.rng.choice([2000, 60000])
        if c.rng.random() < 0.3 and f < 750:          # hardly ever, almost always
            thr, calls = max(0, round(1024 * f * (1 - c.rng.choice([0.003, 0.006, 0.01, 0.015, 0.02, 0.03, 0.05, 0.1, 0.9, 0.95, 0.98, 0.99, 0.995])) ** 2)), 60000
        cases.append(dict(op="trials", freq=fs, threshold=thr / 1024, calls=calls, seed=c.rng.randrange(1, 10 ** 6), thr=thr))
    for x, r in zip(cases, c.drive("train", cases)):
        if r:
            groups.append([dict(r["events"][0], thr=x["thr"])])
    c.sample(groups[0])
    ts = [rand_sub(c.rng) for _ in range(240 if not big else 2500)]
    recs = c.drive("train", [t.case(c, snaps=False) for t, _ in ts], per_case=60.0)
    for (t, thr), r in zip(ts, recs):
        if r:
            groups.append([sub_event(t, r, thr)])
    c.sample(groups[-1])
    # ten thousands of words: the frequencies repeat every 50 words, some stretches of 50 are looked at
    for v in [70000] if not big else [20000, 40000, 70000, 140000]:
        fs = [c.rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(50)]
        r = c.drive("train", [dict(op="trials", freq=fs * (v // 50), threshold=1.5, calls=2000, seed=c.rng.randrange(1, 10 ** 6))], per_case=100.0)[0]
        for a in [0, v - 50] + [50 * c.rng.randrange(v // 50) for _ in range(6)] if r else []:
            e = r["events"][0]
            groups.append([e if e["ev"] != "Trials" else dict(e, thr=1536, **{k: e[k][a:a + 50] for k in ("freq", "hits", "same", "next")})])
    c.validate_par("SubsampleTrace", groups, descr("P31"))
    if c.violations:
        return
    ev = {"ev": "Trials", "freq": [1, 4], "n": 60000, "hits": [30000, 45000], "same": [7500, 16875], "next": [11250, 11250], "thr": 256}
    if c.validate("SubsampleTrace", [ev])[0] is not None:
        raise CheckError("SubsampleTrace refuses a specified behaviour")
    for bad in (dict(ev, hits=[32000, 45000]), dict(ev, same=[7500, 22000]), dict(ev, next=[15000, 11250]), dict(ev, thr=128)):
        c.canary("SubsampleTrace", [bad])
    c.assumptions.append("probabilities are compared within six standard deviations; trainings of one worker with window 1, or texts of distinct words")
