"""P10, P11, P15, P16, P28: what one training step does."""
from vf import Cfg, CheckError
from trainlib import *
from train import observe, parallel, far_fit, stepc, glove_cases, replay_generated, SINV
import itertools


def P10(c):
    big = c.thorough
    c.design("Steps", Cfg(stepc(MaxLen=4, V=4, Window=2), SINV), "Steps (distinct words, window 2)", timeout=3000)
    c.design("Steps", Cfg(stepc(MaxLen=4 if not big else 5, V=3, Window=2, DocKind='"all"', Sizes="{2, 3}"), SINV), "Steps (all texts, window 2)", timeout=3000)
    if big:
        c.design("Steps", Cfg(stepc(MaxLen=5, V=5, Window=3), SINV), "Steps (distinct words, window 3)", timeout=3000, heap="16g")
    for b in ("cross_share", "own_position", "right_only", "wide", "other_window", "skip_one"):
        c.mutant("Steps", Cfg(stepc(Window=2, Bug='"%s"' % b), ["Accepted"]), b)
    # every outcome of the radius choices over small texts; the real training has to end in one of them
    recs = c.generate("Steps", Cfg(stepc(MaxLen=4 if not big else 5, V=4 if not big else 5, Window=2, Sizes="{2, 3, 4}" if not big else "{2, 3, 4, 5}"), ["Gen"]), "Steps (distinct words, window 2)", timeout=3000)
    replay_generated(c, "P10", recs, 4 if not big else 40)
    if not c.violations:
        recs = c.generate("Steps", Cfg(stepc(MaxLen=4, V=3, Window=3, Modes='{"stream"}', DocKind='"all"', Sizes="{3, 4}"), ["Gen"]), "Steps (all texts, window 3)", timeout=3000)
        replay_generated(c, "P10", recs)
    if c.violations:
        return
    ts = []
    for i in range(220 if not big else 2500):      # distinct words: every position shows its radius
        n = c.rng.choice([1, 2, 3, 5, 8, 12, 16, 20, c.rng.randrange(1, 25)])
        words, mx = distinct(n), -1
        if c.rng.random() < 0.4:
            words, mx = with_filtered(c.rng, n, c.rng.choice([2, 3])), 1
        kw = dict(mode=c.rng.choice(["mem", "stream"]), g=c.rng.choice([1, 2, 3, 4, 7, n + 1]), batch=c.rng.choice([1, 2, 3, 4, 5, max(1, n - 1), n, n + 1, 1000]), iters=c.rng.choice([1, 1, 2, 3, 5]),
                  max=mx, window=c.rng.choice([1, 2, 2, 3, 4, 5, 8, 15, 16, 17, 30, 100]))
        if i % 11 == 10:
            n = c.rng.randrange(25, 60)
            words, mx = distinct(n), -1
            kw.update(window=c.rng.choice([10, 16, 20, 31, 32, 33, 40, 64]), max=mx, batch=c.rng.choice([n, n // 2 + 1, 1000]), g=c.rng.choice([1, 2]))
        if i % 5 == 4:
            kw["window"] = c.rng.choice([2, 3])
            ts.append(T("lexvec", words[:c.rng.randrange(1, 7)] if mx < 0 else words, rel="co", **dict(kw, iters=1, mode="stream")))
        else:
            ts.append(T("word2vec", words, kind=c.rng.choice(["skipgram", "cbow"]), **kw))
    for i in range(60 if not big else 600):
        n = c.rng.choice([7, 8, 10, 12, 16, 20])
        ts.append(T("lexvec", distinct(n), rel="co", mode=c.rng.choice(["mem", "stream"]), g=c.rng.choice([1, 1, 2, 3]), batch=c.rng.choice([3, 7, n, 1000]), window=c.rng.choice([1, 2, 2, 3, 3, 4, 5]), ns=c.rng.choice([0, 0, 1])))
    for i in range(80 if not big else 1000):       # repeated words, one worker
        words = ["w%d" % c.rng.randrange(c.rng.choice([1, 2, 3, 5])) for _ in range(c.rng.randrange(1, 7))]
        ts.append(T("word2vec" if i % 3 else "lexvec", words, kind=c.rng.choice(["skipgram", "cbow"]), mode=c.rng.choice(["mem", "stream"]), g=1, batch=c.rng.choice([2, 3, 5, 100]), window=c.rng.choice([2, 3]),
                    min=c.rng.choice([0, 0, 2, -1]), max=c.rng.choice([-1, -1, 2]), iters=1 if i % 3 == 0 else c.rng.choice([1, 1, 2])))
    for i in range(80 if not big else 800):        # words next to themselves
        words = []
        while len(words) < c.rng.choice([3, 4, 5, 6]):
            words += ["w%d" % c.rng.randrange(3)] * c.rng.choice([1, 2, 2, 3])
        ts.append(T("word2vec", words[:6], kind=c.rng.choice(["skipgram", "cbow", "cbow"]), mode=c.rng.choice(["mem", "stream"]), g=1, batch=100, window=c.rng.choice([2, 3])))
    observe(c, ts, lambda t: {"word2vec": "steps", "lexvec": "lex"}[t.model], "P10", snaps=False)
    if not c.violations:
        t = T("word2vec", distinct(4), window=2)
        k = [[0, 1, 1, 0], [1, 0, 1, 0], [0, 1, 0, 1], [0, 0, 1, 0]]
        ok = {"ev": "Steps", "rows": 4, "final": True, "odd": [], "kw": k, "kc": k}
        for bad in ([[0, 1, 0, 1], k[1], k[2], k[3]], [k[0], [1, 0, 1, 1], [0, 1, 0, 0], k[3]], [[1, 1, 1, 0], k[1], k[2], k[3]]):
            c.canary("TrainTrace", [t.event(), dict(ok, kw=bad, kc=bad)])
        c.canary("TrainTrace", [t.event(), dict(ok, kw=[k[0], k[1], k[2], [0, 1, 1, 0]])])
        if c.validate("TrainTrace", [t.event(), ok])[0] is not None:
            raise CheckError("TrainTrace refuses a specified behaviour")


def reach(c, models, count):
    """draws from vocabularies of thousands of words"""
    ts, cases = [], []
    for i in range(count):
        v, n, ns = c.rng.choice([(501, 1200, 20), (1301, 1500, 20), (2051, 2100, 20), (3001, 3100, 20), (5001, 5100, 20)])
        model, kind = c.rng.choice(models), c.rng.choice(["skipgram", "skipgram", "cbow"])
        if kind == "cbow" and model == "word2vec":
            ns *= 2
        e = c.rng.choice([2, 3, 7])
        words = ["e%d" % (k % e) for k in range(n + c.rng.randrange(50))] + ["w%d" % k for k in range(v - e)]
        c.rng.shuffle(words)
        t = T(model, words, kind=kind if model == "word2vec" else "skipgram", mode=c.rng.choice(["mem", "stream"]), ns=c.rng.choice([ns, ns, ns, 0]) if model == "word2vec" else ns, min=2, batch=10 ** 6, g=1, dim=2, lr=1e-3 if model == "word2vec" else 1e-10)        # LexVec: large targets
        t.nocooc = True
        ts.append(t)
        cases.append(t.case(c, snaps=False, raw=True, near=[[]] * v, chunk=0))
    groups = []
    for t, r in zip(ts, c.drive("train", cases, per_case=60.0)):
        if not r:
            continue
        e = r["events"][-1]
        g = [t.event()]
        if e["ev"] == "Return" and "w" in e and "w0" in e:
            g.append({"ev": "Reach", "rows": len(e["w"]), "w": [k for k, (a, b) in enumerate(zip(e["w"], e["w0"])) if a != b],
                      "c": [k for k, (a, b) in enumerate(zip(e["c"], e["c0"])) if a == b]})
            g.append(ret_event(e))
        else:
            g.append(e)
        groups.append(g)
    c.validate_all("TrainTrace", groups, descr(c.prop))
    if c.violations:
        return
    # ten thousands of words
    ts, cases, groups = [], [], []
    for i in range(1 if not c.thorough else 4):
        v, e, model, mode = c.rng.choice([33001, 70001]) if i else 70001, c.rng.choice([2, 3, 7]), c.rng.choice(models), c.rng.choice(["mem", "stream"])
        elig = v + c.rng.randrange(1000)
        words = ["e%d" % (k % e) for k in range(elig)] + ["w%d" % k for k in range(v - e)]
        t = T(model, words, mode=mode, ns=20, min=2, batch=10 ** 6, g=1, dim=2, lr=1e-3 if model == "word2vec" else 1e-10)        # LexVec: large targets
        t.nocooc = True
        ts.append((t, v, e, elig))
        cases.append(t.case(c, snaps=False, raw=True, near=[[]] * v, chunk=0))
    for (t, v, e, elig), r in zip(ts, c.drive("train", cases, per_case=100.0)):
        if not r:
            continue
        x = r["events"][-1]
        if x["ev"] == "Return" and "w" in x and "w0" in x:
            groups.append([{"ev": "FarReach", "kind": t.kind, "model": t.model, "mode": t.mode, "ns": t.ns, "elig": elig, "v": v, "e": e, "rows": len(x["w"]),
                            "w": [k for k, (a, b) in enumerate(zip(x["w"], x["w0"])) if a != b][:100], "c": [k for k, (a, b) in enumerate(zip(x["c"], x["c0"])) if a == b][:100]}])
        else:
            groups.append([y for y in r["events"] if y["ev"] != "K"][-1:])
    c.validate_all("TrainTrace", groups, descr(c.prop))


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23]


def P11(c):
    big = c.thorough
    d = dict(MaxLen=3, V=3, NS=1, Sizes="{2, 3}", Modes='{"stream"}', DocKind='"all"')
    c.design("Steps", Cfg(stepc(**d), SINV), "Steps (one draw)", timeout=3000)
    c.design("Steps", Cfg(stepc(**dict(d, NS=2, V=2 if not big else 3)), SINV), "Steps (two draws)", timeout=3000, heap="16g")
    for b in ("train_target", "one_more"):
        c.mutant("Steps", Cfg(stepc(**dict(d, Bug='"%s"' % b)), ["Negatives"]), b)
    # every outcome of the draws over small texts
    recs = c.generate("Steps", Cfg(stepc(**dict(d, Sizes="{3}")), ["GenDraws"]), "Steps (one draw)", timeout=3000)
    r2 = c.generate("Steps", Cfg(stepc(**dict(d, V=2, NS=3, Sizes="{3}")), ["GenDraws"]), "Steps (three draws)", timeout=3000)
    want = {}
    for r in recs + r2:
        want.setdefault((tuple(r["doc"]), r["kind"], r["v"], r["ns"]), set()).add(str(r["d"]))
    ts, keys = [], []
    for (doc, kind, v, ns), ds in sorted(want.items()):
        if len(set(doc)) < v:
            continue            # the draws are over the words of the text
        for _ in range(3 if not big else 25):
            ts.append(T("word2vec", ["w%d" % x for x in doc], kind=kind, mode=c.rng.choice(["mem", "stream"]), ns=ns, batch=3, g=1))
            keys.append((doc, kind, v, ns))
    out = c.drive("train", [t.case(c, snaps=False) for t in ts])
    for t, key, o in zip(ts, keys, out):
        if not o:
            continue
        ev = [e for e in o["events"] if e["ev"] == "K"]
        obs = w2v_event(ev[-1], t) if ev else None
        doc, v = key[0], key[2]
        first = list(dict.fromkeys(doc))
        got = None
        if obs and not obs["odd"] and obs["kc"] == obs["kw"]:
            got = [[0] * v for _ in range(v)]
            for i, a in enumerate(first):
                for j, b in enumerate(first):
                    got[a][b] = obs["kc"][i][j]
        if got is None or str(got) not in want[key]:
            c.violation("P11: training the text %s (%s, %d draws per step) is not a behaviour of the specification: %s" % (list(doc), t.kind, t.ns, brief(obs or o["events"])),
                        {"case": t.case(c), "observed": o["events"]})
            return
    c.count("generated_behaviours_replayed", len(ts))
    ts = []
    for i in range(220 if not big else 3000):
        v = c.rng.choice([1, 2, 3, 5, 6, 7, 10, 11, 13, 14, 17, 19, 22, 23, 29, 31])
        words = distinct(v)
        if v < 17:
            words = words + [c.rng.choice(words) for _ in range(c.rng.choice([0, 3, 10, 60]))]
        c.rng.shuffle(words)
        ts.append(T("word2vec", words, kind=c.rng.choice(["skipgram", "cbow"]), mode=c.rng.choice(["mem", "stream"]), g=1, batch=c.rng.choice([2, 5, 1000]), iters=c.rng.choice([1, 1, 2, 3]),
                    ns=c.rng.choice([0, 1, 1, 2, 3, 5, 10, 20, 40, 100]), max=c.rng.choice([-1, -1, 4]), lr=1e-8, dim=max(80, 3 * v)))
    for i in range(8 if not big else 40):
        v = c.rng.choice([53, 64, 101, 129])
        words = distinct(v) + ["w%d" % c.rng.randrange(v) for _ in range(c.rng.randrange(0, 100))]
        c.rng.shuffle(words)
        ts.append(T("word2vec", words, kind=c.rng.choice(["skipgram", "cbow"]), mode=c.rng.choice(["mem", "stream"]), g=1, batch=c.rng.choice([7, 1000]), ns=c.rng.choice([1, 5, 20, 40]), lr=1e-8, dim=3 * v))
    for t in ts:
        if t.ns * len(t.words) * t.iters > 800:
            t.lr = 1e-10        # many steps: no second-order effects
    observe(c, ts, "draws", "P11", snaps=False)
    if not c.violations:
        reach(c, ["word2vec"], 4 if not big else 24)
    if not c.violations:
        t = T("word2vec", distinct(3), ns=1)
        k = [[0, 1, 0], [1, 0, 1], [0, 1, 0]]
        ok = {"ev": "Draws", "rows": 3, "final": True, "odd": [], "kw": k, "kc": k}
        for bad in ([[0, 0, 0], [1, 0, 1], [0, 2, 0]], [[0, -2, 0], [1, 0, 1], [0, 1, 0]], [[0, 1, 0], [1, -3, 1], [0, 1, 0]]):
            c.canary("TrainTrace", [t.event(), dict(ok, kw=bad, kc=bad)])
        t5 = T("word2vec", ["w%d" % x for x in range(17)] * 4, ns=5)
        a = [[0] * 17 for _ in range(17)]
        for x in range(67):
            a[x % 17][(x + 1) % 17] += 1
            a[(x + 1) % 17][x % 17] += 1
        c.canary("TrainTrace", [t5.event(), {"ev": "Draws", "rows": 17, "final": True, "odd": [], "kw": a, "kc": a}])


def P15(c):
    big = c.thorough
    k = {"MaxLen": 3, "V": 2, "Windows": "{1, 2}", "Workers": "{1, 2, 3}", "Iters": 2, "CTypes": '{"inc", "prox"}', "Bug": '"none"'}
    c.design("Fit", Cfg(k if not big else dict(k, MaxLen=4, V=3, Iters=1, Workers="{1, 2}"), ["Fits"]), "Fit", timeout=3000, heap="16g")
    for b in ("one_direction", "same_direction", "diag_once", "drop_last"):
        c.mutant("Fit", Cfg(dict(k, Bug='"%s"' % b), ["Fits"]), b)
    recs = c.generate("Fit", Cfg(dict(k, Iters=1, MaxLen=4, V=3, Workers="{1}"), ["Gen"]), "Fit (all texts)", timeout=3000)
    seen, ts = set(), []
    for r in recs:
        key = (tuple(r["doc"]), r["window"], r["ctype"])
        if key not in seen:
            seen.add(key)
            ts.append(T("glove", ["w%d" % x for x in r["doc"]], window=r["window"], ctype=r["ctype"], solver=c.rng.choice(["sgd", "adagrad"]), mode=c.rng.choice(["mem", "stream"]), g=1,
                        xmax=c.rng.choice([1, 2]), alpha=c.rng.choice([0.5, 0.75])))
    ts = c.rng.sample(ts, min(len(ts), 200 if not big else 2000))
    c.count("generated_behaviours_replayed", len(ts))
    ts += glove_cases(c, 160 if not big else 2000)
    for _ in range(30 if not big else 300):         # more words; exactly one worker
        v = c.rng.choice([10, 16, 24])
        words = ["w%d" % min(c.rng.randrange(v), c.rng.randrange(v)) for _ in range(c.rng.randrange(10, 60))]
        ctype = c.rng.choice(["inc", "prox"])
        ts.append(T("glove", words, ctype=ctype, window=c.rng.choice([1, 2, 4, 6] if ctype == "prox" else [1, 2, 4, 6, 10, 16, 20, 33, 100]), solver=c.rng.choice(["sgd", "adagrad"]), mode=c.rng.choice(["mem", "stream"]), g=1, iters=c.rng.choice([1, 2]),
                    **c.rng.choice([dict(xmax=c.rng.choice([1, 3, 10, 100, 1000, 10000]), alpha=c.rng.choice([0.0, 0.5, 0.75, 1.0])), dict(xmax=c.rng.choice([1, 2, 7, 50]), alpha=c.rng.choice([1.5, 2.0]))])))
    for _ in range(30 if not big else 300):         # several workers: pairs without a word in common cannot lose updates
        n = c.rng.randrange(1, 12)
        words = []
        for i in range(n):
            words += ["a%d" % i, "b%d" % i]
        ts.append(T("glove", words, window=1, g=c.rng.choice([2, 3, 8, 30]), iters=c.rng.choice([1, 2]), mode=c.rng.choice(["mem", "stream"]), racy=True))
    observe(c, ts, "fit", "P15", snaps=False)
    if not c.violations:
        parallel(c, "P15", 16 if not big else 100)
    if not c.violations:
        far_fit(c, "P15", [70000] if not big else [33000, 70000, 70000, 140000])
    if not c.violations:
        t = T("glove", ["a", "b", "a"], window=1)
        ok = {"ev": "Fit", "rows": 2, "final": True, "odd": [], "v": [[[0], [2]], [[2], [0]]], "c": [[[0], [2]], [[2], [0]]]}
        if c.validate("TrainTrace", [t.event(), ok])[0] is not None:
            raise CheckError("TrainTrace refuses a specified behaviour")
        for bad in (dict(ok, v=[[[0], [1]], [[2], [0]]]), dict(ok, c=[[[0], [0]], [[2], [0]]]), dict(ok, v=[[[1], [2]], [[2], [0]]])):
            c.canary("TrainTrace", [t.event(), bad])


def P16(c):
    big = c.thorough
    k = {"MaxLen": 4, "V": 2, "Window": 1, "NS": 1, "Sizes": "{2, 4}", "Rel": '"co"', "Smooth4": 4, "Bug": '"none"'}
    c.design("Lex", Cfg(dict(k, MaxLen=3, V=3, NS=1), ["Accepted"]), "Lex (one draw)", timeout=3000)
    c.design("Lex", Cfg(dict(k, MaxLen=4, V=3, Window=2, NS=0, Rel='"logco"'), ["Accepted"]), "Lex (window 2)", timeout=3000)
    c.design("Lex", Cfg(dict(k, MaxLen=4 if big else 3, NS=2, Rel='"logco"'), ["Accepted"]), "Lex (two draws)", timeout=3000)
    c.design("Lex", Cfg(dict(k, MaxLen=4, V=3, NS=0, Rel='"pmi"', Smooth4=3), ["Accepted"]), "Lex (smoothed)", timeout=3000)
    c.mutant("Lex", Cfg(dict(k, MaxLen=4, V=3, NS=0, Rel='"pmi"', Smooth4=3, Bug='"unsmoothed"'), ["Accepted"]), "unsmoothed")
    for b in ("own_target", "one_side", "one_more", "own_only", "draw_pair_target"):
        c.mutant("Lex", Cfg(dict(k, MaxLen=3, V=3, Bug='"%s"' % b), ["Accepted"]), b)
    recs = c.generate("Lex", Cfg(dict(k, MaxLen=5, V=3, NS=0), ["Gen"]), "Lex (all texts)", timeout=3000)
    seen, ts = set(), []
    for r in recs:
        key = (tuple(r["doc"]), r["size"])
        if key not in seen:
            seen.add(key)
            ts.append(T("lexvec", ["w%d" % x for x in r["doc"]], rel="co", g=1, batch=r["size"], mode="stream"))
    ts = c.rng.sample(ts, min(len(ts), 250 if not big else 2000))
    c.count("generated_behaviours_replayed", len(ts))
    for i in range(220 if not big else 3000):
        v = c.rng.choice([1, 2, 3, 5, 8])
        n = c.rng.randrange(1, 13) if v <= 2 or c.rng.random() < 0.6 else c.rng.randrange(10, 40)
        words = ["w%d" % c.rng.randrange(v) for _ in range(n)]
        lower = c.rng.random() < 0.2
        if lower:
            words = [w.upper() if c.rng.random() < 0.4 else w for w in words]
        rel = c.rng.choice(["co", "co", "logco", "pmi", "ppmi"])
        ts.append(T("lexvec", words, rel=rel, ns=c.rng.choice([0, 0, 1, 2, 5, 10, 16, 40]), window=c.rng.choice([1, 1, 1, 2, 3, 6, 9]), g=1, mode=c.rng.choice(["mem", "stream"]), batch=c.rng.choice([2, 3, 7, 1000]),
                    iters=c.rng.choice([1, 1, 2, 3, 5, 8]), lower=lower, max=c.rng.choice([-1, -1, -1, 3]), min=c.rng.choice([0, 0, 2]), smooth=c.rng.choice([0, 0.25, 0.5, 0.75, 0.75, 1.0, 1.0, 1.5])))
    for i in range(60 if not big else 600):        # dense texts: every pair of words co-occurs, every draw shows
        v = c.rng.choice([2, 3, 4])
        words = []
        for a in range(v):
            for b in range(v):
                words += ["w%d" % a, "w%d" % b]
        words += ["w%d" % c.rng.randrange(v) for _ in range(c.rng.randrange(0, 6))]
        ts.append(T("lexvec", words, rel=c.rng.choice(["co", "co", "pmi"]), smooth=c.rng.choice([0.75, 1.0]), ns=c.rng.choice([1, 2, 3, 5, 10, 20, 50]), window=1, g=1, mode=c.rng.choice(["mem", "stream"]), batch=c.rng.choice([3, 1000]), iters=c.rng.choice([1, 2])))
    for i in range(30 if not big else 300):        # several workers; nothing in common
        n = c.rng.randrange(1, 20)
        ts.append(T("lexvec", distinct(n), rel="co", g=c.rng.choice([2, 3, 8]), mode=c.rng.choice(["mem", "stream"]), batch=c.rng.choice([2, 3, 5]), iters=c.rng.choice([1, 2])))
    ts = [t for t in ts if len(t.words) < 64]
    for t in ts:
        t.lr = 1e-10        # many steps: no second-order effects
        if t.v() <= 2 and len(t.words) > 8:
            t.iters, t.ns = 1, min(t.ns, 5)
        if t.ns > 10:
            t.iters, t.window = 1, min(t.window, 2)
        elif t.ns > 2:
            t.iters = min(t.iters, 3)
    observe(c, ts, "lex", "P16", snaps=False)
    if not c.violations:
        reach(c, ["lexvec"], 2 if not big else 12)
    if not c.violations:
        t = T("lexvec", ["a", "b", "a"], rel="co")
        ok = {"ev": "Lex", "rows": 2, "final": True, "odd": [], "s": [[0, 80000], [80000, 0]], "b": [[0, 0], [0, 0]], "bt": [[0, 0], [0, 0]]}
        if c.validate("TrainTrace", [t.event(), ok])[0] is not None:
            raise CheckError("TrainTrace refuses a specified behaviour")
        for bad in (dict(ok, s=[[0, 40000], [40000, 0]]), dict(ok, s=[[20000, 80000], [80000, 0]]), dict(ok, b=[[0, 20000], [0, 0]])):
            c.canary("TrainTrace", [t.event(), bad])
    c.assumptions.append("smoothing of PMI and PPMI: of the two frequencies of a pair, that of the later word or that of the earlier word is smoothed (the same for all pairs of a training)")


def P28(c):
    big = c.thorough
    k = {"MaxLen": 3, "Window": 1, "Depths": "{0, 1, 2, 3}", "Kinds": '{"skipgram", "cbow"}', "Shape": '"four"', "Bug": '"none"'}
    for shape in ("two", "three", "four", "chain"):
        c.design("Softmax", Cfg(dict(k, Shape='"%s"' % shape, MaxLen=4 if big else 3), ["OnPath", "Toward", "Accepted"]), "Softmax (%s)" % shape, timeout=3000)
    c.design("Softmax", Cfg(dict(k, Shape='"chain"', Window=2, Depths="{0, 2, 3, 4}", MaxLen=4 if big else 3), ["OnPath", "Toward"]), "Softmax (window 2)", timeout=3000)
    for b in ("context_path", "skip_root", "own_code", "flipped", "ignore_depth", "one_short"):
        c.mutant("Softmax", Cfg(dict(k, Bug='"%s"' % b), ["OnPath", "Toward"]), b)
    ts = []
    # all small texts, then random ones
    for n in range(0, 5):
        for doc in itertools.product(range(3), repeat=n):
            if list(dict.fromkeys(doc)) == sorted(set(doc)):
                ts.append(["w%d" % x for x in doc])
    ts = c.rng.sample(ts, 40 if not big else len(ts))
    for _ in range(160 if not big else 2500):
        v = c.rng.choice([2, 3, 4, 5, 6, 8])
        skew = c.rng.random() < 0.5
        ts.append(["w%d" % (min(c.rng.randrange(v) for _ in range(3)) if skew else c.rng.randrange(v)) for _ in range(c.rng.randrange(1, 15))])
    deep = []                                       # lopsided trees: as many levels as words
    for _ in range(24 if not big else 80):
        fib, n = [1, 1], c.rng.choice([9, 11, 12, 12, 13])
        while len(fib) < n:
            fib.append(fib[-1] + fib[-2])
        rare, rest = [[w for i, f in enumerate(fib) if (i < 5) == first for w in ["w%d" % i] * f] for first in (True, False)]
        c.rng.shuffle(rest)
        for i in range(c.rng.choice([0, 1])):       # the words of the longest paths next to each other, or anywhere
            rest, rare = rest + rare, []
            c.rng.shuffle(rest)
        c.rng.shuffle(rare)
        deep.append(rare + rest)
    deeper = []                                    # deeper ones, only the rarest words are trained
    for n in [17, 18, 19] if not big else [16, 17, 18, 19, 20, 21]:
        fib = [1, 1]
        while len(fib) < n:
            fib.append(fib[-1] + fib[-2])
        words = [w for i, f in enumerate(fib) for w in ["w%d" % i] * f]
        c.rng.shuffle(words)
        deeper.append(T("word2vec", words, opt="hs", kind=c.rng.choice(["skipgram", "cbow"]), mode=c.rng.choice(["mem", "stream"]), g=1, batch=1000, max=c.rng.choice([1, 2, 3]), depth=c.rng.choice([0, 0, n - 1, n, 100])))
    cases = deeper + [T("word2vec", words, opt="hs", kind=c.rng.choice(["skipgram", "cbow"]), mode=c.rng.choice(["mem", "stream"]), g=1, batch=1000, depth=c.rng.choice([0, 0, 0, 5, 9, 10, 11, 12, 100])) for words in deep]
    for words in ts:
        mode = c.rng.choice(["mem", "stream"])
        batch = c.rng.choice([2, 3, 5, 1000, 1000])
        cases.append(T("word2vec", words, opt="hs", kind=c.rng.choice(["skipgram", "cbow"]), mode=mode, g=1, batch=batch if mode == "stream" and len(words) <= batch else 1000, depth=c.rng.choice([0, 0, 1, 2, 3, 4, 100]),
                       iters=c.rng.choice([1, 1, 2]), max=c.rng.choice([-1, -1, -1, 3]), ns=c.rng.choice([0, 5])))
    pr = c.drive("train", [{"op": "paths", "text": b64(t.text)} for t in cases])
    rr = c.drive("train", [t.case(c, snaps=False) for t in cases], per_case=20.0)
    groups = []
    for t, p, r in zip(cases, pr, rr):
        if p and r:
            g = trace(t, r, "tree")
            groups.append([g[0]] + p["events"] + g[1:])
    for g in groups[:3]:
        c.sample(g[1:3])
    c.count("trainings_validated", len(groups))
    c.count("trainings_with_a_depth_limit", sum(1 for t in cases if t.depth > 0))
    c.validate_all("TrainTrace", groups, descr("P28"))
    if not c.violations:
        g = next(g for g in groups if g[2]["ev"] == "Tree" and any(abs(x) > 90 for r in g[2]["h"] for x in r))
        bad = dict(g[2], h=[[-x for x in r] for r in g[2]["h"]])
        c.canary("TrainTrace", [g[0], g[1], bad])
        c.canary("TrainTrace", [g[0], g[1], dict(bad, h=[[0 for x in r] for r in bad["h"]])])
