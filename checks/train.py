"""P07, P08, P09, P14, P27: the training pipeline."""
from vf import Cfg, CheckError
from trainlib import *

INVS = ["CountedOnce", "NoOverlap", "ErrorIff", "RateRange", "RateSchedule", "RateStart", "LagOne", "SemOk"]
LIVE = ["Ends", "NothingLeft"]


def pipe(**kw):
    k = {"Ns": "0..3", "Batches": "{1, 2}", "Workers": "{1, 2}", "IterSet": "{2}", "Modes": '{"mem", "stream"}', "Loads": "{1}", "Updates": "{2}", "Floors": "{1}",
         "Faults": "{FALSE}", "Bug": '"none"'}
    k.update(kw)
    return k


def stepc(**kw):
    k = {"MaxLen": 4, "V": 4, "Window": 1, "NS": 0, "Iters": 1, "Kinds": '{"skipgram", "cbow"}', "Modes": '{"mem", "stream"}', "Sizes": "{1, 2, 3}", "DocKind": '"distinct"',
         "Bug": '"none"'}
    k.update(kw)
    return k


NFAIL = 20      # shared.Failures


SINV = ["Accepted", "Exact", "Negatives"]


def observe(c, ts, obs, prop, per_case=20.0, snaps=True, ret=True, casekw=None):
    """runs the trainings and validates their traces; obs: name or function of a training"""
    kws = [casekw(t) if casekw else {} for t in ts]
    recs = c.drive("train", [t.case(c, **k) for t, k in zip(ts, kws)], per_case=per_case)
    name = lambda t: obs(t) if callable(obs) else obs
    kept = [i for i, r in enumerate(recs) if r]
    groups = [trace(ts[i], recs[i], name(ts[i]), ret=ret, snaps=snaps) for i in kept]

    def again(j):
        t = ts[kept[j]]
        if not t.racy:
            return None
        return trace(t, c.drive("train", [t.case(c, **kws[kept[j]])], per_case=per_case)[0], name(t), ret=ret, snaps=snaps)
    for g in groups[:2]:
        c.sample(g[1] if len(g) > 1 else g[0])
    c.count("trainings_validated", len(groups))
    c.validate_all("TrainTrace", groups, descr(prop), again=again)
    return groups


def replay_generated(c, prop, recs, reps=1):
    """behaviours of Steps at radius 1: every small text; the real training has to end in one of the generated states"""
    want = {}
    for r in recs:
        want.setdefault((tuple(r["doc"]), r["kind"], r["mode"], r["size"]), []).append(r["k"])
    ts, keys = [], []
    for (doc, kind, mode, size), ks in sorted(want.items()):
        for _ in range(reps):
            words = ["w%d" % x for x in doc]
            ts.append(T("word2vec", words, kind=kind, mode=mode, g=size if mode == "mem" else c.rng.choice([1, 2, 3]) if len(set(doc)) == len(doc) else 1,
                        batch=size if mode == "stream" else 5, iters=recs_iters(recs)))
            keys.append((doc, ks))
    out = c.drive("train", [t.case(c, snaps=False) for t in ts])
    for t, (doc, ks), o in zip(ts, keys, out):
        if not o:
            continue
        ev = [e for e in o["events"] if e["ev"] == "K"]
        obs = w2v_event(ev[-1], t) if ev else None
        first = list(dict.fromkeys(doc))        # real ids are by first appearance
        got = None
        if obs and not obs["odd"] and obs["kc"] == obs["kw"] and obs["rows"] == len(first):
            n = len(ks[0])
            got = [[0] * n for _ in range(n)]
            for i, a in enumerate(first):
                for j, b in enumerate(first):
                    got[a][b] = obs["kc"][i][j]
        if got not in ks:
            c.violation("%s: training the text %s (%s, %s, size %d, %d iterations) is not a behaviour of the specification: %s; specified: %s" % (
                prop, list(doc), t.kind, t.mode, t.batch if t.mode == "stream" else t.g, t.iters, brief(obs or o["events"]), ks), {"case": t.case(c), "observed": o["events"]})
            return
    c.count("generated_behaviours_replayed", len(ts))


def recs_iters(recs):
    return recs[0]["iters"]


def P07(c):
    big = c.thorough
    c.design("Train", Cfg(pipe() if not big else pipe(Ns="0..4", Batches="{1, 2, 3}", Workers="{1, 2, 3}"), INVS, LIVE), "Train (no faults)", timeout=3000, heap="16g")
    for b in ("no_wait", "reuse_buffer", "wg_in_worker"):
        c.mutant("Train", Cfg(pipe(Bug='"%s"' % b), ["CountedOnce", "NoOverlap"]), b)
    recs = c.generate("Steps", Cfg(stepc(MaxLen=5, V=5, Iters=2, Sizes="{1, 2, 3, 4}"), ["Gen"]), "Steps (texts of distinct words)")
    replay_generated(c, "P07", recs, 1 if not big else 4)
    if not c.violations:
        recs = c.generate("Steps", Cfg(stepc(MaxLen=5 if not big else 6, V=3, Modes='{"stream"}', DocKind='"all"', Sizes="{2, 3}"), ["Gen"]), "Steps (all texts)")
        recs += c.generate("Steps", Cfg(stepc(MaxLen=4, V=3, Modes='{"mem"}', DocKind='"all"', Sizes="{1}"), ["Gen"]), "Steps (all texts, in memory)")
        replay_generated(c, "P07", recs)
    if c.violations:
        return
    ts = []
    for i in range(160 if not big else 1500):
        n = c.rng.choice([0, 1, 2, 3, 5, 8, 12, 16, 20, c.rng.randrange(1, 25)])
        mode = c.rng.choice(["mem", "stream"])
        model = c.rng.choice(["word2vec", "word2vec", "lexvec"])
        words, mx = distinct(n), -1
        if n and c.rng.random() < 0.4:
            words, mx = with_filtered(c.rng, n, c.rng.choice([2, 3])), 1
        kw = dict(mode=mode, g=c.rng.choice([1, 2, 3, 4, 7, 8, n + 1]), batch=c.rng.choice([1, 2, 3, 4, 5, max(1, n - 1), max(1, n), n + 1, 1000]), iters=c.rng.choice([0, 1, 1, 2, 3, 5]), max=mx,
                  window=c.rng.choice([1, 1, 1, 2, 5]))
        if model == "word2vec":
            if i % 6 == 0:
                kw.update(g=c.rng.choice([17, 33, 65, 130, 300]), iters=c.rng.choice([1, 2, 8, 13]))
            if i % 16 == 1:
                words, kw["max"] = distinct(n % 12), -1
                kw.update(iters=c.rng.choice([17, 20, 33, 51, 65]), window=1, minppm=c.rng.choice([0, 500000, 1000000]))
            ts.append(T("word2vec", words, kind=c.rng.choice(["skipgram", "cbow"]), **kw))
        else:
            ts.append(T("lexvec", words, rel="co", **kw))
    for i in range(40 if not big else 300):     # repeated words, one worker
        words = ["w%d" % c.rng.randrange(c.rng.choice([1, 2, 4, 8])) for _ in range(c.rng.randrange(1, 14))]
        kw = dict(mode=c.rng.choice(["mem", "stream"]), g=1, batch=c.rng.choice([2, 3, 5, 100]), iters=c.rng.choice([1, 2]), window=c.rng.choice([1, 1, 2]),
                  max=c.rng.choice([-1, -1, 3]), min=c.rng.choice([0, 2, -1]), lower=c.rng.random() < 0.3)
        if kw["lower"]:
            words = [w.upper() if c.rng.random() < 0.3 else w for w in words]
        ts.append(T("word2vec", words, kind=c.rng.choice(["skipgram", "cbow"]), **kw))
    for i in range(30 if not big else 200):     # repeated words, several workers
        g, k = c.rng.choice([2, 3, 4]), c.rng.randrange(1, 5)
        mode = c.rng.choice(["mem", "stream"])
        words = ["w%d" % c.rng.randrange(c.rng.choice([2, 5, 8])) for _ in range(g * k if mode == "mem" else c.rng.randrange(1, 16))]
        ts.append(T("word2vec", words, kind=c.rng.choice(["skipgram", "cbow"]), mode=mode, g=g, batch=c.rng.choice([2, 3, 4]), iters=c.rng.choice([1, 2]), racy=True))
    ts += glove_cases(c, 40 if not big else 400)
    ts = [t for t in ts if t.v() <= 60]
    observe(c, ts, lambda t: {"word2vec": "steps", "lexvec": "lex", "glove": "fit"}[t.model], "P07")
    if c.violations:
        return
    parallel(c, "P07", 10 if not big else 60)
    # long texts, many batches in flight
    ts = []
    for i in range(10 if not big else 60):
        n = c.rng.choice([200, 301, 400])
        mode = c.rng.choice(["stream", "stream", "mem"])
        ts.append(T("word2vec", distinct(n), kind=c.rng.choice(["skipgram", "cbow"]), mode=mode, g=c.rng.choice([2, 4, 8, 16, 33, 70, 130]), batch=c.rng.choice([2, 7, 20, 40, 64]),
                    iters=3, dim=c.rng.choice([64, 200])))
    for i in range(2 if not big else 10):
        mode = ["stream", "mem"][i % 2]
        ts.append(T("word2vec", distinct(c.rng.randrange(3000, 5000)), kind=c.rng.choice(["skipgram", "cbow"]), mode=mode, g=c.rng.choice([2, 4, 8]), batch=c.rng.choice([50, 100, 1000]),
                    iters=3, dim=64))

    def near(t):
        n = len(t.words)
        return {"near": [[j for j in range(max(0, i - 3), min(n, i + 4))] for i in range(n)], "calls": 20, "chunk": c.rng.choice([0, 100])}
    observe(c, ts, "sparse", "P07", casekw=near, per_case=60.0)
    if not c.violations:
        t = T("word2vec", distinct(4), iters=1)
        k = [[0, 1, 0, 0], [1, 0, 1, 0], [0, 1, 0, 1], [0, 0, 1, 0]]
        bad = [r[:] for r in k]
        bad[1][2] = bad[2][1] = 2
        c.canary("TrainTrace", [t.event(), {"ev": "Steps", "rows": 4, "final": True, "odd": [], "kw": bad, "kc": bad}])
        c.canary("TrainTrace", [t.event(), {"ev": "Steps", "rows": 4, "final": False, "odd": [], "kw": bad, "kc": bad}])
    c.assumptions.append("trainings with several workers are compared exactly on texts whose shares have no word in common (shared vectors are updated without locks by design)")


def glove_cases(c, count):
    ts = []
    for _ in range(count):
        n, v = c.rng.randrange(0, 16), c.rng.choice([1, 2, 4, 8])
        words = ["w%d" % c.rng.randrange(v) for _ in range(n)]
        lower = c.rng.random() < 0.3
        if lower:
            words = [w.upper() if c.rng.random() < 0.4 else w for w in words]
        ts.append(T("glove", words, ctype=c.rng.choice(["inc", "prox"]), window=c.rng.choice([1, 2, 3, 5]), solver=c.rng.choice(["sgd", "adagrad"]), mode=c.rng.choice(["mem", "stream"]), lower=lower,
                    g=1, iters=c.rng.choice([1, 1, 2, 3, 5, 8]), xmax=c.rng.choice([1, 2, 4, 4, 1000, 100000]), alpha=c.rng.choice([0.0, 0.5, 0.75, 1.0])))
    for _ in range(count // 2):      # several workers: vectors are shared, an update may get lost
        words = ["w%d" % c.rng.randrange(c.rng.choice([2, 5, 12])) for _ in range(c.rng.randrange(2, 20))]
        ts.append(T("glove", words, window=c.rng.choice([1, 2]), g=c.rng.choice([2, 3, 8]), mode=c.rng.choice(["mem", "stream"]), iters=c.rng.choice([1, 2]), racy=True))
    return ts


def parallel(c, prop, count):
    """GloVe with several workers on several processors"""
    ts = []
    for _ in range(count):
        n = c.rng.choice([10, 30, 60, 100])
        words = distinct(n)
        t = T("glove", words + words[-2::-1], window=1, solver=c.rng.choice(["sgd", "adagrad"]), mode=c.rng.choice(["mem", "stream"]), g=c.rng.choice([2, 3, 8, 30]), dim=c.rng.choice([64, 128]))
        ts.append(t)
    recs = c.drive("train", [t.case(c, raw=True, near=[[]] * t.v()) for t in ts], per_case=20.0)
    groups = []
    for t, r in zip(ts, recs):
        if r:
            e = r["events"][-1]
            groups.append([t.event()] + ([lossy_event(e, t), ret_event(e)] if e["ev"] == "Return" and "w" in e and "w0" in e else [x for x in r["events"] if x["ev"] != "K"]))
    c.count("parallel_trainings", len(groups))
    c.validate_all("TrainTrace", groups, descr(prop))


def outcome(t, rec):
    return trace(t, rec, None)


def any_training(rng, words, **kw):
    model = kw.pop("model", None) or rng.choice(["word2vec", "word2vec", "word2vec", "lexvec", "glove"])
    o = dict(mode=rng.choice(["mem", "stream"]), g=rng.choice([1, 2, 3, 8, 20, 150]), batch=rng.choice([1, 2, 3, 7, 50, 10000]), iters=rng.choice([0, 1, 2, 4]), window=rng.choice([1, 2, 5, 30]),
             max=rng.choice([-1, -1, 0, 1, 3]), min=rng.choice([0, 0, -1, 2, 5, 100]), lower=rng.random() < 0.3, dim=rng.choice([1, 2, 10, 33]), ns=rng.choice([0, 1, 5]), u=rng.choice([1, 2, 7, 100000]),
             minppm=rng.choice([0, 100, 1000000]), threshold=rng.choice([0.0, 1e-3, 1.0]), lr=rng.choice([1e-6, 0.025, 0.025]))
    if model == "word2vec":
        o.update(kind=rng.choice(["skipgram", "cbow"]), opt=rng.choice(["ns", "hs"]), depth=rng.choice([0, 1, 2, 3, 100]))
    elif model == "lexvec":
        o.update(rel=rng.choice(["ppmi", "pmi", "co", "logco"]), smooth=rng.choice([0.75, 1.0]))
        if o["rel"] == "co":
            o["lr"] = 1e-6
    else:
        o.update(ctype=rng.choice(["inc", "prox"]), solver=rng.choice(["sgd", "adagrad"]), xmax=rng.choice([1, 10, 100]), alpha=rng.choice([0.0, 0.75]))
    o.update(kw)
    t = T(model, words, **o)
    t.nocooc = True          # only the outcome is validated
    return t


def edge_texts(rng, n):
    fixed = [[], [], ["a"], ["a", "a"], ["a", "b"], ["a"] * 40, distinct(3), distinct(17), ["a", "b"] * 10, ["x"] * 3 + ["y"] * 3]
    return [list(rng.choice(fixed)) if rng.random() < 0.5 else ["w%d" % rng.randrange(rng.choice([1, 3, 30])) for _ in range(rng.randrange(0, 60))] for _ in range(n)]


def P08(c):
    big = c.thorough
    c.design("Train", Cfg(pipe(Loads="{1, 2}") if not big else pipe(Ns="0..5", Batches="{1, 2, 3}", Workers="{1, 2, 3}", Loads="{1, 2}"), INVS, LIVE), "Train (no faults)", timeout=3000, heap="16g")
    for b in ("sem_leak", "close_lost"):
        c.mutant("Train", Cfg(pipe(Bug='"%s"' % b, Faults="{TRUE}"), [], ["Ends"]), b)
    # every behaviour class of the pipeline model that has no fault, on every model
    recs = c.generate("Train", Cfg(pipe(Ns="{0, 1, 2, 5}", Batches="{1, 2, 5, 7}", Workers="{1, 3, 8}", IterSet="{1, 3}", Updates="{1}"), ["Gen"], spec="GenSpec"), "Train (configurations)")
    ts = []
    for r in recs:
        k = r["conf"]
        for model in ("word2vec", "lexvec", "glove") if k["iters"] == 1 or big else (c.rng.choice(["word2vec", "lexvec", "glove"]),):
            words, mx = distinct(k["n"]), -1
            if c.rng.random() < 0.5:
                words, mx = with_filtered(c.rng, k["n"], 2), 1
            t = T(model, words, mode=k["mode"], g=k["g"], batch=k["b"], iters=k["iters"], max=mx, u=k["u"], window=c.rng.choice([1, 3]), dim=8, ns=c.rng.choice([0, 2]),
                  opt=c.rng.choice(["ns", "hs"]), kind=c.rng.choice(["skipgram", "cbow"]))
            t.nocooc = True
            ts.append(t)
    ts += [any_training(c.rng, w) for w in edge_texts(c.rng, 500 if not big else 6000)]
    for _ in range(6 if not big else 60):       # more text
        ts.append(any_training(c.rng, ["w%d" % min(c.rng.randrange(300), c.rng.randrange(300)) for _ in range(3000)], iters=2, window=c.rng.choice([1, 5]), u=100))
    for i in range(4 if not big else 20):
        ts.append(any_training(c.rng, ["w%d" % min(c.rng.randrange(300), c.rng.randrange(300)) for _ in range(c.rng.choice([7000, 12000, 20000]))], iters=1, window=c.rng.choice([1, 2]), u=c.rng.choice([1, 1, 10, 100000])))
    for model in ("word2vec", "lexvec"):
        ts.append(any_training(c.rng, ["w%d" % c.rng.randrange(50) for _ in range(c.rng.choice([6000, 10000]))], iters=2, window=1, u=1, min=0, max=-1, ns=1, dim=2, g=c.rng.choice([1, 2, 8]), model=model))
    cases = []
    for t in ts:
        seps = c.rng.choice([None, None, "\n", " \t\n ", "\u00a0"])
        if seps and t.words:
            t.text = c.rng.choice(["", seps]) + seps.join(t.words) + c.rng.choice(["", seps])
        elif not t.words:
            t.text = c.rng.choice(["", " ", "\n\n", "\t"])
        cases.append(t.case(c, basis=False, snaps=False))
    recs = c.drive("train", cases, per_case=20.0)
    groups = [outcome(t, r) for t, r in zip(ts, recs) if r]
    c.count("trainings_validated", len(groups))
    c.sample(groups[0])
    c.sample(groups[-1][1])
    c.validate_all("TrainTrace", groups, descr("P08"))
    if c.violations:
        return
    # "the configured number of iterations" where it can be seen: at the reader and in the vectors
    ts = [T("word2vec", distinct(c.rng.randrange(2, 9)), kind=c.rng.choice(["skipgram", "cbow"]), mode=c.rng.choice(["mem", "stream"]), g=c.rng.choice([1, 2, 9]), batch=c.rng.choice([2, 3, 9]),
            iters=c.rng.randrange(0, 8)) for _ in range(30 if not big else 200)]
    ts += [T("word2vec", distinct(c.rng.randrange(2, 7)), kind=c.rng.choice(["skipgram", "cbow"]), mode=c.rng.choice(["mem", "stream"]), g=c.rng.choice([1, 2]), batch=c.rng.choice([3, 9]), iters=c.rng.choice([17, 20, 33, 51, 65]),
             minppm=c.rng.choice([0, 500000, 1000000])) for _ in range(8 if not big else 50)]
    ts += [T("glove", ["a", "b"] * 3, window=2, iters=c.rng.randrange(1, 5)) for _ in range(8)]
    observe(c, ts, lambda t: {"word2vec": "steps", "glove": "fit"}[t.model], "P08")
    if not c.violations:
        t = T("word2vec", distinct(3))
        c.canary("TrainTrace", [t.event(), {"ev": "Return", "err": "boom", "fired": False, "leak": False}])
        c.canary("TrainTrace", [t.event(), {"ev": "Return", "err": "", "fired": False, "leak": True, "still": True, "rows": 3, "cols": t.dim}])
        c.canary("TrainTrace", [t.event(), {"ev": "Crash", "how": "deadlock"}])


def P09(c):
    big = c.thorough
    c.design("Train", Cfg(pipe(Faults="{TRUE}", Loads="{1, 2}") if not big else pipe(Faults="{TRUE}", Ns="0..4", Batches="{1, 2, 3}", Workers="{1, 2, 3}", Loads="{1, 2}"), INVS, LIVE), "Train (faults)",
             timeout=3000, heap="16g")
    for b in ("error_dropped", "close_lost"):
        c.mutant("Train", Cfg(pipe(Bug='"%s"' % b, Faults="{TRUE}"), ["ErrorIff"], ["Ends"]), b)
    recs = c.generate("Train", Cfg(pipe(Ns="{0, 1, 3, 5}", Batches="{1, 2, 4}", Workers="{1, 3}", IterSet="{1, 3}" if not big else "{1, 2, 4}", Loads="{1, 2}", Updates="{1}", Faults="{TRUE}"), ["Gen"], spec="GenSpec"),
                      "Train (configurations with faults)")
    ts, cases, exps = [], [], []

    def add(t, exp=None, **kw):
        ts.append(t)
        cases.append(t.case(c, basis=False, snaps=False, start=0, **dict(kw, failwith=c.rng.random() < 0.3, errkind=c.rng.randrange(NFAIL) if c.rng.random() < 0.8 else 0)))
        exps.append(exp)
    for r in recs:
        k = r["conf"]
        models = ["word2vec"] if k["loads"] == 1 and k["mode"] == "stream" else ["lexvec"] if k["loads"] == 2 else ["word2vec", "lexvec", "glove"]
        t = T(c.rng.choice(models), distinct(k["n"]), mode=k["mode"], g=k["g"], batch=k["b"], iters=k["iters"], u=k["u"], dim=4, ns=1, kind=c.rng.choice(["skipgram", "cbow"]))
        t.nocooc = True
        off = len(" ".join(t.words[:k["fa"]])) + (1 if 0 < k["fa"] < k["n"] else 0)
        seek = k["fp"] != 0 and k["fa"] == 0 and c.rng.random() < 0.5
        add(t, r["ret"], failpass=k["fp"], failat=off, failseek=seek)
    n_gen = len(ts)
    for _ in range(300 if not big else 4000):
        words = ["w%d" % c.rng.randrange(30) for _ in range(c.rng.randrange(0, 40))]
        t = any_training(c.rng, words, iters=c.rng.choice([1, 2, 3]))
        add(t, failpass=c.rng.randrange(0, 7), failat=c.rng.randrange(0, len(t.text) + 1), failseek=c.rng.random() < 0.25)
    for _ in range(6 if not big else 40):        # large texts: many reads, batches in flight
        t = any_training(c.rng, ["w%d" % c.rng.randrange(400) for _ in range(6000)], iters=2, mode="stream", window=2, batch=c.rng.choice([10, 100, 1000]), dim=5)
        add(t, failpass=c.rng.randrange(1, 5), failat=c.rng.randrange(0, len(t.text)), chunk=0)
    rr = c.drive("train", cases, per_case=20.0)
    groups = [outcome(t, r) for t, r in zip(ts, rr) if r]
    for t, r, e, cs in list(zip(ts, rr, exps, cases))[:n_gen]:
        if not r or not r["events"]:
            continue
        x = r["events"][-1]
        # the model's prediction, unless the real training never came to the planned read
        if x["ev"] == "Return" and (x["err"] != "") != (e == "error") and (x["fired"] or e == "ok"):
            c.violation("P09: %s: %s; the specification says %s" % (brief(cs["opts"]), x, e), {"case": cs, "observed": x})
            return
    c.count("generated_behaviours_replayed", n_gen)
    c.count("faults_that_fired", sum(1 for r in rr if r and r["events"] and r["events"][-1].get("fired")))
    c.sample(groups[3])
    c.validate_all("TrainTrace", groups, descr("P09"))
    if c.violations:
        return
    # a word beyond the scanner's limit, in the first or a later pass, at the start, middle or end
    ts, cases = [], []
    for model in ("word2vec", "lexvec", "glove"):
        for mode in ("mem", "stream"):
            for at in (0, 2, 4):
                for size in (70000, 200000):
                    words = distinct(4)
                    words.insert(at, "x" * size)
                    t = T(model, words, mode=mode, dim=4, batch=2)
                    t.nocooc = True
                    ts.append(t)
                    cases.append(t.case(c, basis=False, snaps=False, start=0, chunk=0, toolong=True))
    rr = c.drive("train", cases, per_case=20.0)
    groups = []
    for t, r in zip(ts, rr):
        if r:
            t.words = ["long" if len(w) > 1000 else w for w in t.words]
            g = outcome(t, r)
            for e in g:
                if e["ev"] == "Return":
                    e["fired"] = True
            groups.append(g)
    c.validate_all("TrainTrace", groups, descr("P09 (a word longer than the scanner's limit)"))
    if not c.violations:
        t = T("word2vec", distinct(3))
        c.canary("TrainTrace", [t.event(), {"ev": "Return", "err": "", "fired": True, "leak": False, "still": True, "rows": 3, "cols": t.dim}])


def rate_events(t, rec):
    """per iteration: the rates used at the positions of the document (words are distinct, radius 1)"""
    g = [t.event()]
    ks = [e for e in rec["events"] if e["ev"] == "K"]
    rest = [e for e in rec["events"] if e["ev"] not in ("K", "Return")]
    if rest:
        return g + rest
    v = t.v()
    keep = [w for w in t.words if w.startswith("w")]        # eligible by construction
    ids = {w: i for i, w in enumerate(dict.fromkeys(t.words))}
    prev = {}
    if t.mode == "stream" and t.iters > 1 and len(ks) != t.iters + 1:
        # not one rewind per pass: only the total can be seen
        return g
    if t.mode == "stream" and t.iters > 1:
        ks = ks[1:]
    else:
        ks = ks[-1:]
    for it, k in enumerate(ks, 1):
        ms = mats(k, v)
        cur = ms.get((1, 0), {}) if t.model == "word2vec" else ms.get((0, 0), {})
        get = lambda i, j: cur.get((i, j), 0.0) - prev.get((i, j), 0.0)
        clip = lambda x: max(-10 ** 7, min(10 ** 7, round(1e6 * x)))
        if t.model == "word2vec":
            rs = []
            for p, w in enumerate(keep):
                rs.append([clip(get(ids[w], ids[keep[q]])) for q in (p - 1, p + 1) if 0 <= q < len(keep)])
            g.append({"ev": "Rates", "it": it, "r": rs})
        else:
            g.append({"ev": "RateSums", "it": it, "r": [clip(get(ids[a], ids[b])) for a, b in zip(keep, keep[1:])]})
        prev = cur
    return g


def P14(c):
    big = c.thorough
    c.design("Train", Cfg(pipe(Updates="{1, 2, 3, 5}", Floors="{0, 1, 2}", Ns="0..3" if not big else "0..4", Batches="{2}"), INVS, LIVE), "Train (rates)", timeout=3000, heap="16g")
    c.mutant("Train", Cfg(pipe(Bug='"no_floor"', Floors="{1}"), ["RateRange", "RateSchedule"]), "no_floor")
    c.mutant("Train", Cfg(pipe(Bug='"no_join"', Updates="{1}"), ["RateSchedule", "RateStart"]), "no_join")
    ts = []
    for i in range(140 if not big else 1500):
        n = c.rng.choice([0, 1, 2, 3, 5, 10, 17, 25, 30])
        words, mx = distinct(n), -1
        if c.rng.random() < 0.4:
            words, mx = with_filtered(c.rng, n, c.rng.choice([2, 3, 5])), 1
        model = c.rng.choice(["word2vec", "word2vec", "lexvec"])
        mode = c.rng.choice(["mem", "stream"])
        g = c.rng.choice([1, 1, 1, 2, 4]) if model == "word2vec" and mode == "mem" else 1
        # a rate below the sigmoid table's resolution would not show; ratios are what counts
        u = c.rng.choice([1, 1, 2, 3, 5, 7, max(1, n // 2), max(1, n - 1), max(1, n), n + 1, len(words) + 1])
        ts.append(T(model, words, kind=c.rng.choice(["skipgram", "cbow"]), mode=mode, g=g, batch=n + c.rng.choice([1, 5]), iters=c.rng.choice([1, 1, 2, 3, 4]) if mode == "stream" else 1, max=mx, u=u,
                    minppm=c.rng.choice([0, 100, 100, 50000, 300000, 700000, 999000, 1000000])))
    for i in range(30 if not big else 200):      # the last update falls on the last word, the floor is reached at the end of a pass
        n = c.rng.choice([2, 4, 6, 10, 12, 24])
        ts.append(T(["word2vec", "lexvec"][i % 2], distinct(n), kind=c.rng.choice(["skipgram", "cbow"]), mode="stream", g=1, batch=n + c.rng.choice([1, 5]), iters=c.rng.choice([2, 2, 3, 4]),
                    u=c.rng.choice([x for x in (1, 2, 3, 4, 6, n // 2, n) if x and n % x == 0]), minppm=c.rng.choice([1000, 50000, 50000, 200000, 300000, 500000])))
    cases = [t.case(c) for t in ts]
    recs = c.drive("train", cases, per_case=20.0)
    groups = []
    for t, r in zip(ts, recs):
        if r:
            if t.g > 1 and t.mode == "mem":
                # neighbours in different shares have no step in common
                groups.append(drop_cut(rate_events(t, r)))
            else:
                groups.append(rate_events(t, r))
    for g in groups[:3]:
        c.sample(g[1] if len(g) > 1 else g[0])
    c.count("trainings_validated", len(groups))
    c.count("iterations_with_observed_rates", sum(len(g) - 1 for g in groups))
    c.validate_all("TrainTrace", groups, descr("P14"))
    if c.violations:
        return
    far_rates(c, [3000, 5000, 70000, 70000, 140000, 102000, 66000, 140000, 30000, 30000, 80000, 67000, 20000, 20000] if not big else [c.rng.choice([3000, 10000, 70000, 140000, 200000]) for _ in range(24)])
    if not c.violations:
        far_rates(c, [70000] if not big else [33000, 70000, 140000], models=("word2vec",), wide=True)
    if c.violations:
        return
    # GloVe keeps its initial rate; the floor of long trainings; every training of the same model starts again
    observe(c, glove_cases(c, 16 if not big else 100), "fit", "P14")
    if not c.violations:
        t = T("word2vec", distinct(4), u=1, minppm=100000, batch=9)
        c.canary("TrainTrace", [t.event(), {"ev": "Rates", "it": 1, "r": [[1000000], [750000, 750000], [250000, 250000], [250000]]}])
        c.canary("TrainTrace", [t.event(), {"ev": "Rates", "it": 1, "r": [[1000000], [750000, 750000], [500000, 500000], [0]]}])


def far_rates(c, ks, prop="P14", models=("word2vec", "lexvec"), wide=False):
    """rates after thousands of words; wide: all of them different"""
    ts, cases, groups = [], [], []
    for i, k in enumerate(ks):
        words = ["f%d" % (x if wide else x % 997) for x in range(k)]
        if c.rng.random() < 0.6 and not wide:                # not eligible, but part of the corpus
            words += ["the"] * c.rng.randrange(300, 300 + k)
        at = sorted(c.rng.sample(range(2, k), 5)) + [k]
        if "the" in words:
            tail, words = words[k:], words[:k]
            cut = c.rng.randrange(2, k)
            words[cut:cut] = tail
        blocks, seen = [], 0
        text = []
        at += [x for x in (65530, 65537, 99995, 100001, 131070) if x < k]
        at, nxt = sorted(set(at)), 0
        for x in words + [None]:
            while nxt < len(at) and seen == at[nxt]:
                b = ["p%d_%d" % (nxt, y) for y in range(8)]
                blocks.append((seen + 8 * nxt + 1, b))
                text += b
                nxt += 1
            if x is None:
                break
            text.append(x)
            seen += x != "the"
        model, mode = models[i % len(models)], c.rng.choice(["mem", "stream"])
        t = T(model, text, kind=c.rng.choice(["skipgram", "cbow"]) if model == "word2vec" else "skipgram", mode=mode, g=1, batch=10 ** 6, dim=24, max=200 if "the" in words else -1,
              u=c.rng.choice([1, 7, 1000, 4096, 10000, 10000, 65536, 100000] if k > 60000 else [1, 7, 100, 1000]), minppm=c.rng.choice([0, 100, 100, 100000, 500000]))
        ids = {w: n for n, w in enumerate(dict.fromkeys(text))}
        el = [w for w in text if w != "the"]
        near = [[] for _ in ids]
        for p, b in blocks:
            for y, w in enumerate(b):
                q = p - 1 + y
                near[ids[w]] = list(dict.fromkeys(ids[el[z]] for z in (q - 1, q + 1) if 0 <= z < len(el)))
        ts.append((t, blocks, ids, len(text)))
        cases.append(t.case(c, snaps=False, near=near, chunk=0))
    for (t, blocks, ids, n), r in zip(ts, c.drive("train", cases, per_case=100.0)):
        if not r:
            continue
        ks = [e for e in r["events"] if e["ev"] == "K"]
        g = [y for y in r["events"] if y["ev"] not in ("K", "Return")]
        if ks and not g:
            cur = mats(ks[-1], len(ids)).get((1, 0) if t.model == "word2vec" else (0, 0), {})
            get = lambda a, b: max(-10 ** 7, min(10 ** 7, round(1e6 * cur.get((ids[a], ids[b]), 0.0))))
            for p, b in blocks:
                rs = [[get(w, b[z]) for z in (y - 1, y + 1) if 0 <= z < len(b)] for y, w in enumerate(b)] if t.model == "word2vec" else [[get(w, x)] for w, x in zip(b, b[1:])]
                g.append({"ev": "FarRates", "model": t.model, "kind": t.kind, "mode": t.mode, "len": n, "p": p, "u": t.u, "minppm": t.minppm, "r": rs})
        groups.append(g)
    c.count("long_trainings_validated", len(groups))
    c.validate_all("TrainTrace", groups, descr(prop))


def far_fit(c, prop, ks):
    """GloVe over ten thousands of different words"""
    ts, cases, groups = [], [], []
    for k in ks:
        t = T("glove", ["w%d" % x for x in range(k)], ctype=c.rng.choice(["inc", "prox"]), solver=c.rng.choice(["sgd", "adagrad"]), window=1, g=1, iters=1, dim=24, xmax=1, mode=c.rng.choice(["mem", "stream"]), batch=10 ** 6)
        t.nocooc = True
        at = [1, k - 2] + [x for x in (32767, 32768, 65535, 65536, 131072) if x < k - 10] + c.rng.sample(range(20, k - 20), 20)
        near = [[] for _ in range(k)]
        for x in at:
            near[x] = [y for y in (x - 1, x + 1, x - 9, x + 9) if 0 <= y < k]
        ts.append((t, k, at))
        cases.append(t.case(c, snaps=False, near=near, chunk=0))
    for (t, k, at), r in zip(ts, c.drive("train", cases, per_case=100.0)):
        if not r:
            continue
        e = [x for x in r["events"] if x["ev"] == "K"]
        g = [y for y in r["events"] if y["ev"] not in ("K", "Return")]
        if e and not g:
            ms = mats(e[-1], k)
            get = lambda a, b, x, y: max(-10 ** 9, min(10 ** 9, round(1e6 * ms.get((a, b), {}).get((x, y), 0.0))))
            for x in at:
                g.append({"ev": "FarFit", "solver": t.solver, "ctype": t.ctype, "mode": t.mode, "v": k, "rows": e[-1]["rows"], "x": x,
                          "m": [[y, get(0, 1, x, y), get(1, 0, x, y)] for y in (x - 1, x + 1, x - 9, x + 9) if 0 <= y < k]})
        groups.append(g)
    c.count("wide_trainings_validated", len(groups))
    c.validate_all("TrainTrace", groups, descr(prop))


def drop_cut(g):
    for e in g:
        if e["ev"] == "Rates":
            e["r"] = [[x for x in r if abs(x) > 30] for r in e["r"]]
    return g


def P27(c):
    big = c.thorough
    c.design("Lifecycle", Cfg({"MaxOps": 5 if not big else 6, "Docs": 3, "Bug": '"none"'}, ["Fresh", "ExportsOwn"]), "Lifecycle")
    for b in ("keep_lr", "keep_vocab", "keep_vectors", "keep_counts"):
        c.mutant("Lifecycle", Cfg({"MaxOps": 4, "Docs": 3, "Bug": '"%s"' % b}, ["Fresh"]), b)
    recs = c.generate("Lifecycle", Cfg({"MaxOps": 4 if not big else 5, "Docs": 3, "Bug": '"none"'}, ["Gen"]), "Lifecycle (histories)")
    hist = sorted(set(tuple((o["op"], o.get("doc", 0)) for o in r["ops"] if o["op"] in ("train", "fail")) for r in recs))
    hist = [h for h in hist if len(h) >= 2 and h[-1][0] == "train"]
    docs = {1: lambda: distinct(6), 2: lambda: ["x%d" % i for i in range(9)], 3: lambda: distinct(4) + ["z1", "z2", "z1"]}
    ts, kws = [], []
    for h in hist:
        for model in ("word2vec", "lexvec", "glove") if not big else ("word2vec", "lexvec", "glove") * 4:
            kw = dict(mode=c.rng.choice(["mem", "stream"]), g=1, batch=c.rng.choice([2, 4, 100]), iters=c.rng.choice([1, 2]), ns=0)
            if model == "word2vec":
                kw["kind"] = c.rng.choice(["skipgram", "cbow"])
            if model == "glove":
                kw.update(solver=c.rng.choice(["sgd", "adagrad"]), window=2)
            ts.append(T(model, docs[h[-1][1]](), dim=64 if model != "glove" else 128, **kw))
            before = []
            for op, d in h[:-1]:
                text = " ".join(docs[d]())
                fail = {"failpass": c.rng.randrange(1, 4), "failat": c.rng.randrange(0, len(text) + 1), "failseek": c.rng.random() < 0.2} if op == "fail" else {}
                before.append(dict({"text": b64(text), "seed": c.rng.randrange(10 ** 6)}, **fail))
            kws.append({"before": before, "snaps": False})
    it = iter(kws)
    obs = lambda t: {"word2vec": "steps", "lexvec": "lex", "glove": "fit"}[t.model]
    observe(c, ts, obs, "P27", casekw=lambda t: next(it))
    c.count("histories_replayed", len(hist))
    if c.violations:
        return
    # learning rates of a later training
    ts, kws = [], []
    for i in range(40 if not big else 400):
        n = c.rng.choice([3, 6, 12, 20])
        u = c.rng.choice([1, 2, 3, n // 2 + 1, n + 1, 100])
        model = c.rng.choice(["word2vec", "word2vec", "lexvec"])
        ts.append(T(model, distinct(n), kind=c.rng.choice(["skipgram", "cbow"]), mode=c.rng.choice(["mem", "stream"]), batch=100, u=u, minppm=c.rng.choice([100, 50000, 400000]), dim=96))
        words = distinct(c.rng.choice([1, 5, 30, 200]))
        before = {"text": b64(" ".join(words)), "seed": 1}
        if c.rng.random() < 0.3:
            before.update(failpass=c.rng.randrange(1, 4), failat=c.rng.randrange(0, len(words) * 3))
        kws.append({"before": [before] * c.rng.choice([1, 2])})
    recs = c.drive("train", [t.case(c, **k) for t, k in zip(ts, kws)], per_case=20.0)
    groups = []
    for t, r in zip(ts, recs):
        if r:
            early = [e for e in r["events"] if e["ev"] == "Earlier"]
            g = rate_events(t, {"events": [e for e in r["events"] if e["ev"] != "Earlier"]})
            groups.append([g[0]] + early + g[1:])
    c.validate_all("TrainTrace", groups, descr("P27"))
    if c.violations:
        return
    # trainings whose outcome is determined: bit by bit what a new model gives (radius 1, no draws, one worker)
    cases = []
    for i in range(60 if not big else 600):
        model = c.rng.choice(["word2vec", "word2vec", "lexvec"])
        opt = c.rng.choice(["ns", "hs"])
        words = ["w%d" % c.rng.randrange(9) for _ in range(c.rng.randrange(0, 25))]
        t = T(model, words, kind=c.rng.choice(["skipgram", "cbow"]), opt=opt if model == "word2vec" else "ns", rel=c.rng.choice(["co", "logco", "ppmi", "pmi"]), mode=c.rng.choice(["mem", "stream"]), batch=100,
              iters=c.rng.choice([1, 3]), dim=8, lr=0.025, u=10 ** 6, min=c.rng.choice([0, 2]), depth=c.rng.choice([0, 2]))
        seed = c.rng.randrange(10 ** 6)
        words0 = ["w%d" % c.rng.randrange(c.rng.choice([3, 30])) for _ in range(c.rng.randrange(0, 60))]
        before = {"text": b64(" ".join(words0)), "seed": 5}
        if c.rng.random() < 0.3:
            before.update(failpass=c.rng.randrange(1, 4), failat=c.rng.randrange(0, 60))
        cases.append(dict(t.case(c, basis=False, snaps=False, raw=True), seed=seed))
        cases.append(dict(t.case(c, basis=False, snaps=False, raw=True, before=[before]), seed=seed))
        ts.append(t)
    recs = c.drive("train", cases, per_case=20.0)
    groups = []
    for i in range(0, len(recs), 2):
        if recs[i] and recs[i + 1]:
            last = [recs[j]["events"][-1] for j in (i, i + 1)]
            groups.append([{"ev": "Again", "fresh": digest(last[0]), "again": digest(last[1])}])
    c.sample(groups[0])
    c.validate_all("LifecycleTrace", groups, lambda g, k: "P27: a model that has been trained before does not train like a new one: %s" % brief(g, 1500))
    if not c.violations:
        c.canary("LifecycleTrace", [{"ev": "Again", "fresh": {"err": "", "rows": 1}, "again": {"err": "", "rows": 2}}])


def digest(e):
    import hashlib, json
    if e["ev"] != "Return":
        return {"err": e.get("how", e["ev"])}
    return {"err": e["err"], "rows": e.get("rows", -1), "cols": e.get("cols", -1), "vectors": hashlib.sha256(json.dumps([e.get("w"), e.get("c")]).encode()).hexdigest()[:24]}
