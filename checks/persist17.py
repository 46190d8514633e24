"""P17: exported vectors."""
from vf import Cfg, CheckError
from trainlib import *
from train import observe, glove_cases, far_rates, far_fit


def P17(c):
    big = c.thorough
    c.design("Lifecycle", Cfg({"MaxOps": 6 if not big else 7, "Docs": 1, "Bug": '"none"'}, ["Fresh", "ExportsOwn"]), "Lifecycle")
    c.mutant("Lifecycle", Cfg({"MaxOps": 4, "Docs": 1, "Bug": '"share"'}, ["ExportsOwn"]), "share")
    c.mutant("Lifecycle", Cfg({"MaxOps": 4, "Docs": 2, "Bug": '"keep_vectors"'}, ["Fresh"]), "keep_vectors")
    recs = c.generate("Lifecycle", Cfg({"MaxOps": 6, "Docs": 2, "Bug": '"none"'}, ["Gen"]), "Lifecycle (histories)")
    hist = sorted(set(tuple((o["op"], o.get("typ", o.get("doc", 0))) for o in r["ops"]) for r in recs))
    hist = [h for h in hist if sum(o[0] in ("train", "fail") for o in h) <= 2 and sum(o[0] != "fail" for o in h) > 3]
    c.rng.shuffle(hist)
    hist = hist[:350 if not big else 4000]
    texts = {1: ["a", "b", "a", "c", "B", "d", "a", "e"], 2: ["x%d" % i for i in range(5)] + ["x1", "x2", "y", "X1"]}
    cases, heads = [], []
    for h in hist:
        model = c.rng.choice(["word2vec", "word2vec", "lexvec", "glove"])
        t = T(model, [], opt=c.rng.choice(["ns", "hs"]), kind=c.rng.choice(["skipgram", "cbow"]), ns=c.rng.choice([0, 2]), window=c.rng.choice([1, 3]), mode=c.rng.choice(["mem", "stream"]), g=c.rng.choice([1, 1, 3]),
              batch=c.rng.choice([2, 100]), dim=c.rng.choice([1, 2, 5, 10]), lr=c.rng.choice([0.025, 0.05]), lower=c.rng.random() < 0.4, max=c.rng.choice([-1, 2]), depth=c.rng.choice([0, 2]), iters=c.rng.choice([0, 1, 2]),
              solver=c.rng.choice(["sgd", "adagrad"]))
        if h[0][0] == "train" and c.rng.random() < 0.1:
            texts[3] = c.rng.choice([[], ["one"], ["w%d" % i for i in range(40)], ["x"] * 9])
        else:
            texts.pop(3, None)
        steps, models = [], []
        for op, x in h:
            if op in ("train", "fail"):
                words = texts.get(3, texts[x])
                text = " ".join(words)
                s = {"op": op, "text": b64(text), "seed": c.rng.randrange(10 ** 6)}
                if op == "fail":
                    s.update(failpass=1, failat=c.rng.randrange(0, len(text) + 1))
                steps.append(s)
                vocab = list(dict.fromkeys(w.lower() if t.lower else w for w in words))
                models.append({"ev": "Model", "words": vocab, "dim": t.dim, "same": model == "word2vec" and t.opt == "hs"})
            else:
                steps.append({"op": op, "typ": x})
        cases.append({"op": "history", "model": model, "opts": t.opts(), "hist": steps})
        heads.append(models)
    recs = c.drive("train", cases, per_case=20.0)
    groups = []
    for r, models in zip(recs, heads):
        if r:
            g, it = [], iter(models)
            for e in r["events"]:
                g.append(next(it) if e["ev"] == "Trained" else e)
            groups.append(g)
    for g in groups[:3]:
        c.sample(g)
    c.count("histories_replayed", len(groups))
    c.validate_all("LifecycleTrace", groups, lambda g, k: "P17: %s is not what the specification allows after %s\n  %s" % (
        brief(g[k], 900), [(e["ev"], e.get("typ", "")) for e in g[:k]], brief(g[0], 300)))
    if c.violations:
        return
    # the single vectors are the words' own, the aggregated ones add the context vectors: what training does to each is known
    ts = []
    for i in range(60 if not big else 600):
        n = c.rng.randrange(1, 12)
        kw = dict(mode=c.rng.choice(["mem", "stream"]), g=1, iters=c.rng.choice([0, 1, 2]))
        ts.append(T("word2vec", distinct(n), kind=c.rng.choice(["skipgram", "cbow"]), **kw))
        ts.append(T("lexvec", ["w%d" % c.rng.randrange(4) for _ in range(n)], rel="co", ns=c.rng.choice([0, 2]), lr=1e-10, **kw))
    # a word beyond the limits keeps its own vector, while its context vector is drawn
    for i in range(20 if not big else 200):
        words = with_filtered(c.rng, c.rng.randrange(2, 9), 2)
        ts.append(T("word2vec", words, kind=c.rng.choice(["skipgram", "cbow"]), ns=c.rng.choice([0, 3]), max=1, g=1))
    ts += glove_cases(c, 40 if not big else 300)
    observe(c, ts, lambda t: {"word2vec": "draws" if t.ns else "steps", "lexvec": "lex", "glove": "fit"}[t.model], "P17", snaps=False)
    if not c.violations:
        far_rates(c, [70000] if not big else [33000, 70000, 140000], prop="P17", models=("word2vec",), wide=True)
    if not c.violations:
        far_fit(c, "P17", [70000] if not big else [33000, 70000, 140000])
    if not c.violations:
        g = [{"ev": "Model", "words": ["a"], "dim": 2, "same": False}, {"ev": "Vectors", "typ": "single", "rows": [["0.1", "0.2"]], "bits": "x"}]
        for e in ({"ev": "Vectors", "typ": "single", "rows": [["0.1", "0.2"]], "bits": "y"}, {"ev": "Vectors", "typ": "agg", "rows": [["0.1", "0.2"]], "bits": "x"},
                  {"ev": "Save", "typ": "single", "err": "", "lines": [["a", "0.1", "0.3"]]}, {"ev": "Save", "typ": "both", "err": "", "lines": []}):
            c.canary("LifecycleTrace", g + [e])
