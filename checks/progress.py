"""P29: progress reports and their influence on the outcome."""
import os, re, shutil
from concurrent.futures import ThreadPoolExecutor
from vf import Cfg, CheckError
from trainlib import *
from train import observe, rate_events, any_training
from cli import start, finish, vector_file

INV = ["Quiet", "TrueTotals", "NeverMore", "SameOutcome"]
LINE = re.compile(r"^(read|build|trained|saved) (-?\d+) (words|tuples|items)( .*)?$")


def prog(**kw):
    k = {"Eligible": "0..3", "Excluded": "0..1", "Vocab": "0..2", "Ks": "1..3", "Us": "{2}", "Workers": "{1, 2}", "IterSet": "0..2", "Bug": '"none"'}
    k.update(kw)
    return k


def reports(out):
    """the reports in captured output; what is not a report is odd"""
    res, odd, cur = [], [], None
    for line in out.replace("\r\n", "\n").splitlines(keepends=True) if out else []:
        # splitlines also splits at \r: an intermediate number ends in \r, a final one in \n
        end, s = line[-1:], line.rstrip("\r\n")
        m = LINE.match(s)
        if not m or end not in "\r\n":
            odd.append(s[:80])
            continue
        what, n = m.group(1) + " " + m.group(3), int(m.group(2))
        if cur is None or cur["what"] != what:
            cur = {"what": what, "ints": [], "final": -1}
            res.append(cur)
        if end == "\r":
            cur["ints"].append(n)
        else:
            cur["final"] = n
            cur = None
    return res, odd


def session(t, rec, k, verbose):
    g = [dict(t.event(), ev="Session", k=k, lk=k, verbose=verbose)]
    for e in rec["events"]:
        if e["ev"] == "Reports":
            rs, odd = reports(e["stdout"])
            if e["err"] and not e["fired"]:
                odd.append(e["err"])
            g.append({"ev": "Reports", "reports": rs, "odd": bool(odd), "failed": e["err"] != "", "why": asc(odd)})
        elif e["ev"] == "Saved":
            rs, odd = reports(e["stdout"])
            g.append({"ev": "Saved", "reports": rs, "odd": bool(odd), "err": e["err"], "why": asc(odd)})
        else:
            g.append(e)
    return g


def asc(x):
    return str(x).encode("ascii", "backslashreplace").decode()


def digest(rec):
    return [[e["ev"], e.get("err", ""), str(e.get("bits", "")), e.get("bytes", "")] if e["ev"] != "Crash" else ["Crash", asc(e["how"])] for e in rec["events"]]


SAVES = [{"op": "save", "typ": "single"}, {"op": "save", "typ": "agg"}]


def P29(c):
    big = c.thorough
    c.design("Progress", Cfg(prog() if not big else prog(Eligible="0..5", Ks="1..4", Us="{1, 2, 3}", Workers="1..3"), INV, ["Ends"]), "Progress", timeout=3000)
    for b in ("count_if_verbose", "multiples_only", "unjoined", "count_excluded", "saved_last_index"):
        c.mutant("Progress", Cfg(prog(Bug='"%s"' % b), INV), b)
    # totals: every model and mode, several workers and batches, filters, faults
    ts, cases, ks, vs = [], [], [], []
    for i in range(400 if not big else 4000):
        n = c.rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40, c.rng.randrange(1, 60)])
        words = ["w%d" % c.rng.randrange(c.rng.choice([1, 2, 5, 30])) for _ in range(n)]
        if c.rng.random() < 0.3:
            words = [w.upper() if c.rng.random() < 0.5 else w for w in words]
        t = any_training(c.rng, words, iters=c.rng.choice([0, 1, 1, 2, 3]))
        k = c.rng.choice([1, 1, 2, 3, 5, 7, max(1, n), n + 1, 100000])
        verbose = c.rng.random() < 0.9
        t.extra = dict(t.extra, Verbose=verbose, LogBatch=k)
        kw = {}
        if i % 5 == 0:
            kw = dict(failpass=c.rng.randrange(1, 6), failat=c.rng.randrange(0, len(t.text) + 1), failseek=c.rng.random() < 0.2)
        ts.append(t)
        ks.append(k)
        vs.append(verbose)
        cases.append(t.case(c, op="session", basis=False, snaps=False, start=0, hist=SAVES if c.rng.random() < 0.7 else SAVES[:1] * 2, **kw))
    recs = c.drive("train", cases, per_case=20.0)
    groups = [session(t, r, k, v) for t, r, k, v in zip(ts, recs, ks, vs) if r]
    c.sample(groups[1])
    c.count("sessions_validated", len(groups))
    c.validate_all("ProgressTrace", groups, lambda g, i: "P29: the reports %s are not what the specification allows for the session %s" % (
        brief(g[i], 900), brief({a: b for a, b in g[0].items() if a != "low"}, 700)))
    if c.violations:
        return
    ts, cases = [], []          # more words than fit sixteen bits
    for i in range(2):
        words = ["w%d" % (x % 3) for x in range(65530 + c.rng.randrange(0, 3000))]
        t = T("word2vec", words, mode=["mem", "stream"][i], g=1, batch=c.rng.choice([1000, 10 ** 6]), iters=1, dim=2, ns=0, window=1, min=0)
        t.extra = dict(t.extra, Verbose=True, LogBatch=1000)
        ts.append(t)
        cases.append(t.case(c, op="session", basis=False, snaps=False, start=0, chunk=0, hist=SAVES[:1]))
    groups = [session(t, r, 1000, True) for t, r in zip(ts, c.drive("train", cases, per_case=60.0)) if r]
    c.validate_all("ProgressTrace", groups, lambda g, i: "P29: the reports %s are not what the specification allows for a text of %d words" % (brief(g[i], 900), len(g[0]["text"])))
    if c.violations:
        return
    # the same session silent and verbose, bit by bit
    ts, sil, ver = [], [], []
    for i in range(160 if not big else 2000):
        model = c.rng.choice(["word2vec", "word2vec", "lexvec", "glove"])
        words = ["w%d" % c.rng.randrange(c.rng.choice([1, 4, 9])) for _ in range(c.rng.choice([0, 1, 2, 7, 25, 40]))]
        kw = dict(mode=c.rng.choice(["mem", "stream"]), batch=100, iters=c.rng.choice([0, 1, 3]), dim=c.rng.choice([1, 4, 9]), lr=0.025, min=c.rng.choice([0, 2]), g=1,
                  window=c.rng.choice([1, 2, 5]), ns=c.rng.choice([0, 1, 5]))
        # many updates of the rate, all to the same value, or none
        kw.update(c.rng.choice([dict(u=1, minppm=10 ** 6), dict(u=10 ** 6), dict(u=3, minppm=10 ** 6)]))
        if model == "word2vec":
            kw.update(kind=c.rng.choice(["skipgram", "cbow"]), opt=c.rng.choice(["ns", "hs"]), depth=c.rng.choice([0, 2]), threshold=c.rng.choice([0.0, 1e-3, 0.3]))
        elif model == "lexvec":
            kw.update(rel=c.rng.choice(["co", "logco", "ppmi", "pmi"]), threshold=c.rng.choice([0.0, 1e-3]))
        else:
            # the order of GloVe's items is not specified: one item
            words = [c.rng.choice(["a", "b"]) for _ in range(2)]
            kw.update(solver=c.rng.choice(["sgd", "adagrad"]), ctype=c.rng.choice(["inc", "prox"]), xmax=c.rng.choice([1, 100]), alpha=0.75, min=0)
        t = T(model, words, **kw)
        cs = t.case(c, op="session", basis=False, snaps=False, hist=SAVES)
        ts.append(t)
        sil.append(dict(cs, opts=dict(cs["opts"], Verbose=False, LogBatch=100000)))
        ver.append(dict(cs, opts=dict(cs["opts"], Verbose=True, LogBatch=c.rng.choice([1, 1, 2, 3, 7, 100000]))))
    # (draws come from a generator of the whole process: both processes run the same sequence of trainings)
    a, b = c.drive("train", sil, per_case=20.0), c.drive("train", ver, per_case=20.0)
    groups = [[{"ev": "Pair", "silent": digest(x), "verbose": digest(y), "opts": v["opts"], "text": " ".join(t.words)}] for t, x, y, v in zip(ts, a, b, ver) if x and y]
    c.sample(groups[0])
    c.count("sessions_compared", len(groups))
    c.validate_all("ProgressTrace", groups, lambda g, i: "P29: a verbose session ends differently from a silent one: %s" % brief(g[0], 1500), max_viol=1)
    if c.violations:
        return
    # what verbose trainings do to the vectors (several workers, falling rates)
    ts = []
    for i in range(60 if not big else 600):
        n = c.rng.choice([0, 1, 3, 8, 16])
        model = c.rng.choice(["word2vec", "lexvec", "glove"])
        ex = {"Verbose": True, "LogBatch": c.rng.choice([1, 2, 3, n + 1, 100000])}
        kw = dict(mode=c.rng.choice(["mem", "stream"]), iters=c.rng.choice([1, 2, 3]), extra=ex)
        if model == "word2vec":
            ts.append(T(model, distinct(n), kind=c.rng.choice(["skipgram", "cbow"]), g=c.rng.choice([1, 2, 4]), batch=c.rng.choice([2, 5, 100]), **kw))
        elif model == "lexvec":
            ts.append(T(model, distinct(n), rel="co", g=c.rng.choice([1, 2, 4]), batch=c.rng.choice([2, 5, 100]), **kw))
        else:
            ts.append(T(model, ["w%d" % c.rng.randrange(5) for _ in range(n)], window=2, g=1, **kw))
    observe(c, ts, lambda t: {"word2vec": "steps", "lexvec": "lex", "glove": "fit"}[t.model], "P29 (verbose)", casekw=lambda t: {"stdout": True})
    if c.violations:
        return
    ts = []
    for i in range(60 if not big else 600):
        n = c.rng.choice([1, 3, 10, 20])
        model = c.rng.choice(["word2vec", "lexvec"])
        mode = c.rng.choice(["mem", "stream"])
        ts.append(T(model, distinct(n), kind=c.rng.choice(["skipgram", "cbow"]), mode=mode, batch=n + 2, iters=c.rng.choice([1, 2, 3]) if mode == "stream" else 1, u=c.rng.choice([1, 2, 3, n]),
                    minppm=c.rng.choice([0, 100, 300000]), extra={"Verbose": i % 4 != 0, "LogBatch": c.rng.choice([1, 2, 3, n, 100000])}))
    recs = c.drive("train", [t.case(c, stdout=True) for t in ts], per_case=20.0)
    groups = [rate_events(t, r) for t, r in zip(ts, recs) if r]
    c.count("verbose_sessions_with_observed_rates", len(groups))
    c.validate_all("TrainTrace", groups, descr("P29 (verbose)"))
    if c.violations:
        return
    # the commands
    binp = c.build_cli()

    def cli(job):
        model, words, k, opts, verbose = job
        d = c.path("dir")
        os.makedirs(d)
        with open(os.path.join(d, "in"), "w") as f:
            f.write(" ".join(words))
        a = [model, "-i", "in", "-o", "out", "-d", "3", "--log-batch", str(k)] + opts + (["--verbose"] if verbose else [])
        st, o, err = finish(start(c, binp, d, a))
        res = st, o, err, vector_file(os.path.join(d, "out"))
        shutil.rmtree(d)
        return res
    jobs, ts = [], []
    for i in range(40 if not big else 300):
        model = c.rng.choice(["word2vec", "lexvec", "glove"])
        words = ["w%d" % c.rng.randrange(c.rng.choice([2, 9])) for _ in range(c.rng.choice([1, 2, 12, 40]))]
        t = T(model, words, window=c.rng.choice([1, 3]), mode=c.rng.choice(["mem", "stream"]), iters=c.rng.choice([1, 2]), min=c.rng.choice([0, 3]), max=c.rng.choice([-1, 4]))
        o = ["-w", str(t.window), "--iter", str(t.iters), "--min-count", str(t.min), "--max-count", str(t.max), "--goroutines", str(c.rng.choice([1, 3]))]
        if t.mode == "mem":
            o.append("--in-memory")
        ts.append(t)
        jobs.append((model, words, c.rng.choice([1, 2, 5, 100]), o, c.rng.random() < 0.85))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(cli, jobs))
    groups = []
    for t, (model, words, k, o, verbose), (st, out, err, vf) in zip(ts, jobs, outs):
        rs, odd = reports(out)
        if st != 0:
            odd.append("status %d %s" % (st, err[:200]))
        sess = dict(t.event(), ev="Session", k=k, lk=k, verbose=verbose)
        if verbose:
            groups.append([sess, {"ev": "Reports", "reports": rs[:-1], "odd": bool(odd), "failed": False, "why": asc(odd)},
                           {"ev": "Saved", "reports": rs[-1:], "odd": False, "err": ""}])
        else:
            groups.append([sess, {"ev": "Reports", "reports": rs, "odd": bool(odd), "failed": False, "why": asc(odd)}])
    c.count("commands_validated", len(groups))
    c.validate_all("ProgressTrace", groups, lambda g, i: "P29: a command reports %s, not what the specification allows for %s" % (
        brief(g[i], 900), brief({a: b for a, b in g[0].items() if a != "low"}, 700)))
    if not c.violations:
        t = T("word2vec", distinct(5), iters=1)
        s = dict(t.event(), ev="Session", k=2, lk=2, verbose=True)
        rs = [{"what": "read words", "ints": [2, 4], "final": 5}, {"what": "trained words", "ints": [2, 4], "final": 5}]
        bad = [rs[0], dict(rs[1], final=4)]
        c.canary("ProgressTrace", [s, {"ev": "Reports", "reports": bad, "odd": False, "failed": False}])
        c.canary("ProgressTrace", [s, {"ev": "Reports", "reports": rs[:1], "odd": False, "failed": False}])
        c.canary("ProgressTrace", [{"ev": "Pair", "silent": [["a"]], "verbose": [["b"]]}])
    c.assumptions.append("bit-by-bit comparison uses one worker and texts whose training is deterministic; the vectors of trainings with several workers are compared with the specification instead")
