"""Real trainings as traces of the specification TrainTrace: configurations, observation functions."""
import base64, itertools, math

W2V_LR, HS_LR, GLOVE_LR = 1e-8, 1e-4, 1e-8


def b64(s):
    return base64.b64encode(s if isinstance(s, bytes) else s.encode()).decode()


class T:
    """one training: options of the real model, the text, and what the specification is told"""

    def __init__(self, model, words, seps=None, **kw):
        self.model, self.words = model, list(words)
        o = dict(kind="skipgram", opt="ns", ns=0, window=1, g=1, batch=1000, mode="stream", iters=1, max=-1, min=0, lower=False, dim=0, u=1000000, minppm=0,
                 rel="co", depth=0, ctype="inc", xmax=1, alpha=0.0, solver="sgd", threshold=0.0, lr=None, smooth=1.0, extra={}, racy=False)
        o.update(kw)
        self.__dict__.update(o)
        if self.lr is None:
            self.lr = {"word2vec": HS_LR if self.opt == "hs" else W2V_LR, "lexvec": W2V_LR, "glove": GLOVE_LR}[model]
        vocab = set(w.lower() if self.lower else w for w in self.words)
        if not self.dim:
            self.dim = max(64, 2 * len(vocab) + 24) if model != "glove" else max(128, 2 * len(vocab) + 64)
        self.text = " ".join(self.words) if seps is None else "".join(w + s for w, s in zip(self.words, seps))

    def opts(self):
        o = {"Dim": self.dim, "DocInMemory": self.mode == "mem", "Goroutines": self.g, "Initlr": self.lr, "Iter": self.iters, "MaxCount": self.max,
             "MinCount": self.min, "ToLower": self.lower, "Window": self.window, "BatchSize": self.batch, "SubsampleThreshold": self.threshold}
        if self.model == "word2vec":
            o.update(MaxDepth=self.depth, MinLR=self.lr * self.minppm / 1e6, ModelType=self.kind, NegativeSampleSize=self.ns, OptimizerType=self.opt,
                     UpdateLRBatch=self.u)
        elif self.model == "lexvec":
            o.update(MinLR=self.lr * self.minppm / 1e6, NegativeSampleSize=self.ns, RelationType=self.rel, Smooth=self.smooth, UpdateLRBatch=self.u)
        else:
            o.update(Alpha=self.alpha, CountType=self.ctype, SolverType=self.solver, Xmax=self.xmax)
        o.update(self.extra)
        return o

    def unit(self):
        return {"word2vec": self.lr * self.lr / 4 if self.opt == "hs" else self.lr / 2, "lexvec": self.lr, "glove": self.lr}[self.model]

    def case(self, c, **kw):
        d = {"model": self.model, "opts": self.opts(), "text": b64(self.text), "seed": c.rng.randrange(1, 10 ** 6), "basis": True, "unit": self.unit(),
             "hs": self.model == "word2vec" and self.opt == "hs", "snaps": self.mode == "stream" and self.model != "glove", "chunk": c.rng.choice([0, 1, 5, 64]),
             "serial": self.racy, "eofwith": c.rng.random() < 0.2, "start": c.rng.choice([0, 0, 0, 3])}
        d.update(kw)
        return d

    def event(self):
        sp = list(dict.fromkeys(self.words + [w.lower() for w in self.words]))
        ix = {w: i + 1 for i, w in enumerate(sp)}
        return {"ev": "Train", "text": [ix[w] for w in self.words], "lower": self.lower, "low": [ix[w.lower()] for w in sp], "max": self.max, "min": self.min,
                "cooc": self.model != "word2vec" and not getattr(self, "nocooc", False), "ctype": "prox" if self.ctype == "prox" else "inc", "window": self.window,
                "mode": self.mode, "batch": self.batch, "g": self.g, "iters": self.iters, "dim": self.dim, "ns": self.ns, "u": self.u, "minppm": self.minppm,
                "smooth4": round(4 * self.smooth), "kind": self.kind, "rel": self.rel, "depth": self.depth, "model": self.model, "opt": self.opt}

    # vocabulary size, only to shape the observation
    def v(self):
        return len(set(w.lower() if self.lower else w for w in self.words))


def mats(ev, v):
    ms = {}
    for a, r, b, k, x in ev.get("e", []):
        ms.setdefault((int(a), int(b)), {})[(int(r), int(k))] = x
    return ms


def dense(v, get):
    return [[get(i, j) for j in range(v)] for i in range(v)]


def base_event(ev, v, name):
    odd = []
    if ev.get("bad"):
        odd.append("wrong shape: " + ev["bad"])
    elif ev["res"] > 0.05:
        odd.append("changes outside the span of the initial vectors: %g" % ev["res"])
    return {"ev": name, "rows": ev["rows"], "final": bool(ev.get("final")), "odd": odd}


def to_int(x, odd, what, extra=0.0):
    n = round(x)
    if abs(x - n) > 0.02 + 0.008 * abs(x) + extra:
        odd.append("%s changes by %.4f units" % (what, x))
    return n


def empty_rows(ev, t):
    """an empty vocabulary has no rows to compare"""
    return ev["rows"] == 0 and t.v() == 0


def w2v_event(ev, t, name="Steps"):
    v = t.v()
    r = base_event(ev, v, name)
    ms, odd = mats(ev, v), r["odd"]
    g = lambda a, b: ms.get((a, b), {})
    for a in (0, 1):
        for (i, j), x in g(a, a).items():
            if abs(x) > 0.03:
                odd.append("%s vector of %d moves along the %s vector of %d" % (("own", "context")[a], i, ("own", "context")[a], j))
    # every step moves by 1 or 1.006 units (the table's value at 0); with draws the deviations do not cancel like the steps
    extra = 0.008 * t.ns * 2 * t.window * t.iters * len(t.words)
    kc = dense(v, lambda tg, y: to_int(g(1, 0).get((tg, y), 0.0), odd, "context vector of %d along own vector of %d" % (tg, y), extra))

    def same(tg, y):
        a, b = g(0, 1).get((y, tg), 0.0), g(1, 0).get((tg, y), 0.0)
        return kc[tg][y] if abs(a - b) < 0.03 + 0.001 * abs(b) else to_int(a, odd, "own vector of %d along context vector of %d" % (y, tg), extra)
    kw = dense(v, same)
    r.update(kw=kw, kc=kc, odd=odd[:5])
    return r


def sparse_event(ev, t):
    r = base_event(ev, t.v(), "Sparse")
    ms, odd = mats(ev, t.v()), r["odd"]
    kw = sorted([k, i, to_int(x, odd, "w%d" % i)] for (i, k), x in ms.get((0, 1), {}).items() if abs(x) > 0.03)
    kc = sorted([i, k, to_int(x, odd, "c%d" % i)] for (i, k), x in ms.get((1, 0), {}).items() if abs(x) > 0.03)
    for a in (0, 1):
        if any(abs(x) > 0.03 for x in ms.get((a, a), {}).values()):
            odd.append("own on own")
    r.update(kw=kw, kc=kc, odd=odd[:5])
    return r


def lex_event(ev, t):
    v = t.v()
    r = base_event(ev, v, "Lex")
    ms, odd = mats(ev, v), r["odd"]
    g = lambda a, b: ms.get((a, b), {})
    for (i, j), x in g(1, 1).items():
        if abs(x) > 0.03:
            odd.append("context vector of %d moves along the context vector of %d" % (i, j))
    cap = lambda x: max(-5 * 10 ** 8, min(5 * 10 ** 8, round(x * 10000)))
    low = lambda x: 0 if abs(x) < 0.0005 and t.ns == 0 else cap(x)
    r.update(s=dense(v, lambda x, y: cap(g(0, 0).get((x, y), 0.0))), b=dense(v, lambda x, y: low(g(0, 1).get((x, y), 0.0))),
             bt=dense(v, lambda x, y: low(g(1, 0).get((y, x), 0.0))), odd=odd[:5])
    return r


def lcm_to(n):
    r = 1
    for i in range(1, n + 1):
        r = r * i // math.gcd(r, i)
    return r


def fit_event(ev, t):
    v = t.v()
    r = base_event(ev, v, "Fit")
    ms, odd = mats(ev, v), r["odd"]
    g = lambda a, b: ms.get((a, b), {})
    for a in (0, 1):
        for (i, j), x in g(a, a).items():
            if abs(x) > 1e-4:
                odd.append("%s vector of %d moves along the %s vector of %d" % (("own", "context")[a], i, ("own", "context")[a], j))
    scale = lcm_to(t.window) if t.ctype == "prox" else 1
    top = scale * len(t.words) * t.window + scale
    table = []
    for f in range(1, top + 1):
        val = f / scale
        coef = min(1.0, (val / t.xmax) ** t.alpha)
        table.append((coef * (math.log(val) - 1.6 / t.dim), coef))

    def cands(x, diag):
        x = x / t.iters / (2 if diag else 1) if t.iters else x
        near = lambda f, e, coef: abs(x - e) <= coef * 2 / t.dim + 1e-7 + 0.001 * abs(e)
        if abs(x) < 2e-7:       # 0: no change; a value whose step is as small as that cannot be told from it (the value 1 can, unless its weight is tiny)
            return [0] + [f for f, (e, coef) in enumerate(table, 1) if near(f, e, coef) and (f != scale or coef * 0.05 / t.dim < 2e-7)]
        res = [f for f, (e, coef) in enumerate(table, 1) if near(f, e, coef)]
        return res or [-1]
    r.update(v=dense(v, lambda x, y: cands(g(0, 1).get((x, y), 0.0), x == y)), c=dense(v, lambda x, y: cands(g(1, 0).get((x, y), 0.0), x == y)), odd=odd[:5])
    return r


def lossy_event(ev, t):
    """GloVe with several workers at once, one iteration, every value 2: each component of a vector's change is the sum of some
    of its updates. parts: <<x, y, n>>: n of the updates of the own vector of x by the context vector of y show somewhere (-x: of
    the context vector of x by the own vector of y)"""
    w0, c0, w, cc = ev["w0"], ev["c0"], ev["w"], ev["c"]
    r = {"ev": "Lossy", "rows": len(w), "odd": [], "parts": []}
    if len(w) != len(w0):
        return dict(r, odd=["rows"])
    for side, own, new, other in ((1, w0, w, c0), (-1, c0, cc, w0)):
        for x in range(len(own)):
            near = [y for y in (x - 1, x + 1) if 0 <= y < len(own)]
            seen = set()
            for d in range(len(own[x])):
                delta = new[x][d] - own[x][d]
                ups = [t.lr * (math.log(2) - 1 / t.dim - dot(own[x], other[y])) * other[y][d] for y in near]
                best = None
                for s in itertools.product((0, 1), repeat=len(near)):
                    e = abs(delta - sum(a * b for a, b in zip(s, ups))) - sum(abs(a * b) for a, b in zip(s, ups)) * 2 / t.dim / 0.6
                    if best is None or e < best[0]:
                        best = (e, s)
                if best[0] > 1e-5 * t.lr / t.dim:
                    r["odd"].append("component %d of the %s vector of word %d changes by %g, its updates are %s" % (d, "own" if side > 0 else "context", x, delta, ups))
                seen |= {y for y, a in zip(near, best[1]) if a}
            r["parts"] += [[side * (x + 1), y + 1, 1] for y in sorted(seen)]
    r["odd"] = r["odd"][:3]
    return r


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def tree_event(ev, t):
    v = t.v()
    r = base_event(ev, v, "Tree")
    ms, odd = mats(ev, v), r["odd"]
    r.update(h=dense(v, lambda x, y: max(-10 ** 9, min(10 ** 9, round(100 * ms.get((0, 0), {}).get((x, y), 0.0))))), odd=odd[:5])
    return r


def ret_event(e):
    return {k: e[k] for k in ("ev", "err", "fired", "leak", "still", "rows", "cols") if k in e}


OBS = {"steps": w2v_event, "sparse": sparse_event, "lex": lex_event, "fit": fit_event, "tree": tree_event, "draws": lambda e, t: w2v_event(e, t, "Draws")}


def trace(t, rec, obs, ret=True, snaps=True):
    """the trace of one recorded training"""
    g = [t.event()]
    for e in rec["events"]:
        if e["ev"] == "K":
            if obs and (e.get("final") or (snaps and obs in ("steps", "sparse"))):
                g.append(OBS[obs](e, t))
        elif e["ev"] == "Return":
            if ret:
                g.append(ret_event(e))
        else:
            g.append(e)
    return g


def brief(x, n=900):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


def descr(prop):
    def f(g, k):
        conf = {a: b for a, b in g[0].items() if a not in ("low",)}
        return "%s: %s is not what the specification allows: %s\n  in the training %s" % (prop, g[k].get("ev"), brief(g[k], 1500), brief(conf, 700))
    return f


def distinct(n, prefix="w"):
    return ["%s%d" % (prefix, i) for i in range(n)]


def with_filtered(rng, n, extra):
    """n eligible words (each once) among words that occur `extra` times (to be excluded by a maximum count of 1)"""
    words = distinct(n)
    for i in range(rng.choice([1, 2])):
        for _ in range(extra):
            words.insert(rng.randrange(len(words) + 1), "f%d" % i)
    return words
