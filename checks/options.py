"""P25: settings."""
import os, re, shutil
from concurrent.futures import ThreadPoolExecutor
from vf import Cfg, CheckError
from trainlib import b64
import cli

SPELL = {"inmemory": "in-memory", "logbatch": "log-batch", "maxcount": "max-count", "mincount": "min-count", "tolower": "to-lower", "maxdepth": "max-depth",
         "minlr": "min-lr", "updatelrbatch": "update-lr-batch"}
NAMES = {"model": ["cbow", "skipgram"], "optimizer": ["ns", "hs"], "solver": ["sgd", "adagrad"], "cnt": ["inc", "prox"], "rel": ["ppmi", "pmi", "co", "logco"]}
FLOATS = {"initlr", "minlr", "threshold", "alpha", "smooth", "subsamplethreshold"}
BOOLS = {"inmemory", "tolower", "verbose", "docinmemory"}
SDKNAMES = {"Model": "model", "Optimizer": "optimizer", "Solver": "solver", "Relation": "rel"}


def value(rng, name, v):
    """a concrete value for an abstract one"""
    n = name.lower()
    if n in BOOLS:
        return v
    if n in NAMES or name in SDKNAMES:
        return rng.choice(NAMES[SDKNAMES.get(name, n)] + ["other", "x", "CBOW"])
    if n in FLOATS:
        return rng.choice(["0.5", "0.125", "0.03", "2.75", "1.5", "0.0625"])
    return str(rng.choice([0, 1, 2, 3, 7, 11, 50, 100, 250, 12345, 1000000]))


def flag_args(rng, name, val):
    if len(name) == 1:
        return rng.choice([["-" + name, val], ["-%s=%s" % (name, val)], ["-" + name + val]])
    f = "--" + SPELL.get(name, name)
    if name in BOOLS:
        return ["%s=%s" % (f, val)] if val == "false" or rng.random() < 0.5 else [f]
    return rng.choice([[f, val], [f + "=" + val]])


CLI = {"word2vec": ["maxdepth", "minlr", "model", "sample", "optimizer", "updatelrbatch"], "glove": ["alpha", "cnt", "solver", "xmax"],
       "lexvec": ["minlr", "sample", "rel", "smooth", "updatelrbatch"]}
COMMON = ["batch", "dim", "d", "goroutines", "inmemory", "initlr", "iter", "logbatch", "maxcount", "mincount", "threshold", "tolower", "verbose", "window", "w"]
SDK = {"word2vec": ["LogBatch", "MaxDepth", "MinLR", "NegativeSampleSize", "UpdateLRBatch", "Model", "Optimizer"], "glove": ["Alpha", "Xmax", "Solver"],
       "lexvec": ["LogBatch", "MinLR", "NegativeSampleSize", "Smooth", "UpdateLRBatch", "Relation"]}
SCOMMON = ["BatchSize", "DocInMemory", "Goroutines", "Dim", "Initlr", "Iter", "MaxCount", "MinCount", "SubsampleThreshold", "ToLower", "Verbose", "Window"]


def case_of(rng, via, model, sets):
    """sets: (name, concrete value)"""
    c = {"op": "flags" if via == "cli" else "options", "model": model, "sets": [{"name": n, "val": v} for n, v in sets]}
    if via == "cli":
        c["args"] = [a for n, v in sets for a in flag_args(rng, n, v)]
    return c


def group(via, model, sets, events, args=None):
    return [{"ev": "Begin", "via": via, "model": model, "args": args or []}] + [{"ev": "Set", "name": n, "val": v} for n, v in sets] + events


def descr(g, k):
    return "P25: %s" % [x for x in g[:k + 1] if x["ev"] != "Defaults"][-14:].__str__()[:2500]


WORDS = ["a", "b", "A", "Cc", "cc", "d"]


def effect_sets(rng, via, model):
    """settings with an observable, safe effect"""
    names = {"cli": ["d", "dim", "iter", "verbose", "w", "window", "tolower", "mincount", "goroutines", "batch", "inmemory", "initlr", "threshold", "maxcount"],
             "sdk": ["Dim", "Iter", "Verbose", "Window", "ToLower", "MinCount", "Goroutines", "BatchSize", "DocInMemory", "Initlr", "SubsampleThreshold", "MaxCount"]}[via]
    names = names + {"cli": {"word2vec": ["model", "optimizer", "sample", "maxdepth"], "glove": ["solver", "cnt", "xmax"], "lexvec": ["rel", "sample", "smooth"]},
                     "sdk": {"word2vec": ["Model", "Optimizer", "NegativeSampleSize", "MaxDepth"], "glove": ["Solver", "Xmax"], "lexvec": ["Relation", "NegativeSampleSize", "Smooth"]}}[via][model]
    res = [(names[3 if via == "cli" else 2], "true")] if rng.random() < 0.6 else []
    for _ in range(rng.choice([0, 1, 2, 3, 6, 12])):
        n = rng.choice(names + ["verbose" if via == "cli" else "Verbose", "dim" if via == "cli" else "Dim"])
        m = n.lower()
        if m in BOOLS:
            v = "true" if via == "sdk" else rng.choice(["true", "true", "false"])
        elif m in NAMES or n in SDKNAMES:
            v = rng.choice(NAMES[SDKNAMES.get(n, m)] * 4 + ["other"])
        elif m in ("d", "dim", "window", "w"):
            v = str(rng.choice([1, 2, 3, 4, 6, 9]))
        elif m in FLOATS:
            v = rng.choice(["0.5", "0.125", "0.0625"])
        elif m == "iter":
            v = str(rng.choice([0, 1, 2, 5]))
        else:
            v = str(rng.choice([1, 2, 3, 7]))
        res.append((n, v))
    return res


def effect(text, via, words, cols, out, stdout, err, nums):
    ix = {w: i + 1 for i, w in enumerate(dict.fromkeys(text + [w.lower() for w in text]))}
    lines = [x for x in re.split(r"[\r\n]+", stdout)]
    final = [x for x in stdout.replace("\r\n", "\n").split("\n")]
    fin = [x.split("\r")[-1] for x in final]
    tup = [int(m.group(1)) for m in (re.match(r"read (\d+) tuples", x) for x in fin) if m]
    return {"ev": "Effect", "via": via, "text": [ix[w] for w in text], "low": [ix[w.lower()] for w in ix], "words": [ix.get(w, 0) for w in words], "cols": cols, "out": out,
            "tuples": tup[0] if len(tup) == 1 else -1, "iters": sum(bool(re.match(r"trained \d+ ", x)) for x in fin), "err": err, "nums": nums, "stdout": stdout[-300:]}


def P25(c):
    big = c.thorough
    k = {"Models": '{"word2vec", "glove", "lexvec"}', "MaxSets": "2", "Vals": '{"1", "2"}', "Bug": '"none"'}
    c.design("Options", Cfg(dict(k, MaxSets="2" if not big else "3", Vals='{"1", "2"}' if not big else '{"1"}'), ["OnlyItsOwn", "SameAsFold"]), "Options")
    for b in ("cross", "cross_sdk", "first_wins", "both", "forgets"):
        c.mutant("Options", Cfg(dict(k, Bug='"%s"' % b), ["OnlyItsOwn"]), b)
    recs = c.generate("Options", Cfg(k, ["Gen"]), "Options")
    cases = [{"op": "defaults", "model": m} for m in CLI]
    plans = []
    for r in recs:
        seen, sets = {}, []
        for s in r["sets"]:
            # the same abstract value of the same setting is the same concrete one
            v = seen.setdefault((s["name"], s["val"]), value(c.rng, s["name"], s["val"]))
            sets.append((s["name"], v))
        plans.append((r["via"], r["model"], sets))
    for _ in range(3000 if not big else 40000):
        via, model = c.rng.choice(["cli", "sdk"]), c.rng.choice(list(CLI))
        names = CLI[model] + COMMON if via == "cli" else SDK[model] + SCOMMON
        sets = []
        for _ in range(c.rng.choice([0, 3, 5, 10, 25])):
            n = c.rng.choice(names)
            sets.append((n, value(c.rng, n, "true" if via == "sdk" else c.rng.choice(["true", "false"]))))
        plans.append((via, model, sets))
    cases += [case_of(c.rng, *p) for p in plans]
    out = c.drive("options", cases)
    defaults = [e for o in out[:3] if o for e in o["events"]]
    groups = [[e] for e in defaults]
    for p, cs, o in zip(plans, cases[3:], out[3:]):
        if o:
            groups.append(group(*p, o["events"], cs.get("args")))
    c.count("settings_sequences", len(plans))
    c.sample(groups[0])
    c.sample(groups[50])
    c.sample(groups[-1])

    if any(e["ev"] != "Defaults" for e in defaults) or len(defaults) != 3:
        raise CheckError("no defaults: %s" % defaults)
    bad = c.validate_all("OptionsTrace", groups[:3], descr)
    # the defaults agree whatever the process is allowed to use
    for env in ({"GOMAXPROCS": "3"}, {"GOMAXPROCS": "13"}, {"GOMAXPROCS": "1", "GOGC": "50", "LANG": "C", "TZ": "UTC"}):
        out2 = c.drive("options", cases[:3], env=env)
        bad = bad or c.validate_all("OptionsTrace", [o["events"] for o in out2 if o], lambda g, k: "P25: with %s: %s" % (env, str(g[k])[:2000]))
    if not bad:
        # one TLC run per slice: after a rejection the following groups need the defaults again
        body = groups[3:]
        for i in range(0, len(body), 4000):
            if len(c.violations) < 3:
                c.validate_all("OptionsTrace", [defaults + g if j == 0 else g for j, g in enumerate(body[i:i + 4000])],
                               descr, max_viol=1)
        # what trainings with these settings do: functional options
        ecases, eplans = [], []
        for _ in range(250 if not big else 3000):
            model = c.rng.choice(list(CLI))
            sets = effect_sets(c.rng, "sdk", model)
            text = [c.rng.choice(WORDS) for _ in range(c.rng.choice([2, 5, 12, 20]))]
            ecases.append({"op": "effect", "model": model, "sets": [{"name": n, "val": v} for n, v in sets], "text": b64(" ".join(text))})
            eplans.append((model, sets, text))
        out = c.drive("options", ecases)
        defnum = lambda m: [[v, int(v)] for v in {x[1] for e in defaults if e["model"] == m for x in e["cli"]} if re.match(r"^-?\d+$", v)]
        eg = []
        for (model, sets, text), o in zip(eplans, out):
            if not o:
                continue
            e = o["events"][0]
            nums = sorted([list(x) for x in {(a, b) for a, b in defnum(model)} | {(v, int(v)) for n, v in sets if re.match(r"^\d+$", v)}])
            if e["ev"] == "Effect":
                e = effect(text, "sdk", e["words"], e["cols"], bool(e.get("stdout")), e.get("stdout", ""), e["err"], nums)
            eg.append(group("sdk", model, sets, [e]))
        # the commands
        binp = c.build_cli()
        jobs = []
        for _ in range(150 if not big else 1500):
            model = c.rng.choice(list(CLI))
            sets = effect_sets(c.rng, "cli", model)
            text = [c.rng.choice(WORDS) for _ in range(c.rng.choice([2, 5, 12, 20]))]
            extra = []
            if c.rng.random() < 0.4:
                extra = ["--vec-type", c.rng.choice(["single", "agg"])]
            jobs.append((model, sets, text, [a for n, v in sets for a in flag_args(c.rng, n, v)], extra))

        def one(j):
            model, sets, text, args, extra = j
            d = c.path("dir")
            os.makedirs(d)
            with open(os.path.join(d, "in"), "w") as f:
                f.write(" ".join(text))
            st, so, se = cli.finish(cli.start(c, binp, d, [model, "-i", "in", "-o", "out"] + args + extra))
            words, cols, ok, _ = cli.vector_file(os.path.join(d, "out")) if os.path.exists(os.path.join(d, "out")) else ([], [], True, [])
            shutil.rmtree(d)
            nums = sorted([list(x) for x in {(a, b) for a, b in defnum(model)} | {(v, int(v)) for n, v in sets if re.match(r"^\d+$", v)}])
            return group("cli", model, sets, [effect(text, "cli", words, cols, bool(so), so, "" if st == 0 else "status %d %s" % (st, cli.asc(se[:150])), nums)], args)
        with ThreadPoolExecutor(8) as ex:
            eg += list(ex.map(one, jobs))
        c.count("effects_observed", len(eg))
        c.sample(eg[-1])
        c.validate_all("OptionsTrace", [defaults + g if j == 0 else g for j, g in enumerate(eg)], descr, max_viol=1)
    if not c.violations:
        got = next(g for g in groups[3:] if len(g) > 3)
        o = [[a, "77" if a == "MaxCount" else b] for a, b in got[-1]["opts"]]
        c.canary("OptionsTrace", defaults + got[:-1] + [dict(got[-1], opts=o)])
        c.canary("OptionsTrace", [dict(defaults[0], sdk=[[a, b + "0"] for a, b in defaults[0]["sdk"]])])
