"""P24: training and query commands over the file system. P26: names of types."""
import hashlib, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vf import Cfg, CheckError, go_env, kill_group
from console import ROW
from search import levels, Ambiguous
from trainlib import T, b64

DESIGN = {"Procs": "{1}", "MaxCmds": "3", "Sets": '{"ok", "bad"}', "Bug": '"none"'}
INV = ["Success", "Failure", "Reasons", "Repeat"]
BADNAMES = {"--model": ["CBOW", "skip-gram", "", "cbo", "ns"], "--optimizer": ["NS", "", "hss", "cbow", "n"], "--solver": ["SGD", "", "ada", "adagrad ", "sg"],
            "--cnt": ["Inc", "", "proximity", "increment", "pro"], "--rel": ["PPMI", "", "p", "cooc", "log"], "--vec-type": ["Single", "", "add", "aggregate", "double"]}
FLAGS = {"word2vec": ["--model", "--optimizer", "--vec-type"], "glove": ["--solver", "--cnt", "--vec-type"], "lexvec": ["--rel", "--vec-type"]}
GOOD = {"--model": ["cbow", "skipgram"], "--optimizer": ["ns", "hs"], "--solver": ["sgd", "adagrad"], "--cnt": ["inc", "prox"], "--rel": ["ppmi", "pmi", "co", "logco"],
        "--vec-type": ["single", "agg"]}
WORDS = ["a", "the", "Word", "word", "x1", "it's", "%s", "100%", "a-b", "zz", "Q", "q", "été", "naïve"]


def start(c, binp, d, args, limit=None):
    env = dict(go_env(c.work), TERM="dumb")
    cmd = [binp] + args
    if limit is not None:
        cmd = ["sh", "-c", "ulimit -f %d; exec \"$0\" \"$@\"" % limit] + cmd
    return subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)


def finish(p, timeout=60):
    try:
        out, err = p.communicate(timeout=timeout)
        st = p.returncode
    except subprocess.TimeoutExpired:
        kill_group(p)
        out, err = p.communicate()
        st = -99
    return st, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def snapshot(d):
    res = []
    for base, dirs, files in os.walk(d):
        for x in dirs:
            res.append([os.path.relpath(os.path.join(base, x), d), "dir"])
        for x in files:
            p = os.path.join(base, x)
            if x == "cpu.prof" or (os.path.islink(p) and not os.path.exists(p)):
                continue
            if not os.path.isfile(p):
                res.append([os.path.relpath(p, d), "special"])
                continue
            with open(p, "rb") as f:
                res.append([os.path.relpath(p, d), hashlib.sha256(f.read()).hexdigest()[:16]])
    return sorted(res)


def vector_file(path):
    """words, number of values of each line, soundness of the format"""
    try:
        with open(path, encoding="utf-8", errors="surrogateescape", newline="") as f:
            t = f.read()
    except OSError:
        return [], [], False, []
    words, cols, vals, ok = [], [], [], t == "" or t.endswith("\n")
    for line in t.split("\n")[:-1]:
        x = line.split(" ")
        if x and x[-1] == "":
            x = x[:-1]
        try:
            vals.append([float(y) for y in x[1:]])
        except ValueError:
            ok = False
            vals.append([])
        words.append(x[0] if x else "")
        cols.append(len(x) - 1)
    return words, cols, ok, vals


def parents(path):
    res = []
    while os.path.dirname(path):
        path = os.path.dirname(path)
        res.append(path)
    return res


def low(w):
    return w.lower()


def asc(s):
    return s.encode("ascii", "backslashreplace").decode()


class Dir:
    """a scratch directory with its files and the trace of what happens in it"""

    def __init__(self, c, binp):
        self.c, self.binp = c, binp
        self.d = c.path("dir")
        os.makedirs(self.d)
        self.ev, self.texts = [], []

    def p(self, x):
        return os.path.join(self.d, x)

    def text(self, name, words, raw=None):
        with open(self.p(name), "w") as f:
            f.write(raw if raw is not None else " ".join(words))
        self.texts.append([name, [asc(w) for w in words]])
        self.texts.append([name + "|low", [asc(low(w)) for w in words]])

    def put(self, name, content):
        with open(self.p(name), "w") as f:
            f.write(content)

    def begin(self):
        self.ev.append({"ev": "Dir", "fs": snapshot(self.d), "texts": self.texts})

    def user(self):
        self.ev.append({"ev": "User", "fs": snapshot(self.d)})

    def observed(self, out, dims, ev):
        words, cols, ok, _ = vector_file(self.p(out)) if os.path.isfile(self.p(out)) else ([], [], False, [])
        ev.update(after=snapshot(self.d), words=[asc(w) for w in words], cols=cols, sound=ok, out=out, parents=parents(out))
        return ev

    def result(self, p, timeout=60):
        st, out, err = finish(p, timeout)
        if st == -99:
            self.c.hangs += 1
        # progress lines are not messages
        text = "\n".join(x for x in re.split(r"[\r\n]+", out + err) if not re.match(r"^(read|trained|saved|build|processed|complete) ", x))
        return {"status": st, "crash": st == -99 or bool(re.search(r"(?m)^(panic:|fatal error:|goroutine \d+ )", err)), "msg": bool(text.strip()), "said": asc(text[:300])}, out

    def train(self, model, args, inp, out, dim, valid, lower=False, room=True, **kw):
        a = [model, "-i", inp, "-o", out, "-d", str(dim)] + args + (["--to-lower"] if lower else [])
        key = inp + ("|low" if lower else "")
        # files cannot grow beyond a limit (in units of 512 bytes) that is smaller than the vectors
        size = len(set(dict(self.texts).get(key, []))) * (9 * dim + 2)
        lim = None if room else max([0] + [x for x in (self.c.rng.choice([0, 1, 8]), self.c.rng.choice([16, 128, size * 4 // 5 // 512])) if x * 512 * 5 <= size * 4])
        r, _ = self.result(start(self.c, self.binp, self.d, a, lim))
        ev = {"ev": "Train", "args": [asc(x) for x in a], "inp": inp, "text": key, "dim": dim, "valid": valid, "room": room or not dict(self.texts).get(key)}
        ev.update(r)
        ev.update(kw)
        self.ev.append(self.observed(out, dim, ev))
        return r["status"]

    def race(self, cmds, out, text):
        """cmds: (model, args, input, dim, valid)"""
        ps = [start(self.c, self.binp, self.d, [m, "-i", i, "-o", out, "-d", str(dim)] + a) for m, a, i, dim, v in cmds]
        rs = []
        for p, (m, a, i, dim, v) in zip(ps, cmds):
            r, _ = self.result(p)
            rs.append(dict(r, valid=v, dim=dim, args=[m] + a))
        self.ev.append(self.observed(out, 0, {"ev": "Race", "cmds": rs, "text": text}))

    def race_held(self, cmds, out, text, p, fifo, m):
        """the same while another command waits for its input, a pipe (which cannot be trained from)"""
        ps = [start(self.c, self.binp, self.d, [x, "-i", i, "-o", out, "-d", str(dim)] + a) for x, a, i, dim, v in cmds]
        rs = []
        for q, (x, a, i, dim, v) in zip(ps, cmds):
            r, _ = self.result(q)
            rs.append(dict(r, valid=v, dim=dim, args=[x] + a))
        for _ in range(400):
            try:
                fd = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK)
                os.write(fd, b"a b c a b")
                os.close(fd)
                break
            except OSError:         # nobody reads: not opened yet, or already over
                if p.poll() is not None:
                    break
                time.sleep(0.01)
        r, _ = self.result(p)
        rs.append(dict(r, valid=False, dim=99, args=[m, "pipe"]))
        self.ev.append(self.observed(out, 0, {"ev": "Race", "cmds": rs, "text": text}))

    def query(self, vec, args, k, flags=(), **kw):
        words, cols, ok, vals = vector_file(self.p(vec)) if os.path.isfile(self.p(vec)) else ([], [], False, [])
        fine = ok and all(c > 0 and c == cols[0] for c in cols)
        known = len(args) == 1 and fine and args[0] in words
        lev, cos = [0] * len(words), [(0.0, 0.0)] * len(words)
        if known:
            try:
                lev, cos = levels(vals, vals[words.index(args[0])])
            except Ambiguous:
                return
        r, out = self.result(start(self.c, self.binp, self.d, ["query", "-i", vec, "-r", str(k)] + list(args)))
        rows = []
        for line in out.split("\n"):
            m = ROW.match(line)
            if m:
                n = words.index(m.group(2)) + 1 if m.group(2) in words else 0
                try:
                    s = float(m.group(3))
                except ValueError:
                    s = float("nan")
                rows.append([n, int(m.group(1)), bool(n and abs(s - cos[n - 1][0]) <= 1e-6)])
        ev = {"ev": "Query", "vec": vec, "args": [asc(x) for x in args], "loads": fine, "known": known, "nargs": len(args), "k": k, "lev": lev,
              "ex": [i + 1 for i, w in enumerate(words) if known and w == args[0]], "res": rows, "after": snapshot(self.d)}
        ev.update(r)
        ev.update(kw)
        self.ev.append(ev)
        return r["status"]

    def drop(self):
        shutil.rmtree(self.d, ignore_errors=True)


def setting(rng, model, valid, cooc=True):
    """flags of a valid or invalid training"""
    a = ["--iter", str(rng.choice([0, 1, 2])), "--min-count", str(rng.choice([0, 0, 1, 5])), "-w", str(rng.choice([1, 2, 5])), "--goroutines", str(rng.choice([1, 2, 8])),
         "--batch", str(rng.choice([1, 3, 10000]))]
    if rng.random() < 0.5:
        a.append("--in-memory")
    names = {f: rng.choice(GOOD[f]) for f in FLAGS[model]}
    if not valid:
        f = rng.choice([x for x in FLAGS[model] if cooc or x != "--rel"] + ["flag", "value"])
        if f == "flag":
            a.append(rng.choice(["--nope", "-z", "--dims=3", "--optimzer=ns"]))
        elif f == "value":
            a += rng.choice([["--iter", "x"], ["--window", "1.5"], ["--initlr", "fast"], ["--goroutines", ""]])
        else:
            names[f] = rng.choice(BADNAMES[f])
    for f, x in names.items():
        a += [f, x] if rng.random() < 0.6 else [f + "=" + x]
    return a


MODELS = ["word2vec", "glove", "lexvec"]


def some_text(rng):
    n = rng.choice([2, 5, 9, 30])
    return [rng.choice(WORDS) for _ in range(n)]


def descr(g, k):
    e = {x: y for x, y in g[k].items() if x not in ("lev", "after", "texts")}
    return "P24: %s\n  directory: %s\n  after: %s\n  before it: %s" % (str(e)[:1800], str(g[0].get("fs"))[:400], str(g[k].get("after"))[:400],
                                                         str([(x["ev"], x.get("args"), x.get("status")) for x in g[1:k]])[:700])


def replay(c, binp, rec):
    """a generated history with concrete files, models and flags"""
    rng = c.rng
    s = Dir(c, binp)
    words = some_text(rng)
    s.text("in.txt", words)
    os.makedirs(s.p("unreadable"))
    s.put("notdir", "x")
    s.put("good.txt", "aa 1.000000 0.000000 \nbb 1.000000 1.000000 \ncc 0.000000 1.000000 \ndd -1.000000 0.500000 \n")
    s.put("bad.txt", rng.choice(["aa 1 2\nbb 1 x\n", "aa 1 2\nbb\n", "aa 1 2\nbb 1 2 3\n", "aa\n", "aa 1,0 2\n"]))
    outs = {"p": rng.choice(["p.txt", "./p.txt"]), "q": rng.choice(["q/q.txt", "q/r/s/t.txt"]), "r": "notdir/" + rng.choice(["o.txt", "x/o.txt"])}
    if rec["init"] == "old":
        if rng.random() < 0.2:
            os.symlink("good.txt", s.p("p.txt"))
        else:
            s.put("p.txt", rng.choice(["", "already here\n", "aa 1 2\n"]))
    elif rec["init"] == "dir":
        os.makedirs(s.p("p.txt"))
    s.begin()
    st = []
    for x in rec["cmds"]:
        if x["op"] == "remove":
            q = s.p("p.txt")
            if os.path.isdir(q) and not os.path.islink(q):
                os.rmdir(q)
            elif os.path.lexists(q):
                os.unlink(q)
            s.user()
            st.append(0)
        elif x["op"] == "train":
            m = rng.choice(MODELS)
            inp = {"ok": "in.txt", "absent": "nothere.txt", "unreadable": "unreadable"}[x["inp"]]
            st.append(s.train(m, setting(rng, m, x["set"] == "ok"), inp, os.path.normpath(outs[x["path"]]), rng.choice([1, 2, 3, 10]), x["set"] == "ok", rng.random() < 0.3))
        else:
            vec = {"p": "p.txt", "good": "good.txt", "bad": "bad.txt", "absent": "nothere.txt"}[x["vec"]]
            known = words[0].lower() if x["vec"] == "p" else "bb"
            if x["vec"] == "p" and os.path.isfile(s.p("p.txt")):
                ws = [w for w in vector_file(s.p("p.txt"))[0] if w]
                known = rng.choice(ws) if ws else "none"
            args = {"known": [known], "unknown": [rng.choice(["nope", "", known + "x", known.upper() + "X"])], "none": [], "two": [known, rng.choice([known, "cc", "nope"])]}[x["args"]]
            st.append(s.query(vec, args, rng.choice([0, 1, 2, 10, -1])))
    s.drop()
    return s.ev, st


def P24(c):
    big = c.thorough
    c.design("Cli", Cfg(dict(DESIGN, MaxCmds="2" if not big else "3"), INV, ["NoClobber", "Ends"]), "Cli, one after the other")
    c.design("Cli", Cfg(dict(DESIGN, MaxCmds="3", Procs="{1, 2}" if not big else "{1, 2, 3}"), INV[:2], ["NoClobber"]), "Cli, concurrent")
    for b, procs in (("no_excl", "{1, 2}"), ("remove_always", "{1}"), ("keep_failed", "{1}"), ("ok_early", "{1}"), ("late_refusal", "{1}")):
        c.mutant("Cli", Cfg(dict(DESIGN, MaxCmds="2", Procs=procs, Bug='"%s"' % b), INV if procs == "{1}" else INV[:2], ["NoClobber"]), b)
    binp = c.build_cli()
    recs = c.generate("Cli", Cfg(dict(DESIGN, MaxCmds="2"), ["Gen"]), "Cli, 2 commands")
    recs3 = c.generate("Cli", Cfg(dict(DESIGN, MaxCmds="3"), ["Gen"]), "Cli, 3 commands") if big else []
    n = 900 if not big else 12000
    picked = c.rng.sample(recs, min(len(recs), n if not big else len(recs)))
    picked += c.rng.sample(recs3, min(len(recs3), n)) if big else []
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(lambda r: None if c.hangs > 3 else replay(c, binp, r), picked))
    groups = []
    for r, o in zip(picked, out):
        if not o:
            continue
        groups.append(o[0])
        for e, want in zip(o[0][1:], r["st"]):
            if e["ev"] == "Train":
                e["want"] = want == 0
    c.count("generated_histories_replayed", len(groups))
    c.sample(groups[len(groups) // 2])
    # longer and stranger histories
    def strange(i):
        rng = c.rng
        s = Dir(c, binp)
        kind = i % 6
        raw, ws = None, some_text(rng)
        if kind == 0:
            ws, raw = [], rng.choice(["", " \n\t "])
        elif kind == 1:
            ws = ["w%d" % j for j in range(rng.choice([1, 50, 400]))]
        elif kind == 2:
            ws = [rng.choice(["one", "Two", "two"])] * rng.choice([1, 2, 30])
        s.text("in.txt", ws, raw)
        s.text("other.txt", some_text(rng))
        os.makedirs(s.p("unreadable"))
        s.put("notdir", "x")
        s.begin()
        for j in range(rng.choice([2, 4, 6])):
            m, valid = rng.choice(MODELS), rng.random() < 0.6
            inp = rng.choice(["in.txt", "in.txt", "other.txt", "unreadable", "gone", "notdir/x"])
            o = rng.choice(["o1.txt", "o1.txt", "d/o2.txt", "d/e/o3.txt", "in.txt", "notdir/o.txt", "d", "sp ace/ü.txt"])
            dim, lower = rng.choice([1, 2, 5, 40, 40, 100]), rng.random() < 0.3
            room = rng.random() > 0.35
            s.train(m, setting(rng, m, valid, len(ws) > 1 and inp != "in.txt" or kind > 2) + (["--verbose"] if rng.random() < 0.2 else []), inp, o, dim, valid, lower, room)
            if rng.random() < 0.5:
                v = rng.choice(["o1.txt", "d/o2.txt", "in.txt"])
                w = [x for x in vector_file(s.p(v))[0] if x and not x.startswith("-")]
                s.query(v, [rng.choice(w)] if w and rng.random() < 0.8 else ["zzz"], rng.choice([1, 3, 10]))
            if rng.random() < 0.3 and os.path.isfile(s.p("o1.txt")):
                os.unlink(s.p("o1.txt"))
                s.user()
        s.drop()
        return s.ev
    with ThreadPoolExecutor(8) as ex:
        more = [g for g in ex.map(lambda i: None if c.hangs > 3 else strange(i), range(60 if not big else 800)) if g]
    c.count("random_histories", len(more))
    groups += more
    # vectors that only partly fit where they are written
    def full(i):
        rng = c.rng
        s = Dir(c, binp)
        s.text("in.txt", ["w%d" % rng.randrange(x) for x in [rng.choice([60, 200])] for _ in range(300)])
        s.begin()
        m, dim, o = MODELS[i % 3], rng.choice([40, 100]), rng.choice(["o.txt", "d/o.txt"])
        for room in rng.choice([[False, False, True], [False, True, True]]):
            s.train(m, setting(rng, m, True), "in.txt", o, dim, True, False, room)
        s.drop()
        return s.ev
    with ThreadPoolExecutor(8) as ex:
        groups += [g for g in ex.map(lambda i: None if c.hangs > 3 else full(i), range(24 if not big else 240)) if g]
    # commands that run at the same time
    def race(i):
        rng = c.rng
        s = Dir(c, binp)
        ws = some_text(rng)
        s.text("in.txt", ws)
        fifo = s.p("pipe")
        cmds = []
        allvalid = i % 2 == 0
        for j in range(rng.choice([2, 3, 4, 6])):
            m, valid = rng.choice(MODELS), allvalid or rng.random() < 0.6
            cmds.append((m, setting(rng, m, valid), "in.txt", j + 1, valid))
        stall = i % 4 == 3
        if stall:
            os.mkfifo(fifo)
        s.begin()
        # a deep directory that is missing: creating it takes a while, so that commands overlap
        out = "/".join(["m"] * rng.choice([1, 60, 200])) + "/o.txt"
        if stall:
            m = rng.choice(MODELS)
            p = start(c, binp, s.d, [m, "-i", "pipe", "-o", out, "-d", "99"] + setting(rng, m, True))
            time.sleep(0.05)
            s.race_held(cmds, out, "in.txt", p, fifo, m)
        else:
            s.race(cmds, out, "in.txt")
        s.drop()
        return s.ev
    rg = []
    for i in range(60 if not big else 600):
        if c.hangs > 3:
            break
        rg.append(race(i))
    c.count("races", len(rg))
    c.sample([e for e in rg[0] if e["ev"] == "Race"][0])
    groups += rg
    c.validate_all("CliTrace", groups, descr)
    if not c.violations:
        c.count("commands", sum(1 for g in groups for e in g if e["ev"] in ("Train", "Query")))
        g = next(g for g in groups if any(e["ev"] == "Train" and e["status"] == 0 and e["words"] for e in g))
        i = next(i for i, e in enumerate(g) if e["ev"] == "Train" and e["status"] == 0 and e["words"])
        c.canary("CliTrace", g[:i] + [dict(g[i], words=g[i]["words"][:-1], cols=g[i]["cols"][:-1])])
        c.canary("CliTrace", g[:i] + [dict(g[i], status=1, msg=True)])


def P26(c):
    big = c.thorough
    k = {"Bad": '{"near", "", "CASE"}', "Bug": '"none"'}
    c.design("Names", Cfg(k, ["Verdict", "SaveVerdict"]), "Names")
    for b, inv in (("default", "Verdict"), ("prefix", "Verdict"), ("save_any", "SaveVerdict")):
        c.mutant("Names", Cfg(dict(k, Bug='"%s"' % b), [inv]), b)
    recs = c.generate("Names", Cfg(k, ["Gen"]), "Names")
    field = {"kind": "ModelType", "opt": "OptimizerType", "solver": "SolverType", "ctype": "CountType", "rel": "RelationType"}
    near = {"kind": ["skip-gram", "cbo", "cboww", " cbow", "skipgram\n", "sg", "default"], "opt": ["n", "nss", "hs ", "softmax", "negative", "ng"],
            "solver": ["sg", "sgdd", "adam", "ada", "adagrad "], "ctype": ["in", "incr", "increment", "proximity", "pro", " inc"],
            "rel": ["p", "pp", "ppmi ", "npmi", "cooc", "log", "logcoo", "collocation", "c"]}
    case = {"kind": ["CBOW", "SkipGram", "Cbow"], "opt": ["NS", "Hs", "hS"], "solver": ["SGD", "AdaGrad"], "ctype": ["INC", "Prox"], "rel": ["PPMI", "Pmi", "CO", "LogCo"]}
    vecs = ["single", "agg", "", "Single", "AGG", "add", "sing", "aggr", "double", " single", "single "]
    texts = {"empty": ["", " "], "one": ["word", "x\n"], "words": ["a b a c", "x x", "a b c d e f g a b"]}
    cases, heads = [], []
    for r in recs:
        m = r["m"]
        for rep in range(2 if not big else 12):
            names = [[s, {"near": c.rng.choice(near[s]), "CASE": c.rng.choice(case[s])}.get(x, x)] for s, x in sorted(m["names"].items())]
            text = c.rng.choice(texts[m["text"]])
            o = {"Dim": c.rng.choice([1, 4]), "DocInMemory": m["mode"] == "mem", "Goroutines": c.rng.choice([1, 3]), "Iter": c.rng.choice([0, 1, 1]), "MinCount": c.rng.choice([0, 0, 5]),
                 "Window": c.rng.choice([1, 2]), "Verbose": False}
            o.update({field[s]: x for s, x in names})
            cases.append({"op": "names", "model": m["model"], "opts": o, "text": b64(text), "seed": 1, "hist": [{"op": "save", "typ": x} for x in c.rng.sample(vecs, 5)]})
            heads.append({"model": m["model"], "mode": m["mode"], "text": text, "names": names, "cooc": len(text.split()) > 1, "by": "sdk"})
    out = c.drive("train", cases, per_case=20.0)
    groups = [[dict(e, **h) for e in o["events"]] for h, o in zip(heads, out) if o]
    for h, r, g in zip(heads[::1 if not big else 1], [r for r in recs for _ in range(2 if not big else 12)], groups):
        e = g[0]
        if e["ev"] == "Named" and not r["open"] and not c.violations and (e["err"] != "") != r["refused"]:
            c.violation("P26: %s: error %r, the specification %s it" % (h, e["err"], "refuses" if r["refused"] else "accepts"), {"case": h, "observed": e})
    c.count("generated_combinations_replayed", len(groups))
    c.sample(groups[7])
    # the same names as flags
    binp = c.build_cli()
    flag = {"kind": "--model", "opt": "--optimizer", "solver": "--solver", "ctype": "--cnt", "rel": "--rel", "vec": "--vec-type"}

    def cli(job):
        model, names = job
        d = c.path("dir")
        os.makedirs(d)
        with open(os.path.join(d, "in"), "w") as f:
            f.write("a b c a b d")
        a = [model, "-i", "in", "-o", "out", "-d", "2", "--iter", "1", "--min-count", "0", "--goroutines", "2"]
        for s, x in names:
            a += [flag[s], x]
        st, o, err = finish(start(c, binp, d, a))
        shutil.rmtree(d)
        return [{"ev": "Named", "by": "cli", "model": model, "mode": "stream", "names": names, "cooc": True, "saves": [], "text": "a b c a b d",
                 "err": {0: ""}.get(st, "status %d: %s" % (st, asc(err[:120])))}]
    jobs = []
    known = {"kind": ["cbow", "skipgram"], "opt": ["ns", "hs"], "solver": ["sgd", "adagrad"], "ctype": ["inc", "prox"], "rel": ["ppmi", "pmi", "co", "logco"], "vec": ["single", "agg"]}
    near["vec"], case["vec"] = ["sing", "aggr", "both"], ["SINGLE", "Agg"]
    for model, slots in (("word2vec", ["kind", "opt", "vec"]), ("glove", ["solver", "ctype", "vec"]), ("lexvec", ["rel", "vec"])):
        for s in slots:
            for x in known[s] + near[s] + case[s] + [""]:
                jobs.append((model, [[t, x if t == s else c.rng.choice(known[t])] for t in slots]))
    with ThreadPoolExecutor(8) as ex:
        groups += list(ex.map(cli, jobs))
    c.count("cli_combinations", len(jobs))
    c.validate_all("NamesTrace", groups, lambda g, i: "P26: %s" % str(g[i])[:1500])
    if not c.violations:
        e = dict(ev="Named", by="sdk", names=[["kind", "cbow"], ["opt", "xx"]], cooc=True, saves=[], err="")
        c.canary("NamesTrace", [e])
        c.canary("NamesTrace", [dict(e, names=[["rel", "co"]], saves=[{"typ": "x", "err": "bad", "n": 3}])])
