"""P01-P05: vocabulary, eligible words, streamed batches, co-occurrence counts."""
import base64, math
from vf import CheckError, Cfg

BASE = dict(Spell="{1, 2, 3}", MaxText=4, Modes='{"mem", "fs"}', Lowers="{TRUE, FALSE}", MaxCounts="{-1}", MinCounts="{-1}",
            Windows="{1}", CTypes='{"none"}', BatchSizes="{2}", Caps="{1}", Passes=0, Bug='"none"', LowOf='<<1, 1, 3>>')


def cfg(inv, props="", spec="Spec", **kw):
    return Cfg(dict(BASE, **kw), inv, [props] if props else [], spec)


# ------------------------------------------------------------------ concretization
def go_lower(s):
    return "".join(ch.lower() if len(ch.lower()) == 1 else ch for ch in s)


POOL = ["a", "A", "b", "go", "Go", "GO", "é", "É", "日本語", "don't", "x-y", "0", "42", "ΣΑ", "Я", "я", "émile", "Émile", "w" * 4096, "W" * 4096,
        "q" * 60000, "the", "The", "of", "a.b", ".", "--", "\u200b", "\U0001F600", "ﬁ", "ß", "e\u0301", "_", "%", "{}", "NaN", "-0",
        "I", "i", "In", "IN", "in", "eBook", "ebook", "McDonald", "mcdonald", "iPhone", "xX", "xx", "aÉ", "aé", "日X", "日x", "1A", "1a", "-A", "-a",
        "\u212a", "k", "\u1e9e", "\u01c5", "\u01c6", "\U00010400", "\U00010428", "%s", "a%", "#", "//", "\\n", "'", '"', "\u00ad", "\ufeff", "\x00", "a\x00b", "\x7f", "\x1b[0m",
        "x" * 20 + "a" + "x" * 20, "x" * 20 + "b" + "x" * 20, "x" * 21 + "a" + "x" * 19, "p" * 255 + "1", "p" * 255 + "2", "p" * 4096 + "1", "p" * 4096 + "2",
        "</s>", "<s>", "<unk>", "UNK", "<pad>", "null", "nil", "...", ",", "\u2581a", "a,", "(b)", "\x1f", "a\x1fb", "\x1c", "\x1e", "\u180e", "\u2060"]
# different words that common 32-bit hashes (FNV-1, FNV-1a, CRC, x31) do not tell apart
TWINS = ["costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "creamwove", "quists", "plumless", "buckeroo", "codding", "gnu", "Aa", "BB", "AaAa", "BBBB", "AaBB",
         "hetairas", "mentioner", "heliotropes", "neurospora", "depravement", "serafins", "stylist", "subgenera", "joyful", "synaphea", "redescribed", "urites", "dram", "vivency"]
RAW = [b.decode("utf-8", "surrogateescape") for b in (b"caf\xe9", b"caf\xe8", b"\xff", b"\xfe\xff", b"\xe6\x97", b"a\xc0b", b"\x85", b"a\xa0b", b"\xed\xa0\x80", b"x\x80")]
SEPS = [" ", "\n", "\t", "  ", "\r\n", "\u00a0", "\u3000", "\u2028", " \t \n", "\v", "\f", "\u0085", "\u1680", "\u2003"]
TRIPLES = [("a", "A", "b"), ("é", "É", "e\u0301"), ("x" * 300, "X" * 300, "日本"), ("я", "Я", "0"),
           ("in", "IN", "b"), ("ebook", "eBook", "e-book"), ("xi", "xI", "i"), ("日é", "日É", "%"), ("-q", "-Q", "#"), ("p" * 300, "p" * 299 + "P", "p" * 301)]


class Table:
    """spelling number (1-based) <-> string"""

    def __init__(self, words):
        self.words, self.idx = [], {}
        self.raw = any("\udc80" <= ch <= "\udcff" for w in words for ch in w)      # lower-casing is then not specified
        for w in words:
            self.add(w)
        for w in list(self.words):
            self.add(go_lower(w))
        self.low = [self.idx[go_lower(w)] for w in self.words]

    def add(self, w):
        if w not in self.idx:
            self.words.append(w)
            self.idx[w] = len(self.words)

    def num(self, b):
        return self.idx.get(base64.b64decode(b).decode("utf-8", "surrogateescape"), 0)


def b64(s):
    return base64.b64encode(s.encode("utf-8", "surrogateescape")).decode()


def render(rng, table, text, plain=False):
    seps = [" "] if plain else SEPS
    out = [rng.choice(["", "", rng.choice(seps)])]
    for i, w in enumerate(text):
        if i:
            out.append(rng.choice(seps))
        out.append(table.words[w - 1])
    out.append(rng.choice(["", rng.choice(seps)]))
    return "".join(out)


def case(c, rng, table, text, mode, lower, maxc=-1, minc=-1, ctype="none", window=1, steps=()):
    s = render(rng, table, text, plain=rng.random() < 0.3)
    n = len(s.encode("utf-8", "surrogateescape"))
    lower = lower and not table.raw
    return {"text": b64(s), "mode": mode, "lower": lower, "max": maxc, "min": minc, "chunk": rng.choice([0, 0, 1, 2, 3, 7, 64, 4095]) if n < 20000 else rng.choice([0, 4095, 1000]),
            "start": rng.choice([0, 0, n, n // 2, 1]), "eofwith": rng.random() < 0.3, "ctype": ctype, "window": window,
            "steps": list(steps), "_text": list(text), "_table": table}


def abstract(cs, rec):
    """driver record -> trace for CorpusTrace (strings become spelling numbers, weights are scaled)"""
    t = cs["_table"]
    evs = []
    scale = 1 if cs["ctype"] == "inc" or cs["window"] > 10 else math.lcm(*range(1, max(cs["window"], 1) + 1))

    def wt(v):
        x = v * scale
        r = round(x)
        return r if abs(x - r) <= 1e-9 * max(1.0, abs(x)) and abs(r) < 2 ** 31 else -1
    if not rec["events"] or rec["events"][0]["ev"] != "New":
        rec["events"].insert(0, {"ev": "New"})
    for e in rec["events"]:
        e = dict(e)
        if e["ev"] == "New":
            e.update(text=cs["_text"], lower=cs["lower"], low=t.low, max=cs["max"], min=cs["min"], mode=cs["mode"],
                     ctype=cs["ctype"], window=cs["window"])
        elif e["ev"] in ("Load", "Big"):
            e["words"] = [t.num(w) for w in e["words"]]
            if e["ev"] == "Big":
                e["order"] = sorted(range(1, len(e["ids"]) + 1), key=lambda i: e["ids"][i - 1])
        elif e["ev"] == "Lookup":
            e["byword"] = [[t.num(q[0]), q[1], q[2], q[3]] for q in e["byword"]]
            e["byid"] = [[q[0], q[1], t.num(q[2]) if q[1] else 0, q[3]] for q in e["byid"]]
        elif e["ev"] == "Cooc" and cs.get("_mono"):
            e = {"ev": "Mono", "size": e["size"], "entries": [[q[0], q[1], wt(q[2])] for q in e["entries"]]}
        elif e["ev"] == "Cooc" and cs["ctype"] == "prox" and cs["window"] > 10:
            e = {"ev": "Far", "size": e["size"], "entries": [[q[0] if q[0] < 2 ** 31 else -1, q[1] if q[1] < 2 ** 31 else -1, max(-1, min(2 ** 30, round(q[2] * 262144)))] for q in e["entries"]]}
        elif e["ev"] == "Cooc":
            e["entries"] = [[q[0] if q[0] < 2 ** 31 else -1, q[1] if q[1] < 2 ** 31 else -1, wt(q[2])] for q in e["entries"]]
            e["lookups"] = [[q[0], q[1], wt(q[2])] for q in e["lookups"]]
        elif e["ev"] == "Window":
            e["pairs"] = [[t.num(a), t.num(b)] for a, b in e["pairs"]]
        evs.append(e)
    return evs


def strip(cs):
    return {k: v for k, v in cs.items() if not k.startswith("_")}


def describe(prop):
    def d(group, k):
        conf = {x: group[0].get(x) for x in ("mode", "lower", "max", "min", "ctype", "window")}
        e = {x: (y if len(str(y)) < 600 else str(y)[:600] + "...") for x, y in group[k].items()}
        return "%s: %s over a text of %d words (%s...) is not what the specification allows: %s" % (
            prop, conf, len(group[0].get("text", [])), group[0].get("text", [])[:20], e)
    return d


def validate(c, cases, chunk=400):
    recs = c.drive("corpus", [strip(x) for x in cases])
    groups = [abstract(cs, r) for cs, r in zip(cases, recs) if r is not None]
    for i in range(0, len(groups), chunk):
        if c.violations:
            break
        c.validate_all("CorpusTrace", groups[i:i + chunk], describe(c.prop))
    c.count("executions_of_the_real_code", len(groups))


def replay(c, recs, steps, compare, sample_to=None, variants=1):
    """G leg: every behaviour TLC enumerated is run on the real corpus and compared."""
    if sample_to and len(recs) > sample_to:
        recs = c.rng.sample(recs, sample_to)
    cases, exps = [], []
    for r in recs:
        f = r["cfg"]
        for _ in range(variants):
            t = Table(c.rng.choice(TRIPLES))
            if t.words[0] != go_lower(t.words[1]):
                raise CheckError("bad spelling triple")
            text = seq(f["text"])
            cases.append(case(c, c.rng, t, text, f["mode"], f["lower"], f["maxc"], f["minc"], f["ctype"], f["window"],
                              steps(f, t)))
            exps.append(r)
    out = c.drive("corpus", [strip(x) for x in cases])
    n = 0
    for cs, r, o in zip(cases, exps, out):
        if o is None:
            continue
        evs = abstract(cs, o)
        bad = compare(cs, r, {e["ev"]: e for e in evs})
        if bad:
            c.violation("%s: %s; configuration %s, text %s, observed %s" % (c.prop, bad, {k: v for k, v in strip(cs).items() if k != "text"}, cs["_text"], str(evs)[:1500]),
                        {"case": strip(cs), "expected": r, "observed": evs})
            if len(c.violations) >= 3:
                break
        n += 1
    c.count("generated_behaviours_replayed", n)
    c.traces += n
    c.sample({"generated": recs[0]})
    c.sample({"generated": recs[-1]})


def seq(x):
    """ToJson prints the empty function/sequence as [] and functions over 1..n as arrays"""
    return list(x) if isinstance(x, list) else [x[k] for k in sorted(x, key=int)]


# ------------------------------------------------------------------ random texts
def rand_text(rng, nwords, vocab, shape="zipf"):
    if shape == "zipf":
        w = [1.0 / (i + 1) for i in range(vocab)]
    else:
        w = [1.0] * vocab
    return rng.choices(range(1, vocab + 1), w, k=nwords)


def rand_table(rng, n):
    ws = rng.sample(POOL, min(n, len(POOL)))
    if rng.random() < 0.2:
        k = 2 * rng.randrange(len(TWINS) // 2)
        ws = list(dict.fromkeys(TWINS[k:k + 2] + ws))[:max(n, 2)]
    while len(ws) < n:
        w = rng.choice(["w", "W", "ü", "n_"]) + str(rng.randrange(10 ** 6))
        ws.append(w)
    if rng.random() < 0.7:      # mostly small ones, so that a text stays small
        ws = [w if len(w) < 1000 else w[:5] for w in ws]
    if rng.random() < 0.2:
        ws[:len(RAW)] = rng.sample(RAW, min(len(ws), len(RAW)))
    return Table(ws)


def random_cases(c, n, maxlen, steps, **kw):
    cases = []
    for i in range(n):
        rng = c.rng
        k = rng.choice([1, 2, 3, 8, 20, kw.get("vocab", 60)])
        t = rand_table(rng, k)
        m = rng.choice([0, 1, 2, 3, rng.randrange(4, 40), rng.randrange(4, maxlen + 4)])
        text = rand_text(rng, m, len(t.words), rng.choice(["zipf", "flat"]))
        if max(len(w) for w in t.words) > 1000:
            text = text[:60]
        o = {k: v(rng) for k, v in kw.items() if callable(v)}
        cs = case(c, rng, t, text, rng.choice(["mem", "fs"]), rng.random() < 0.5, o.get("maxc", -1), o.get("minc", -1),
                  o.get("ctype", "none"), o.get("window", 1))
        cs["steps"] = steps(rng, cs, t)
        cases.append(cs)
    return cases


def words_probe(t):
    return [b64(w) for w in t.words[:80]] + [b64("no-such-word")]


def ids_probe(n):
    return [-1, -2 ** 31] + list(range(min(n, 80) + 2)) + [n, n + 1, 2 ** 31 - 1]


# ------------------------------------------------------------------ properties
def P01(c):
    c.design("Corpus", cfg(["Census"], "Finishes", MaxText=5 if not c.thorough else 6), "Corpus/census")
    recs = c.generate("Corpus", cfg(["Census", "Gen"], MaxText=5 if not c.thorough else 6))

    def cmp(cs, r, e):
        if "Crash" in e:
            return "crash " + e["Crash"]["how"]
        l = e["Load"]
        if l["err"] or l["words"] != seq(r["words"]) or l["freq"] != seq(r["freq"]) or l["n"] != r["len"]:
            return "vocabulary differs: expected words %s with counts %s" % (r["words"], r["freq"])
    replay(c, recs, lambda f, t: [{"op": "load"}], cmp)
    big = c.thorough
    n = 250 if not big else 2500
    validate(c, random_cases(c, n, 1200 if not c.thorough else 4000, lambda rng, cs, t: [
        {"op": "load"}, {"op": "lookup", "words": words_probe(t), "ids": ids_probe(len(t.words))}],
        vocab=300, ctype=lambda r: r.choice(["none", "none", "inc"]), maxc=lambda r: r.choice([-1, 2]), minc=lambda r: r.choice([-1, 2])))
    # many occurrences of one word, and many different words
    cases = []
    for mode in ("mem", "fs"):
        t = Table(["a", "b", "c"])
        n = c.rng.randrange(67000, 71000) if not big else c.rng.randrange(132500, 140000)
        text = c.rng.choices([1, 2, 3], [0.99, 0.005, 0.005], k=n)
        cases.append(case(c, c.rng, t, text, mode, False, steps=[{"op": "load"}, {"op": "lookup", "words": words_probe(t), "ids": ids_probe(3)}]))
    validate(c, cases)
    cases = []
    for mode in ("mem", "fs"):
        m = c.rng.randrange(66000, 70000) if not big else c.rng.randrange(190000, 200000)
        f = c.rng.choice(["%x", "w%d", "%06d", "%o", "word-%d-of-many"])
        t = Table([f % (i * 7 + 3) for i in range(m - len(TWINS))] + TWINS)
        m = len(t.words)
        text = list(range(1, m + 1))
        c.rng.shuffle(text)
        text += c.rng.choices(text, k=20000)
        cases.append(dict(case(c, c.rng, t, text, mode, False, steps=[{"op": "big"}]), chunk=0))
    validate(c, cases)
    c.assumptions += ["words are compared as byte strings; lower-casing is Go's strings.ToLower on the letters used"]


LIM = dict(maxc=lambda r: r.choice([-5, -1, 0, 1, 2, 3, 5, 10]), minc=lambda r: r.choice([-3, -1, 0, 1, 2, 3, 5]))


def P02(c):
    big = c.thorough
    c.design("Corpus", cfg(["Census", "Offered", "Capacity"], "Finishes", MaxText=4 if not big else 5, Lowers="{TRUE, FALSE}" if big else "{TRUE}",
                           MaxCounts="{-1, 0, 1, 2}", MinCounts="{-1, 0, 1, 2, 3}", Passes=2), "Corpus/limits")
    c.mutant("Corpus", cfg(["Offered"], MaxText=3, Lowers="{TRUE}", MinCounts="{1, 2}", Passes=1, Bug='"lose_last"'), "lose_last")
    recs = c.generate("Corpus", cfg(["Gen"], MaxText=4 if not big else 5, MaxCounts="{-1, 0, 1, 2}", MinCounts="{-1, 0, 1, 2, 3}",
                                    Passes=1))

    def steps(f, t):
        if f["mode"] == "mem":
            return [{"op": "load"}, {"op": "doc"}]
        return [{"op": "load"}, {"op": "pass", "size": c.rng.choice([1, 2, 3, 10]), "cap": c.rng.choice([0, 1, 16])}]

    def cmp(cs, r, e):
        if "Crash" in e:
            return "crash " + e["Crash"]["how"]
        got = e["Doc"]["ids"] if "Doc" in e else [x for b in e["Pass"]["batches"] for x in b]
        if got != seq(r["elig"]) or e["Load"]["words"] != seq(r["words"]) or e["Load"]["freq"] != seq(r["freq"]):
            return "offered words differ: expected %s" % (r["elig"],)
    replay(c, recs, steps, cmp, sample_to=6000 if not big else 40000)

    def vsteps(rng, cs, t):
        st = [{"op": "load"}]
        for _ in range(rng.choice([1, 2, 3])):
            st.append({"op": "doc"} if cs["mode"] == "mem" else {"op": "pass", "size": rng.choice([1, 2, 5, 64, 1000, 100000]), "cap": rng.choice([0, 1, 4])})
        return st + [{"op": "lookup", "words": words_probe(t), "ids": list(range(len(t.words)))}]
    validate(c, random_cases(c, 250 if not big else 2500, 800 if not big else 3000, vsteps, vocab=120, **LIM))
    if c.violations:
        return
    # limits and frequencies beyond small numbers
    cases = []
    for i in range(24 if not big else 200):
        t = rand_table(c.rng, c.rng.choice([3, 5, 12]))
        near = c.rng.choice([100, 127, 128, 200, 255, 256, 257, 400])
        text = []
        for w in range(1, len(t.words) + 1):
            text += [w] * max(0, c.rng.choice([1, 2, near - 1, near, near, near + 1, near + 2]))
        if sum(len(t.words[w - 1]) for w in text) > 50000:
            continue
        c.rng.shuffle(text)
        lims = [-1, -1, 0, 1, near - 1, near, near + 1, near + 256, 2 ** 16, 2 ** 31 - 1]
        cases.append(case(c, c.rng, t, text, c.rng.choice(["mem", "fs"]), c.rng.random() < 0.3, c.rng.choice(lims), c.rng.choice(lims)))
        cases[-1]["steps"] = vsteps(c.rng, cases[-1], t)
    for i in range(4 if not big else 12):
        t = Table(["a", "b", "c", "d"])
        text = [1] * (65536 + c.rng.choice([-1, 0, 1, 2])) + [2] * (32768 + c.rng.choice([-1, 0, 1, 2])) + [3] * c.rng.choice([1, 2, 300]) + [4]
        c.rng.shuffle(text)
        lims = [-1, 0, 1, 3, 255, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073, 2 ** 31 - 1]
        cases.append(dict(case(c, c.rng, t, text, ["mem", "fs"][i % 2], False, c.rng.choice(lims), c.rng.choice(lims)), chunk=0))
        cases[-1]["steps"] = [{"op": "load"}, {"op": "doc"} if i % 2 == 0 else {"op": "pass", "size": c.rng.choice([1000, 10000, 65537, 100000, 2 ** 17]), "cap": 4}]
    validate(c, cases)


def P03(c):
    big = c.thorough
    k = dict(Modes='{"fs"}', Spell="{1, 3}", Lowers="{FALSE}", MaxText=4 if not big else 6, MinCounts="{-1, 2}", BatchSizes="{1, 2, 3}", Caps="{1, 2}",
             Passes=2)
    c.design("Corpus", cfg(["Offered", "Frozen", "Capacity"], "Finishes", **k), "Corpus/batches")
    k2 = dict(k, MaxText=3, Passes=1)
    c.mutant("Corpus", cfg(["Frozen"], Bug='"reuse_buffer"', **{x: y for x, y in k2.items()}), "reuse_buffer")
    c.mutant("Corpus", cfg(["Offered"], Bug='"lose_last"', **k2), "lose_last")
    recs = c.generate("Corpus", cfg(["Gen"], **dict(k, Passes=0, MaxText=6 if not big else 8)))

    def steps(f, t):
        return [{"op": "load"}, {"op": "pass", "size": f["bsize"], "cap": c.rng.choice([0, 1, f["cap"], 16]), "slow": c.rng.random() < 0.15},
                {"op": "recheck"}]

    def cmp(cs, r, e):
        if "Crash" in e:
            return "crash " + e["Crash"]["how"]
        p, size, el = e["Pass"], r["cfg"]["bsize"], seq(r["elig"])
        want = [el[i:i + size] for i in range(0, len(el), size)]
        got = p["batches"][:-1] if p["batches"] and p["batches"][-1] == [] else p["batches"]
        if p["err"] or not p["closed"] or got != want:
            return "batches differ: expected %s" % want
        if e["Recheck"]["passes"] != [p["batches"]]:
            return "a delivered batch has changed: %s became %s" % (p["batches"], e["Recheck"]["passes"])
    replay(c, recs, steps, cmp)

    def vsteps(rng, cs, t):
        cs["mode"] = "fs"
        st = [{"op": "load"}]
        for _ in range(rng.choice([1, 2, 4])):
            st.append({"op": "pass", "size": rng.choice([1, 2, 3, 5, 64, 1000, 70000]), "cap": rng.choice([0, 1, 4, 64]), "slow": rng.random() < 0.3})
        return st + [{"op": "recheck"}]
    validate(c, random_cases(c, 200 if not big else 2000, 600 if not big else 3000, vsteps, vocab=120, **LIM))
    if c.violations:
        return
    cases = []          # sizes as they are used: batches of thousands of words
    for i in range(6 if not big else 20):
        t = Table(["w%d" % x for x in range(c.rng.choice([3, 50, 300]))])
        n = c.rng.choice([12000, 20000, 33000]) if i else c.rng.choice([65540, 70000, 100001])
        cases.append(dict(case(c, c.rng, t, rand_text(c.rng, n, len(t.words)), "fs", False, minc=c.rng.choice([-1, 0, 100])), chunk=0))
        cases[-1]["steps"] = [{"op": "load"}] + [{"op": "pass", "size": c.rng.choice([2000, 4095, 4096, 4097, 5000, 8192, 10000, 16384, n - 1, n, n + 1, 40000, 100000]), "cap": c.rng.choice([0, 1, 8])} for _ in range(2)] + [{"op": "recheck"}]
    for i in range(3 if not big else 6):        # the receiver takes its time
        t = rand_table(c.rng, 5)
        cases.append(case(c, c.rng, t, rand_text(c.rng, 30, 5), "fs", False))
        cases[-1]["steps"] = [{"op": "load"}, {"op": "pass", "size": c.rng.choice([1, 3, 5]), "cap": i % 3 % 2, "hold": 2200 if not big else 6500}, {"op": "recheck"}]
    validate(c, cases)


def cooc_prop(c, ctype):
    big = c.thorough
    k = dict(MaxText=4 if not big else 5, CTypes='{"%s"}' % ctype, Windows="{0, 1, 2, 3, 4}")
    c.design("Corpus", cfg(["Counted", "FoldAgrees"], "Finishes", **dict(k, Lowers="{TRUE}" if not big else "{TRUE, FALSE}")), "Corpus/" + ctype)
    c.mutant("Corpus", cfg(["Counted"], Bug='"no_tail"', **dict(k, MaxText=3)), "no_tail")
    c.mutant("Corpus", cfg(["Counted"], Bug='"raw_lookup"', **dict(k, MaxText=3)), "raw_lookup")
    recs = c.generate("Corpus", cfg(["Gen"], **dict(k, MaxText=5 if not big else 6)))

    def cmp(cs, r, e):
        if "Crash" in e:
            return "crash " + e["Crash"]["how"]
        want = sorted(tuple(x) for x in seq(r["cooc"]))
        got = sorted((min(x[0], x[1]), max(x[0], x[1]), x[2]) for x in e["Cooc"]["entries"])
        if e["Load"]["err"] or want != got:
            return "co-occurrences differ: expected (scaled) %s" % want
        m = {(a, b): w for a, b, w in want}
        for a, b, w in e["Cooc"]["lookups"]:
            if w != m.get((min(a, b), max(a, b)), 0):
                return "lookup of pair (%d,%d) gives %s" % (a, b, w)
    replay(c, recs, lambda f, t: [{"op": "load"}, {"op": "cooc", "all": True}], cmp, sample_to=8000 if not big else None)

    def vsteps(rng, cs, t):
        st = [{"op": "load"}, {"op": "cooc", "all": len(t.words) <= 30}]
        if ctype == "inc" and rng.random() < 0.3:
            st.append({"op": "window", "size": rng.choice([1, 2, 3, 5, 20])})
        return st
    kw = dict(ctype=lambda r: ctype, window=lambda r: r.choice([1, 2, 3, 4, 5, 7, 10] + ([15, 16, 17, 50, 64, 65, 100, 300, 1000] if ctype == "inc" and r.random() < 0.3 else [])))
    cases = random_cases(c, 150 if not big else 1500, 250 if not big else 800, vsteps, vocab=25, **dict(kw, **LIM))
    # every word different: each pair separately visible, also beyond one read buffer
    for _ in range(3 if not big else 12):
        m = c.rng.choice([300, 500, 700])
        t = Table(["u%d" % i for i in range(m)])
        cases.append(case(c, c.rng, t, list(range(1, m + 1)), c.rng.choice(["mem", "fs"]), False, ctype=ctype, window=c.rng.choice([1, 2, 3]),
                          steps=[{"op": "load"}, {"op": "cooc"}]))
    for mode in ("mem", "fs"):       # the same text in both modes
        for win in (1, 2, 5):
            t = Table(["a", "A", "b", "B", "c"])
            txt = rand_text(c.rng, 60, 5)
            for lower in (False, True):
                cases.append(case(c, c.rng, t, txt, mode, lower, ctype=ctype, window=win, steps=[{"op": "load"}, {"op": "cooc", "all": True}]))
    validate(c, cases)


def P04(c):
    cooc_prop(c, "inc")
    # counts beyond 2^24
    cases = []
    for mode in ("mem", "fs"):
        n = c.rng.randrange(5900, 6300)
        cases.append(dict(case(c, c.rng, Table(["a"]), [1] * n, mode, False, ctype="inc", window=c.rng.choice([n - 1, n, n + 1, 10000]), steps=[{"op": "load"}, {"op": "cooc"}]), chunk=0, _mono=True))
    validate(c, cases)
    # the pair code over the whole 32-bit range
    lim = [0, 1, 2, 3, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1]
    cases = []
    for _ in range(6 if not c.thorough else 60):
        nums = sorted(set(lim + [c.rng.getrandbits(c.rng.choice([8, 16, 20, 31, 32])) for _ in range(12)]))
        pairs = [[str(a), str(b)] for a in nums for b in nums]
        t = Table(["a"])
        cs = case(c, c.rng, t, [1], "mem", False, steps=[{"op": "codec", "pairs": pairs}])
        cases.append(cs)
    validate(c, cases)


def P05(c):
    cooc_prop(c, "prox")
    cases = []          # wide windows: no small common multiple of the distances
    for i in range(19 if not c.thorough else 200):
        m = c.rng.choice([20, 60, 120, 200]) if i > 2 else 600 if i else c.rng.choice([1300, 1500])
        t = Table(["u%d" % i for i in range(c.rng.choice([1, 2, 5, 30, m]) if i > 1 else m if i else 5)])
        text = rand_text(c.rng, m, len(t.words), "flat") if len(t.words) < m else list(range(1, m + 1))
        cases.append(case(c, c.rng, t, text, c.rng.choice(["mem", "fs"]), False, ctype="prox", window=c.rng.choice([11, 16, 17, 33, 64, 100, m - 1, m, 1000] if i else [1100, 1200, 1280, 3000]), steps=[{"op": "load"}, {"op": "cooc"}]))
    validate(c, cases)
