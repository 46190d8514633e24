"""P18-P20: saving and loading vectors. (P17 is in persist17.)"""
import base64, math, struct
from vf import Cfg, CheckError


def b64(s):
    return base64.b64encode(s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")).decode()


def unb64(s):
    return base64.b64decode(s).decode("utf-8", "surrogateescape")


def consts(**kw):
    k = {"MaxSize": 5, "BufSizes": "{1, 2, 3, 8}", "MaxLines": 4, "Kinds": '{"good", "skip", "few", "bad"}', "Bug": '"none"'}
    k.update(kw)
    return k


def render(x):
    """six decimals, the identity of a value in the specification"""
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "+Inf" if x > 0 else "-Inf"
    return "%f" % x


WORDS = ["a", "foo", "%d", "%s%v", "100%", "é", "日本語", "\U0001F600", "a,b", "\"q\"", "-1", "3.14", "NaN", "#", "\\n", "\x01", "a\u200bb", "w" * 3000,
         b"\xff\xfe".decode("utf-8", "surrogateescape"), "0", "_", "\ufeffbom", "\x00"]
VALS = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-7, -1e-7, 4.9999995e-7, 5e-7, 0.0000005, 1.0000005, 2.5e-6, 123456789.123456789, -99999.9999999, 1e15, 1e300, -1.7976931348623157e308,
        5e-324, float("inf"), float("-inf"), float("nan"), 0.1, 1 / 3]


def rnd_val(rng):
    return rng.choice([rng.choice(VALS), rng.uniform(-1, 1), rng.gauss(0, 1) * 10 ** rng.randrange(-8, 9), struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]])


def rnd_matrix(rng, n, dim, plain=False):
    words = []
    for i in range(n):
        w = rng.choice(WORDS) if rng.random() < 0.6 and not plain else "w%d" % i
        words.append(w if w not in words else "u%d_%d" % (i, rng.randrange(1000)))
    return words, [[rnd_val(rng) for _ in range(dim)] for _ in range(n)]


def norm_ok(vals, norm):
    if any(math.isnan(v) for v in vals):
        return math.isnan(norm)
    if any(math.isinf(v) for v in vals):
        return math.isinf(norm) and norm > 0
    m = max((abs(v) for v in vals), default=0.0)
    if m > 1e150 or 0 < m < 1e-140:        # the squares leave the range of a float
        return norm >= 0
    e = math.fsum(v * v for v in vals) ** 0.5
    return abs(norm - e) <= 1e-9 * e


def abstract_ents(es):
    res = []
    for e in es:
        vals = [float(x) for x in e["v"]]
        res.append({"w": unb64(e["w"]).encode("ascii", "backslashreplace").decode(), "dim": e["dim"], "v": [canon(x) for x in vals],
                    "norm": norm_ok(vals, float(e["norm"]))})
    return res


def canon(x):
    """a loaded value is identified with its six-decimal rendering only if it is exactly that number"""
    r = render(x)
    y = float(r.replace("+Inf", "inf").replace("-Inf", "-inf"))
    same = (x == y and math.copysign(1, x) == math.copysign(1, y)) or (math.isnan(x) and math.isnan(y))
    return r if same else "not-rounded:" + repr(x)


def asc(w):
    return w.encode("ascii", "backslashreplace").decode()


def abstract_save(cs, rec):
    evs = [{"ev": "Given", "words": [asc(w) for w in cs["_words"]], "vals": [[render(x) for x in r] for r in cs["_vals"]]}]
    for e in rec["events"]:
        e = dict(e)
        if e["ev"] == "Save":
            out = unb64(e.pop("out"))
            ls = out.split("\n")
            e["trailing"] = ls[-1]
            e["lines"] = [[asc(t) for t in x.rstrip(" ").split(" ")] for x in ls[:-1]]
        elif e["ev"] == "Back":
            e["ents"] = abstract_ents(e["ents"])
        evs.append(e)
    return evs


def descr(prop):
    return lambda g, k: "%s: %s is not what the specification allows: %s (after %s)" % (prop, g[k].get("ev"), str(g[k])[:1500], str(g[0])[:500])


def save_case(c, words, vals, cols, op="save", **kw):
    return dict({"op": op, "words": [b64(w) for w in words], "vals": [[repr(x) for x in r] for r in vals], "cols": cols, "chunk": c.rng.choice([0, 1, 7, 4096]),
                 "eofwith": c.rng.random() < 0.3, "_words": words, "_vals": vals}, **kw)


def strip(cs):
    return {k: v for k, v in cs.items() if not k.startswith("_")}


def P18(c):
    big = c.thorough
    c.design("Persist", Cfg(consts(), ["PrefixOnly", "SaveRight", "LoadRight"], ["Finishes"]), "Persist")
    cases = []
    for _ in range(250 if not big else 2500):
        n, dim = c.rng.choice([0, 1, 2, 5, 20]), c.rng.choice([1, 2, 3, 10, 50])
        words, vals = rnd_matrix(c.rng, n, dim)
        cs = save_case(c, words, vals, dim)
        if c.rng.random() < 0.12:      # a matrix that does not fit the vocabulary
            m = max(0, n + c.rng.choice([-1, 1, 2]))
            cs = save_case(c, words, [[rnd_val(c.rng) for _ in range(dim)] for _ in range(m)], dim)
        cases.append(cs)
    # every pair of special values and every special word once
    for w in WORDS:
        cases.append(save_case(c, [w], [VALS], len(VALS)))
    for dim in (300, 513, 600, 1000, 1025, 2000):
        words, vals = rnd_matrix(c.rng, 3, dim)
        cases.append(dict(save_case(c, words, vals, dim), chunk=0))
    for dim in (5000, 9000) if not big else (5000, 9000, 20000):
        words, vals = rnd_matrix(c.rng, 2, dim)
        cs = save_case(c, words, vals, dim)
        cs["chunk"] = 0
        cases.append(cs)
    cases.append(save_case(c, ["a", "W" * 1200000, "b"], [[1.5, 2.0], [0.25, -3.0], [0.0, 1.0]], 2, chunk=0))
    words, vals = rnd_matrix(c.rng, 1500, 3, plain=True)
    cases.append(save_case(c, words, vals, 3))
    out = c.drive("persist", [strip(x) for x in cases])
    groups = [abstract_save(cs, o) for cs, o in zip(cases, out) if o]
    c.sample(groups[1])
    c.count("matrices_saved_and_loaded", len(groups))
    c.validate_all("PersistTrace", groups, descr("P18"))
    if not c.violations:
        g = [g for g in groups if len(g) == 3 and len(g[0]["words"]) == 2 and len(g[0]["vals"][0]) < 60][0]
        g[2] = dict(g[2], ents=list(reversed(g[2]["ents"])))
        c.canary("PersistTrace", g)


def P19(c):
    big = c.thorough
    c.design("Persist", Cfg(consts(MaxSize=7, BufSizes="{1, 2, 3, 4, 8}", MaxLines=1), ["PrefixOnly", "SaveRight"], ["Finishes"]), "Persist/save")
    c.mutant("Persist", Cfg(consts(Bug='"ignore_flush"', MaxLines=0), ["SaveRight"]), "ignore_flush")
    recs = [r for r in c.generate("Persist", Cfg(consts(MaxSize=6, BufSizes="{1}", MaxLines=0), ["Gen"])) if r["mode"] == "save"]
    # each generated (size, limit) in units of one word line; all byte positions of small outputs besides
    cases, exp = [], []
    for r in recs:
        dim = c.rng.choice([1, 40, 700])
        words, vals = ["w%d" % i for i in range(r["size"])], [[1.25] * dim for _ in range(r["size"])]
        line = len("w0 ") + 9 * dim + 1
        cases.append(save_case(c, words, vals, dim, "saveto", dests=[{"limit": line * r["limit"] if r["limit"] < r["size"] else 10 ** 9, "how": h} for h in ("partial", "refuse", "once")]))
        exp.append(r)
    out = c.drive("persist", [strip(x) for x in cases])
    for r, cs, o in zip(exp, cases, out):
        for e in (o or {"events": []})["events"]:
            if e["ev"] != "SaveTo" or (e["err"] != "") != (r["ret"] == "error") or not e["prefix"]:
                c.violation("P19: %d lines into a destination that takes %d: %s (the specification says %s)" % (r["size"], r["limit"], e, r["ret"]), {"case": strip(cs), "observed": e})
                return
    c.count("generated_behaviours_replayed", len(exp))
    c.sample({"generated": recs[3]})
    cases2 = []
    for n, dim in [(0, 3), (1, 1), (2, 2), (3, 5)] + ([(2, 30), (5, 7)] if big else []):
        words, vals = ["w%d" % i for i in range(n)], [[0.5] * dim for _ in range(n)]
        total = sum(len(w) + 1 + 9 * dim + 1 for w in words)
        dests = [{"limit": x, "how": h} for x in range(0, total + 3) for h in ("partial", "refuse", "once")] + [{"how": "call", "calls": k} for k in (1, 2, 3)]
        cases2.append(save_case(c, words, vals, dim, "saveto", dests=dests))
    for _ in range(40 if not big else 400):       # outputs larger than any buffer, faults anywhere
        n, dim = c.rng.choice([1, 3, 50, 300]), c.rng.choice([1, 10, 100])
        words, vals = rnd_matrix(c.rng, n, dim, plain=True)
        vals = [[min(1e6, max(-1e6, v)) if v == v else 0.0 for v in r] for r in vals]
        total = sum(len(w) + 1 + sum(len(render(v)) + 1 for v in r) + 1 for w, r in zip(words, vals))
        dests = []
        for _ in range(25):
            lim = c.rng.choice([0, 1, total - 1, total - 2, total, total + 1, 4095, 4096, 4097, total // 4096 * 4096, c.rng.randrange(total + 1)])
            dests.append({"limit": lim, "how": c.rng.choice(["partial", "refuse", "once"])})
        dests += [{"how": "call", "calls": k} for k in (1, 2, 3, 5)]
        cases2.append(save_case(c, words, vals, dim, "saveto", dests=dests))
    for n, dim in [(500, 300), (300, 1000), (3, 20000)] + ([(900, 1000), (4, 300000)] if big else []):      # megabytes: faults at the tail
        words, vals = ["w%d" % i for i in range(n)], [[0.25 + (i * 7 + j) % 9 for j in range(dim)] for i in range(n)]
        total = sum(len(w) + 1 + 9 * dim + 1 for w in words)
        lims = [total - 1, total - 2, total - 700, total - 4096, total - 4097, total - 65536, total // 2, total // 4096 * 4096, total // 65536 * 65536, total // 1048576 * 1048576 or 1, 10 ** 9]
        cases2.append(save_case(c, words, vals, dim, "saveto", dests=[{"limit": x, "how": h} for x in lims for h in ("partial", "refuse", "once")]))
    for m in ("word2vec", "glove", "lexvec"):
        for typ in ("single", "agg"):
            for dim, text in ((3, "a b c a b d"), (300, " ".join("w%d" % (i % 40) for i in range(200)))):
                lims = [0, 1, 10, 100, 4096, 10 ** 9] + [c.rng.randrange(1, 1500 if dim == 3 else 90000) for _ in range(6)]
                cases2.append({"op": "modelsave", "model": m, "typ": typ, "dim": dim, "text": text,
                               "dests": [{"limit": x, "how": h} for x in lims for h in ("partial", "refuse", "once")]})
    for cs in cases + cases2:
        for d in cs["dests"]:
            d.update(errkind=c.rng.randrange(20), str=c.rng.random() < 0.4)
    out = c.drive("persist", [strip(x) for x in cases2])
    groups = [o["events"] for o in out if o and o["events"]]
    c.sample(groups[1][:3])
    c.count("faulty_destinations", sum(len(g) for g in groups))
    c.validate_all("PersistTrace", groups, descr("P19"))
    if not c.violations:
        e = dict(groups[1][0])
        c.canary("PersistTrace", [dict(e, err="", lost=True)])


# ------------------------------------------------------------------ loading
NUMS = ["1", "-2.5", "0.000001", "+3", "1e3", "-1E-3", "NaN", "+Inf", "-Inf", "inf", ".5", "7.", "0", "-0", "Infinity", "nan", "1E+2", "00012", "123456789.125"]
BADS = ["x", "1,5", "--1", "1.2.3", "1e", "e5", "0x", "１", "1-", "nanx", "+", ".", "-", "1,", "1;", "1:", "1.0f", "1d", "$1", "1%", "(1)", '"1"', "'1'", "1e+", "1e1.5", "in", "infin", "na", "null", "None", "true",
        "1i", "1'000", "+-1", "1+1", "1/2", "0b1", "0o7", "\u0661", "1\u066b5", "1\x00", "\ufeff1", "1\u200b", "\u22121", "[1", "1]", "NaN1", "1.5.", "<unk>", "=1", "\x001", "\x00", "1\x1f", "1\x7f", "1\u2060", "1\u180e", "1\ufffd", "1\ufeff", "1\x00\x00", "1\\n", "1\\", "1#", "1//", "0,5", "1.000,5", "１.5", "1e\u22122", "¼", "²", "1²", "∞", "-∞", "+nan", "-nan", "+NaN", "nan(1)", "1.#INF", "inff", "1 e", "1n", "1L", "1f", "0x1g"]
SEPS = [" ", "  ", "\t", "\u00a0", " \t", "\u3000"]


def line(rng, kind, dim=None):
    """(text, abstract content)"""
    if kind == "skip":
        return rng.choice([" ", " a 1 2", "  x", " 3"]), None
    if kind == "few":
        return rng.choice(["", "word", "word ", "\t", "\tword", "é", "\u00a0"]), None
    w = rng.choice(["a", "foo", "é", "1.5", "-", "日本", "x" * 50, "NaN", "#", "#tag", "//", "%s", "a%", '"q"', "\\", "0", "\ufeff"])
    n = dim or rng.choice([1, 1, 2, 3, 10])
    vals = [rng.choice(NUMS) for _ in range(n)]
    if kind == "bad":
        vals.insert(rng.randrange(n + 1), rng.choice(BADS))
    s = rng.choice(["", "", "\t"]) + w + "".join(rng.choice(SEPS) + v for v in vals) + rng.choice(["", " ", "\t"])
    return s, (asc(w), [canonf(v) for v in vals] if kind == "good" else None)


def canonf(v):
    x = float(v)
    return "NaN" if x != x else repr(x)


def load_case(c, kinds, failat, search=False, dim=None):
    """failat: 0 never, i: reading fails inside or right before line i (len+1: after everything)"""
    rng = c.rng
    parts, content, offs, pos = [], [], [], 0
    for i, k in enumerate(kinds):
        s, ct = line(rng, k, dim)
        content.append({"w": ct[0], "v": ct[1], "dim": len(ct[1]), "norm": True} if k == "good" else {"w": "", "v": [], "dim": 0, "norm": True})
        nl = rng.choice(["\n", "\n", "\r\n"])
        if i == len(kinds) - 1 and s != "" and rng.random() < 0.4:
            nl = ""
        b = (s + nl).encode()
        offs.append((pos, pos + len(b)))
        pos += len(b)
        parts.append(b)
    data = b"".join(parts)
    fa = -1
    if failat:
        if failat == len(kinds) + 1:
            fa = len(data)
        else:
            a, b = offs[failat - 1]
            fa = rng.randrange(a, max(b - 1, a) + 1)
    return {"op": "load", "data": b64(data), "failat": fa, "chunk": rng.choice([0, 1, 3, 100]), "eofwith": rng.random() < 0.3, "search": search,
            "failwith": rng.random() < 0.3, "errkind": rng.randrange(20),
            "_kinds": kinds, "_failat": failat, "_content": content}


def abstract_load(cs, rec):
    evs = []
    for e in rec["events"]:
        e = dict(e)
        if e["ev"] == "Load":
            es = []
            for x in e["ents"]:
                vals = [float(v) for v in x["v"]]
                es.append({"w": asc(unb64(x["w"])), "v": ["NaN" if v != v else repr(v) for v in vals], "dim": x["dim"], "norm": norm_ok(vals, float(x["norm"]))})
            e.update(ents=es, kinds=cs["_kinds"], failat=cs["_failat"], content=cs["_content"])
        elif e["ev"] == "NewSearcher":
            e["dims"] = [x["dim"] for k, x in zip(cs["_kinds"], cs["_content"]) if k == "good"]
        evs.append(e)
    return evs


def P20(c):
    big = c.thorough
    c.design("Persist", Cfg(consts(MaxSize=1, MaxLines=4 if not big else 6), ["LoadRight"], ["Finishes"]), "Persist/load")
    c.mutant("Persist", Cfg(consts(MaxSize=0, Bug='"partial_load"'), ["LoadRight"]), "partial_load")
    recs = [r for r in c.generate("Persist", Cfg(consts(MaxSize=0, BufSizes="{1}", MaxLines=4 if not big else 5), ["Gen"])) if r["mode"] == "load"]
    cases = [load_case(c, list(r["lines"]), r["failat"]) for r in recs for _ in range(3 if not big else 8)]
    exps = [r for r in recs for _ in range(3 if not big else 8)]
    out = c.drive("persist", [strip(x) for x in cases])
    for r, cs, o in zip(exps, cases, out):
        if not o:
            continue
        e = abstract_load(cs, o)[0]
        want = [cs["_content"][i - 1] for i in r["ents"]]
        if e["ev"] != "Load" or (e["err"] != "") != (r["ret"] == "error") or e["ents"] != want:
            c.violation("P20: lines %s, reading fails before line %s: %s; the specification says %s with %s" % (r["lines"], r["failat"], str(e)[:600], r["ret"], want),
                        {"case": strip(cs), "data": unb64(cs["data"]), "observed": e})
            return
    c.count("generated_behaviours_replayed", len(exps))
    c.sample({"generated": recs[len(recs) // 2]})
    cases = []
    for _ in range(500 if not big else 5000):
        n = c.rng.choice([0, 1, 2, 5, 12, 40])
        bad = c.rng.random()
        kinds = [c.rng.choice(["good"] * 6 + ["skip"]) for _ in range(n)]
        if n and bad < 0.35:
            kinds[c.rng.choice([0, n - 1, c.rng.randrange(n)])] = c.rng.choice(["few", "bad"])
        fa = c.rng.choice([0, 0, 0, n + 1, c.rng.randrange(1, n + 2)])
        cases.append(load_case(c, kinds, fa, search=True, dim=c.rng.choice([None, None, 1, 3, 200])))
    for size in [70000, 1100000, 4300000] if not big else [66000, 70000, 270000, 1100000, 4300000, 17000000]:      # lines of any length
        for how in ("number", "blank", "word", "tail"):
            cs = load_case(c, ["good", "good", "good"], 0, search=True, dim=1)
            w = "w" if how != "word" else "w" * size
            s = {"number": w + " 0." + "3" * size, "blank": w + " " * size + "0.5", "word": w + " 0.5", "tail": w + " 0.5" + " " * size}[how]
            v = canonf("0." + "3" * 40) if how == "number" else "0.5"
            cs["chunk"] = c.rng.choice([0, 65536])
            cs["data"] = b64(b"\n".join(["aa 1".encode(), s.encode(), "bb 2".encode()]))
            cs["_content"] = [{"w": x, "v": [y], "dim": 1, "norm": True} for x, y in (("aa", "1.0"), (w, v), ("bb", "2.0"))]
            cases.append(cs)
    for _ in range(12 if not big else 80):          # several lines of many values; results stay intact
        n, dim = c.rng.choice([2, 3, 5]), c.rng.choice([600, 1001, 1024, 1025, 2000, 4097, 5000])
        kinds, salt = ["good"] * n, c.rng.randrange(1000)
        cs = load_case(c, kinds, 0, search=True, dim=1)
        rows = [[repr(float((i * 31 + j * 7 + salt) % 1000) / 8) for j in range(dim)] for i in range(n)]
        cs["data"] = b64("\n".join("w%d %s" % (i, " ".join(r)) for i, r in enumerate(rows)).encode())
        cs["_content"] = [{"w": "w%d" % i, "v": r, "dim": dim, "norm": True} for i, r in enumerate(rows)]
        cases.append(cs)
    # every kind of value at every place of a line
    for v in BADS + NUMS:
        for k in range(5):
            vals = ["0.25", "-1", "3"]
            vals[min(k, 2)] = v
            if k == 4:
                vals = vals[2:]
            if " " in v:
                continue
            n = len(vals)
            kind = "bad" if v in BADS else "good"
            rest = ["a " + " ".join(["1"] * n), "b " + " ".join(["2"] * n)]
            at = c.rng.choice([0, 1, 2])
            rest.insert(at, "x " + " ".join(vals) + c.rng.choice(["", "", " ", "\t", "\r"]))
            cs = load_case(c, ["good"] * at + [kind] + ["good"] * (2 - at), 0, search=True, dim=n)
            cs["data"] = b64(("\n".join(rest) + c.rng.choice(["", "\n"])).encode())
            cs["_content"] = [{"w": w, "v": [canonf(y) for y in ys] if kk == "good" else [], "dim": n, "norm": True}
                              for w, ys, kk in [x for i, x in sorted([(0 if at > 0 else 1, ("a", ["1"] * n, "good")), (2 if at < 2 else 1, ("b", ["2"] * n, "good")), (at, ("x", vals, kind))], key=lambda z: z[0])]]
            cases.append(cs)
    for cs in cases:                                # what an earlier load returned stays as it was when other vectors are loaded
        if cs.get("failat", -1) < 0 and c.rng.random() < 0.5:
            other = c.rng.choice(cases)
            cs["then"] = other["data"] if len(other["data"]) < 400000 else b64("zz 9 9 9\nyy 8 8 8\n".encode() * 3)
    out = c.drive("persist", [strip(x) for x in cases])
    groups = [abstract_load(cs, o) for cs, o in zip(cases, out) if o]
    c.sample(groups[2])
    c.validate_all("PersistTrace", groups, descr("P20"))
    if not c.violations:
        c.canary("PersistTrace", [{"ev": "Load", "kinds": ["good", "bad"], "failat": 0, "err": "", "content": [{"w": "a"}, {"w": "b"}], "ents": [{"w": "a"}]}])
