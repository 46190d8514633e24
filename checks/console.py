"""P23: the console."""
import os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vf import Cfg, CheckError, go_env, kill_group
from search import levels, rnd_vec, Ambiguous

ITEMS = "<< <<1, 0>>, <<1, 1>>, <<0, 1>>, <<2, 0>> >>"
ROW = re.compile(r"^\s*(\d+) \| (.*?)\s+\|\s*(\S+)\s*$")
RULE = re.compile(r"^-+\+-+\+-+$")


def session(c, binp, vecfile, k, data, timeout=30):
    """one process; returns (stdout, status, stderr)"""
    env = dict(go_env(c.work), TERM="dumb")
    outp, errp = c.path("out"), c.path("err")
    with open(outp, "wb") as fo, open(errp, "wb") as fe:
        p = subprocess.Popen([binp, "console", "-i", vecfile, "-r", str(k)], stdin=subprocess.PIPE, stdout=fo, stderr=fe, env=env,
                             cwd=c.work, start_new_session=True)
        try:
            p.stdin.write(data)
            p.stdin.close()
        except BrokenPipeError:
            pass
        end, how = time.time() + timeout, ""
        while p.poll() is None:
            if os.path.getsize(outp) + os.path.getsize(errp) > 1 << 20:
                how = "endless output"          # sessions are a few kilobytes
            elif time.time() > end:
                how = "hang"
            if how:
                kill_group(p)
                p.wait()
                break
            time.sleep(0.002)
    with open(outp, "rb") as fo, open(errp, "rb") as fe:
        out, err = fo.read(1 << 16).decode("utf-8", "surrogateescape"), fe.read(1 << 16).decode("utf-8", "replace")
    os.unlink(outp)
    os.unlink(errp)
    return out, {"": p.returncode, "hang": -99, "endless output": -98}[how], how or err


def segments(out):
    """what was printed after each prompt"""
    segs, pos = [], 0
    if not out.startswith(">> "):
        return None
    while True:
        pos += 3
        if out.startswith(">> ", pos):
            segs.append("")
            continue
        i = out.find("\n>> ", pos)
        if i < 0:
            segs.append(out[pos:])
            return segs
        segs.append(out[pos:i + 1])
        pos = i + 1


def parse(seg):
    rows, msg = [], False
    for line in seg.split("\n"):
        m = ROW.match(line)
        if m:
            rows.append((m.group(2), int(m.group(1)), m.group(3)))
        elif line.strip() and not RULE.match(line.strip()) and [x.strip().lower() for x in line.split("|")] != ["rank", "word", "similarity"]:
            msg = True
    return msg, rows


IDENT = re.compile(r"^[A-Za-z_][A-Za-z_0-9]*$")


def meaning(line, words, vecs):
    """kind, lev, cos, out: what the statement says about the line. words and vecs are sequences; the first wins."""
    first = {}
    for i, w in enumerate(words):
        first.setdefault(w, i)
    none = ([0] * len(words), [0.0] * len(words), [])
    if line == "exit":
        return ("exit",) + none
    if line == "":
        return ("empty",) + none
    t = line.split(" ")
    if len(t) == 1 and t[0] in first:
        lev, cos = levels(vecs, vecs[first[t[0]]])
        return "word", lev, cos, [i + 1 for i, w in enumerate(words) if w == t[0]]
    if len(t) == 3 and t[1] in "+-" and t[0] in first and t[2] in first:
        a, b = vecs[first[t[0]]], vecs[first[t[2]]]
        q = [x + y if t[1] == "+" else x - y for x, y in zip(a, b)]
        lev, cos = levels(vecs, q)
        return "sum", lev, cos, [i + 1 for i, w in enumerate(words) if w in (t[0], t[2])]
    return ("other",) + none


def spread(line, rng):
    """the same line with other spacing"""
    t = line.split(" ")
    if len(t) != 3 or t[1] not in "+-" or rng.random() < 0.6:
        return line
    return rng.choice(["%s%s%s", "%s  %s %s", " %s %s %s ", "%s %s\t%s", "%s\t%s%s"]) % tuple(t)


OTHER = ["zzz", "1", "\"a\"", "(", "a b", "+", "a +", "+ a", "-a", "a ++ b", "a.b", "f(a)", "1 + a", "a + 1", "a = b", "type", "a, b", "a[0]", "\x01", "é + a",
         "EXIT", "exit now", "quit", "exit + a", "a + exit", "!a", "a; b", "// a", "&a", "*a", "func() {}", "[]int{1}"]


def run_sessions(c, binp, jobs):
    """results, None for sessions that were not run because enough others did not end"""
    bad = []

    def one(j):
        if len(bad) >= 3:
            return None
        r = session(c, binp, j["file"], j["k"], j["data"])
        if r[1] == -99 and session(c, binp, j["file"], j["k"], j["data"], 90)[1] != -99:
            raise CheckError("sessions are too slow to judge")
        if r[1] in (-99, -98):
            bad.append(j)
        return r
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def write_vecs(c, words, vecs):
    f = c.path("vecs.txt")
    with open(f, "w") as o:
        for w, v in zip(words, vecs):
            o.write("%s %s\n" % (w, " ".join("%f" % x for x in v)))
    return f, [[float("%f" % x) for x in v] for v in vecs]


def job(f, words, vecs, k, lines, eol=True, plain=None):
    """lines as typed; plain: the same lines with canonical spacing"""
    data = "\n".join(lines) + ("\n" if eol and lines else "")
    return {"file": f, "words": words, "vecs": vecs, "k": k, "lines": lines, "plain": plain or lines, "data": data.encode(), "eol": eol}


def trace(j, res, alone):
    out, status, err = res
    evs = [{"ev": "Session", "k": j["k"], "lines": len(j["lines"]), "input": j["lines"]}]
    segs = segments(out)
    if segs is None:
        return evs + [{"ev": "NoPrompt", "out": out[:300], "status": status, "err": err[:2000]}]
    stop = len(j["lines"])
    if "exit" in j["lines"]:
        stop = j["lines"].index("exit") + 1
    answered = segs[:stop]
    for i, seg in enumerate(answered[:-1] if len(segs) <= stop and status != 0 else answered):
        kind, lev, cos, ex = meaning(j["plain"][i], j["words"], j["vecs"])
        msg, rows = parse(seg)
        names = {}
        for n, w in enumerate(j["words"]):
            names.setdefault(w, n + 1)
        rs = []
        for w, r, s in rows:
            n = names.get(w, 0)
            try:
                s = float(s)
            except ValueError:
                s = float("nan")
            rs.append([n, r, bool(n and abs(s - cos[n - 1][0]) <= 1e-6)])
        key = (j["file"], j["k"], j["lines"][i])
        evs.append({"ev": "Line", "kind": kind, "line": j["lines"][i].encode("ascii", "backslashreplace").decode(), "lev": lev, "out": ex, "msg": msg,
                    "res": rs, "silent": seg == "", "alone": kind not in ("word", "sum") or alone is None or alone.get(key, seg) == seg,
                    "text": seg[:600]})
    # what follows the last answered line: one more prompt at the end of input, nothing after exit
    rest = segs[stop:] if stop < len(segs) else []
    if "exit" in j["lines"]:
        clean = not rest
    else:
        clean = len(rest) == 1 if len(j["lines"]) == stop else False
    evs.append({"ev": "End", "status": status, "clean": clean, "rest": rest[:3], "err": err[:1500]})
    return evs


def dense(lev):
    r = {x: i for i, x in enumerate(sorted(set(lev) | {0}))}
    return [r[x] for x in lev]


def descr(g, k):
    return "P23: session %s: %s" % (g[0].get("input"), str({x: y for x, y in g[k].items() if x != "lev"})[:1500])


def P23(c):
    big = c.thorough
    base = {"Items": "<< <<1, 0>>, <<1, 1>>, <<0, 1>> >>", "K": "2", "MaxLines": "2", "Bug": '"none"'}
    inv = ["Alone", "EndsWell", "NoExitInside"]
    c.design("Console", Cfg(base, inv, ["Ends"]), "Console")
    for b in ["no_reset", "right_unchecked", "eof_error"]:
        c.mutant("Console", Cfg(dict(base, Bug='"%s"' % b), inv), b)
    binp = c.build_cli()
    # every session of two lines (thorough: three over a smaller vocabulary), from TLC
    recs = c.generate("Console", Cfg(base, ["Gen"]))
    if big:
        recs += c.generate("Console", Cfg(dict(base, Items="<< <<1, 1>>, <<0, 1>> >>", MaxLines="3"), ["Gen"]), "Console, 3 lines")
    n = 700 if not big else 6000
    picked = recs if len(recs) <= n else c.rng.sample(recs, n)
    names = {2: ["ab", "b"], 3: ["ab", "b", "c_1"]}
    files = {}
    jobs = []
    for r in picked:
        dim = 2 if any(len(m["lev"]) == 2 for m in r["means"]) else 3
        if dim not in files:
            vv = [[1.0, 1.0], [0.0, 1.0]] if dim == 2 else [[1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]
            files[dim] = write_vecs(c, names[dim], vv)
        w = ["unknown"] + names[dim]
        lines = []
        for x in r["lines"]:
            op = {"add": "+", "sub": "-", "times": c.rng.choice(["*", "/", "%", "&&", "==", "|", "<<"])}.get(x["kind"])
            if op:
                lines.append("%s %s %s" % (w[x["x"]], op, w[x["y"]]))
            else:
                lines.append({"empty": "", "exit": "exit", "junk": c.rng.choice(OTHER), "word": w[x["x"]]}[x["kind"]])
        j = job(files[dim][0], names[dim], files[dim][1], 2, lines, eol=not lines or lines[-1] == "" or c.rng.random() < 0.7)
        j["rec"] = r
        jobs.append(j)
    c.count("generated_sessions", len(jobs))
    # random vector files and longer sessions
    for i in range(40 if not big else 400):
        dim = c.rng.choice([1, 2, 5, 20])
        n = c.rng.choice([1, 2, 3, 8, 40])
        words = c.rng.sample(["w%d" % x for x in range(n)] + ["été", "_", "World", "x1", "日本", "nil", "A", "a", "L" * 101, "m" * 300] + ["foo", "Foo", "FOO", "W0", "W1", "w01", "Été", "ß", "ss", "k", "K", "aA", "costarring", "liquid", "x" * 60 + "a", "x" * 60 + "b"] * (i % 2), n)
        if i % 5 == 1:
            words = ["foo", "Foo", "FOO", "fo", "f"][:c.rng.choice([2, 3, 5])]
        vecs = [rnd_vec(c.rng, dim, c.rng.choice(["int", "int", "sparse", "gauss"])) for _ in words]
        f, vecs = write_vecs(c, words, vecs)
        lines, plain = [], []
        for _ in range(c.rng.choice([0, 1, 3, 6, 12])):
            x = c.rng.choice(["w", "w", "s", "s", "s", "o", "e", "u"])
            if x == "w":
                t = c.rng.choice(words)
            elif x == "s":
                t = "%s %s %s" % (c.rng.choice(words), c.rng.choice("+-"), c.rng.choice(words))
            elif x == "o":
                t = c.rng.choice([c.rng.choice(OTHER), "%s %s %s" % (c.rng.choice(words), c.rng.choice(["*", "/", "<", "&^"]), c.rng.choice(words)),
                                  "%s + %s + %s" % (c.rng.choice(words), c.rng.choice(words), c.rng.choice(words)),
                                  "(%s)" % c.rng.choice(words), "%s - (%s + %s)" % (c.rng.choice(words), c.rng.choice(words), c.rng.choice(words))])
                if t in words:
                    continue
            elif x == "u":
                t = c.rng.choice(["%s + nope", "nope - %s", "%s - nope", "nope + %s", "%snope"]) % c.rng.choice(words)
            else:
                t = ""
            try:
                meaning(t, words, vecs)
            except Ambiguous:
                continue
            plain.append(t)
            lines.append(spread(t, c.rng))
        if lines and c.rng.random() < 0.4:
            k = c.rng.randrange(len(lines) + 1)
            lines.insert(k, "exit")
            plain.insert(k, "exit")
        jobs.append(job(f, words, vecs, c.rng.choice([0, 1, 2, 10, 100]), lines, c.rng.random() < 0.7 or (lines and lines[-1] == ""), plain))
    # every distinct known line in a session of its own
    single = {}
    for j in jobs:
        for l, p in zip(j["lines"], j["plain"]):
            if meaning(p, j["words"], j["vecs"])[0] in ("word", "sum"):
                single.setdefault((j["file"], j["k"], l), job(j["file"], j["words"], j["vecs"], j["k"], [l], plain=[p]))
    keys = list(single)
    alone = {}
    for key, res in zip(keys, run_sessions(c, binp, [single[k] for k in keys])):
        s = segments(res[0]) if res else None
        if s and len(s) > 1:
            alone[key] = s[0]
    results = run_sessions(c, binp, jobs)
    jobs, results = [j for j, r in zip(jobs, results) if r], [r for r in results if r]
    groups = [trace(j, r, alone) for j, r in zip(jobs, results)]
    # the generated sessions: the specification's own levels, not those computed from the vector file
    for j, g in zip(jobs, groups):
        if "rec" in j:
            for m, e in zip(j["rec"]["means"], g[1:]):
                if e["ev"] == "Line" and m["asked"] and (dense(m["lev"]) != e["lev"] or set(m["out"]) != set(e["out"])):
                    raise CheckError("levels of the check and of the specification differ: %s %s" % (m, e))
    c.sample(groups[len(groups) // 3])
    c.sample(groups[-1])
    c.validate_all("ConsoleTrace", groups, descr)
    c.count("lines", sum(len(g) - 2 for g in groups))
    if not c.violations:
        good = next(g for g in groups if any(e.get("kind") == "sum" and len(e["res"]) > 0 for e in g))
        i = next(i for i, e in enumerate(good) if e.get("kind") == "sum" and len(e["res"]) > 0)
        c.canary("ConsoleTrace", good[:i] + [dict(good[i], res=[])])
        c.canary("ConsoleTrace", [{"ev": "Session", "k": 1, "lines": 0}, {"ev": "End", "status": 1, "clean": True}])
