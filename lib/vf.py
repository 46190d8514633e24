"""Shared machinery of the checks: building drivers from /repo's working tree, running TLC,
recording evidence and violations."""
import concurrent.futures, itertools, json, os, random, re, shutil, subprocess, sys, threading, time, traceback, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not do its work (exit 2): never a verdict."""


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


def go_env(work):
    env = dict(os.environ)
    env.update(HOME="/root", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local",
               PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env.pop("GODEBUG", None)
    return env


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.bins = {}
        self.hangs = 0
        self._n = itertools.count(1)
        self.lock = threading.Lock()

    # ---------------------------------------------------------------- evidence
    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            t = json.dumps(s, ensure_ascii=True)
            self.samples.append(s if len(t) < 900 else t[:900] + "...")

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def write_evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        tmp = os.path.join(d, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        os.replace(tmp, os.path.join(d, self.prop + ".json"))

    def violation(self, what, data):
        """A disagreement of the real code with the specification."""
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "what": what, "data": data}, f,
                      indent=1, ensure_ascii=True, default=str)
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + what.replace("\n", "\n  ")[:3000], flush=True)

    # ---------------------------------------------------------------- building
    def build(self, area, race=False):
        """Builds /verif/harness/<area>/*.go as a package inside /repo's module, by overlay."""
        key = (area, race)
        if key in self.bins:
            return self.bins[key]
        src = os.path.join(VERIF, "harness", area)
        rep = {}
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, "zzverif", area, f)] = os.path.join(src, f)
        shared = os.path.join(VERIF, "harness", "shared")
        for f in sorted(os.listdir(shared)):
            rep[os.path.join(REPO, "zzverif", "shared", f)] = os.path.join(shared, f)
        ov = os.path.join(self.work, "overlay-%s.json" % area)
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        out = os.path.join(self.work, "bin-%s%s" % (area, "-race" if race else ""))
        cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./zzverif/" + area]
        p = subprocess.run(cmd, cwd=REPO, env=go_env(self.work), capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("building the %s driver failed:\n%s" % (area, p.stderr[-4000:]))
        self.bins[key] = out
        return out

    def build_cli(self):
        if "cli" in self.bins:
            return self.bins["cli"]
        out = os.path.join(self.work, "wego-bin")
        p = subprocess.run(["go", "build", "-o", out, "."], cwd=REPO, env=go_env(self.work), capture_output=True,
                           text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("building wego failed:\n" + p.stderr[-4000:])
        self.bins["cli"] = out
        return out

    def path(self, name):
        return os.path.join(self.work, "%03d-%s" % (next(self._n), name))

    def drive(self, area, cases, per_case=30.0, race=False, env=None, args=(), confirm=True, oom=False):
        """Runs a driver over the cases (one JSON line in, one JSON line {"events":[..]} out, in order).
        A driver that dies or hangs during a case yields a Crash event for that case; the rest goes on."""
        binp = self.build(area, race)
        e = go_env(self.work)
        if env:
            e.update(env)
        results, i, crashes = [], 0, 0
        while i < len(cases):
            recs, how = self._run_driver([binp] + list(args), cases[i:], per_case, e)
            results += recs
            i += len(recs)
            if i >= len(cases):
                break
            if how.startswith("hang") and confirm and not self.hangs:
                # a slow machine is not a hang: the case gets another, much longer chance on its own
                recs, how = self._run_driver([binp] + list(args), cases[i:i + 1], max(60.0, per_case * 3), e)
                if recs:
                    results += recs
                    i += 1
                    continue
            kind = classify(how, oom)
            if how.startswith("hang"):
                self.hangs += 1         # one has been confirmed; the others need not be
            if kind is None:
                raise CheckError("driver %s died: %s" % (area, how[:2500]))
            results.append({"events": [{"ev": "Crash", "how": kind, "detail": how[:2500]}]})
            i += 1
            crashes += 1
            if crashes >= 3:      # enough evidence; do not wait for every remaining case to hang
                results += [None] * (len(cases) - i)
                break
        return results

    def _run_driver(self, cmd, cases, per_case, env):
        inp, errp = self.path("cases.ndjson"), self.path("stderr")
        write_nd(inp, cases)
        recs = []
        with open(inp) as fi, open(errp, "w+") as fe:
            p = subprocess.Popen(cmd, stdin=fi, stdout=subprocess.PIPE, stderr=fe, env=env, cwd=self.work,
                                 start_new_session=True)
            hang = [False]
            last = [time.time()]
            stop = threading.Event()

            def watch():
                while not stop.wait(0.2):
                    if time.time() - last[0] > per_case:
                        hang[0] = True
                        p.send_signal(signal.SIGQUIT)      # Go prints all goroutines
                        if not stop.wait(3):
                            kill_group(p)
                        return
            t = threading.Thread(target=watch, daemon=True)
            t.start()
            for line in p.stdout:
                last[0] = time.time()
                if not line.endswith(b"\n"):
                    break
                recs.append(json.loads(line.decode("utf-8", "surrogatepass")))
            p.wait()
            stop.set()
            t.join()
            kill_group(p)
            fe.flush()
            fe.seek(0)
            err = fe.read()
        os.unlink(inp)
        os.unlink(errp)
        if len(recs) == len(cases):
            return recs, ""
        return recs, ("hang: no answer within %.0fs\n" % per_case if hang[0] else "exit %s\n" % p.returncode) + err

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers="auto", timeout=600, extra=(), expect_fail=False, heap="6g",
            deadlock=False):
        """Runs TLC on a model. cfg is a Cfg, or the text of a configuration. Returns (rc, output, generated,
        distinct). Constants are given as TLA+ expressions through a generated module that extends the model."""
        d = self.path("tlc-" + module)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        if isinstance(cfg, Cfg):
            root = "MC" + module
            with open(os.path.join(d, root + ".tla"), "w") as f:
                f.write("---- MODULE %s ----\nEXTENDS %s\n%s====\n" % (
                    root, module, "".join("mc_%s == %s\n" % x for x in cfg.consts.items())))
            module, cfg = root, cfg.text()
        cf = os.path.join(d, "run.cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-config", cf,
               "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [os.path.join(d, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s did not end within %ds" % (module, timeout))
        out = p.stdout
        gen = dist = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, out, gen, dist

    def design(self, module, cfg, label=None, deadlock=True, min_states=2, **kw):
        """D leg: exhaustive exploration that has to succeed."""
        rc, out, gen, dist = self.tlc(module, cfg, deadlock=deadlock, **kw)
        if rc != 0:
            raise CheckError("design model %s (%s) failed in TLC (rc %d):\n%s" % (module, label, rc, tail(out)))
        if dist < min_states:
            raise CheckError("design model %s explored only %d states" % (module, dist))
        self.states += dist
        self.transitions += gen
        self.extra.setdefault("design_models", []).append(
            {"model": label or module, "distinct_states": dist, "states_generated": gen})
        return out

    def mutant(self, module, cfg, label, deadlock=True, **kw):
        """The same model with a defect switched on: TLC has to refute it (non-vacuity)."""
        rc, out, gen, dist = self.tlc(module, cfg, deadlock=deadlock, **kw)
        if rc not in (11, 12, 13):     # deadlock, safety, liveness
            raise CheckError("mutant %s of %s was not refuted (rc %d):\n%s" % (label, module, rc, tail(out)))
        self.extra.setdefault("refuted_mutant_models", []).append(label)

    def generate(self, module, cfg, label=None, deadlock=False, **kw):
        """G leg: TLC enumerates behaviours and prints one JSON record each (lines starting with @J)."""
        rc, out, gen, dist = self.tlc(module, cfg, deadlock=deadlock, **kw)
        if rc != 0:
            raise CheckError("generator %s failed in TLC (rc %d):\n%s" % (module, rc, tail(out)))
        recs = []
        for line in out.splitlines():
            if line.startswith('"@J'):
                recs.append(json.loads(json.loads(line)[2:]))
        if not recs:
            raise CheckError("generator %s printed no behaviours:\n%s" % (module, tail(out)))
        self.states += dist
        self.transitions += gen
        self.extra.setdefault("generators", []).append({"model": label or module, "behaviours": len(recs)})
        return recs

    def validate(self, module, events, cfg_extra="", env=None, label=None, timeout=600, consts=""):
        """V leg: is the recorded trace a behaviour of the trace specification? Returns the 0-based index of
        the first event that cannot be explained, or None. Adds to the evidence counts."""
        tf = self.path("trace.ndjson")
        write_nd(tf, events)
        e = {"TRACE": tf}
        if env:
            e.update(env)
        cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceDone\nCHECK_DEADLOCK FALSE\n" + consts + cfg_extra
        rc, out, gen, dist = self.tlc(module, cfg, env=e, workers=1, timeout=timeout)
        m = re.search(r'<<"@ACCEPTED", (\d+)>>', out)
        if rc != 0 or not m:
            raise CheckError("trace validation with %s failed (rc %d):\n%s" % (module, rc, tail(out)))
        n = int(m.group(1))
        with self.lock:
            self.states += dist
            self.transitions += gen
            if '"@LOST"' in out:
                self.count("trainings_not_followed_to_the_end", len(set(re.findall(r'<<"@LOST", \d+>>', out))))
        os.unlink(tf)
        if n > len(events):
            raise CheckError("trace spec %s consumed %d of %d events" % (module, n, len(events)))
        return (None if n == len(events) else n), out

    def validate_all(self, module, groups, describe, label=None, consts="", env=None, timeout=600, max_viol=3,
                     again=None):
        """groups: list of traces (lists of events; each starts with an event that resets the model's
        state). All are concatenated into one TLC run; after a rejection the rest is validated on.
        again(i): a fresh recording of trace i, or None: where the code under test may legitimately lose
        an update (unsynchronised vectors), a trace counts as rejected only if repetitions are, too."""
        groups = list(groups)
        start = 0
        found = 0
        while start < len(groups):
            evs = [e for g in groups[start:] for e in g]
            bad, out = self.validate(module, evs, label=label, consts=consts, env=env, timeout=timeout)
            if bad is None:
                self.traces += len(groups) - start
                return found
            i, k = start, bad
            while k >= len(groups[i]):
                k -= len(groups[i])
                i += 1
            self.traces += i - start
            excused = False
            for _ in range(4 if again else 0):
                g = again(i)
                if g is None:
                    break
                if self.validate(module, g, label=label, consts=consts, env=env, timeout=timeout)[0] is None:
                    excused = True
                    self.count("repeated_after_a_lost_update")
                    break
            if excused:
                start = i + 1
                continue
            self.violation(describe(groups[i], k), {"trace": groups[i], "rejected_event": k})
            found += 1
            if found >= max_viol:
                return found
            start = i + 1
        return found

    def validate_par(self, module, groups, describe, parts=6, **kw):
        """validate_all in several TLC runs at once."""
        groups = list(groups)
        chunks = [x for x in (groups[i::parts] for i in range(parts)) if x]
        with concurrent.futures.ThreadPoolExecutor(parts) as ex:
            res = list(ex.map(lambda g: self.validate(module, [e for x in g for e in x], **kw)[0], chunks))
        found = 0
        for g, bad in zip(chunks, res):
            if bad is None:
                self.traces += len(g)
            elif found < 3:
                found += self.validate_all(module, g, describe, max_viol=3 - found, **kw)
        return found

    def canary(self, module, events, consts=""):
        """A deliberately corrupted trace: the trace specification has to reject it."""
        bad, _ = self.validate(module, events, consts=consts)
        if bad is None:
            raise CheckError("trace specification %s accepts a corrupted trace" % module)
        self.count("corrupted_traces_rejected")

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
        try:
            os.rmdir(os.path.join(VERIF, ".work"))
        except OSError:
            pass


class Cfg:
    """A TLC configuration: constants as TLA+ expressions, invariants, temporal properties."""

    def __init__(self, consts, inv=(), props=(), spec="Spec", extra=""):
        self.consts, self.inv, self.props, self.spec, self.extra = dict(consts), inv, props, spec, extra

    def text(self):
        return ("SPECIFICATION %s\n" % self.spec + "".join("CONSTANT %s <- mc_%s\n" % (k, k) for k in self.consts) +
                "".join("INVARIANT %s\n" % i for i in self.inv) + "".join("PROPERTY %s\n" % i for i in self.props) +
                self.extra)


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def classify(how, oom=False):
    """What a driver's end says about the code under test; None: nothing (an error of the check)."""
    low = how.lower()
    if "out of memory" in low or "cannot allocate" in low:
        return "out of memory" if oom else None
    if how.startswith("hang"):
        return "hang"
    if "all goroutines are asleep" in how:
        return "deadlock"
    if "DATA RACE" in how:
        return "data race"
    if "panic:" in how or "fatal error:" in how:
        return "panic"
    return None


def tail(out, n=60):
    keep = [l for l in out.splitlines() if not l.startswith(('"@J', "Parsing file", "Semantic processing"))]
    return "\n".join(keep[-n:])[-6000:]


def write_nd(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, ensure_ascii=True, separators=(",", ":")) + "\n")


def read_nd(path):
    res = []
    with open(path, errors="replace") as f:
        for line in f:
            line = line.strip()
            if line:
                try:
                    res.append(json.loads(line))
                except ValueError:
                    pass
    return res


def run(prop, fn, argv):
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(prop, tier, seed)
    rc = 2
    try:
        fn(c)
        c.write_evidence()
        if c.violations:
            rc = 1
        else:
            print("OK property=%s states=%d transitions=%d traces=%d (%.1fs)" % (
                prop, c.states, c.transitions, c.traces, time.time() - c.t0))
            rc = 0
    except Exception as e:
        if not isinstance(e, CheckError):
            traceback.print_exc()
        if c.violations:
            # a verdict taken from the real code stands, whatever failed afterwards
            c.write_evidence()
            rc = 1
        else:
            print("CHECK-ERROR property=%s %s" % (prop, e), file=sys.stderr)
            rc = 2
    finally:
        c.close()
    return rc
