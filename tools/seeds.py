#!/usr/bin/env python3
"""Development aid: verifies planted bugs (seeded/<id>) in scratch copies and runs the checks against them.
usage: seeds.py verify|run|all [-j N] [-t tier] [-p Pxx] [id...]   (-p: run this property's check instead of the bug's own)"""
import argparse, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, HOME="/root", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ap = argparse.ArgumentParser()
ap.add_argument("cmd")
ap.add_argument("ids", nargs="*")
ap.add_argument("-j", type=int, default=3)
ap.add_argument("-t", default="quick")
ap.add_argument("-p")
ap.add_argument("-s", default="1")
a = ap.parse_args()


def sh(cmd, cwd, timeout=900, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def copy(i, tag):
    d = "/tmp/seedwork/%s-%s-%d" % (i, tag, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def demo(i, d):
    e = d + "-demo"
    shutil.rmtree(e, ignore_errors=True)
    shutil.copytree(os.path.join(S, i), e, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(["bash", os.path.join(e, "demo.sh")], d, 300)
    shutil.rmtree(e)
    return r


def stable(d):
    rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], d)
    ok = set()
    for l in out.splitlines():
        try:
            x = json.loads(l)
        except ValueError:
            continue
        if x.get("Action") == "pass" and x.get("Test"):
            ok.add(x["Package"] + "/" + x["Test"])
    return STABLE - ok


def verify(i):
    d = copy(i, "v")
    try:
        rc, out = demo(i, d)
        if rc != 0:
            return "BAD demo on clean: %s %s" % (rc, out[-400:])
        rc, out = sh(["git", "apply", os.path.join(S, i, "patch.diff")], d)
        if rc:
            return "BAD patch: " + out
        rc, out = sh(["go", "build", "./..."], d)
        if rc:
            return "BAD build: " + out[-500:]
        miss = stable(d)
        if miss:
            return "BAD stable tests fail: %s" % sorted(miss)
        rc, out = demo(i, d)
        if rc == 0:
            return "BAD demo passes on patched"
        return "ok (demo: %s)" % out.strip().splitlines()[-1][:150] if out.strip() else "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(i):
    p = a.p or json.load(open(os.path.join(S, i, "meta.json")))["property"]
    d = copy(i, "r")
    t = time.time()
    try:
        rc, out = sh(["git", "apply", os.path.join(S, i, "patch.diff")], d)
        if rc:
            return "BAD patch"
        rc, out = sh([os.path.join(V, "check"), p, a.t], V, 1500, dict(os.environ, VERIF_REPO=d, VERIF_SEED=a.s))
        lines = [l for l in out.splitlines() if l.strip()]
        k = next((j for j, l in enumerate(lines) if l.startswith("VIOLATION property=" + p)), None)
        if rc == 1 and k is not None:
            return "CAUGHT by %s (%.0fs) %s" % (p, time.time() - t, lines[k + 1][:200] if k + 1 < len(lines) else "")
        return "MISSED by %s rc=%s (%.0fs) %s" % (p, rc, time.time() - t, " | ".join(lines[-3:])[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(i):
    r = []
    if a.cmd in ("verify", "all"):
        r.append(verify(i))
    if a.cmd in ("run", "all") and not (r and r[0].startswith("BAD")):
        r.append(run(i))
    print(i, "::", " || ".join(r), flush=True)


with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(one, a.ids or sorted(os.listdir(S))))
