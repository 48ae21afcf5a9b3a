#!/usr/bin/env python3
"""Builds and runs the checks.

    run.py setup                     build everything
    run.py check P01 [quick|thorough]
    run.py replay FILE               run a recorded violation again
"""
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
SHARDS = 8
# time limits of the search, in seconds. They are only there to bound a run on
# a busy machine: the number of cases decides what is explored.
LIMIT = {"quick": 300, "thorough": 3000}
RACE = {"P20"}
TOOLS = {"P12"}
HANG = 60

ASSUMPTIONS = {
    "P07": ["the database is a model (harness/ref/exec.go): it executes the statements by the documented rules of MySQL, with foreign key checks off; DROP INDEX of an index that a foreign key needs, generated names of unnamed keys and uniqueness of foreign key names across tables are not modelled"],
    "P06": ["the independent reader (harness/ref/ddl.go) covers the part of the MySQL syntax that schemalex supports"],
    "P16": ["the server is a model of the MySQL protocol (harness/fakemysql) on in-memory connections"],
    "P20": ["schedules are those of the Go runtime, perturbed by random yields; the race detector sees races between accesses that happen in the run, whatever their order"],
}


def env():
    e = dict(os.environ)
    go = "/opt/veriftools/go1.27.3/bin"
    e["PATH"] = go + ":" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOWORK="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["GIT_CONFIG_NOSYSTEM"] = "1"
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(dest, race=False, tools=False):
    os.makedirs(dest, exist_ok=True)
    worker = os.path.join(dest, "worker-race" if race else "worker")
    cmds = [(HARNESS, ["go", "build"] + (["-race"] if race else []) + ["-o", worker, "./cmd/worker"])]
    if tools:
        cmds.append((REPO, ["go", "build", "-o", dest + "/", "./cmd/..."]))
    for cwd, cmd in cmds:
        p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            die("%s:\n%s" % (" ".join(cmd), p.stdout))
    return worker


def listed(prop):
    """The ids of the known findings of a property."""
    ids = set()
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
        for line in f:
            w = line.split()
            if len(w) >= 3 and w[0] == "known:" and w[1] == "property=" + prop:
                ids.add(w[2])
    return ids


def report(prop, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, prop + ".json")
    with open(fn, "w") as f:
        json.dump(failure, f, indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, fn))
    print(failure.get("message", ""))
    for d in failure.get("details") or []:
        print(d)
    return fn


def check(prop, tier):
    start = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, scratch, start):
    race = prop in RACE
    worker = build(os.path.join(scratch, "bin"), race, prop in TOOLS)
    common = [worker, "-prop", prop, "-bin", os.path.join(scratch, "bin")] + (["-race"] if race else [])
    if tier == "thorough":
        common.append("-thorough")
    failure = None

    # findings
    p = subprocess.run(common + ["-known"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
    if p.returncode == 0:
        known = listed(prop)
        for f in json.loads(p.stdout or "null") or []:
            if not f["Still"]:
                continue
            if f["ID"] in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, f["ID"], f["What"]))
            else:
                failure = {"property": prop, "message": "%s: %s" % (f["ID"], f["What"]), "details": [], "choices": [], "known": f["ID"]}
    else:
        # the search below is going to find out why
        print("probing the known findings failed: " + p.stderr[-2000:])

    # search
    procs = []
    for i in range(SHARDS):
        d = os.path.join(scratch, "shard%d" % i)
        os.makedirs(d)
        cmd = common + ["-seed", str(seed), "-shard", str(i), "-shards", str(SHARDS), "-time", "%ds" % LIMIT[tier], "-hang", "%ds" % HANG,
                        "-out", os.path.join(scratch, "out%d.json" % i), "-state", os.path.join(scratch, "state%d" % i), "-scratch", d]
        err = open(os.path.join(scratch, "err%d" % i), "w+b")
        procs.append((i, subprocess.Popen(cmd, env=env(), stdin=subprocess.DEVNULL, stdout=err, stderr=err), err))
    results, crashes = [], []
    for i, p, err in procs:
        try:
            rc = p.wait(timeout=LIMIT[tier] + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = p.wait()
        out = os.path.join(scratch, "out%d.json" % i)
        if rc in (0, 1) and os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
            continue
        err.seek(0)
        text = err.read().decode("utf-8", "replace")
        with open(os.path.join(scratch, "state%d" % i), "rb") as f:
            b = f.read(8)
        crashes.append((i, rc, struct.unpack("<q", b)[0] if len(b) == 8 else 0, text))
    for r in sorted((r["failure"] for r in results if r.get("failure")), key=lambda f: len(f["choices"] or [])):
        failure = failure or r
    error = None
    if failure is None:
        for i, rc, s, text in crashes:
            if s == 0:
                error = "shard %d ended with %d: %s" % (i, rc, text[-3000:])
                continue
            # confirm and simplify it in processes of their own
            out = os.path.join(scratch, "crash%d.json" % i)
            d = os.path.join(scratch, "crash%d" % i)
            os.makedirs(d)
            hang = 30 if rc == 3 else HANG
            try:
                subprocess.run(common + ["-crashed", str(s), "-out", out, "-scratch", d, "-hang", "%ds" % hang], env=env(), stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(out):
                with open(out) as f:
                    failure = json.load(f)["failure"]
                failure["details"] = [text[:6000]]
                break
            if race and rc == 66:
                failure = {"property": prop, "message": "data race", "details": [text[:8000]], "seed": s, "choices": [], "tape": s}
                break
            error = "shard %d ended with %d, which can not be reproduced: %s" % (i, rc, text[-3000:])

    hashes = set()
    classes = {}
    samples = []
    for r in results:
        hashes.update(r["hashes"] or [])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
    for k in range(4):
        for r in results:
            if len(samples) < 6 and k < len(r["samples"] or []):
                samples.append(r["samples"][k])
    cov = {
        "evaluations": sum(r["cases"] for r in results),
        "distinct_nontrivial": len(hashes),
        "rule": (results[0]["rule"] if results else ""),
        "samples": samples,
        "classes": dict(sorted(classes.items())),
        "shards": len(results),
        "stopped_by_time_limit": any(r["timed_out"] for r in results),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ASSUMPTIONS.get(prop, []), "wall_s": round(time.time() - start, 2), "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s: %d cases, %d distinct and non-trivial, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    if failure:
        report(prop, failure)
        return 1
    if error:
        die(error)
    if not cov["evaluations"] or not cov["distinct_nontrivial"]:
        die("nothing was explored")
    return 0


def replay(fn):
    fn = os.path.abspath(fn)
    with open(fn) as f:
        failure = json.load(f)
    prop = failure["property"]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        race = prop in RACE
        worker = build(os.path.join(scratch, "bin"), race, prop in TOOLS)
        args = [worker, "-prop", prop, "-bin", os.path.join(scratch, "bin"), "-scratch", scratch] + (["-race"] if race else [])
        if failure.get("known"):
            p = subprocess.run(args + ["-known"], env=env(), stdout=subprocess.PIPE, text=True)
            bad = any(f["Still"] and f["ID"] == failure["known"] for f in json.loads(p.stdout) or [])
            print("still there" if bad else "the property holds for this case")
            rc = 1 if bad else 0
        else:
            rc = subprocess.run(args + ["-replay", fn], env=env()).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc:
        print("VIOLATION property=%s replay=%s" % (prop, fn))
    return 1 if rc else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for race in (False, True):
            build(BUILD, race, True)
        return 0
    if len(a) >= 2 and a[0] == "check":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
