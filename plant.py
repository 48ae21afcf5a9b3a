#!/usr/bin/env python3
"""Makes and judges planted bugs (seeded/). Not part of any check.

    plant.py make SPEC.py [ID...]   make seeded/<id> from the specifications
    plant.py judge [ID...]          apply each to /repo, run the checks, undo

A specification file defines BUGS, a list of dicts:
id, prop, edits [(file, old, new)...], needs, breaks, demo (body of main) or
demo_sh, and files {name: content}.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
# with PLANT_ANY=DIR, changes of lines that are not original are allowed, and
# everything goes to DIR
ANY = os.environ.get("PLANT_ANY")
SEEDED = ANY or os.path.join(VERIF, "seeded")
BASE = "b04bd6b"
DEMO_SH = """#!/bin/bash
# exits with 0 if the property holds for this input, with 1 if it does not
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export HOME="${HOME:-/root}" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
dir=$(cd "$(dirname "$0")" && pwd)
exe=$(mktemp)
trap 'rm -f "$exe"' EXIT
go build %s-o "$exe" "$dir"/*.go || exit 3
timeout 120 "$exe"
"""
HEAD = """package main

import (
%s)

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\\n", a...)
	os.Exit(1)
}

func parse(s string) model.Stmts {
	stmts, err := schemalex.New().ParseString(s)
	if err != nil {
		fail("%%s: %%s", s, err)
	}
	return stmts
}

func sql(v interface{}) string {
	var b bytes.Buffer
	if err := format.SQL(&b, v); err != nil {
		fail("format: %%s", err)
	}
	return b.String()
}

func changes(from, to string) string {
	var b bytes.Buffer
	if err := diff.Strings(&b, from, to); err != nil {
		fail("diff: %%s", err)
	}
	return b.String()
}

var _ = []interface{}{bytes.NewBuffer, format.SQL, diff.Strings, schemalex.New, model.NewTable, parse, sql, changes, strings.Index}

%s
func main() {
%s
}
"""
IMPORTS = ["bytes", "fmt", "os", "strings", "github.com/schemalex/schemalex", "github.com/schemalex/schemalex/diff", "github.com/schemalex/schemalex/format", "github.com/schemalex/schemalex/model"]


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def make(b):
    scratch = tempfile.mkdtemp(prefix="plant-")
    tree = os.path.join(scratch, "repo")
    out = os.path.join(scratch, "out")
    os.makedirs(out)
    try:
        shutil.copytree("/repo", tree, symlinks=True)
        for name, old, new in b["edits"]:
            path = os.path.join(tree, name)
            s = open(path).read()
            if s.count(old) != b.get("count", 1):
                return "edit of %s: %d matches" % (name, s.count(old))
            open(path, "w").write(s.replace(old, new))
        env = "export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod; "
        p = sh(["bash", "-c", env + "gofmt -l . ; go build ./... 2>&1"], cwd=tree)
        if p.returncode != 0:
            return "build: " + p.stdout
        p = sh(["bash", "-c", env + "go test -json -vet=off -count=1 -timeout 5m ./... | sed -E 's/(schemalex-(ca|cert|secret)-)[0-9]+/\\1N/g' > ../log; python3 /opt/vp/results.py ../res.json gojson:../log"], cwd=tree)
        res = json.load(open(os.path.join(scratch, "res.json")))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [t for t in stable if t not in passed(res)]
        if bad:
            return "tests fail: " + ", ".join(bad[:5])
        d = sh(["git", "diff"], cwd=tree).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        if not ANY and not original(d):
            return "changes no original line"
        for name, text in b.get("files", {}).items():
            open(os.path.join(out, name), "w").write(text)
        if "demo" in b:
            imports = "".join('\t"%s"\n' % i for i in sorted(set(IMPORTS + b.get("imports", []))))
            body = "\n".join("\t" + l if l else l for l in b["demo"].strip("\n").split("\n"))
            open(os.path.join(out, "demo.go"), "w").write(HEAD % (imports, b.get("decl", ""), body))
            sh(["/opt/veriftools/go1.27.3/bin/gofmt", "-w", os.path.join(out, "demo.go")])
            open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH % ("-race " if b.get("race") else ""))
        else:
            open(os.path.join(out, "demo.sh"), "w").write(b["demo_sh"])
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        good = sh(["bash", os.path.join(out, "demo.sh")], cwd="/repo", timeout=300)
        if good.returncode != 0:
            return "demo fails on the unchanged tree: " + good.stdout
        broken = sh(["bash", os.path.join(out, "demo.sh")], cwd=tree, timeout=300)
        if broken.returncode == 0:
            return "demo passes with the change"
        if broken.returncode == 3:
            return "demo does not build: " + broken.stdout
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        dest = os.path.join(SEEDED, b["id"])
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        return None
    finally:
        shutil.rmtree(scratch)


def passed(res):
    for key in ("passed", "pass"):
        if key in res:
            return set(res[key])
    return set(t for t, v in (res.get("tests") or res).items() if v in ("pass", "passed", True))


def original(d):
    """Whether the patch changes a line that was in the original tree."""
    name = None
    for line in d.split("\n"):
        if line.startswith("--- a/"):
            name = line[6:]
            base = set(sh(["git", "show", BASE + ":" + name], cwd="/repo").stdout.split("\n"))
        elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
            if line[1:] not in base:
                print("   not an original line:", line)
                return False
    return True


def judge(i, all_props=False):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    if sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout:
        sys.exit("/repo is not clean")
    p = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    if p.returncode != 0:
        return meta["property"], "does not apply: " + p.stdout
    try:
        out = []
        props = [meta["property"]]
        if all_props:
            props = ["P%02d" % n for n in range(1, 25)]
        for prop in props:
            r = sh([sys.executable, os.path.join(VERIF, "run.py"), "check", prop], cwd=VERIF, timeout=1200)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=" + prop)]
            out.append("caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "ERROR %d %s" % (r.returncode, r.stdout[-300:]))
            if all_props:
                out[-1] = prop if out[-1] == "caught" else "" if out[-1] == "MISSED" else prop + "!"
        return meta["property"], " ".join(x for x in out if x)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for b in ns["BUGS"]:
            if sys.argv[3:] and b["id"] not in sys.argv[3:]:
                continue
            try:
                r = make(b)
            except subprocess.TimeoutExpired as e:
                r = "timeout: %s" % (e.cmd,)
            print(b["id"], r or "ok", flush=True)
    elif sys.argv[1] not in ("judge", "matrix"):
        sys.exit("usage: plant.py make SPEC [ID...] | judge [ID...] | matrix [ID...]")
    else:
        every = sys.argv[1] == "matrix"
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(i, *judge(i, every), flush=True)
