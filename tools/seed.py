#!/usr/bin/env python3
"""Make and confirm planted bugs, and see which checks catch them.

  seed.py make SPEC.py [ID ...]   build seeded/<id>/ from a spec, keep it only if confirmed
  seed.py confirm ID ...          confirm existing ones against /repo's HEAD
  seed.py catch ID ... [--all]    apply each to /repo, run its check (or all), undo

A spec file holds a list BUGS of dicts: id, property, edits [(file, old, new)],
demo (body of a Go test file), needs, breaks.
"""
import json, os, re, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
DEMO = '''#!/bin/bash
# cwd: the repository. Runs demo_test.go, which lies beside this file, as a
# package of the repository through an overlay (nothing is written there).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace": {"%s/zzdemo/demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -c @FLAGS@-vet=off -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo/ || { echo "demo: build failed"; exit 3; }
cd "$tmp" && ./demo -test.timeout 240s
'''
def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, errors="replace", timeout=timeout)
def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    return d, r
def tests(r):
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"] if isinstance(base, dict) and "stable" in base else base.get("tests", base))
    out = sh("go test -json -vet=off -count=1 ./...", r).stdout
    ok, bad = set(), set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "fail": bad.add((e["Package"], e.get("Test")))
        if e.get("Action") == "pass" and e.get("Test"): ok.add((e["Package"], e["Test"]))
    return len(ok), bad
def confirm(i):
    d, r = scratch()
    try:
        p = os.path.join(S, i)
        demo = os.path.join(p, "demo.sh")
        a = sh(f"bash {demo}", r)
        if a.returncode: return "demo fails on the unchanged tree: " + a.stdout[-800:] + a.stderr[-800:]
        if sh(f"git apply {p}/patch.diff", r).returncode: return "patch does not apply"
        b = sh("go build ./...", r)
        if b.returncode: return "does not build: " + b.stderr[-800:]
        n, bad = tests(r)
        if bad: return f"tests fail: {sorted(map(str, bad))[:5]}"
        c = sh(f"bash {demo}", r)
        if c.returncode == 0: return "demo passes with the patch"
        if "build failed" in c.stdout or "setup failed" in c.stdout: return "demo does not build: " + c.stdout[-500:] + c.stderr[-500:]
        return f"ok ({n} passing test events)"
    finally:
        shutil.rmtree(d)
def original_lines(diff):
    """removed lines must come from the base commit"""
    cur = None; bad = []
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]; base = sh(f"git show 59fc55e:{cur}", "/repo").stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and l[1:] not in base: bad.append(l)
    return bad
def make(spec, only):
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only: continue
        d, r = scratch()
        try:
            err = None
            for f, old, new in b["edits"]:
                t = open(os.path.join(r, f)).read()
                if t.count(old) != 1: err = f"{f}: {t.count(old)} matches of {old!r}"; break
                open(os.path.join(r, f), "w").write(t.replace(old, new))
            if err: print(b["id"], "ERROR", err); continue
            sh("gofmt -l -w .", r) if False else None
            diff = sh("git diff", r).stdout
        finally:
            shutil.rmtree(d)
        p = os.path.join(S, b["id"]); os.makedirs(p, exist_ok=True)
        open(p + "/patch.diff", "w").write(diff)
        open(p + "/demo_test.go", "w").write(b["demo"].lstrip())
        open(p + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", b.get("flags", "")))
        os.chmod(p + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(p + "/meta.json", "w"), indent=1)
        res = confirm(b["id"])
        print(b["id"], b["property"], res, ("NOT ORIGINAL: %s" % original_lines(diff)) if original_lines(diff) else "")
        if not res.startswith("ok"): shutil.rmtree(p)
def catch(ids, allchecks):
    props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    assert not sh("git status --porcelain", "/repo").stdout
    for i in ids:
        prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
        try:
            assert sh(f"git apply {S}/{i}/patch.diff", "/repo").returncode == 0
            got = []
            for p in (props if allchecks else [prop]):
                o = sh(f"./run.sh {p} quick", V, 1000)
                if o.returncode == 1 and f"VIOLATION property={p}" in o.stdout: got.append(p)
                elif o.returncode: got.append(f"{p}:rc{o.returncode}")
        finally:
            sh("git checkout -- .", "/repo")
        print(f"{i:28s} {prop} {'CAUGHT' if prop in got else 'MISSED'} {' '.join(got) if allchecks else ''}", flush=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": make(a[1], a[2:])
    elif a[0] == "confirm":
        for i in a[1:] or sorted(os.listdir(S)): print(i, confirm(i))
    elif a[0] == "catch":
        al = "--all" in a
        ids = [x for x in a[1:] if x != "--all"] or sorted(os.listdir(S))
        catch(ids, al)
