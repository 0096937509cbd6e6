#!/usr/bin/env python3
"""Plant bugs: tools/plant.py BUGS.py [id...]

BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], demo=go test text,
needs, breaks, race=False)]. Each is tried in a scratch copy of /repo: it must build, pass the
stable tests, the demonstration must pass without it and fail with it. Then it is written to
/verif/seeded/<id>/."""
import sys, os, subprocess, shutil, json, tempfile, runpy
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
SH = """#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/o.json"
go test -vet=off -count=1 -timeout 120s RACE-run '^TestZZDemo$' -overlay "$T/o.json" .
"""
def run(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "tests", "stable"):
        if k in b: return b[k]
    return b
def tests(repo):
    p = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], repo)
    ok, bad = set(), set()
    for l in p.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Test"):
            if d["Action"] == "pass": ok.add(d["Test"])
            if d["Action"] == "fail": bad.add(d["Test"])
    return ok, bad, p.stdout
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    base = None
    for b in bugs:
        if want and b["id"] not in want: continue
        tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try:
            repo = tmp + "/repo"
            subprocess.check_call(["cp", "-a", "/repo", repo])
            d = tmp + "/d"; os.mkdir(d)
            open(d + "/demo_test.go.txt", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(SH.replace("RACE", "-race " if b.get("race") else ""))
            if base is None: base = tests(repo)[0]
            p = run(["bash", d + "/demo.sh"], repo)
            if p.returncode != 0:
                print(b["id"], "DEMO FAILS ON UNCHANGED\n", p.stdout[-1500:]); continue
            fail = False
            for f, old, new in b["edits"]:
                s = open(f"{repo}/{f}").read()
                if s.count(old) != 1: print(b["id"], "EDIT COUNT", s.count(old), f, old); fail = True; break
                open(f"{repo}/{f}", "w").write(s.replace(old, new))
            if fail: continue
            p = run(["go", "build", "./..."], repo)
            if p.returncode: print(b["id"], "BUILD", p.stdout); continue
            ok, bad, out = tests(repo)
            if bad or base - ok: print(b["id"], "CAUGHT BY TESTS", sorted(bad or base - ok)[:5]); continue
            p = run(["bash", d + "/demo.sh"], repo)
            if p.returncode == 0: print(b["id"], "DEMO PASSES WITH BUG"); continue
            diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            out = f"/verif/seeded/{b['id']}"
            if os.path.isdir(out): shutil.rmtree(out)
            shutil.copytree(d, out)
            # lines must belong to the original repository
            warn = []
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---"):
                    f = None
            print(b["id"], "ok:", [l.strip() for l in p.stdout.splitlines() if "demo_test" in l or "panic" in l or "RACE" in l][:2])
        finally:
            shutil.rmtree(tmp)
main()
