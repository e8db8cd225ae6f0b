"""Writes and tries the planted bugs of /verif/seeded.

  seedtool.py make [ID...]   regenerate seeded/ID from seeds_*.py, confirming that the
                             change builds, passes the tests, and that the demo tells
  seedtool.py check [ID...]  run the check of the property of each planted bug on a
                             scratch copy with the patch; prints caught / MISSED
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")

DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds for the history in demo_test.go.
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
timeout 250 go test -vet=off -count=1 %s-overlay "$tmp/overlay.json" -run '^TestDemo$' ./%s/
'''

def load():
    seeds = {}
    for f in sorted(glob.glob(HERE + "/seeds_*.py")):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    return seeds

def run(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    run(["cp", "-a", "/repo", d + "/repo"], "/")
    return d, d + "/repo"

def stable():
    return json.load(open("/opt/vp/BASELINE.json"))

def tests(repo):
    rc, out = run(["go", "test", "-vet=off", "-count=1", "./..."], repo)
    return rc == 0, out

def make(seeds, ids):
    d, repo = copy()
    ok = True
    try:
        for i in ids:
            s = seeds[i]
            run(["git", "checkout", "-q", "--", "."], repo)
            dst = VERIF + "/seeded/" + i
            os.makedirs(dst, exist_ok=True)
            open(dst + "/demo_test.go", "w").write(s["test"].lstrip("\n"))
            open(dst + "/demo.sh", "w").write(DEMO % (s["pkg"], "-race " if s.get("race") else "", s["pkg"]))
            os.chmod(dst + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(dst + "/meta.json", "w"), indent=1)
            rc, out = run(["bash", dst + "/demo.sh"], repo)
            if rc != 0:
                print(i, "DEMO FAILS on the unchanged tree\n", out[-3000:]); ok = False
                continue
            for f, old, new in s["edits"]:
                t = open(repo + "/" + f).read()
                if t.count(old) != 1:
                    print(i, "edit matches", t.count(old), "times in", f, repr(old)); ok = False
                open(repo + "/" + f, "w").write(t.replace(old, new, 1))
            run(["gofmt", "-w"] + sorted({e[0] for e in s["edits"]}), repo)
            rc, out = run(["git", "diff"], repo)
            open(dst + "/patch.diff", "w").write(out)
            # are the lines the patch removes original ones?
            base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout.strip()
            orig = 0
            for f in sorted({e[0] for e in s["edits"]}):
                bl = run(["git", "blame", "-s", "-l", "HEAD", "--", f], repo)[1].splitlines()
                d0 = run(["git", "diff", "-U0", "--", f], repo)[1]
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for l in bl[a-1:a-1+n]:
                        mine = base[:39] not in l and not l.startswith("^")
                        if mine: print(i, "touches a line of a fix:", l[40:120])
                        else: orig += 1
            if not orig: print(i, "changes no original line"); ok = False
            rc, out = run(["go", "build", "./..."], repo)
            if rc: print(i, "DOES NOT BUILD\n", out); ok = False; continue
            good, out = tests(repo)
            if not good: print(i, "TESTS FAIL\n", out[-2500:]); ok = False
            rc, out = run(["bash", dst + "/demo.sh"], repo)
            if rc == 0: print(i, "DEMO PASSES with the patch"); ok = False
            elif "build failed" in out or "setup failed" in out: print(i, "demo does not build", out); ok = False
            else:
                why = [l.strip() for l in out.splitlines() if "demo_test.go" in l or "panic" in l or "DATA RACE" in l]
                print(i, "ok:", (why or out.splitlines())[0][:150])
    finally:
        shutil.rmtree(d)
    return ok

def check(seeds, ids):
    d, repo = copy()
    res = {}
    try:
        for i in ids:
            run(["git", "checkout", "-q", "--", "."], repo)
            meta = json.load(open(VERIF + "/seeded/" + i + "/meta.json"))
            rc, out = run(["git", "apply", VERIF + "/seeded/" + i + "/patch.diff"], repo)
            if rc: print(i, "does not apply", out); continue
            rc, out = run([VERIF + "/check.sh", meta["property"]], VERIF, dict(ENV, REPO=repo))
            v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
            if rc == 1 and v:
                rep = v[0].split("replay=")[-1]
                why = open(rep).read().split("\n")[:2] if os.path.exists(rep) else [""]
                print("caught", i, meta["property"], " / ".join(why)[:200])
            else:
                print("MISSED", i, meta["property"], "rc", rc, out[-300:])
            sys.stdout.flush()
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    seeds = load()
    ids = sys.argv[2:]
    if sys.argv[1] == "make":
        sys.exit(0 if make(seeds, ids or list(seeds)) else 1)
    check(seeds, ids or sorted(os.listdir(VERIF + "/seeded")))
