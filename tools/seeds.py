"""seeds.py [id...]: writes and verifies the planted bugs listed in seeds_spec.py (in a scratch copy)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tools", "seeds_spec.py")).read(), ns)
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# cwd: the repository, built. Runs demo_test.go inside package %(pkg)s.
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/pkg/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
export DEMO_DIR="$T"
go test -overlay "$T/overlay.json" -vet=off -count=1 -run '^TestDemo$' -timeout 120s ./pkg/%(pkg)s
'''
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
only = set(sys.argv[1:])
bad = 0
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(V, "seeded", s["id"])
    if not only and os.path.exists(os.path.join(d, "patch.diff")):
        continue
    T = tempfile.mkdtemp(prefix="seed-")
    R = os.path.join(T, "repo")
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": s["pkg"]})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, R)
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(R, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "edit matches", t.count(old), "times:", old[:60]); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if ok:
        rb = sh("go build ./... && GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm", R)
        rt = sh("go test -vet=off -count=1 ./...", R)
        r1 = sh("bash %s/demo.sh" % d, R)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", R).stdout)
        base = "bf0b711^"
        touched = [l[1:] for l in open(os.path.join(d, "patch.diff")) if l.startswith("-") and not l.startswith("---")]
        orig = sh("git show " + " ".join("%s:%s" % (base, f) for f in {e[0] for e in s["edits"]}), R).stdout
        n = sum(1 for l in touched if l.strip() and l.strip("\n") in orig.split("\n"))
        print(s["id"], s["property"], "demo clean:", r0.returncode, "build:", rb.returncode, "tests:", rt.returncode, "demo patched:", r1.returncode, "original lines changed: %d of %d" % (n, len(touched)))
        if r0.returncode or rb.returncode or r1.returncode == 0 or n == 0:
            print(r0.stdout[-600:] if r0.returncode else "", rb.stdout[-600:] if rb.returncode else ""); bad = 1
        if rt.returncode:
            print("\n".join(l for l in rt.stdout.split("\n") if "FAIL" in l)[:600])
    shutil.rmtree(T)
sys.exit(bad)
