#!/usr/bin/env python3
"""quiet.py [batch...]: applies behaviour-preserving edits to a scratch copy, builds and tests it, and reports every obligation the verifier then leaves open."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "quiet_spec.py")).read())
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
args = [a for a in sys.argv[1:] if not a.startswith("-")]
opts = [a for a in sys.argv[1:] if a.startswith("-")]
for b in args or sorted(BATCHES):
    d = tempfile.mkdtemp(prefix="quiet-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    for f, old, new in BATCHES[b]:
        p = f.replace("/repo", r)
        s = open(p).read()
        if s.count(old) != 1:
            print("%s: not once (%d) in %s: %s" % (b, s.count(old), f, old[:80])); sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    for cmd in (["go", "build", "./..."], ["go", "vet", "./pkg/world", "./pkg/app", "./pkg/errors", "./pkg/persistence"], ["go", "test", "./..."]):
        c = subprocess.run(cmd, cwd=r, env=ENV, capture_output=True, text=True)
        if c.returncode != 0:
            print(b, " ".join(cmd), "failed\n", (c.stdout + c.stderr)[-3000:]); sys.exit(1)
    print(b, "builds and passes the tests")
    if "-keep" in opts:
        print(r); continue
    out = os.path.join(d, "out.json")
    c = subprocess.run([V + "/bin/gvc", "-repo", r, "-specs", V + "/contracts", "-safety", "-t2", "8000", "-out", out], env=ENV, capture_output=True, text=True)
    j = json.load(open(out))
    print(b, j["proved"], "of", j["total"], j.get("error", ""))
    for x in j["failed"] or []:
        print("  open:", x)
    shutil.rmtree(d)
