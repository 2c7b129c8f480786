"""catch.py [id...]: runs each planted bug's check on a patched copy; says what the proof and the run-time contracts each report."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
def one(i):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    T = tempfile.mkdtemp(prefix="catch-")
    R = T + "/repo"
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    C = T + "/verif"
    subprocess.run(["bash", "-c", "mkdir %s && cd %s && cp -a %s/{check.py,checks.json,contracts,harness,bin,gvc,lean} . && touch bin/gvc" % (C, C, V)], check=True)
    c = subprocess.run(["python3", C + "/check.py", prop], cwd=C, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(T)
    failed = [l[27:] for l in c.stdout.split("\n") if l.startswith("obligation not discharged: ")]
    run = [l for l in c.stdout.split("\n") if l.startswith("the real code")]
    return "%s %s apply=%d exit=%d\n   proof: %s\n   run: %s" % (i, prop, a.returncode, c.returncode, "; ".join(x[:110] for x in failed[:4]) + (" …%d" % len(failed) if len(failed) > 4 else "") or "-", (run[0][41:260] if run else "-"))
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
