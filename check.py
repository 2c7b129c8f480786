#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree (see DESIGN.md).

1. gvc generates every obligation of the contracts behind the property from /repo's source and has the solvers discharge them.
2. The same contracts are evaluated at run time on the real code (the replay stage): a violated one gives the failing input.
Exit 0: every obligation discharged and no violated run-time contract. Exit 1: VIOLATION line.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, glob, resource

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
CFG = json.load(open(os.path.join(V, "checks.json")))
P = CFG["properties"][PROP]
T0 = time.time()

ENV = dict(os.environ)
ENV.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
ENV["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")
if os.path.isdir("/root"):
    ENV["HOME"] = "/root"

TMP = tempfile.mkdtemp(prefix="verif-" + PROP + "-")
os.chmod(TMP, 0o755)


def sh(cmd, cwd=V, timeout=600, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -99, out


# ------------------------------------------------------------------ proof
def gvc_bin():
    b = os.path.join(V, "bin", "gvc")
    src = glob.glob(os.path.join(V, "gvc", "*.go"))
    if os.path.exists(b) and all(os.path.getmtime(b) >= os.path.getmtime(s) for s in src):
        return b, ""
    own = os.path.join(TMP, "gvc")
    rc, out = sh(["go", "build", "-o", own, "."], cwd=os.path.join(V, "gvc"), timeout=600)
    if rc != 0:
        return None, out
    return own, ""


PROOF = {}


def run_gvc(b, t1, t2, out, timeout):
    cmd = [b, "-repo", REPO, "-specs", os.path.join(V, "contracts"), "-prop", PROP, "-t1", str(t1), "-t2", str(t2), "-out", out]
    if P.get("tags"):
        cmd += ["-tags", P["tags"]]
    if P.get("safety"):
        cmd += ["-safety"]
    rc, txt = sh(cmd, timeout=timeout)
    PROOF["cmd"] = " ".join(cmd[:-2])
    try:
        return rc, json.load(open(out)), txt
    except Exception:
        return rc, None, txt


def proof():
    try:
        b, err = gvc_bin()
        if b is None:
            PROOF["broken"] = "the verifier does not build: " + err
            return
        big = TIER == "thorough"
        rc, res, txt = run_gvc(b, 20000 if big else 5000, 60000 if big else 15000, os.path.join(TMP, "p1.json"), 800 if big else 400)
        PROOF.update(rc=rc, res=res, txt=txt)
    except Exception as e:
        PROOF["broken"] = repr(e)


# ------------------------------------------------------------------ the lemmas the contracts use
LEAN = {}


def lemmas():
    """Lean re-checks the statements the contracts mark [lean] and [defn], as gvc prints them from the contracts"""
    try:
        b, err = gvc_bin()
        lean = next((x for x in [shutil.which("lean", path=ENV["PATH"])] + sorted(glob.glob("/app/toolchains/lean-*/bin/lean")) if x), None)
        if b is None or lean is None:
            LEAN["not_run"] = "no lean" if lean is None else "no gvc"
            return
        f = os.path.join(TMP, "Lemmas.lean")
        rc, out = sh([b, "-specs", os.path.join(V, "contracts"), "-lean", os.path.join(V, "lean", "Lemmas.lean"), "-leanout", f], timeout=60)
        if rc != 0:
            LEAN["failed"] = out
            return
        t = time.time()
        rc, out = sh([lean, f], timeout=400)
        if rc == -99:
            LEAN["not_run"] = "timed out"
            return
        names = re.findall(r"'Vp\.Checked\.(\w+)' (?:depends|does not depend)", out)
        bad = [x for x in re.findall(r"depends on axioms: \[([^\]]*)\]", out) if set(a.strip() for a in x.split(",")) - {"propext", "Classical.choice", "Quot.sound"}]
        if rc != 0 or bad or not names:
            LEAN["failed"] = out[-3000:]
        LEAN.update(proved=names, ms=int(1000 * (time.time() - t)))
    except Exception as e:
        LEAN["not_run"] = repr(e)


# ------------------------------------------------------------------ run-time contracts on the real code
RUN = {}


def lower(uid):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
        except Exception:
            pass
    return f


def run_bin(binp, journal=None, secs=None):
    d = os.path.join(TMP, "scratch%d" % (1 if journal else 0))
    os.makedirs(d, exist_ok=True)
    try:
        os.chown(d, 65534, 65534)
    except OSError:
        os.chmod(d, 0o777)
    out = os.path.join(d, "report.json")
    e = dict(ENV)
    e.update(HOME=d, TMPDIR=d, VERIF_PROP=PROP, VERIF_OUT=out, VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_SECS=str(secs), GOMEMLIMIT="6GiB", GOTRACEBACK="single")
    if journal:
        e["VERIF_JOURNAL"] = os.path.join(d, "journal")
    log = os.path.join(d, "log")
    with open(log, "w") as lf:
        p = subprocess.Popen([binp, "-test.run", "^TestVerifProperty$", "-test.timeout", "0"], cwd=d, env=e, stdout=lf, stderr=lf, preexec_fn=lower(65534), start_new_session=True)
        try:
            p.wait(timeout=secs + 150)
            hung = False
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, 9)
            p.wait()
    rep = None
    try:
        rep = json.load(open(out))
    except Exception:
        pass
    tail = open(log, errors="replace").read()
    j = []
    if journal:
        try:
            j = open(os.path.join(d, "journal"), errors="replace").read().split("\n")
        except OSError:
            pass
    return rep, hung, p.returncode, tail, j


def harness():
    try:
        ov = os.path.join(TMP, "overlay.json")
        json.dump({"Replace": {os.path.join(REPO, "pkg/app/zz_" + os.path.basename(f)): f for f in glob.glob(os.path.join(V, "harness", "*_test.go"))}}, open(ov, "w"))
        binp = os.path.join(TMP, "harness.test")
        rc, out = sh(["go", "test", "-overlay", ov, "-vet=off", "-c", "-o", binp, "./pkg/app"], cwd=REPO, timeout=600)
        if rc != 0:
            RUN["nobuild"] = out[-3000:]
            return
        secs = 240.0 if TIER == "thorough" else 25.0
        rep, hung, code, tail, _ = run_bin(binp, None, secs)
        if rep is None:
            # the process died (stack exhaustion, fatal error) or never came back: again, noting every step
            rep2, hung2, code2, tail2, j = run_bin(binp, True, secs)
            if rep2 is None and (hung2 or "fatal error" in tail2 or "panic" in tail2 or "stack" in tail2):
                what = "an operation did not return within %d s" % (secs + 150) if hung2 else "the process died: " + (re.search(r"(?m)^(runtime: .*|fatal error.*|panic:.*)$", tail2) or ["exit %s" % code2])[0]
                RUN["rep"] = {"violation": what, "input": [x for x in j if x][-400:] + ["--- output"] + tail2.split("\n")[:60], "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "parts": []}
            elif rep2 is not None:
                RUN["rep"] = rep2
            else:
                RUN["nobuild"] = "no report: exit %s %s" % (code2, tail2[-2000:])
            return
        RUN["rep"] = rep
    except Exception as e:
        RUN["nobuild"] = repr(e)


def main():
    th = [threading.Thread(target=proof), threading.Thread(target=harness), threading.Thread(target=lemmas)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    rep = RUN.get("rep")
    concrete = rep and rep.get("violation")
    res = PROOF.get("res")
    if res is not None and PROOF["rc"] != 0 and not concrete:
        # a busy machine can starve a solver: give the open obligations another, longer try before raising an alarm
        b, _ = gvc_bin()
        rc, res2, txt2 = run_gvc(b, 15000, 45000, os.path.join(TMP, "p2.json"), 330)
        if res2 is not None:
            PROOF.update(rc=rc, res=res2, txt=txt2)
            res = res2
    failed = []
    if "broken" in PROOF:
        failed = [PROOF["broken"]]
    elif res is None:
        failed = ["the verifier gave no result: " + PROOF.get("txt", "")[-1500:]]
    else:
        failed = list(res.get("failed") or [])
        if res.get("error"):
            failed.append("obligations could not be generated: " + res["error"])
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    replay = os.path.join(V, "replays", PROP + ".txt")
    known = known_findings()
    lines = []
    violations = 0
    if concrete:
        hit = [k for k in known if k in rep["violation"] or any(k in x for x in rep.get("input") or [])]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (PROP, hit[0]))
        else:
            violations += 1
            with open(replay, "w") as f:
                f.write("property %s is broken\n%s\n\nfailing input (steps on the real code, in order):\n" % (PROP, rep["violation"]))
                f.write("".join("  " + x + "\n" for x in rep.get("input") or []))
                f.write("\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s\n" % (SEED, TIER, V, PROP))
                if failed:
                    f.write("\nobligations the verifier does not discharge:\n" + "".join("  " + x + "\n" for x in failed))
            print("the real code violates a contract: " + rep["violation"])
            for x in failed[:20]:
                print("obligation not discharged: " + x)
            lines.append("VIOLATION property=%s replay=%s" % (PROP, replay))
    elif failed:
        violations += 1
        with open(replay, "w") as f:
            f.write("property %s: obligations generated from the current source that the verifier does not discharge\n" % PROP)
            f.write("".join("  " + x + "\n" for x in failed))
            f.write("\nno failing input was found by running the contracts on the real code (%s evaluations)\n" % ((rep or {}).get("evaluations", 0)))
            f.write("\nreplay: %s\n\nverifier output:\n%s\n" % (PROOF.get("cmd", ""), PROOF.get("txt", "")[-4000:]))
        for x in failed[:20]:
            print("obligation not discharged: " + x)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay))
    evidence(res, rep, failed, violations)
    for l in lines:
        print(l)
    if res is not None:
        print("%s: %d of %d obligations discharged; run-time contracts: %s" % (PROP, res.get("proved", 0), res.get("total", 0), ("%d evaluations" % rep["evaluations"]) if rep else "not run"))
    if "failed" in LEAN and not violations:
        print("a lemma of the contracts is not proved: " + LEAN["failed"])
        return 2
    return 1 if violations else 0


def known_findings():
    out = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(.+)$", l.strip())
            if m and m.group(1) == PROP:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def evidence(res, rep, failed, violations):
    cov = {}
    level = P["level"]
    if res is not None:
        # vacuity checks (the hypotheses are not seen to be contradictory) are sanity checks, not proof obligations: counted apart
        obl = lambda f, v: [o for o in f["obligations"] or [] if (o.get("expect") == "sat") == v]
        count = lambda v: sum(len(obl(f, v)) for f in res["functions"] or [])
        done = lambda v: sum(1 for f in res["functions"] or [] for o in obl(f, v) if o["status"] == "proved")
        backs = {}
        for f in res["functions"] or []:
            for o in obl(f, False):
                if o["status"] == "proved":
                    backs[o["solver"] or "none"] = backs.get(o["solver"] or "none", 0) + 1
        fns = [{"function": f["name"], "kind": f["kind"], "obligations": len(obl(f, False)),
                "discharged": sum(1 for o in obl(f, False) if o["status"] == "proved"),
                "inlined": f.get("inlined") or [], "loop_invariants": f.get("invariants") or [], "ms": f["ms"]} for f in res["functions"] or []]
        ax = {}
        for a in res.get("axioms") or []:
            ax.setdefault(a["Kind"], []).append(a["Name"])
        cov.update(obligations=count(False), discharged=done(False), vacuity_checks={"made": count(True), "hypotheses_not_refuted": done(True)}, checker_cmd=PROOF.get("cmd", ""),
                   trusted_base=CFG["trusted_base"] + ["axioms " + k + ": " + ", ".join(v) for k, v in sorted(ax.items()) if k != "obligation" and not ("proved" in LEAN and k in ("lean", "defn"))] + ["contract taken on trust: " + t for t in res.get("trusted_contracts") or []],
                   lemmas_proved_in_lean=({"statements": len(LEAN["proved"]), "names": LEAN["proved"], "solver": "lean 4 (kernel), axioms propext, Classical.choice, Quot.sound", "ms": LEAN["ms"]} if "proved" in LEAN else LEAN),
                   functions_under_contract=fns, by_back_end=backs, solver_ms=res["solver_ms"],
                   discharged_by_other_checks=res.get("discharged_by_other_checks") or [],
                   contracts_without_function=res.get("contracts_without_function") or [],
                   not_discharged=failed)
    else:
        cov.update(obligations=1, discharged=0, checker_cmd=PROOF.get("cmd", "gvc"), trusted_base=CFG["trusted_base"], not_discharged=failed)
    if rep:
        r = {"label": "bounded: sampled executions of the real code, not counted as proved", "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct_nontrivial"],
             "rule": P.get("rule", "pseudo-random histories over a small alphabet of ids and texts; one evaluation is one operation whose contract is compared with the observed result; distinct ones are counted by operation and arguments"),
             "samples": (rep.get("samples") or [])[:6], "parts": rep.get("parts") or []}
    else:
        r = {"label": "bounded", "not_run": RUN.get("nobuild", "")}
    cov["runtime_contracts"] = r
    if P.get("bounded"):
        cov["bounded_parts"] = P["bounded"]
    if P.get("not_covered"):
        cov["not_covered"] = P["not_covered"]
    if level != "proof":
        cov["explanation"] = P.get("explanation", "")
        if rep:
            cov.update(evaluations=rep["evaluations"], distinct_nontrivial=rep["distinct_nontrivial"], rule=r["rule"], samples=r["samples"])
    ass = list(CFG["assumptions"]) + list(P.get("assumptions", []))
    if res is not None:
        ass += ["external function: " + a for a in res.get("assumed") or []]
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - T0, 2), "violations": violations}
    tmp = os.path.join(V, "evidence", PROP + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", PROP + ".json"))


try:
    code = main()
finally:
    shutil.rmtree(TMP, ignore_errors=True)
sys.exit(code)
