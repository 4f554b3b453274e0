#!/usr/bin/env python3
"""check.py PROPERTY TIER  -- decides one property by deductive verification of /repo's current
source (govc), replays failed obligations on the real code, and rewrites evidence/PROPERTY.json."""
import fnmatch, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/KitchenMishap/pudding-shed"


def goenv(**kw):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", HOME=os.environ.get("HOME", "/root"))
    e.update(kw)
    return e


def build_govc(tmp):
    out = os.path.join(tmp, "govc")
    src = os.path.join(VERIF, "govc")
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=src, env=goenv(GOFLAGS="-mod=mod -buildvcs=false"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("cannot build govc:\n" + r.stdout)
        sys.exit(2)
    return out


def short(key):
    return key.replace(MOD + "/", "")


def load_known():
    """known_findings.txt: 'known: property=ID obligation=GLOB # text' and 'fixed: ...' (ignored)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+obligation=(.+?)\s+#\s*(.*)$", line.strip())
            if m:
                out.append(m.groups())
            m = re.match(r"known:\s+property=(\S+)\s+replay=(\S+)\s+#\s*(.*)$", line.strip())
            if m:
                out.append((m.group(1), "replay:" + m.group(2), m.group(3)))
    return out


def run_replay(prop, tier, seed, model_ints, tmp, budget):
    """Runs the executable form of the contracts against the real code. Returns (status, text, info)."""
    d = os.path.join(VERIF, "replay", prop)
    if not os.path.isdir(d):
        return "none", "no replay harness for this property", {}
    ov = {"Replace": {}}
    pkgs = set()
    for f in sorted(glob.glob(d + "/**/*_test.go", recursive=True)):
        pkg = os.path.dirname(os.path.relpath(f, d))
        pkgs.add(pkg)
        ov["Replace"][os.path.join(REPO, pkg, "zz_verif_" + os.path.basename(f))] = f
    for pkg in pkgs:
        for f in glob.glob(os.path.join(REPO, pkg, "*_test.go")):
            ov["Replace"][f] = ""
    ovf = os.path.join(tmp, "overlay.json")
    json.dump(ov, open(ovf, "w"))
    shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(tmp, "x.mod"))
    shutil.copy(os.path.join(VERIF, "lib", "pudding-shed.sum"), os.path.join(tmp, "x.sum"))
    scratch = os.path.join(tmp, "scratch")
    os.makedirs(scratch, exist_ok=True)
    env = goenv(GOFLAGS="-mod=mod -buildvcs=false -modfile=" + os.path.join(tmp, "x.mod"),
                VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_INTS=",".join(map(str, model_ints)), TMPDIR=scratch)
    cmd = ["go", "test", "-vet=off", "-count=1", "-timeout", "%ds" % budget, "-overlay", ovf, "-run", "^TestVerif", "-v"] + \
          ["./" + p for p in sorted(pkgs)]
    try:
        r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=budget + 120, errors="replace")
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        return "timeout", "replay timed out", {}
    evals = sum(int(x) for x in re.findall(r"REPLAY-EVALS (\d+)", out))
    passed = re.findall(r"^--- PASS: (\S+)", out, re.M)
    failed = re.findall(r"^\s*--- FAIL: (\S+)", out, re.M)
    info = {"evaluations": evals, "tests": passed + failed, "cmd": " ".join(cmd)}
    if rc == 0:
        return "pass", out, info
    if "[build failed]" in out or "[setup failed]" in out:
        return "build", out, info
    if failed or "panic:" in out or "fatal error:" in out:
        info["failed"] = failed
        return "fail", out, info
    return "error", out, info


def manifest_level(prop):
    for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "other"


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        code = check(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def check(prop, tier, seed, tmp, t0):
    cfgp = os.path.join(VERIF, "replay", prop, "config.json")
    cfg = json.load(open(cfgp)) if os.path.exists(cfgp) else {}
    govc = build_govc(tmp)
    out = os.path.join(tmp, "res.json")
    cmd = [govc, "-repo", REPO, "-verif", VERIF, "-prop", prop, "-json", out]
    if tier == "thorough":
        cmd += ["-slowms", "60000", "-quickms", "6000"]
    log = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace").stdout
    results = json.load(open(out)) if os.path.exists(out) else []
    if not results:
        results = [{"Key": prop, "Err": "verifier produced no result: " + log[-2000:], "VCs": None}]
    failures, obligations, discharged, covers = [], 0, 0, 0
    by_solver, solver_ms = {}, {}
    funcs, trusted, inlined, warnings = [], set(), set(), []
    for r in results:
        funcs.append(short(r["Key"]))
        for s, ms in (r.get("Solver") or {}).items():
            solver_ms[s] = solver_ms.get(s, 0) + ms
        trusted.update(short(x) for x in r.get("Trusted") or [])
        inlined.update(short(x) for x in r.get("Inlined") or [])
        warnings += ["%s: %s" % (short(r["Key"]), w) for w in r.get("Warnings") or []]
        if r.get("Err"):
            obligations += 1
            failures.append({"func": short(r["Key"]), "obligation": "generate", "status": "error", "detail": r["Err"]})
            continue
        n = 0
        for v in r.get("VCs") or []:
            if v["Kind"] == "cover":
                covers += 1
                if v["Status"] != "proved":
                    failures.append({"func": short(r["Key"]), "obligation": v["Name"], "status": "vacuous", "detail": v["Detail"]})
                continue
            obligations += 1
            n += 1
            if v["Status"] == "proved":
                discharged += 1
                by_solver[v["Solver"] or "simplifier"] = by_solver.get(v["Solver"] or "simplifier", 0) + 1
            else:
                failures.append({"func": short(r["Key"]), "obligation": v["Name"], "kind": v["Kind"], "pos": v["Pos"], "status": v["Status"],
                                 "detail": v["Detail"], "model": v["Model"], "goal": v["Goal"]})
        if n == 0:
            failures.append({"func": short(r["Key"]), "obligation": "count", "status": "vacuous", "detail": "no obligation generated"})
    known = [k for k in load_known() if k[0] == prop]
    used_known = set()
    real = []
    for f in failures:
        name = f["func"] + " " + re.sub(r"~\d+", "", f["obligation"])
        hit = None
        for k in known:
            if not k[1].startswith("replay:") and fnmatch.fnmatchcase(name, k[1].replace("[", "[[]")):
                hit = k
        if hit:
            used_known.add(hit)
        else:
            real.append(f)
    ints = []
    for f in real:
        for x in re.findall(r"\(- (\d+)\)|(?<![\w!.#@])(\d+)", f.get("model") or ""):
            v = -int(x[0]) if x[0] else int(x[1])
            if -2**63 <= v < 2**63 and v not in ints:
                ints.append(v)
    ints = ints[:200]
    rstatus, rtext, rinfo = "skipped", "", {}
    if real or cfg.get("always") or tier == "thorough":
        rstatus, rtext, rinfo = run_replay(prop, tier, seed, ints, tmp, int(cfg.get("budget", 200)) * (2 if tier == "thorough" else 1))
        # an obligation failed and the usual replay found nothing: look harder for a failing input
        extra = 0
        while real and rstatus == "pass" and extra < 4 and time.time() - t0 < 420:
            extra += 1
            s2, t2, i2 = run_replay(prop, "thorough", seed + 1000 * extra, ints, tmp, min(int(cfg.get("budget", 200)) * 2, 280))
            if s2 == "fail" and "test timed out" not in t2:
                rstatus, rtext, rinfo = s2, t2, i2
            elif s2 == "pass":
                rinfo["evaluations"] = rinfo.get("evaluations", 0) + i2.get("evaluations", 0)
            else:
                break
        if rstatus == "fail":
            fl = set(rinfo.get("failed") or [])
            ok = {k[1][7:] for k in known if k[1].startswith("replay:")}
            if fl and fl <= ok and "panic:" not in rtext:
                rstatus = "pass"
                used_known.update(k for k in known if k[1][7:] in fl)
    for k in sorted(used_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    violated = bool(real) or rstatus == "fail"
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    trusted_base = [
        "govc (this repository's own verifier, /verif/govc): symbolic execution of go/ssa and its library models",
        "go/types + golang.org/x/tools/go/ssa v0.52.0 (source to SSA)",
        "SMT back ends z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
    ] + ["assumed contract: " + t for t in sorted(trusted)]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": manifest_level(prop),
          "coverage": {"obligations": obligations, "discharged": discharged,
                       "checker_cmd": "govc -prop %s (z3-new, cvc5, z3)" % prop, "trusted_base": trusted_base,
                       "functions_under_contract": sorted(funcs), "functions_inlined": sorted(inlined), "by_back_end": by_solver,
                       "solver_ms": solver_ms, "cover_checks": covers, "unproved": len(real), "warnings": warnings[:40],
                       "replay": {"status": rstatus, **{k: v for k, v in rinfo.items() if k != "failed"}}},
          "assumptions": json.load(open(os.path.join(VERIF, "lib", "assumptions.json"))) + cfg.get("assumptions", []),
          "wall_s": 0.0, "violations": 1 if violated else 0}
    if rstatus in ("pass", "fail") and cfg.get("always"):
        ev["coverage"]["bounded"] = cfg.get("bounded", [])
        ev["coverage"]["evaluations"] = rinfo.get("evaluations", 0)
        if ev["level"] == "exploration":
            ev["coverage"]["rule"] = "; ".join(cfg.get("bounded", [])) + " (an evaluation is one answer of the real code compared with the model's)"
            ev["coverage"]["samples"] = rinfo.get("tests", [])
    if tier == "thorough" and rstatus in ("build", "timeout", "error") and not violated:
        ev["coverage"]["replay"]["note"] = rtext[-800:]
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    if cfg.get("always") and rstatus in ("build", "timeout", "error", "none") and not violated:
        # the bounded stand-in gave no answer: not a violation by itself, but say so
        print("note: bounded stand-in of %s did not run (%s)" % (prop, rstatus))
        print(rtext[-1500:])
    print("%s: %d/%d obligations discharged over %d functions, replay %s, %.1fs" %
          (prop, discharged, obligations, len(funcs), rstatus, time.time() - t0))
    if not violated:
        return 0
    rp = os.path.join(evdir, "replay")
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, prop + ".json")
    json.dump({"property": prop, "failed_obligations": real, "replay_status": rstatus, "replay_cmd": rinfo.get("cmd"),
               "replay_output": rtext[-20000:]}, open(path, "w"), indent=1)
    for f in real[:12]:
        print("  failed obligation: %s %s (%s) %s %s" % (f["func"], f["obligation"], f.get("pos", ""), f["status"], (f.get("detail") or "").split("\n")[0][:200]))
    if rstatus == "fail":
        for l in [l for l in rtext.splitlines() if "REPLAY" in l or "panic:" in l][:6]:
            print("  " + l.strip()[:400])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


main()
