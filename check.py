#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--job NAME] [-v]

Decides one property: compiles the harnesses of its jobs together with /repo's current sources to LLVM IR, runs the
symbolic executor on them and turns the solver's verdicts into exit status, VIOLATION / KNOWN-FINDING lines and the
evidence file."""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RG_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
RGSYM = os.path.join(BUILD, "rgsym")
sys.path.insert(0, HERE)
import jobs as J

IRFLAGS = ("-std=c++17 -w -fno-access-control -fno-pie -fno-pic -O1 -gline-tables-only -fno-vectorize "
           "-fno-slp-vectorize -fno-unroll-loops -D_GLIBCXX_EXTERN_TEMPLATE=0").split()
INCS = ["-I" + HERE + "/stubs", "-I" + HERE + "/harness", "-I" + REPO + "/examples/config", "-I" + REPO]


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def ensure_engine():
    if os.path.exists(RGSYM):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = run(["make", "-s", "-C", HERE + "/engine", "OUT=" + BUILD, "-j8"])
    if r.returncode or not os.path.exists(RGSYM):
        sys.stderr.write(r.stdout)
        sys.exit(3)


def compile_ir(src, defs, out):
    plain = ["-I" + HERE + "/harness/plain_arena"] if "RT_PLAIN_ARENA" in defs else []
    return run(["clang++", *IRFLAGS, "-emit-llvm", "-c", *plain, *INCS, *["-D" + d for d in defs], src, "-o", out])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    spec = J.PROPS[prop]
    jobs = [j for j in spec["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    if tier == "thorough":
        jobs = [j for j in jobs if j.get("tier") != "quick-only"]
    if a.job:
        jobs = [j for j in spec["jobs"] if j["name"] == a.job]
    ensure_engine()
    work = tempfile.mkdtemp(prefix="rgsym-%s-" % prop)
    try:
        rc = decide(prop, spec, jobs, tier, work, a, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, spec, jobs, tier, work, a, t0):
    # ---- compile: one IR module per distinct (source, defines)
    rtlib = os.path.join(work, "rtlib.bc")
    units = {}
    for j in jobs:
        k = (j["src"], tuple(j.get("defs", [])))
        if k not in units:
            units[k] = os.path.join(work, "u%d.bc" % len(units))
    workers = min(8, os.cpu_count() or 4)
    problems = []
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        fs = {ex.submit(compile_ir, HERE + "/harness/rtlib.cpp", [], rtlib): "rtlib"}
        for (s, d), o in units.items():
            fs[ex.submit(compile_ir, HERE + "/harness/" + s, list(d), o)] = s
        failed = set()
        for f in concurrent.futures.as_completed(fs):
            r = f.result()
            if r.returncode:
                failed.add(fs[f])
                problems.append("compilation of %s failed:\n%s" % (fs[f], r.stdout[-3000:]))
    known = [k for k in json.load(open(HERE + "/known_findings.json"))["findings"] if k["property"] == prop]

    def one(j):
        out = os.path.join(work, j["name"] + ".json")
        o = dict(j.get("opts", {}))
        o.update(j.get("thorough_opts", {}) if tier == "thorough" else {})
        limit = o.pop("time", 120 if tier == "quick" else 3000)
        cmd = [RGSYM, units[(j["src"], tuple(j.get("defs", [])))], rtlib, "--entry", j.get("entry", "harness"),
               "--time", str(limit), "--json", out]
        for k, v in o.items():
            for x in v if isinstance(v, list) else [v]:
                cmd.append("--" + k)
                if x is not True:
                    cmd.append(str(x))
        t = time.time()
        try:
            r = run(cmd, timeout=limit + 200)
            log = r.stdout
        except subprocess.TimeoutExpired:
            log = "killed after its time limit"
        try:
            res = json.load(open(out))
        except Exception:
            res = {"error": "no result: " + log[-500:], "violations": [], "covers": {}, "stats": {}, "solver": {},
                   "incomplete": [], "functions": [], "source_functions": [], "asserts": {}}
        res["wall"] = time.time() - t
        return j, res

    # compile errors make the check an error, not a verdict
    if failed:
        for p in problems:
            sys.stderr.write(p + "\n")
    results = []
    order = sorted((j for j in jobs if j["src"] not in failed), key=lambda j: -j.get("weight", 1))
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for j, res in ex.map(one, order):
            results.append((j, res))
            if a.v:
                s = res["stats"]
                print("  %-28s %6.1fs viol=%d err=%s inc=%s q=%s states=%s" % (
                    j["name"], res["wall"], len(res["violations"]), res.get("error", ""), res["incomplete"],
                    res["solver"].get("queries"), s.get("par_states")), flush=True)

    # ---- verdict
    new, seen_known, notes, errors = [], [], [], []
    if failed:
        errors += problems
    for j, res in results:
        allowed = set(j.get("expect_incomplete", []))
        err = res.get("error", "")
        if err:
            if "time limit" in err or "timeout" in err or "canceled" in err:
                notes.append("%s: explored only up to the time limit" % j["name"])
            else:
                errors.append("%s: %s" % (j["name"], err))
        for x in res["incomplete"]:
            notes.append("%s: not explored further: %s" % (j["name"], x))
        for v in res["violations"]:
            v["job"] = j["name"]
            k = next((k for k in known if k["job"] == j["name"] and k["kind"] == v["kind"] and k["msg"] == v["msg"]
                      and k.get("where", v["where"].split(" ")[-1].split(":")[0]) in v["where"]), None)
            (seen_known if k else new).append((k, v))
        if not err and not res["violations"] and not res["incomplete"]:
            for c, ok in res["covers"].items():
                if not ok and c == "end":
                    # explored completely, and in no execution does the scenario get to its end
                    new.append((None, {"job": j["name"], "kind": "completion", "msg": "no execution completes the scenario",
                                       "where": j.get("entry", "harness"), "concrete_replay": False,
                                       "replay_note": "(decided over all executions)"}))
                elif not ok:
                    notes.append("%s: vacuous: nothing reaches '%s'" % (j["name"], c))

    for k in known:
        hit = [v for kk, v in seen_known if kk is k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    decided = sum(1 for _, r in results if not r.get("error"))
    outdir = os.path.join(BUILD, "replay")
    os.makedirs(outdir, exist_ok=True)
    for i, (_, v) in enumerate(new[:5]):
        path = os.path.join(outdir, "%s-%d.json" % (prop, i))
        json.dump(v, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   job %s: %s: %s" % (v["job"], v["kind"], v["msg"]))
        print("   at %s" % v["where"])
        print("   concrete replay on the code: %s" % ("reproduced" if v["concrete_replay"] else "not reproduced " + v["replay_note"]))
        rc = 1
    if rc == 0 and errors:
        for e in errors:
            print("ERROR: " + e)
            notes.append("not decided: " + e[:300])
        if decided == 0: # otherwise: held on everything explored, and what was not explored is in the evidence
            rc = 2

    # ---- evidence
    tot = lambda k, s="stats": sum(r.get(s, {}).get(k, 0) for _, r in results)
    fns = sorted({f for _, r in results for f in r.get("source_functions", [])})
    cov = {
        "states": max(1, tot("par_states") + tot("merges") + tot("forks")),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": sum(r.get("native_validated", 0) for _, r in results)
        + sum(1 for _, v in new + seen_known if v["concrete_replay"]),
        "samples": [],
        "rule": "states: symbolic states split at branches or merged, plus states of the interleaving exploration; "
                "transitions: IR instructions executed symbolically",
        "functions_encoded": fns,
        "queries": tot("queries", "solver"),
        "queries_sat": tot("sat", "solver"),
        "queries_unsat": tot("unsat", "solver"),
        "queries_answered_by_cached_models": tot("answered_by_cached_model", "solver"),
        "solver_seconds": round(tot("seconds", "solver"), 3),
        "schedule_steps": tot("transitions"),
        "not_explored": notes,
        "jobs": [],
        "bounds": spec.get("bounds", ""),
        "outside": spec.get("outside", ""),
    }
    for j, r in results:
        s = r["stats"]
        cov["jobs"].append({
            "name": j["name"], "source": j["src"], "entry": j.get("entry", "harness"), "defines": j.get("defs", []),
            "options": {**j.get("opts", {}), **(j.get("thorough_opts", {}) if tier == "thorough" else {})},
            "bounds": r.get("bounds"), "what": j.get("what", ""), "stats": s, "solver": r["solver"],
            "assertions": r["asserts"], "covers": r["covers"], "layer_bound_reached": r.get("layer_bound_reached"),
            "error": r.get("error"), "wall_s": round(r["wall"], 2)})
    for j, r in results[:3]:
        for m, n in list(r["asserts"].items())[:4]:
            cov["samples"].append("%s: assertion '%s' decided in %d symbolic contexts" % (j["name"], m, n))
    if not cov["samples"]:
        cov["samples"].append("no assertion reached")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"],
          "coverage": cov, "assumptions": J.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %s; %d jobs, %d queries, %.1fs solver, %.1fs" % (
        prop, tier, "held on everything explored" if rc == 0 else "VIOLATED" if rc == 1 else "error",
        len(results), cov["queries"], cov["solver_seconds"], time.time() - t0))
    for n in notes:
        print("  note: " + n)
    return rc


main()
