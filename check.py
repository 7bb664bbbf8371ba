#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] : decide one property of /repo's current tree.

1. extract: clang -> LLVM IR -> JSON of the functions under contract, from /repo's working tree
2. verify: every obligation of every contract of the property, function by function (engine/vc.py; z3, cvc5)
3. replay: the same contracts in executable form run against the real code (bounded; finds the failing input)
"""
import sys, os, json, time, shutil, subprocess, tempfile, signal, threading, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "contracts"), HERE]
REPO = os.environ.get("VP_REPO", "/repo")


def build_harness(prop, cfg, scratch, log):
    from concurrent.futures import ThreadPoolExecutor
    san = cfg.get("san", ["-fsanitize=address"])
    flags = ["-std=c++17", "-O1", "-g1", "-w", "-fno-access-control"] + san + ["-I" + os.path.join(HERE, "replay"), "-I" + REPO + "/include",
             "-I" + REPO + "/src", "-I/usr/include/rapidxml", "-I" + HERE + "/drivers/stubs"] + cfg.get("flags", [])
    srcs = [os.path.join(HERE, "replay", cfg["harness"])] + [os.path.join(REPO, s) for s in cfg["sources"]]
    objs = []

    def cc(i):
        o = os.path.join(scratch, "h%d.o" % i)
        r = subprocess.run(["g++"] + flags + ["-c", srcs[i], "-o", o], capture_output=True, text=True)
        return o, r.returncode, r.stderr
    with ThreadPoolExecutor(4) as tp:
        for o, rc, err in tp.map(cc, range(len(srcs))):
            if rc:
                log["harness_error"] = "compile: " + err[:3000]
                return None
            objs.append(o)
    exe = os.path.join(scratch, "harness")
    r = subprocess.run(["g++"] + san + objs + ["-o", exe] + cfg.get("libs", []), capture_output=True, text=True)
    if r.returncode:
        log["harness_error"] = "link: " + r.stderr[:3000]
        return None
    return exe


def run_harness(prop, cfg, tier, seed, scratch, known, log):
    try:
        t = time.time()
        exe = build_harness(prop, cfg, scratch, log)
        log["harness_build_s"] = round(time.time() - t, 1)
        if exe is None:
            return
        secs = cfg["secs"][0 if tier == "quick" else 1]
        out = os.path.join(scratch, "fail.txt")
        cmd = [exe, "--seed", str(seed), "--secs", str(secs), "--out", out]
        for k in known:
            cmd += ["--known", k]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0")
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=secs * 4 + 240, env=env, cwd=scratch)
        except subprocess.TimeoutExpired:
            log["harness_error"] = "time limit"
            return
        so = r.stdout
        log["known_hit"] = [l[6:].split("\t") for l in so.splitlines() if l.startswith("KNOWN ")]
        if os.path.exists(out):
            log["fail"] = open(out).read() + "\ncommand: check.py %s (harness replay/%s --seed %d)\n--- stderr ---\n%s" % (prop, cfg["harness"], seed, r.stderr[-4000:])
        elif r.returncode != 0:
            log["harness_error"] = "exit %d: %s" % (r.returncode, (so + r.stderr)[-2000:])
        m = re.search(r"^CASES (\d+)", so, re.M)
        log["cases"] = int(m.group(1)) if m else 0
        log["sections"] = {l.split()[0] if False else " ".join(l.split()[1:-1]): int(l.split()[-1]) for l in so.splitlines() if l.startswith("SECTION ")}
        log["samples"] = [l[7:] for l in so.splitlines() if l.startswith("SAMPLE ")]
    except Exception as e:
        log["harness_error"] = "%s: %s" % (type(e).__name__, e)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from registry import PROPS
    cfg = PROPS[prop]
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    findings = [f for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if f["property"] == prop]
    known = [f["obligation"] for f in findings if f["status"] == "open"]
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    hl = {}
    try:
        th = threading.Thread(target=run_harness, args=(prop, cfg, tier, seed, scratch, known, hl))
        import importlib, frame
        importlib.import_module(cfg["contracts"])
        # the contracts fork worker processes: start the harness thread's subprocesses independently
        th.start()
        results = frame.run_contracts(prop, tier, scratch, jobs=cfg.get("jobs", 7))
        th.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    obls = [dict(o, contract=r["contract"]) for r in results for o in r["obls"]]
    refuted = [o for o in obls if o["result"] == "refuted" and o["kind"] != "cover"]
    undec = [o for o in obls if o["result"] not in ("discharged", "refuted") or (o["kind"] == "cover" and o["result"] != "discharged")]
    errors = [(r["contract"], r["error"]) for r in results if r["error"]] + [(r["contract"], "no obligations generated") for r in results if not r["error"] and not r["obls"]]
    kn_ob = [o for o in refuted if "%s/%s" % (o["contract"], o["name"]) in known]
    refuted = [o for o in refuted if o not in kn_ob]
    for h in hl.get("known_hit", []):
        print("KNOWN-FINDING: property=%s %s" % (prop, " ".join(h)))
    for o in kn_ob:
        print("KNOWN-FINDING: property=%s %s/%s" % (prop, o["contract"], o["name"]))
    proved = not refuted and not undec and not errors and bool(obls)
    replay = None
    viol = 0
    suffix = ""
    if hl.get("fail"):
        viol = 1
    elif refuted:
        viol = 1
        suffix = " no-failing-input-found"
    if viol:
        replay = os.path.join(ev, "%s.replay.txt" % prop)
        with open(replay, "w") as f:
            if hl.get("fail"):
                f.write("== failing input on the real code ==\n" + hl["fail"] + "\n")
            for o in refuted:
                f.write("\n== failed obligation ==\ncontract: %s\nobligation: %s (%s)\nback end: %s\ncounterexample / verifier output:\n%s\n" % (
                    o["contract"], o["name"], o["kind"], o.get("backend"), json.dumps(o.get("model"), indent=1, default=str)))
            for c, e in errors:
                f.write("\n== undecided contract ==\n%s: %s\n" % (c, e))
    elif os.path.exists(os.path.join(ev, "%s.replay.txt" % prop)):
        os.unlink(os.path.join(ev, "%s.replay.txt" % prop))

    per = {}
    for r in results:
        per[r["contract"]] = {"obligations": len(r["obls"]), "discharged": sum(o["result"] == "discharged" for o in r["obls"]), "error": r["error"],
                              "functions_under_contract": r["under"], "inlined_callees": r["inlined"], "callee_contracts_used": r["used"],
                              "paths": r["paths"], "wall_s": r["wall"], "solver_s": r.get("solver_s"), "queries": r.get("queries")}
    backends = {}
    for o in obls:
        backends[o.get("backend") or "?"] = backends.get(o.get("backend") or "?", 0) + 1
    kinds = {}
    for o in obls:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    assumptions = sorted({a for r in results for a in r["assumptions"]})
    cov = {
        "obligations": len(obls), "discharged": sum(o["result"] == "discharged" for o in obls),
        "checker_cmd": "./check.py %s --tier %s" % (prop, tier),
        "trusted_base": ["clang 18 front end (C++ -> LLVM IR, -O0 -DNDEBUG)", "opt-18 passes " + frame.PASSES, "engine/irdump.cpp and engine/vc.py (IR semantics, heap model, VC generation)",
                         "z3 %s, cvc5" % __import__("z3").get_version_string()] + sorted({"assumed contract: " + u for r in results for u in r.get("trusted", [])}),
        "obligation_kinds": kinds, "back_ends": backends, "contracts": per,
        "undecided": [{"contract": o["contract"], "obligation": o["name"], "result": o["result"]} for o in undec][:20] + [{"contract": c, "error": e} for c, e in errors],
        "bounded_replay": {"label": "bounded: not counted as proof", "cases": hl.get("cases", 0), "sections": hl.get("sections", {}), "samples": hl.get("samples", []), "error": hl.get("harness_error")},
    }
    level = "proof"
    if not proved:
        level = "other"
        cov["explanation"] = ("not every obligation was discharged on this tree; the functions of the undecided contracts are covered by the bounded replay only"
                              if not viol else "violation reported")
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 1), "violations": viol}, open(os.path.join(ev, prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged in %d contracts, %d replay cases, %.0f s" % (prop, cov["discharged"], len(obls), len(results), hl.get("cases", 0), time.time() - t0))
    for c, e in errors:
        print("  undecided %s: %s" % (c, e))
    for o in undec:
        print("  undecided %s: %s (%s)" % (o["contract"], o["name"], o["result"]))
    for o in refuted:
        print("  failed obligation %s: %s" % (o["contract"], o["name"]))
    if hl.get("harness_error"):
        print("  replay harness unavailable:", hl["harness_error"][:500])
    if viol:
        if hl.get("fail"):
            print(hl["fail"][:1500])
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, suffix))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
