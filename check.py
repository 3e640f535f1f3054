#!/usr/bin/env python3
"""check.py <ID>: decides property <ID> on /repo's current working tree.

1. Contract stage: functions are extracted mechanically from /repo, their contracts are attached and Verus
   discharges (or does not) every obligation.
2. Replay stage: the replay harness, built against /repo, looks for a concrete failing input (and is the bounded
   stand-in for what the contract stage cannot express).
Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check itself could not run."""
import json, os, signal, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import build
try:
    import stage
except ImportError:
    stage = None
VERIF, REPO, BUILD = build.VERIF, build.REPO, build.BUILD

def known(pid):
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
        w = l.split()
        if l.startswith("known:") and w[1] == "property=" + pid:
            out.append({"key": w[2].split("=", 1)[1]})
    return out

class Harness:
    def __init__(self, binary, pid, tier, seed, tag=""):
        self.b, self.pid, self.tier, self.seed = binary, pid, tier, seed
        self.run_dir = os.path.join(BUILD, "run", pid + tag)
        os.makedirs(self.run_dir, exist_ok=True)
        self.f = {k: os.path.join(self.run_dir, k) for k in ("out", "native", "current", "work", "err")}
    def cmd(self, budget, extra):
        return [self.b, self.pid, "--seed", str(self.seed), "--budget", str(budget), "--tier", self.tier, "--out", self.f["out"],
                "--native", self.f["native"], "--current", self.f["current"], "--dir", self.f["work"], "--repo", REPO] + extra
    def run(self, budget, limit, extra=()):
        for k in ("out", "native", "current"):
            if os.path.exists(self.f[k]):
                os.remove(self.f[k])
        e = dict(os.environ, RUST_BACKTRACE="0", RUST_MIN_STACK=str(64 << 20))
        with open(self.f["err"], "w") as err:
            p = subprocess.Popen(self.cmd(budget, list(extra)), stdout=subprocess.DEVNULL, stderr=err, env=e, cwd=self.run_dir,
                                 preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (12 << 30, 12 << 30)))
            try:
                rc = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = "timeout"
        if rc == 0:
            return rc, json.load(open(self.f["out"]))
        cur = open(self.f["current"]).read() if os.path.exists(self.f["current"]) else None
        return rc, cur

def search(binary, pid, tier, seed, budget, parallel):
    """(result dict, violation or None, error or None)"""
    hs = [Harness(binary, pid, tier, seed + 1000 * k, "" if k == 0 else "-%d" % k) for k in range(parallel)]
    res = [None] * parallel
    def go(k):
        res[k] = hs[k].run(budget, budget * 2 + 90)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(parallel)]
    [t.start() for t in ts]; [t.join() for t in ts]
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "families": {}, "samples": [], "probe": None}
    viol = None
    for k, (rc, r) in enumerate(res):
        if rc == 0:
            tot["evaluations"] += r["evaluations"]
            tot["distinct_nontrivial"] = max(tot["distinct_nontrivial"], r["distinct_nontrivial"])
            for n, c in r["families"]:
                tot["families"][n] = tot["families"].get(n, 0) + c
            if k == 0:
                tot["samples"] = r["samples"]
            tot["probe"] = r["probe"]
            viol = viol or r["violation"]
            continue
        if not r:
            return tot, None, "harness ended with %s before the first case: %s" % (rc, open(hs[k].f["err"]).read()[-800:])
        # the process died, hung, or could not interpret a result: confirm on that case alone
        err = open(hs[k].f["err"]).read()[-800:]
        rc2, r2 = hs[k].run(1, 120, ["--only", r])
        if rc2 == 0 and r2["violation"] is None:
            if rc == "timeout":
                continue   # slow, not stuck
            return tot, None, "harness ended with %s at case %s, not reproduced: %s" % (rc, r, err)
        if rc2 == 0:
            viol = viol or r2["violation"]
        else:
            what = {"timeout": "the code under test does not terminate (120 s)", 4: "the code under test returned a result that has not the specified shape"}.get(rc2, "the process is aborted (status %s)" % rc2)
            viol = viol or {"family": r.rsplit(":", 1)[0], "index": int(r.rsplit(":", 1)[1]), "seed": hs[k].seed, "case": {"what": what, "detail": open(hs[k].f["err"]).read()[-800:]}}
    return tot, viol, None

WASM = {"C01": "apis", "C02": "apis", "C03": "apis", "C15": "compiler"}

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    st = {}
    th = None
    if stage is not None:
        th = threading.Thread(target=lambda: st.update(stage.run_safe(pid, tier)))
        th.start()
    binary, log = build.harness()
    if binary is None:
        if th: th.join()
        print(log[-3000:], file=sys.stderr)
        print("ERROR: /repo or the harness does not build")
        return 3
    if pid == "C15":
        c = build.cli()
        if c: os.environ["ZKR_CLI"] = c
    budget, par = (float(os.environ.get("VX_BUDGET", "30")), 1) if tier == "quick" else (420.0, 6)
    tot, viol, err = search(binary, pid, tier, seed, budget, par)
    findings = []
    nat = os.path.join(BUILD, "run", pid, "native")
    if os.path.exists(nat):
        for l in open(nat):
            if l.startswith('{"finding"') or '"finding":' in l[:400]:
                d = json.loads(l)
                if "finding" in d: findings.append(d)
    wasm = None
    if pid in WASM and not viol and not err and os.path.exists(nat):
        pkg, wl = build.wasm(WASM[pid])
        if pkg:
            o = os.path.join(BUILD, "run", pid, "wasm.json")
            if os.path.exists(o): os.remove(o)
            r = subprocess.run(["node", os.path.join(VERIF, "harness", "wasm_compare.js"), pkg, nat, o], capture_output=True, text=True, timeout=300)
            if os.path.exists(o):
                w = json.load(open(o))
                wasm = {"compared": w["compared"], "per_function": w["per"]}
                if w["violation"]:
                    viol = {"family": "wasm-binding", "index": w["compared"], "seed": seed, "case": w["violation"]}
            else:
                wasm = {"compared": 0, "note": "node: " + r.stderr[-300:]}
        else:
            wasm = {"compared": 0, "note": "the wasm package could not be built: " + wl[-300:]}
    if th:
        th.join()
    kn = {d["key"]: d for d in known(pid)}
    new = [f for f in findings if f["finding"] not in kn]
    if new and not viol:
        viol = {"family": "findings", "index": 0, "seed": seed, "case": new[0]}
    cstat = st.get("status", "none")
    if cstat == "failed" and not viol and not err and tier == "quick":
        # a failed obligation without a failing input yet: search harder
        t2, v2, e2 = search(binary, pid, "thorough", seed + 7, 60, 4)
        tot["evaluations"] += t2["evaluations"]
        viol = v2
    if cstat not in ("proved", "failed", "none") and not viol and not err and tier == "quick":
        # the code moved out of the contracts' reach: the bounded search is what is left, so it is widened
        b = min(120.0, 560 - (time.time() - t0))
        if b > 20:
            t2, v2, e2 = search(binary, pid, "thorough", seed + 7, b, 6)
            tot["evaluations"] += t2["evaluations"]
            viol = v2
    nviol = 0
    if viol or cstat == "failed":
        nviol = 1
        rp = os.path.join(BUILD, "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.json" % pid)
        rep = {"property": pid, "seed": seed, "failing_input": viol, "failed_obligations": st.get("failed", []), "verifier_output": st.get("output", "")[-8000:]}
        if viol:
            rep["replay"] = "/verif/.build/target/debug/zkr-replay %s --seed %s --only %s:%s" % (pid, viol.get("seed"), viol.get("family"), viol.get("index"))
        json.dump(rep, open(path, "w"), indent=1)
    ev = evidence(pid, tier, seed, tot, st, wasm, findings, nviol, time.time() - t0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for f in findings:
        if f["finding"] in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, f["finding"], f["what"]))
    print("contracts: %s (%s obligations, %s discharged); replay search: %s cases%s" % (cstat, st.get("obligations", 0), st.get("discharged", 0), tot["evaluations"], "" if not err else "; error: " + err))
    for n in st.get("notes", []):
        print("note: " + n)
    if viol:
        print(json.dumps(viol)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if cstat == "failed":
        for o in st.get("failed", [])[:10]:
            print("failed obligation: %s" % o)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1
    if err:
        print("ERROR: " + err)
        return 3
    return 0

def evidence(pid, tier, seed, tot, st, wasm, findings, nviol, wall):
    meta = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    lvl = next((c["level"] for c in meta["checks"] if c["property"] == pid), "exploration")
    if lvl == "proof" and st.get("status") != "proved":
        lvl = "exploration"
    cov = {"evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct_nontrivial"],
           "rule": "cases of the families below are generated from the seed and compared with an independent oracle (harness/src/{odfa,scan,circ,props}.rs); a case is non-trivial when it satisfies the property's preconditions and was compared; equal cases are counted once",
           "families": tot["families"], "samples": tot["samples"], "bounded_part": "the replay search is bounded by its time budget and generators and is never counted as proved",
           "probe_available": tot["probe"]}
    if wasm: cov["wasm_binding"] = wasm
    if findings: cov["known_findings_reported"] = [f["finding"] for f in findings]
    if st and st.get("status") != "none":
        cov.update({"obligations": st.get("obligations", 0), "discharged": st.get("discharged", 0), "checker_cmd": st.get("cmd", ""), "trusted_base": st.get("trusted", []),
                    "contract_status": st.get("status"), "functions_under_contract": st.get("functions", []), "undecided": st.get("undecided", []), "solver": st.get("solver", {}),
                    "extraction": st.get("extraction", {}), "vacuity": st.get("vacuity", {}), "failed_obligations": st.get("failed", [])})
    return {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": st.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}

if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:
        import traceback; traceback.print_exc(); print("ERROR: %r" % e); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
