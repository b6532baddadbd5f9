#!/usr/bin/env python3
"""Decide one property by seeded simulation.   check.py ID [--tier quick|thorough]

exit 0: held on every run explored; exit 1 and 'VIOLATION property=ID replay=PATH': broken.
Replay a file with:  check.py --replay PATH
"""
import argparse, collections, json, os, re, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build, config

T = [2, 3, 4, 1, 2, 5, 3, 8]          # OpenMP team size of each of the eight searching processes
CPU = 150                             # seconds of processor time one run may take (backstop behind the step bound)

def binary(w): return os.path.join(build.BUILD, "bin", w)
def lines(path):
    out = []
    try:
        for l in open(path, errors="replace"):
            try: d = json.loads(l)
            except ValueError: continue
            if "seed" in d: out.append(d)
    except OSError: pass
    return out
def launch(w, args, out):
    return subprocess.Popen([binary(w), "--out", out, "--cpu", str(CPU)] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
def single(w, args, tmp, timeout=400):
    out = os.path.join(tmp, "single"); 
    if os.path.exists(out): os.unlink(out)
    p = launch(w, args, out)
    try: p.wait(timeout)
    except subprocess.TimeoutExpired: p.kill(); p.wait()
    return lines(out)

def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def search(w, base, count, limit, tmp):
    """count seeds from base, spread over eight processes"""
    ps = []
    for k in range(8):
        out = os.path.join(tmp, f"{w}.{k}")
        ps.append((out, launch(w, ["--seed", base, "--offset", k, "--stride", 8, "--count", (count + 7) // 8, "--threads", T[k], "--time", limit], out)))
    rec = []
    for out, p in ps:
        try: p.wait(limit + CPU + 60)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        rec += lines(out)
    return rec

def confirm(w, d, tmp):
    """the same seed again, twice in one fresh process: same verdict, same trace hash"""
    a = single(w, ["--seed", d["seed"], "--threads", d["threads"], "--count", 1, "--repeat", 2], tmp)
    return len(a) == 2 and all(x["state"] == 2 and x["key"] == d["key"] and x["hash"] == d["hash"] for x in a)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--count", type=float, default=1.0, help="scale the number of runs")
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="mpsim.")
    try: return replay(a.replay, tmp) if a.replay else decide(a, tmp)
    finally: subprocess.run(["rm", "-rf", tmp])

def replay(path, tmp):
    head = dict(l.split(None, 1) for l in open(path).read().split("\ntrace\n")[0].splitlines() if " " in l)
    w, prop = head["workload"].strip(), head["property"].strip()
    if not build.build([w]): return 2
    r = single(w, ["--mode", "run", "--replay", os.path.abspath(path), "--log"], tmp)
    if not r: print("no result"); return 2
    d = r[0]
    if d["state"] == 2 and d["key"] == head["key"].strip():
        print(f"{d['kind']} {d['key']} hash {d['hash']} ({'identical to' if d['hash'] == head['hash'].strip() else 'DIFFERS from'} the recorded run)\n{d['detail']}\n{d['log']}")
        print(f"VIOLATION property={prop} replay={path}"); return 1
    print("the recorded violation did not occur: " + json.dumps({k: d.get(k) for k in ("state", "kind", "key", "hash")})); return 0

def decide(a, tmp):
    t0 = time.time(); pid = a.property; cfg = config.CHECKS[pid]; tier = "thorough" if a.tier == "thorough" else "quick"
    names = [w["name"] for w in cfg["workloads"]]
    if not build.build(names): print("the tree does not build under the simulator"); return 2
    tb = time.time() - t0
    seed0 = 1000000 * (a.seed % 100000)
    known = [k for k in known_findings() if k["property"] == pid]
    recs = []; det = []; bad = []; seen_known = collections.Counter(); unconfirmed = []
    for w in cfg["workloads"]:
        n = int(w[tier] * a.count); lim = w.get("limit", 75 if tier == "quick" else 700)
        # determinism gate: a sample of seeds twice in one process, and once more in another
        s1 = single(w["name"], ["--seed", seed0, "--count", 6, "--repeat", 2, "--threads", 3], tmp); s2 = single(w["name"], ["--seed", seed0, "--count", 6, "--threads", 3], tmp)
        det.append({"workload": w["name"], "seeds": len(s2), "identical": all(s1[2 * i]["hash"] == s1[2 * i + 1]["hash"] == s2[i]["hash"] for i in range(len(s2))) if len(s1) == 2 * len(s2) else False})
        r = search(w["name"], seed0, n, lim, tmp)
        for d in r: d["workload"] = w["name"]
        recs += r
    by = collections.OrderedDict()
    for d in sorted((d for d in recs if d["state"] == 2), key=lambda d: (d["ops"], d["seed"])): by.setdefault((d["workload"], d["key"]), []).append(d)
    for (w, key), ds in by.items():
        k = next((k for k in known if k["key"] == key), None)
        if k: seen_known[k["id"]] += len(ds); continue
        for d in ds[:4]:
            if confirm(w, d, tmp): bad.append((w, d)); break
        else: unconfirmed.append({"workload": w, "key": key, "seed": ds[0]["seed"], "threads": ds[0]["threads"]})
        if len(bad) >= 3: break
    viol = []
    rd = os.path.join(HERE, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + "-"): os.unlink(os.path.join(rd, f))
    for i, (w, d) in enumerate(bad):
        path = os.path.join(rd, f"{pid}-{i + 1}.txt")
        m = single(w, ["--mode", "minimize", "--seed", d["seed"], "--threads", d["threads"], "--time", 40 if tier == "quick" else 180, "--property", pid, "--replay-out", path], tmp)
        if not os.path.exists(path): # the violation itself is confirmed: report it unminimised
            open(path, "w").write(f"mpsim-replay 1\nproperty {pid}\nworkload {w}\nseed {d['seed']}\nthreads {d['threads']}\nkind {d['kind']}\nkey {d['key']}\nhash {d['hash']}\ndetail {d['detail']}\n")
            m = [d]
        rep = single(w, ["--mode", "run", "--replay", path], tmp)
        exact = bool(rep) and bool(m) and rep[0]["state"] == 2 and rep[0]["hash"] == m[-1]["hash"]
        print(f"{d['kind']} [{d['key']}] seed {d['seed']} threads {d['threads']}: {d['detail'][:900]}\n  replay: python3 check.py --replay {path}   (replays exactly: {exact})")
        viol.append({"key": d["key"], "kind": d["kind"], "seed": d["seed"], "threads": d["threads"], "detail": d["detail"][:600], "replay": path, "replays_exactly": exact})
    for k in known:
        if seen_known[k["id"]]: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    evidence(a, cfg, pid, tier, recs, det, viol, seen_known, unconfirmed, tb, time.time() - t0)
    ok = sum(d["state"] == 1 for d in recs)
    print(f"{pid} {tier}: {len(recs)} simulated runs ({ok} clean) in {time.time() - t0:.0f}s (build {tb:.0f}s)")
    if not recs: print("no run completed"); return 2
    for v in viol: print(f"VIOLATION property={pid} replay={v['replay']}")
    return 1 if viol else 0

def evidence(a, cfg, pid, tier, recs, det, viol, seen_known, unconfirmed, tb, wall):
    faults, probes, tot = collections.Counter(), collections.Counter(), collections.Counter()
    for d in recs:
        faults.update(d.get("faults", {})); probes.update(d.get("probes", {}))
        for k in ("steps", "acc", "switches", "regions", "stalls", "ops", "checks", "allocs", "clockq", "clock"): tot[k] += d.get(k, 0) or 0
    runwall = max(wall - tb, 1e-3)
    distinct = len({(d["config"], d["sched"], d["hash"]) for d in recs if d["checks"] > 0})
    samples = []
    for d in recs[:: max(1, len(recs) // 6)][:6]:
        samples.append({k: d.get(k) for k in ("workload", "seed", "threads", "hash", "ops", "checks", "regions", "switches", "faults", "probes")})
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": cfg["level"], "coverage": {
        "evaluations": len(recs), "distinct_nontrivial": distinct, "rule": cfg["rule"] + " Distinct: (configuration, schedule, observed-result hash) triples among runs with at least one completed check.",
        "samples": samples, "runs_per_hour": round(len(recs) / runwall * 3600), "seeds": len({(d["workload"], d["seed"]) for d in recs}),
        "distinct_schedules": len({d["sched"] for d in recs if d["switches"]}), "distinct_configurations": len({d["config"] for d in recs}),
        "checks_evaluated": tot["checks"], "operations": tot["ops"], "parallel_regions": tot["regions"], "thread_switches": tot["switches"],
        "scheduled_memory_accesses": tot["steps"], "memory_accesses_checked": tot["acc"], "allocations": tot["allocs"], "clock_queries": tot["clockq"], "simulated_seconds": round(tot["clock"], 3),
        "faults_injected": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())), "determinism_gate": det,
        "known_findings_seen": dict(seen_known), "unconfirmed": unconfirmed, "components": {"real": config.REAL, "simulated": config.STUB}, "build_s": round(tb, 1)},
        "assumptions": cfg.get("assumptions", []) + config.ASSUME, "wall_s": round(wall, 1), "violations": viol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
