#!/usr/bin/env python3
"""check.py PROPERTY: searches seeded simulated runs for a violation of one property (see DESIGN.md).

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).  Exit 0: held on everything explored; 1: violated, with
a VIOLATION line naming the minimised replay file; 2: the check itself could not give an answer."""
import collections, glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build, config

def known(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)", l.strip())
        if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 124, "timeout"

def reproduces(exe, f):
    """replay in two fresh processes: same violation, same event hash"""
    a, b = sh([exe, "replay", f], 120), sh([exe, "replay", f], 120)
    h = lambda o: re.search(r"hash=(\d+)", o[1])
    return a[0] == 1 and b[0] == 1 and h(a) and h(b) and h(a).group(1) == h(b).group(1)

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    print(f"property {prop} tier {tier} VERIF_SEED={seed}", flush=True)
    try: exe = build.build(os.environ.get("VERIF_REPO", "/repo"))
    except RuntimeError as e: print("build failed:\n" + str(e)); return 2
    t_build = time.time() - t0
    n = config.QUICK.get(prop, config.QUICK_DEFAULT); cap = config.QUICK_CAP_S
    if tier == "thorough": n *= config.THOROUGH_MULT; cap = config.THOROUGH_CAP_S
    if os.environ.get("VERIF_RUNS"): n = int(os.environ["VERIF_RUNS"])
    jobs = max(1, min(8, os.cpu_count() or 8))
    tmp = tempfile.mkdtemp(prefix="hsim-")
    try: return search(prop, tier, seed, exe, n, cap, jobs, tmp, t0, t_build)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def search(prop, tier, seed, exe, n, cap, jobs, tmp, t0, t_build):
    ps = []
    for w in range(jobs):
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--first", str(w), "--stride", str(jobs), "--count", str((n + jobs - 1) // jobs),
               "--time", str(cap), "--out", tmp, "--tag", str(w), "--maxviol", "12", "--stop", "--twice", "50"]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace"))
    bad = []
    for p in ps:
        try: _, err = p.communicate(timeout=cap + 120)
        except subprocess.TimeoutExpired: p.kill(); bad.append("worker timeout"); continue
        if p.returncode: bad.append(f"worker exit {p.returncode}: {err[-300:]}")
    st, cl, pr, fa, samples = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter(), []
    cov, hashes = None, set()
    for w in range(jobs):
        try: d = json.load(open(f"{tmp}/stat.{w}"))
        except (OSError, ValueError): continue
        for k in ("runs", "ok", "violating", "steps", "switches", "twice", "mismatch"): st[k] += d[k]
        st["sim_s"] += d["sim_s"]; st["wall"] = max(st["wall"], d["wall"])
        cl.update(d["classes"]); pr.update(d["probes"]); fa.update(d["faults"]); samples += d["samples"][:1]
        b = int.from_bytes(open(f"{tmp}/cov.{w}", "rb").read(), "little"); cov = b if cov is None else cov | b
        hb = open(f"{tmp}/hash.{w}", "rb").read(); hashes.update(struct.unpack(f"<{len(hb) // 8}Q", hb))
    viol = []
    for f in sorted(glob.glob(tmp + "/viol.*")): viol += [json.loads(l) for l in open(f)]
    viol.sort(key=lambda d: d["index"])
    code, shown, errs = 0, [], list(bad)
    ev = os.path.join(V, "evidence"); os.makedirs(ev, exist_ok=True)
    for f in glob.glob(f"{ev}/{prop}-*.replay"): os.unlink(f)
    for d in viol:
        if d["class"].startswith("harness:"): errs.append(f"{d['class']} at index {d['index']}: {d['message']}")
    kf = known(prop); seen_known, done = set(), set()
    for d in viol:
        if d["class"].startswith("harness:") or d["class"] in done: continue
        k = next((k for k in kf if k[0] == d["class"] and k[1].search(d["message"])), None)
        if k: seen_known.add(k[2]); continue
        if len(shown) >= 3 or time.time() - t0 > cap + 240: continue
        raw = d["file"]; dst = os.path.join(ev, f"{prop}-{len(shown)}.replay")
        tries = [dst] if sh([exe, "minimize", raw, dst, "--time", "25" if not shown else "12"], 120)[0] == 0 else []
        tries.append(raw)
        got = next((f for f in tries if reproduces(exe, f)), None)
        if not got:
            errs.append(f"violation {d['class']} at index {d['index']} does not reproduce from its replay file"); continue
        if got != dst: shutil.copy(got, dst)
        m = re.search(r"MESSAGE (.*)", sh([exe, "replay", dst], 120)[1])
        done.add(d["class"]); shown.append((d["class"], m.group(1) if m else d["message"], dst, d["index"]))
    for k in sorted(seen_known): print(f"KNOWN-FINDING: property={prop} {k}")
    for c, m, f, i in shown:
        print(f"violated: {c}: {m} (seed {seed} index {i})"); print(f"VIOLATION property={prop} replay={f}", flush=True)
    if shown: code = 1
    elif errs: code = 2
    elif st["runs"] == 0: code = 2; errs.append("no runs")
    for e in errs[:5]: print("error:", e)
    wall = time.time() - t0
    doc = config.describe(prop)
    evd = {"property": prop, "tier": tier, "seed": seed, "level": doc["level"], "wall_s": round(wall, 2), "violations": len(shown),
           "assumptions": doc["assumptions"],
           "coverage": {"evaluations": st["runs"], "distinct_nontrivial": len(hashes),
               "rule": "one evaluation is one simulated run of a generated workload under a generated schedule and fault sequence; it counts as distinct and non-trivial when it had more than 3 thread switches or an injected fault and its schedule hash (hash of every switch: thread, position in that thread's execution, target) differs from every other run's",
               "samples": samples[:4], "simulated_seconds": round(st["sim_s"], 3), "runs_per_hour": int(st["runs"] / max(st["wall"], .001) * 3600),
               "seeds_per_hour": int(st["runs"] / max(st["wall"], .001) * 3600), "scheduling_points": st["steps"], "thread_switches": st["switches"],
               "conflicting_access_pairs": bin(cov or 0).count("1"), "faults_injected": dict(fa), "probes_runs_reaching": dict(pr),
               "determinism_runs_executed_twice": st["twice"], "determinism_mismatches": st["mismatch"], "classes": dict(cl), "build_s": round(t_build, 1),
               "scenarios": doc["scenarios"], "real_code": doc["real"], "stubbed": doc["stub"], "violations": [{"class": c, "message": m, "replay": f, "index": i} for c, m, f, i in shown], "errors": errs[:5]}}
    with open(os.path.join(ev, prop + ".json.tmp"), "w") as f: json.dump(evd, f, indent=1)
    os.rename(os.path.join(ev, prop + ".json.tmp"), os.path.join(ev, prop + ".json"))
    print(f"{prop}: {st['runs']} runs, {len(hashes)} distinct schedules, {st['sim_s']:.1f} simulated s, faults {dict(fa)}, {wall:.1f} s wall, exit {code}")
    return code

if __name__ == "__main__": sys.exit(main())
