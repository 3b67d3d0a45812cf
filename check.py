#!/usr/bin/env python3
"""Decides one property: builds the simulator against /repo's working tree, searches, reports.

  check.py C01            quick or thorough according to VERIF_TIER (default quick), seed from VERIF_SEED (default 1)
  check.py --replay FILE  reproduces a reported violation (exit 1 when it reproduces)
"""
import os, sys, json, time, subprocess, struct, glob, re
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "gen"))
sys.dont_write_bytecode = True
import build
NSH = 8                                   # shards: fixed, so that the work is the same on any machine
KNOWN = os.path.join(HERE, "known_findings.txt")
# per variant: rounds per focus function (C01..C10), or runs in all (C11..C13)
ROUNDS = {"C01": 640, "C02": 800, "C03": 800, "C04": 720, "C05": 1200, "C06": 240, "C07": 2400, "C08": 480, "C09": 900, "C10": 480,
          "C11": 300000, "C12": 400000, "C13": 120000}
SHARE = {"neon": 0.6, "wasm": 0.6, "n32": 0.4}   # of the rounds, for the configurations over stand-in intrinsics
DEEP = 12                                 # thorough: this many times the rounds, other seeds
COMMON = ["the compilers keep the instrumented program's meaning (gcc and clang builds of eight configurations are run)",
          "x86-64; the NEON and WASM paths run over stand-ins for the intrinsics (sim/emu), not on that hardware", "two NaNs count as equal whatever their sign and payload bits"]
def level_rule(p):
    j = json.load(open(os.path.join(HERE, "gen", "rules.json"))); r = j[p]
    r.setdefault("real", j["_real"]); r["assumptions"] = COMMON + r.get("assumptions", [])
    if isinstance(r["stubs"], str): r["stubs"] = [r["stubs"]]
    return r
def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1])
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    t0 = time.time(); 
    try: info = build.build()
    except build.BuildError as e: print("ERROR the tree under test cannot be built for the simulator: %s" % e); return 2
    for v, why in info.get("broken", {}).items(): print("note: configuration %s is left out: %s" % (v, why))
    tb = time.time() - t0
    d = info["dir"]; dsim = d + "/dsim"; rounds = ROUNDS[prop] * (DEEP if tier == "thorough" else 1)
    if "--rounds" in a: rounds = int(a[a.index("--rounds") + 1])
    vs = [v for v in build.VARIANTS if v in info["variants"]]
    if "--variants" in a: vs = a[a.index("--variants") + 1].split(",")
    rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
    work = os.path.join(d, "out-%s-%d" % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    tlimit = 420 if tier == "quick" else 3000
    per = max(5.0, tlimit * (os.cpu_count() or 8) / (NSH * len(vs)))
    tasks = [(v, s) for s in range(NSH) for v in vs]
    procs = {}; stop = [False]
    def run(v, s):
        if stop[0]: return v, s, None, None
        out = os.path.join(work, "%s-%d.json" % (v, s))
        cmd = [dsim, "--so", d + "/cut_%s.so" % v, "--prop", prop, "--seed", str(seed), "--shard", str(s), "--nshard", str(NSH), "--runs", str(max(1, int(rounds * SHARE.get(v, 1)))), "--dict", d + "/dict.txt",
               "--out", out, "--replaydir", rd, "--variant", v, "--known", KNOWN, "--warm", "120", "--tlimit", "%.1f" % per]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"); procs[(v, s)] = p
        try: txt = p.communicate(timeout=per + 300)[0]
        except subprocess.TimeoutExpired: p.kill(); txt = "timed out"; p.communicate()
        r = None
        try: r = json.load(open(out))
        except Exception: pass
        return v, s, p.returncode, (r, txt)
    agg = {}; digest = 0; mstk = (0, ""); samples = []; errors = []; found = []; known = {}; cov = {}; fns = {}; maxs = (0, "")
    pool = ThreadPoolExecutor(os.cpu_count() or 8)
    futs = [pool.submit(run, v, s) for v, s in tasks]
    for f in as_completed(futs):
        v, s, rc, x = f.result()
        if rc is None: continue
        r, txt = x
        if rc not in (0, 1) and not (stop[0] and rc < 0): errors.append("%s shard %d: exit %s: %s" % (v, s, rc, (txt or "")[-400:]))
        if not r: continue
        for k, n in r.items():
            if isinstance(n, int) and k not in ("max_steps", "functions", "digest", "max_stack"): agg[k] = agg.get(k, 0) + n
        digest ^= r.get("digest", 0) * (2 * (list(build.VARIANTS).index(v) * NSH + s) + 1) & 0xffffffffffff
        fns[v] = fns.get(v, 0) + r["functions"]; samples += [v + ": " + z for z in r["samples"]]
        mstk = max(mstk, (r.get("max_stack", 0), r.get("max_stack_fn", "") + " (" + v + ")"))
        if r["max_steps"] > maxs[0]: maxs = (r["max_steps"], r["max_fn"])
        for k, n in r["known"].items(): known[k] = known.get(k, 0) + n
        try:
            b = open(os.path.join(work, "%s-%d.json.cov" % (v, s)), "rb").read(); w = struct.unpack("<%dI" % (len(b) // 4), b)
            c = cov.setdefault(v, [0, set()]); c[0] = max(c[0], w[0]); c[1].update(w[1:])
        except Exception: pass
        if r.get("found"):
            found.append((v, s, r["found"], r["text"]))
            q = subprocess.run([dsim, "--so", d + "/cut_%s.so" % v, "--replay", r["found"], "--dict", d + "/dict.txt"], text=True, capture_output=True, errors="replace")
            if q.returncode == 1 and "(same execution)" in q.stdout:
                if not stop[0]:
                    stop[0] = (v, s, r["found"], r["text"])
                    for k, p in list(procs.items()):
                        if p.poll() is None: p.terminate()
            else: errors.append("replay of %s in a fresh process: exit %d %s" % (r["found"], q.returncode, q.stdout[-300:]))
    pool.shutdown(); wall = time.time() - t0
    for f in glob.glob(work + "/*"): os.unlink(f)
    os.rmdir(work)
    rule = level_rule(prop)
    secs = max(agg.get("wall_ms", 1) / 1000.0, 0.001)
    faults = {k: agg.get(k, 0) for k in ("switch", "signal", "cancel", "stall", "delayed_stores", "readonly_objects", "page_edge_objects", "objects_across_pages", "runs_with_failing_allocation", "threads_with_unmasked_exceptions") if agg.get(k)}
    faults.update({k[6:]: n for k, n in agg.items() if k.startswith("fault_")})
    cv = {"evaluations": agg.get("runs", 0), "distinct_nontrivial": agg.get("nontrivial", 0), "rule": rule["rule"], "samples": samples[:: max(1, len(samples) // 12)][:12],
          "simulated_runs": agg.get("runs", 0), "cglm_calls": agg.get("calls", 0), "runs_per_core_hour": int(agg.get("runs", 0) / secs * 3600), "seeds_per_wall_hour": int(agg.get("runs", 0) / max(0.001, wall - tb) * 3600),
          "simulated_steps": agg.get("steps", 0), "reference_steps": agg.get("solo_steps", 0), "simulated_time": "counted in steps (memory accesses, branches and seam calls of the code under test); cglm has no clock or timer",
          "faults_injected": faults, "determinism_rechecks": agg.get("rechecked", 0), "determinism_mismatches": agg.get("nondet", 0), "digest_of_all_executions": "%012x" % digest,
          "functions_seen_touching_module_state": agg.get("stateful_functions", 0),
          "longest_call": {"steps": maxs[0], "function": maxs[1]}, **({"deepest_stack": {"bytes": mstk[0], "function": mstk[1]}} if mstk[0] else {}),
          "call_sites_reached": {v: {"reached": len(c[1]), "of": c[0]} for v, c in sorted(cov.items())},
          "functions_driven": fns, "variants": {v: info["variants"][v]["flags"] for v in vs}, "libc_called_directly": {v: info["variants"][v].get("libc_direct", []) for v in vs}, "variants_skipped": info.get("skipped_variants", []),
          "real_code": rule["real"], "stubs": rule["stubs"], "build_s": round(tb, 1)}
    for k, n in agg.items():
        if k.startswith("probe_"): cv.setdefault("probes", {})[k[6:]] = n
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cv, "assumptions": rule["assumptions"], "wall_s": round(wall, 1), "violations": 1 if stop[0] else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k, n in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%d times)" % (prop, known_text(k), n))
    print("%s %s seed %d: %d runs, %d distinct non-trivial, %d calls, %.0f s (build %.0f s)" % (prop, tier, seed, agg.get("runs", 0), agg.get("nontrivial", 0), agg.get("calls", 0), wall, tb))
    if stop[0]:
        print(stop[0][3]); print("VIOLATION property=%s replay=%s" % (prop, stop[0][2])); return 1
    if errors or not agg.get("runs"):
        for e in errors[:6]: print("ERROR " + e)
        return 2
    return 0
def known_text(sig):
    for l in open(KNOWN):
        if l.startswith("ignore " + sig): return sig
    return sig
def replay(path):
    info = build.build(); d = info["dir"]; v = re.search(r"^variant (\S+)", open(path).read(), re.M).group(1)
    q = subprocess.run([d + "/dsim", "--so", d + "/cut_%s.so" % v, "--replay", path, "--dict", d + "/dict.txt"], text=True, errors="replace")
    return q.returncode
if __name__ == "__main__": sys.exit(main())
