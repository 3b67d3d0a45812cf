#!/usr/bin/env python3
"""Runs shards of every property twice - alone, and with all cores busy - and compares everything but the wall time."""
import sys, os, subprocess, json, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/gen"); sys.dont_write_bytecode = True
import build
info = build.build(); d = info["dir"]; vs = list(info["variants"])
def shard(prop, v, tmp, tag):
    out = "%s/%s-%s-%s" % (tmp, prop, v, tag); pp = prop in ("C11", "C12", "C13")
    subprocess.run([d + "/dsim", "--so", d + "/cut_%s.so" % v, "--prop", prop, "--seed", "7", "--shard", "3", "--nshard", "8", "--runs", "20000" if pp else "40", "--dict", d + "/dict.txt", "--out", out, "--replaydir", tmp, "--variant", v, "--warm", "120"], stdout=subprocess.DEVNULL)
    r = json.load(open(out)); r.pop("wall_ms"); r["cov"] = open(out + ".cov", "rb").read().hex(); return r
bad = 0
with tempfile.TemporaryDirectory() as tmp:
    work = [("C%02d" % p, v) for p in range(1, 14) for v in vs]
    pool = ThreadPoolExecutor(2 * (os.cpu_count() or 8)); busy = list(pool.map(lambda w: shard(w[0], w[1], tmp, "a"), work)); pool.shutdown(); n = 0
    for w, a in zip(work, busy):
        b = shard(w[0], w[1], tmp, "b"); n += a["runs"]
        if a != b: bad += 1; print("DIFFERENT", w, {k: (a[k], b[k]) for k in a if a[k] != b[k] and k != "cov"})
print("%d shards, %d runs each way, %d different" % (len(work), n, bad)); sys.exit(bad != 0)
