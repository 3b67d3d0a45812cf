#!/usr/bin/env python3
"""Builds the simulator and the variants of the code under test from /repo's working tree."""
import os, sys, subprocess, hashlib, glob, re, shutil, json, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import wrap
REPO = os.environ.get("CGLM_REPO", "/repo")
INS = ["-fsanitize=thread", "-fsanitize-coverage=trace-pc,trace-cmp", "-fPIC", "-g0", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-fno-strict-aliasing"]
CL = ["-mllvm", "-tsan-instrument-func-entry-exit=0"]
QUOTE = ["-iquote", REPO + "/include/cglm/struct"]     # struct/handed includes "../common.h"
NOX86 = ["-U__SSE__", "-U__SSE2__", "-U__SSE3__", "-U__SSE_MATH__", "-U__SSE2_MATH__", "-I" + VERIF + "/sim/emu"]
VARIANTS = {
 # the finest grain: every source-level access of the default SSE2 build
 "c0":   ["clang", "-O0", "-DCGLM_DEFINE_PRINTS"] + CL,
 # as shipped: gcc -O3 -DNDEBUG, inline prints compiled out
 "g3":   ["gcc", "-O3", "-DNDEBUG", "--param=tsan-instrument-func-entry-exit=0"],
 # AVX2+FMA paths, LH_ZO clip space, other print options
 "avx":  ["gcc", "-O1", "-mavx2", "-mfma", "-DCGLM_SSE4_DOT", "-DCGLM_FORCE_LEFT_HANDED", "-DCGLM_FORCE_DEPTH_ZERO_TO_ONE",
          "-DCGLM_DEFINE_PRINTS", "-DCGLM_PRINT_PRECISION=3", "-DCGLM_PRINT_MAX_TO_SHORT=1e3f", "--param=tsan-instrument-func-entry-exit=0"],
 # AVX without FMA (SSE3 dot), unaligned types, RH_ZO clip space, no colours
 "avx1": ["clang", "-O1", "-mavx", "-DCGLM_SSE3_DOT", "-DCGLM_ALL_UNALIGNED", "-DCGLM_NO_INT_DOMAIN", "-DCGLM_FAST_MATH", "-DCGLM_USE_DEFAULT_EPSILON",
          "-DCGLM_FORCE_DEPTH_ZERO_TO_ONE", "-DCGLM_DEFINE_PRINTS", "-DCGLM_PRINT_COLOR=\"\"", "-DCGLM_PRINT_COLOR_RESET=\"\""] + CL,
 # scalar fallbacks, LH_NO clip space
 "scal": ["gcc", "-O0", "-U__SSE__", "-U__SSE2__", "-U__SSE3__", "-U__SSE4_1__", "-U__SSE4_2__", "-U__AVX__", "-DCGLM_FORCE_LEFT_HANDED",
          "-DCGLM_DEFINE_PRINTS", "--param=tsan-instrument-func-entry-exit=0"],
 # ARM and WebAssembly paths over stand-in intrinsics (sim/emu)
 "neon": ["clang", "-O0"] + NOX86 + ["-D__ARM_NEON=1", "-D__ARM_NEON_FP=14", "-DEMU_ARM64", "-DCGLM_DEFINE_PRINTS"] + CL,
 "n32":  ["clang", "-O1"] + NOX86 + ["-D__ARM_NEON=1", "-D__ARM_NEON_FP=14", "-DCGLM_FORCE_DEPTH_ZERO_TO_ONE", "-DCGLM_NO_PRINTS_NOOP"] + CL,
 "wasm": ["clang", "-O0"] + NOX86 + ["-D__wasm__=1", "-D__wasm_simd128__=1", "-DCGLM_FORCE_LEFT_HANDED", "-DCGLM_DEFINE_PRINTS"] + CL,
}
class BuildError(Exception): pass
def sh(cmd, **kw): return subprocess.run(cmd, text=True, capture_output=True, **kw)
def tree_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*", recursive=True))
    fs = [(f, os.path.relpath(f, REPO)) for f in fs if os.path.isfile(f)]
    for f in sorted(glob.glob(VERIF + "/sim/*") + glob.glob(VERIF + "/sim/emu/*") + glob.glob(VERIF + "/gen/*")):
        if os.path.isfile(f): fs.append((f, "verif/" + os.path.relpath(f, VERIF)))
    for f, rel in fs:
        h.update(rel.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]
def cpu_ok(v):
    if not v.startswith("avx"): return True
    fl = open("/proc/cpuinfo").read()
    return " avx" in fl and (v == "avx1" or " avx2" in fl and " fma" in fl)
def build(verbose=False, only=None):
    t0 = time.time()
    root = os.path.join(VERIF, ".build"); os.makedirs(root, exist_ok=True)
    key = tree_hash(); out = os.path.join(root, key)
    stamp = os.path.join(out, "ok.json")
    if os.path.exists(stamp):
        info = json.load(open(stamp)); info["dir"] = out; return info
    for d in os.listdir(root):          # keep the newest two
        p = os.path.join(root, d)
        if d != key and time.time() - os.path.getmtime(p) > 3600: shutil.rmtree(p, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid(); os.makedirs(tmp)
    srcs = sorted(f for f in glob.glob(REPO + "/src/**/*.c", recursive=True) if "/swift/" not in f)
    pool = ThreadPoolExecutor(os.cpu_count() or 4)
    redef = os.path.join(VERIF, "sim", "redefine.txt")
    variants = [v for v in VARIANTS if cpu_ok(v) and (not only or v in only)]
    info = {"variants": {}, "key": key, "skipped_variants": [v for v in VARIANTS if v not in variants]}
    broken = {}
    def skip(v, why): broken.setdefault(v, why)     # a configuration that does not compile is left out and reported
    def comp(v, src, obj, extra=()):
        cc = VARIANTS[v]
        return sh(cc[:1] + cc[1:] + INS + list(extra) + QUOTE + ["-I" + REPO + "/include", "-I" + VERIF + "/sim", "-c", src, "-o", obj])
    def prep(v):
        d = os.path.join(tmp, v); os.makedirs(d)
        cc = [a for a in VARIANTS[v]]
        opt = [h for h in wrap.OPTIONAL if os.path.exists(REPO + "/include/" + h)]
        def ok(o): return subprocess.run(cc + INS + ["-I" + REPO + "/include", "-fsyntax-only", "-x", "c", "-"] + QUOTE, input=wrap.head(o), text=True, capture_output=True).returncode == 0
        if not ok(opt): opt = [h for h in opt if ok([h])]
        head = wrap.head(opt)
        r = subprocess.run(cc + ["-fno-sanitize=all", "-I" + REPO + "/include"] + QUOTE + ["-E", "-P", "-x", "c", "-"], input=head, text=True, capture_output=True)
        if r.returncode: return skip(v, "preprocessing failed: " + r.stderr[:1500])
        decl = set(re.findall(r"\bglm\w+", r.stdout))
        if v == "g3":   # prints compiled out: macros
            dm = subprocess.run(cc + ["-I" + REPO + "/include", "-E", "-dM", "-x", "c", "-"], input=head, text=True, capture_output=True).stdout
            decl |= set(re.findall(r"#define (glm_\w+_print\w*)\(", dm))
        dropped = []
        w = os.path.join(d, "wrap.c")
        for attempt in range(4):
            lines, names = wrap.emit(w, decl, set(dropped), opt)
            r = comp(v, w, os.path.join(d, "wrap.o"))
            if r.returncode == 0: break
            bad = set()
            for m in re.finditer(r"wrap\.c:(\d+):\d+: error", r.stderr):
                if int(m.group(1)) in lines: bad.add(lines[int(m.group(1))])
            if not bad: return skip(v, "cannot compile the wrappers: " + r.stderr[:1500])
            dropped += sorted(bad)
        else: return skip(v, "cannot compile the wrappers")
        info["variants"][v] = {"functions": len(names), "dropped": dropped, "flags": " ".join(VARIANTS[v])}
    futs = [pool.submit(prep, v) for v in variants]
    def one(v, s):
        rel = os.path.relpath(s, REPO + "/src").replace("/", "_")[:-2] + ".o"
        obj = os.path.join(tmp, "o_" + v + "_" + rel)
        r = comp(v, s, obj)
        if r.returncode: skip(v, "compile of %s failed: %s" % (s, r.stderr[:1500])); return v, None
        return v, obj
    cf = [pool.submit(one, v, s) for v in variants for s in srcs]
    def simc(s):
        obj = os.path.join(tmp, os.path.basename(s) + ".o")
        r = sh(["g++", "-std=c++17", "-O2", "-g", "-Wall", "-Wno-unused-function", "-Wno-misleading-indentation", "-fno-strict-aliasing", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-I" + VERIF + "/sim", "-c", s, "-o", obj])
        if r.returncode: raise BuildError("simulator does not compile:\n" + r.stderr[:6000])
        return obj
    sf = [pool.submit(simc, s) for s in sorted(glob.glob(VERIF + "/sim/*.cpp"))]
    objs = [f.result() for f in sf]
    r = sh(["g++", "-rdynamic", "-o", os.path.join(tmp, "dsim")] + objs + ["-ldl", "-lm", "-lpthread"])
    if r.returncode: raise BuildError("simulator does not link:\n" + r.stderr[:4000])
    per = {v: [] for v in variants}
    for f in cf:
        v, o = f.result()
        if o: per[v].append(o)
    for f in futs: f.result()
    variants = [v for v in variants if v not in broken]
    if not variants: raise BuildError("no configuration of the tree under test compiles:\n" + "\n".join(broken.values()))
    for v in broken: info["variants"].pop(v, None)
    info["skipped_variants"] += sorted(broken); info["broken"] = broken
    def link(v):
        d = os.path.join(tmp, v)
        for o in [os.path.join(d, "wrap.o")] + per[v]:
            r = sh(["objcopy", "--redefine-syms=" + redef, o])
            if r.returncode: raise BuildError("objcopy: " + r.stderr)
        r = sh(["gcc", "-shared", "-nostartfiles", "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,relro", "-o", os.path.join(tmp, "cut_%s.so" % v), os.path.join(d, "wrap.o")] + per[v] + ["-lm"])
        if r.returncode: raise BuildError("link %s: %s" % (v, r.stderr[:3000]))
        nm = sh(["nm", "-D", "--undefined-only", os.path.join(tmp, "cut_%s.so" % v)]).stdout.split()
        info["variants"][v]["libc_direct"] = sorted(x for x in set(n.split("@")[0] for n in nm) if len(x) > 1 and not re.match(r"sim_|__tsan|__sanitizer|_ITM|__gmon|__cxa|_GLOBAL", x))
        so = os.path.join(tmp, "cut_%s.so" % v)
        if re.search(rb"\x0f\xae\xf0|\xf0\x48?\x83[\x0c\x4c]\x24", open(so, "rb").read()) and re.search(r"\t(mfence|lock or[lq]? +\$0x0,[-0-9a-fx]*\(%[er]sp\))", sh(["objdump", "-d", "--no-show-raw-insn", so]).stdout):
            open(so + ".fence", "w").close(); info["variants"][v]["note"] = "fences in assembly: no late stores simulated"
        for o in per[v]: os.unlink(o)
        os.unlink(os.path.join(d, "wrap.o"))
    list(pool.map(link, variants))
    consts = {}
    for f in glob.glob(REPO + "/include/**/*.h", recursive=True) + srcs:
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\d*\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|\d{1,5})[fF]?(?![\w.])", re.sub(r"/\*.*?\*/|//[^\n]*", "", open(f, errors="replace").read(), flags=re.S)):
            try: consts.setdefault(os.path.basename(f)[:-2], set()).add(float(m.group(1)))
            except ValueError: pass
    open(os.path.join(tmp, "dict.txt"), "w").write("".join("%s %r\n" % (k, c) for k in sorted(consts) for c in sorted(consts[k])))
    info["build_s"] = round(time.time() - t0, 1)
    json.dump(info, open(os.path.join(tmp, "ok.json"), "w"))
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    info["dir"] = out
    return info
if __name__ == "__main__":
    i = build(); print(json.dumps(i, indent=1))
