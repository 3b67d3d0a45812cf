#!/usr/bin/env python3
"""Regenerates gen/api.json, the committed table of public functions and argument
roles, from the headers of a /repo tree.  Run by hand when the API grows; the
checks only read the committed table and drop entries the tree does not declare."""
import re, subprocess, json, sys, os, tempfile
REPO = sys.argv[1] if len(sys.argv) > 1 else "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); import wrap
SRC = "#define CGLM_DEFINE_PRINTS\n" + wrap.head(wrap.OPTIONAL)
def pp():
    r = subprocess.run(["clang", "-E", "-x", "c", "-I" + REPO + "/include", "-iquote", REPO + "/include/cglm/struct", "-"], input=SRC, text=True, capture_output=True, check=True)
    return r.stdout
txt = pp()
# keep file info from line markers
cur = None; buf = {}
order = []
for line in txt.split("\n"):
    m = re.match(r'# \d+ "([^"]*)"', line)
    if m: cur = m.group(1); continue
    if cur and "cglm/" in cur:
        if cur not in buf: buf[cur] = []; order.append(cur)
        buf[cur].append(line)
BASE = {"vec2": 1, "vec3": 1, "vec4": 1, "versor": 1, "ivec2": 1, "ivec3": 1, "ivec4": 1}
for a in "234":
    BASE["mat" + a] = 1
    for b in "234":
        if a != b: BASE["mat%sx%s" % (a, b)] = 1
fns = {}
RX = re.compile(r'(static inline __attribute\(\(always_inline\)\)|__attribute__\(\(visibility\("default"\)\)\))\s+([\w\s\*]+?)\s*\b(glm\w*)\s*\(([^{};]*?)\)\s*(\{|;)', re.S)
for f in order:
    if "/simd/" in f: continue
    short = f.split("cglm/", 1)[1] if f.startswith(REPO) else f
    short = re.sub(r'^.*include/cglm/', '', f)
    for m in RX.finditer("\n".join(buf[f])):
        ret = " ".join(m.group(2).split()); name = m.group(3); params = " ".join(m.group(4).split())
        if name in fns or name == "glms_aabb2d_radius": continue     # the latter calls a function that does not exist: it cannot be linked
        ps = []
        bad = None
        if params and params != "void":
            for q in params.split(","):
                q = q.strip()
                restrict = "__restrict" in q
                q = q.replace("__restrict", " ")
                const = "const " in q; q = q.replace("const ", "")
                q = " ".join(q.split())
                mm = re.match(r'^(.*?)\s*\b(\w+)\s*((?:\[\w*\])*)$', q)
                t, nm, arr = mm.group(1).strip(), mm.group(2), mm.group(3)
                stars = t.count("*"); t = t.replace("*", "").strip()
                p = {"n": nm, "t": t}
                if restrict: p["restrict"] = 1
                if const: p["const"] = 1
                if t in ("FILE", "char"): p["k"] = t.lower()
                elif stars and arr == "[]": p["k"] = "pparr"
                elif arr == "[]": p["k"] = "arrn"
                elif arr: p["k"] = "ptr"; p["c"] = int(arr.strip("[]"))
                elif stars: p["k"] = "ptr"; p["c"] = 1
                elif t in BASE: p["k"] = "ptr"; p["c"] = 1
                else: p["k"] = "val"
                ps.append(p)
        fns[name] = {"name": name, "ret": ret, "file": short, "p": ps}
OUTN = {"dest", "d", "dst", "planes_", }
def base_name(n): return re.sub(r'^glm[sc]?_', '', n)
MUT1 = None
# roles: out / inout by name; everything else in. Overrides below, validated dynamically (sim --calibrate).
OV = json.load(open(os.path.join(HERE, "roles.json"))) if os.path.exists(os.path.join(HERE, "roles.json")) else {}
for n, f in fns.items():
    b = base_name(n); layer = n.split("_")[0]
    names = [p["n"] for p in f["p"]]
    cnt = [p for p in f["p"] if p["k"] == "val" and p["n"] in ("len", "count")]
    for p in f["p"]:
        if p["k"] in ("file", "char"): continue
        p["r"] = "in"
        if p["k"] == "val":
            if cnt and p is cnt[0]: p["dom"] = "len2" if "mulN" in n else "len"
            elif p["t"] == "glm_euler_seq": p["dom"] = "euler"
            elif "swizzle" in n and p["n"] == "mask": p["dom"] = "mask" + re.search(r'vec(\d)', n).group(1)
            elif re.search(r'_swap_(col|row)$', n) and p["t"] == "int": p["dom"] = "idx" + re.search(r'mat(\d)', n).group(1)
            elif p["t"] == "int" and re.search(r'ivec\d_(divs|mods|mod|div)$', n): p["dom"] = "nz"
            elif "ivec" in p["t"] and re.search(r'_(div|mod)$', n) and p["n"] == "b": p["dom"] = "nz"
            continue
        if re.search(r'ivec\d_(div|mod)$', n) and p["t"].startswith("ivec") and p["n"] == "b": p["dom"] = "nz"
        if n.endswith("euler_order"): p["dom"] = "perm3"
        # length-coupled
        if p["k"] == "arrn" or p["k"] == "pparr": p["cn"] = names.index(cnt[0]["n"])
        if p["k"] == "ptr" and cnt and "identity_array" in n: p["k"] = "arrn"; p["cn"] = names.index(cnt[0]["n"])
        # '_make(const float *src)' reads as many floats as the made type holds
        if re.search(r'_make$', n) and p["t"] == "float" and p["n"] == "src":
            mk = re.search(r'((?:mat\d(?:x\d)?|vec\d|quat))_make', n).group(1)
            p["c"] = {"vec2": 2, "vec3": 3, "vec4": 4, "quat": 4, "mat2": 4, "mat3": 9, "mat4": 16}.get(mk) or int(mk[3]) * int(mk[5])
        if n in ("glm_vec2", "glmc_vec2") and p["n"] == "v" and p["t"] == "float": p["c"] = 2
        if re.match(r'glm[sc]?_ivec2$', n) and p["t"] == "int" and p["n"] == "v": p["c"] = 2
        if p["n"] in OUTN: p["r"] = "out"
    for i, p in enumerate(f["p"]):
        for key in (n + "." + p["n"], "*_" + b + "." + p["n"]):
            if key in OV: p["r"] = OV[key]
json.dump(list(fns.values()), open(os.path.join(HERE, "api.json"), "w"), indent=0)
print(len(fns))
