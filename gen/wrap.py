"""Emits wrap.c: one wrapper per API function plus the table the simulator reads."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
KIND = {"val": 0, "ptr": 1, "arrn": 2, "pparr": 3, "file": 4, "char": 5}
ROLE = {"in": 0, "out": 1, "inout": 2}
DOM = {None: 0, "len": 1, "len2": 2, "euler": 3, "mask2": 4, "mask3": 5, "mask4": 6, "idx2": 7, "idx3": 8, "idx4": 9, "nz": 10, "perm3": 11, "nomin": 12}
def elem(t):
    if t.startswith("ivec") or t == "int": return "i"
    if t in ("_Bool", "bool"): return "b"
    if t == "size_t": return "z"
    if t == "uint32_t": return "u"
    if t == "glm_euler_seq": return "e"
    return "f"
# headers that cglm.h, struct.h and call.h leave out; each is dropped where it does not exist or does not compile
OPTIONAL = ["cglm/handed/euler_to_quat_lh.h", "cglm/handed/euler_to_quat_rh.h", "cglm/struct/aabb2d.h", "cglm/struct/handed/euler_to_quat_lh.h", "cglm/struct/handed/euler_to_quat_rh.h"] + \
  ["cglm/call/clipspace/%s_%s.h" % (k, c) for k in ("persp", "ortho", "view") for c in ("lh_no", "lh_zo", "rh_no", "rh_zo")] + ["cglm/call/clipspace/project_no.h", "cglm/call/clipspace/project_zo.h"]
def head(optional):
    return "#define CGLM_CLIPSPACE_INCLUDE_ALL\n" + "".join("#include <%s>\n" % h for h in ["cglm/cglm.h", "cglm/struct.h", "cglm/call.h"] + list(optional))
def load(): return json.load(open(os.path.join(HERE, "api.json")))
def emit(path, declared, skip=(), optional=()):
    """declared: set of identifiers visible after preprocessing for this variant"""
    fns = [f for f in load() if f["name"] in declared and f["name"] not in skip]
    types = []
    def ty(t):
        if t not in types: types.append(t)
        return types.index(t)
    o = head(optional).split("\n") + [
         "#include <stdio.h>", "#include <stdint.h>", '#include "cut.h"', "#define CUT_X __attribute__((visibility(\"default\")))"]
    lines = {}
    tab = []
    for k, f in enumerate(fns):
        args = []; ps = []
        if any(p.get("dom") == "nz" for p in f["p"]):      # dividends: the smallest int has no quotient by -1
            for p in f["p"]:
                if not p.get("dom") and p.get("r", "in") == "in" and re.match(r"int$|ivec", p["t"]): p["dom"] = "nomin"
        for i, p in enumerate(f["p"]):
            if p["k"] == "val": args.append("*(%s*)a[%d]" % (p["t"], i))
            elif p["k"] == "ptr" and p.get("c", 1) == 1 and p["t"] == "float" : args.append("(float*)a[%d]" % i)
            else: args.append("(void*)a[%d]" % i)
            t = ty(p["t"]) if p["k"] not in ("file", "char") else -1
            ps.append('{"%s",%d,%d,%d,%d,%d,%d,%d}' % (p["n"], KIND[p["k"]], ROLE[p.get("r", "in")], DOM[p.get("dom")], p.get("cn", -1), t, p.get("c") or 1, 1 if p.get("restrict") else 0))
        n = len(f["p"])
        call = "%s(%s)" % (f["name"], ", ".join(args))
        r = f["ret"]
        if r != "void": call = "*(%s*)a[%d] = %s" % (r, n, call)
        lines[len(o) + 1] = f["name"]
        o.append("static void w%d(void **a) { %s; }" % (k, call))
        if ps: tab.append("static const struct cut_param p%d[] = {%s};" % (k, ",".join(ps)))
        f["_row"] = '{"%s","%s",w%d,%d,%d,%s}' % (f["name"], f["file"], k, ty(r) if r != "void" else -1, n, "p%d" % k if ps else "0")
    o += tab
    o.append("static const struct cut_fn fns[] = {")
    o += [f["_row"] + "," for f in fns] + ["{0,0,0,0,0,0}};"]
    o.append("static const struct cut_type types[] = {")
    for t in types: o.append('{"%s",sizeof(%s),_Alignof(%s),\'%s\'},' % (t, t, t, elem(t)))
    o.append("{0,0,0,0}};")
    o.append("""
#ifdef CGLM_PRINT_PRECISION
#define PP CGLM_PRINT_PRECISION
#define PM CGLM_PRINT_MAX_TO_SHORT
#define PC CGLM_PRINT_COLOR
#define PR CGLM_PRINT_COLOR_RESET
#define PE 1
#else
#define PP 5
#define PM 1e5f
#define PC "\\033[36m"
#define PR "\\033[0m"
#define PE 0
#endif
CUT_X const struct cut_table cut_table = {fns, %d, types, %d, PP, PM, "" PC, "" PR, PE, sizeof(void*)};
""" % (len(fns), len(types)))
    open(path, "w").write("\n".join(o) + "\n")
    return lines, [f["name"] for f in fns]
