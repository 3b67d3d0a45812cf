#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ALLH = ["include/cglm/*.h", "include/cglm/struct/*.h", "include/cglm/call/*.h",
        "include/cglm/clipspace/*.h", "include/cglm/handed/*.h", "include/cglm/simd/**/*.h", "src/**/*.c"]
IO = ["include/cglm/io.h", "include/cglm/struct/io.h", "include/cglm/call/io.h", "src/io.c"]
SEQ = ("The suite is one single-threaded process that makes each call once, on a handful of values, "
       "into a fresh object, with nothing else going on; ")

prop("C01", "Concurrent calls on shared inputs never interfere",
 "Any number of threads may be inside any cglm functions (the printing functions aside) at the same time, through the inline, struct and compiled APIs alike, reading the same input objects and writing to objects of their own. "
 "Under every interleaving each call leaves in its outputs, and returns, exactly the bits it gives when it runs alone.",
 ["schedules", "inputs"], "every interleaving, down to the single memory access, of 2..5 calling threads, every pair of functions and every argument value",
 SEQ + "it never has two calls in flight, so scratch storage shared between calls, a lazily filled table or a published intermediate is invisible to it.",
 ALLH, [("all temporaries are automatic; no static, global or thread-shared scratch anywhere", "include/cglm/*.h (e.g. mat4.h glm_mat4_inv, noise.h tables built on the stack)"),
        ("the compiled API is a stateless wrapper over the inline one", "src/*.c")],
 observe=["output objects and return value of every call"])
prop("C02", "Inputs are never written, not even transiently",
 "No call stores to an object that it was only given to read (a parameter that is not one of the function's documented outputs and was not also passed as one), not even to put the old value back before it returns. "
 "So another thread reading the same object, or a caller whose object lies in read-only memory, sees the caller's value at every instant of the call.",
 ["schedules", "inputs"], "every instant of every call, every argument value, every sharing of inputs between threads",
 SEQ + "array parameters are not const (a vec3/mat4 argument is a plain float pointer), so the compiler does not check this either, and a value put back before return is never seen by a test that looks after the call.",
 ALLH, [("functions read inputs into locals/registers and store only through dest", "include/cglm/*.h"),
        ("struct API takes inputs by value", "include/cglm/struct/*.h")],
 observe=["input objects, at every step of every other thread"])
prop("C03", "A call touches only the bytes of its own arguments",
 "A call neither reads nor writes a byte outside the declared extents of the objects it was given: a neighbour packed next to an argument (the next vec3 of an array, the next column, a field owned by another thread) is never overwritten, even with the value it already had, and never read. "
 "An argument that begins or ends on the edge of mapped memory therefore works like any other.",
 ["schedules", "inputs", "configurations"], "every placement and packing of arguments that the documented alignment allows, every concurrent use of the neighbouring bytes, every build option set",
 SEQ + "a 16-byte store into a 12-byte vec3 or a load past its end lands in stack padding there, and a lost update of a neighbour needs that neighbour's owner to run in between.",
 ALLH, [("3-float loads/stores are split 8+4 bytes", "include/cglm/simd/x86.h glmm_load3/glmm_store3"),
        ("mat3 SSE product stores at element offsets 0, 4, 8 only", "include/cglm/simd/sse2/mat3.h")],
 observe=["bytes around every argument", "page faults"])
prop("C04", "Calls can be interrupted and re-entered",
 "A call may be interrupted at any instant by an asynchronous handler on the same thread that itself calls any cglm function (the printing functions aside), the interrupted one included, to any depth, on objects of its own. "
 "The handler's calls and, once resumed, the interrupted call all give exactly the bits they give when run alone.",
 ["schedules", "inputs"], "every interruption instant of every call, every nesting of handlers, every pair of functions",
 SEQ + "no call is ever interrupted by another, so per-thread scratch or an in-use marker cannot show up.",
 ALLH, [("no static or thread-local scratch, no locks, no once-initialisation", "include/cglm/*.h, src/*.c")],
 observe=["outputs and return values of handler and interrupted call"])
prop("C05", "A call abandoned midway leaves no trace and can be retried",
 "A call may be abandoned at any instant (its thread is killed, or control leaves it by a longjmp from a handler) without harming anything but the output objects of that call: its inputs are intact, and every other thread's calls complete with their normal results. "
 "Running the same call again from the same inputs, into the same half-written outputs, gives exactly the bits of an undisturbed call.",
 ["crash_points", "schedules", "inputs"], "every abandonment instant of every call, repeated abandonments, every argument value",
 SEQ + "every call there runs to its end, so a marker left set, a half-updated table or an input left modified is never observed.",
 ALLH, [("no state outlives a call, outputs are only written, inputs are only read", "include/cglm/*.h, src/*.c")],
 observe=["inputs after the crash", "results of the retry and of later calls"])
prop("C06", "Results never depend on earlier calls",
 "What a call computes depends only on the values of its arguments: after any history of calls, of any functions, in any order and number, with the same or other argument values at the same or other addresses, on any thread, it gives exactly the bits it gives as the first call of the process.",
 ["histories", "inputs"], "every sequence of earlier calls (from one to thousands), argument values that differ from an earlier call's in as little as one component, addresses re-used with new contents",
 SEQ + "every function is exercised a few times in one fixed order, so a memo with an incomplete key, a counter or a mode left behind by a special value would have to collide with exactly that order.",
 ALLH, [("pure functions of their arguments: no caches, counters or modes", "include/cglm/*.h, src/*.c")],
 observe=["outputs and return value of every call of a history"])
prop("C07", "Results never depend on leftover memory or placement",
 "What a call computes does not depend on anything but its argument values: not on what its output objects, the stack below the caller or the registers held before, nor on the addresses of its arguments within their documented alignment, nor on pending floating-point exception flags. "
 "Whether and which output bytes it leaves untouched depends on the argument values only, and bytes it leaves untouched keep their value.",
 ["inputs", "configurations", "histories"], "every prior content of outputs, stack and registers, every permitted placement, every argument value",
 SEQ + "outputs usually live in zeroed or just-initialised locals and the stack contents happen to be the same on every run, so one path that forgets to set a component can pass.",
 ALLH, [("every local is assigned before use, every output component is stored on every path that stores any", "include/cglm/*.h")],
 observe=["outputs and return value under two or more different ambient states"])
prop("C08", "The thread's floating-point control state is never changed",
 "A call leaves the thread's floating-point control state (rounding mode, flush-to-zero and denormals-are-zero modes, exception masks) as the caller set it, both when it returns and at every instant at which a handler, another coroutine or the rest of an abandoned computation could run on that thread. "
 "In every such state it gives the same bits whatever runs on other threads, and leaves the other threads' states alone.",
 ["schedules", "crash_points", "inputs", "configurations"], "every instant of every call, every caller-chosen control state, every argument value",
 SEQ + "it runs in the default control state only and never looks at it.",
 ALLH, [("plain C arithmetic and SSE/AVX value intrinsics, no fenv or MXCSR writes", "include/cglm/*.h, include/cglm/simd/**")],
 observe=["MXCSR and x87 control word at every step and at return"])
prop("C09", "Every call is wait-free and acquires no resources",
 "A call of a function that does not print finishes within a fixed number of its own steps and a fixed amount of stack (scaled only by an explicit element count) for every argument value, NaN, infinities, denormals and huge magnitudes included, even if all other threads are stalled forever in the middle of cglm calls. "
 "It acquires no heap memory, file, lock or other resource, so it gives its normal result while every allocation and system call in the process is failing.",
 ["fault_sequences", "schedules", "inputs"], "every set of peers stalled at any instant, failing allocations, every argument value",
 SEQ + "nothing stalls or fails there, and arguments are ordinary values for which a data-dependent loop ends at once.",
 ALLH + ["docs/source/getting_started.rst", "docs/source/troubleshooting.rst"],
 [("no loops whose trip count depends on float values, except the capped subdivision", "include/cglm/bezier.h glm_decasteljau"),
  ("'cglm doesn't alloc any memory on heap'", "docs/source/getting_started.rst")],
 observe=["own steps from call to return", "allocator and system-call seam"])
prop("C10", "Histories on lock-protected shared objects are sequential",
 "When several threads update shared matrices, vectors and quaternions in place through any cglm functions, each holding the caller's own locks on the objects its call names, the outcome of every call and the final objects are those of running the calls one at a time in the order in which they took their locks. "
 "Handing an object from one thread to another, or refilling it with a new value at the same address, never lets a call see or restore an older value.",
 ["histories", "schedules", "inputs"], "every history of in-place and cross-object calls by 2..4 threads, every interleaving of calls on disjoint object sets",
 SEQ + "no object is ever shared or handed over, and no address is re-used by another thread.",
 ALLH, [("objects are plain memory owned by the caller: nothing about them is remembered between calls", "include/cglm/types.h, include/cglm/*.h")],
 observe=["all shared objects after each call and at the end of the history"])
prop("C11", "Printing renders the whole value, whatever the stream's buffering",
 "A print function appends to the given stream, after what the caller had already written and before what it writes next, one rendering in which every element of the value appears once, in its row and column (matrices by rows, columns lined up): fixed-point with the configured precision if the element is below the configured shortening threshold, and in %g form otherwise. "
 "The bytes are the same for the array, struct and compiled APIs and for every buffering mode, buffer size and chunking of the stream; where printing is compiled out the inline functions write nothing while the compiled ones still print.",
 ["inputs", "configurations", "histories"], "every element value, every stream buffer mode and size, every sequence of prints and caller writes on one stream",
 "No test calls a print function except to display failures; nothing reads back what was written.",
 IO + ["docs/source/io.rst", "docs/source/opt.rst"],
 [("two passes: column widths from snprintf, then fprintf per element", "include/cglm/io.h glm_mat4_print"),
  ("CGLM_DEFINE_PRINTS / NDEBUG / CGLM_LIB_SRC switch", "include/cglm/io.h")],
 observe=["bytes reaching the device behind the stream"])
prop("C12", "Printing stays truthful when the stream's device fails",
 "Whatever errors, short writes, full devices or crash instants hit the device behind the stream, a print function returns after a bounded number of device operations, and what reaches the device is the intended text with at most contiguous pieces missing, one per failed device operation, never repeated, reordered or made up; a crash leaves a prefix. "
 "Any loss leaves the stream's error indicator set; the stream stays open, positioned and buffered as the caller had it, other streams and the printed value are untouched, and once the device works again and the error is cleared the next print is complete.",
 ["fault_sequences", "crash_points", "inputs"], "every position and kind of device failure during a print, transient and permanent, every buffering mode, every crash instant",
 "No test prints to a stream that can fail or looks at a stream afterwards.",
 IO, [("errors are left to stdio's error indicator; no retry, no flush, no clearing", "include/cglm/io.h")],
 observe=["bytes on the device", "ferror, buffering and openness of the stream", "other streams"])
prop("C13", "Concurrent prints are isolated and lose nothing",
 "Threads printing to different streams each get exactly the text a lone print gives, under every interleaving. "
 "Threads printing to one shared stream lose and garble nothing: the stream's text is an interleaving of whole pieces of the individual texts, each text complete and in its own order, and a print of a value another thread is also printing or reading renders that value.",
 ["schedules", "inputs"], "every interleaving, at every stdio call and memory access, of 2..4 printing threads on private and shared streams",
 "No test prints from two threads, or prints and compares at all.",
 IO, [("formatting uses automatic buffers and one atomic stdio call per piece", "include/cglm/io.h")],
 observe=["bytes reaching each device"])

# ---- properties outside what simulation can decide -------------------------
def na(id, title, st, files, q, why, mech):
    prop(id, title, st, ["inputs"] if not isinstance(q, tuple) else q[0], q if not isinstance(q, tuple) else q[1], why, files, mech)
FEW = "Tests sample a few hand-picked or random values; the guarantee is over the whole input domain."
na("C20", "Output may alias an input", "Unless a function documents otherwise, passing the same object as input and output gives the same result as passing distinct objects.",
   ["include/cglm/*.h"], "every aliasing pattern, every value", FEW, [("inputs are loaded before dest is stored", "include/cglm/mat4.h, include/cglm/simd/**")])
na("C21", "SIMD and scalar builds agree", "For the same arguments the SSE2, SSE3/4, AVX, FMA, NEON, WASM and scalar builds give the same result up to rounding.",
   ["include/cglm/simd/**", "include/cglm/mat4.h", "include/cglm/quat.h"], (["inputs", "configurations"], "every value, every instruction-set option"), "Only one option set is built and tested.", [("per-ISA implementations selected by macros", "include/cglm/simd/intrin.h")])
na("C22", "Inline, struct and compiled APIs agree", "glm_x, glms_x and glmc_x compute the same function.",
   ["include/cglm/struct/*.h", "src/**/*.c"], "every function, every value", FEW, [("struct and call layers delegate to the inline one", "src/*.c, include/cglm/struct/*.h")])
na("C23", "Matrix algebra", "Products, transposes, determinants and inverses satisfy the ring and inverse laws within rounding; the product of a well-conditioned matrix and its computed inverse is the identity within a bound.",
   ["include/cglm/mat2.h", "include/cglm/mat3.h", "include/cglm/mat4.h", "include/cglm/mat*x*.h"], "every matrix", FEW, [("cofactor formulas", "include/cglm/mat4.h")])
na("C24", "Affine transforms compose and decompose", "Translate, rotate, scale and their pre/post/2D variants compose in the documented order, and decomposing a T*R*S matrix returns its parts.",
   ["include/cglm/affine*.h"], "every transform", FEW, [("column-vector convention", "include/cglm/affine.h")])
na("C25", "Projections invert and map the documented clip volume", "Every perspective and orthographic constructor maps its frustum to the clip volume of its handedness/depth convention; decomposition and unprojection invert it.",
   ["include/cglm/cam.h", "include/cglm/clipspace/*.h", "include/cglm/project.h"], (["inputs", "configurations"], "every frustum, every clip-space option"), FEW, [("per-convention headers", "include/cglm/clipspace/*.h")])
na("C26", "Quaternions represent rotations faithfully", "Quaternion, matrix and axis-angle forms of a rotation convert into each other, products compose, and interpolation stays on the unit sphere between its end points.",
   ["include/cglm/quat.h"], "every rotation", FEW, [("xyzw layout", "include/cglm/types.h")])
na("C27", "Euler conversions round-trip", "For all six orders and both handednesses, angles to matrix/quaternion and back give the same rotation.",
   ["include/cglm/euler.h", "include/cglm/handed/*.h"], "every angle triple and order", FEW, [("glm_euler_by_order", "include/cglm/euler.h")])
na("C28", "Culling and intersection tests are conservative", "Box/sphere/frustum/ray predicates never deny an overlap that exists (beyond rounding), and merges contain both operands.",
   ["include/cglm/box.h", "include/cglm/aabb2d.h", "include/cglm/sphere.h", "include/cglm/frustum.h", "include/cglm/ray.h"], "every geometric configuration", FEW, [("plane-side tests", "include/cglm/box.h")])
na("C29", "Interpolators, easings and curves hit their end points", "Clamped interpolators stay between their end points and easing and curve functions map 0 and 1 to the documented values.",
   ["include/cglm/ease.h", "include/cglm/curve.h", "include/cglm/bezier.h", "include/cglm/util.h"], "every parameter", FEW, [("closed formulas", "include/cglm/ease.h")])
na("C30", "Vector operations are component-wise and normalisation is safe", "Vector functions compute their component-wise or metric definition; normalising a zero vector gives zero, not NaN.",
   ["include/cglm/vec*.h", "include/cglm/ivec*.h"], "every vector", FEW, [("per-component code", "include/cglm/vec3.h")])
na("C31", "Perlin noise is bounded, continuous and tiles as specified", "Noise is a fixed, continuous, bounded function of its point.",
   ["include/cglm/noise.h"], "every point", FEW, [("gradient lattice hashing", "include/cglm/noise.h")])
na("C32", "Types keep their documented layout", "Matrices are column-major, quaternions xyzw, and struct types alias raw arrays with the documented size and alignment under every option.",
   ["include/cglm/types.h", "include/cglm/types-struct.h"], (["configurations"], "every option set"), "One option set is built.", [("typedefs and unions", "include/cglm/types.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except ImportError: pass
print(len(P), "properties")
