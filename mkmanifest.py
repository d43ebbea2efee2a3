"""Writes MANIFEST.json (run by hand when checks are added)."""
import json
T = "deterministic simulation with fault injection: seeded search over %s, "
N = "Seeded sample of simulated executions of the real library; a clean run is evidence, not proof. Trusts the compiler's access instrumentation and the simulator. "
C = {
 "C01": ("thread interleavings and faults; replies compared with solo executions, happens-before race check", "Interleavings are chosen at single memory accesses of the library (2-3 threads); GLPK and centroidal-dynamics internals are not pre-empted."),
 "C02": ("call histories; every reply compared with the same call in a fresh process", "Histories up to 50 calls, with near-identical requests, faults, clock jumps and leftover memory patterns in between."),
 "C03": ("allocation-failure points (every allocation site of the request, once or for good); outcome, arguments and later calls checked", "Allocations inside GLPK and libc are excluded as stated."),
 "C04": ("repeated operations with every outcome and fault; steady growth of the simulated heap is the violation", "Seven repetitions; growth must persist over the last four. The listed copy leak is recognised by its exact footprint only."),
 "C05": ("leftover heap and stack contents; replies compared with zeroed memory", "Seven fill patterns; unused stack of up to 700 kB; uninitialised local variables of headers compiled with the library through a second build that fills them."),
 "C06": ("failures injected at the optimiser and contact-model seams, and natural ones; the reply is checked against what the solver really reported", "A build in which the solvers are no longer reached through their functions would give no verdict for that part."),
 "C07": ("histories of one solver object with size changes, iteration limits and allocation failures; compared with a fresh object", "Sizes up to 12 variables, 24 inequalities. The Hessian is factored by the solver or, in one solve of seven, by the caller."),
 "C08": ("sessions of requests, threads and faults; every success reply judged by an independent model of the request", "Tolerances 2e-5 relative; stability checked with the contact model's own inequalities."),
 "C09": ("calls with faults and interleavings while all arguments lie in read-only pages", "Catches writes from any code including dependencies."),
 "C10": ("throwing and re-entering path callbacks at every evaluation; exception identity, later replies, heap growth checked", "Three exception kinds; nested calls to every entry point."),
 "C11": ("interleavings of host LP operations with planning; host objects and replies compared with runs without the other", "GLPK as installed (per-thread environment)."),
 "C12": ("requests of all sizes, malformed requests and all fault kinds; memory access, frees, termination and step bounds monitored", "Bound: 7e8 steps per call."),
 "C13": ("histories of copy, assign, move, store, edit and destroy with allocation failures; plans compared with the original's", "Assignment sharing the contact model is a listed known finding."),
 "C14": ("host settings, faults and interleavings; every setting compared before, inside and after each call, replies with those under default settings", "Settings that cannot be put back unnoticed are watched; changes undone before the call returns are seen only from the user's path. Stream widths are not watched: every print resets them."),
 "C15": ("histories and interleavings of keeping, evaluating, copying, editing and destroying returned plans while others are computed; every view compared with a fresh one, happens-before race check", "Evaluation inside the curve library is instrumented as it is compiled from headers."),
 "C16": ("histories and interleavings of exports on a simulated disk that refuses to open, cuts short, interrupts or fails writes; every file judged against the system it was given and compared with an export alone", "Writes made by C stdio inside libc cannot be made to fail (opening and closing can); crashes of the process during an export are not simulated, nothing is promised about them."),
}
NA = {
 "N01": "Optimality of a reply is a pure function of the request: no schedule, fault, clock or history is involved, so a simulator adds nothing to input generation.",
 "N02": "Completeness (no false infeasibility) is a pure function of the request; nothing for a scheduler or fault injector to vary.",
 "N03": "Agreement of the formulas of a boundary-condition set is a pure algebraic fact about deterministic functions.",
 "N04": "The sampled instants are a pure function of the durations and the step.",
 "N05": "Accepting or rejecting a request is a pure function of the request (that a rejection leaves no trace is C02/C04/C12).",
 "N06": "Row normalisation is a pure function of its matrix.",
 "N07": "Agreement of continuous and sampled formulations compares pure functions of the request.",
 "N08": "Equality of two forwarding layers on one request is a pure function of the request. The bindings add no scheduling, clock or I/O of their own; the simulator runs the C++ functions they forward to (C01-C16), not the interpreter.",
}
m = {"version": 1, "setup_cmd": "python3 simbuild.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": (T % a.partition(";")[0] + a.partition(";")[2].strip()).rstrip(", "), "level": "exploration", "level_note": N + b} for p, (a, b) in C.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: the library is compiled by simbuild.py with access instrumentation and link-time wrappers. Commits in /repo are fixes (see known_findings.txt)."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
