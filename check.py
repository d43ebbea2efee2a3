#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: one property's check (see DESIGN.md)."""
import json, multiprocessing as mp, os, queue, random, sys, time, traceback
from collections import Counter

import simbuild
from dst import *
from props import PROPS, can_path, cls_of
import probes

HERE = os.path.dirname(os.path.abspath(__file__))
SEARCH = {"quick": 40, "thorough": 600}
POOL = {"quick": 400, "thorough": 3000}
WORKERS = int(os.environ.get("DST_WORKERS", "8"))


def real(findings):
    return [f for f in findings or [] if not f[0].startswith("KNOWN:")]


class Stats:
    def __init__(self):
        self.c = Counter()
        self.fired = [0] * len(FAULTS)
        self.traces, self.inter, self.states = set(), set(), set()
        self.kinds, self.outcomes, self.entries = Counter(), Counter(), Counter()
        self.known = Counter()
        self.samples = []

    def add(self, plan, res, fnd):
        self.c["runs"] += 1
        self.c["events"] += res["events"]
        self.c["shared"] += res["shared_events"]
        self.c["allocs"] += res["allocs"]
        self.c["preempts"] += res["preempts"]
        self.c["replies"] += len(res["ops"])
        if fnd is None:
            self.c["no_verdict"] += 1
        for i, n in enumerate(res["fired"]):
            self.fired[i] += n
        th = int(res["th"], 16)
        nontriv = len(plan.ops) > 1 or plan.loops > 1 or sum(res["fired"]) > 0 or any(int(o[3].get("rep", 1)) > 1 for o in plan.ops)
        if nontriv:
            self.traces.add(hash((th, res["lh"])))
        if res["preempts"]:
            self.inter.add(th)
        self.c["max_threads"] = max(self.c["max_threads"], plan.threads)
        for o in plan.ops:
            self.kinds[o[2]] += 1
            if "desc" in o[3]:
                self.entries[o[3]["desc"].split(":")[0]] += 1
        for o in res["ops"]:
            b = o["b"]
            self.outcomes["success" if b.startswith("ok") else "failure reply" if b == "fail" else b[:60]] += 1
        for f in fnd or []:
            if f[0].startswith("KNOWN:"):
                self.known[f[0][6:]] += 1

    def merge(self, o):
        mx = max(self.c["max_threads"], o.c["max_threads"])
        self.c += o.c
        self.c["max_threads"] = mx
        self.fired = [a + b for a, b in zip(self.fired, o.fired)]
        self.traces |= o.traces
        self.inter |= o.inter
        self.kinds += o.kinds
        self.outcomes += o.outcomes
        self.entries += o.entries
        self.known += o.known
        self.samples += o.samples


def evaluate(prop, plan, ctx, sim=None):
    res = (sim or ctx.sim).run(plan)
    return PROPS[prop][1](plan, res, ctx), res


def worker(w, nw, prop, exe, seed, tier, deadline, out, stop):
    st = Stats()
    err = None
    try:
        ctx = Ctx(exe, POOL[tier], tier)
        other = Sim(exe)
        i = w
        while time.time() < deadline and not stop.is_set():
            r = random.Random("%d:%s:%d" % (seed, prop, i))
            try:
                plan = PROPS[prop][0](r, ctx)
                fnd, res = evaluate(prop, plan, ctx)
            except TooSlow:      # no answer within the wall-clock guard while it was computing
                st.c["too_slow"] += 1
                i += nw
                continue
            st.add(plan, res, fnd)
            if i < 2 * nw or (i // nw) % 97 == 0:
                # the same plan in another simulator process: same event log?
                st.c["determinism_checked"] += 1
                if loghash(other.run(plan)) != loghash(res):
                    st.c["determinism_mismatch"] += 1
                    st.samples.append("NOT REPRODUCED: seed %d:%s:%d" % (seed, prop, i))
            if len(st.samples) < 2 and len(plan.ops) > 1:
                st.samples.append("seed %d:%s:%d -> %s" % (seed, prop, i, plan.text().strip()[:1200]))
            if real(fnd):
                c = confirm(prop, plan, real(fnd)[0][0], exe, tier)
                if not c:
                    st.c["not_reproduced"] += 1
                    st.samples.append("NOT REPRODUCED: seed %d:%s:%d %s" % (seed, prop, i, real(fnd)[0]))
                    i += nw
                    continue
                out.put(("found", i, plan.to_json(), plan.note, real(fnd)))
                break
            i += nw
        st.c["refruns"] = ctx.refruns
        st.c["sites"] = len(ctx.siteset)
        ctx.close()
        other.close()
    except Exception:
        err = traceback.format_exc()
    out.put(("stats", w, st, err))


def minimise(prop, plan, cls, exe, tier, seconds):
    """Smallest plan and schedule with a finding of the same class."""
    ctx = Ctx(exe, POOL[tier], tier)
    swsim = Sim(exe, want_sw=True)
    end = time.time() + seconds

    def has(p):
        f, _ = evaluate(prop, p, ctx)
        return any(x[0] == cls for x in real(f))
    plan = shrink(plan, has, time.time() + seconds * 0.5)
    if plan.threads > 1:
        # record the schedule, then drop the pre-emptions that do not matter
        res = swsim.run(plan)
        p = plan.copy()
        if not res["swof"]:
            p.sw = res["sw"]
            if has(p):
                p = shrink_schedule(p, has, end - seconds * 0.15)
                plan = shrink(p, has, end)
    f, res = evaluate(prop, plan, ctx)
    ctx.close()
    swsim.close()
    return plan, real(f), loghash(res)


def confirm(prop, plan, cls, exe, tier):
    """Twice in fresh processes: same log, same class."""
    hs, texts = [], None
    for _ in range(2):
        ctx = Ctx(exe, POOL[tier], tier)
        f, res = evaluate(prop, plan, ctx)
        ctx.close()
        f = [x for x in real(f) if x[0] == cls]
        if not f:
            return None
        hs.append(loghash(res))
        texts = f
    return (hs[0], texts) if hs[0] == hs[1] else None


def known_findings(prop):
    out = {}
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                ident, text = l.split(" ", 2)[2].split(" ", 1)
                out[ident] = text
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(os.environ.get("DST_SECONDS", SEARCH[tier]))
    t0 = time.time()
    print("check %s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    exe = simbuild.build(lambda s: print(s, flush=True))
    if prop == "C05":
        os.environ["DST_FILLED"] = simbuild.build(lambda s: print(s, flush=True), filled=True)
    tb = time.time() - t0
    viol = None
    st = Stats()
    # fixed probes first: known findings, and the inputs of repaired defects
    listed = known_findings(prop)
    ctx = Ctx(exe, POOL[tier], tier)
    for ident, plan, note in probes.plans(prop):
        fnd, res = evaluate(prop, plan, ctx)
        st.add(plan, res, fnd)
        st.c["probes"] += 1
        for cls, text in fnd or []:
            if ident in listed and not cls.startswith("KNOWN:"):
                st.known[ident] += 1
            elif not cls.startswith("KNOWN:"):
                viol = viol or (-1, plan, [(cls, text)])
    ctx.close()
    ts = time.time()
    if not viol:
        out, stop = mp.Queue(), mp.Event()
        ps = [mp.Process(target=worker, args=(w, WORKERS, prop, exe, seed, tier, ts + secs, out, stop)) for w in range(WORKERS)]
        for p in ps:
            p.start()
        left, found, errs = WORKERS, [], []
        hard = ts + secs + 200
        while left and time.time() < hard:
            try:
                m = out.get(timeout=1)
            except queue.Empty:
                if not any(p.is_alive() for p in ps):
                    break
                continue
            if m[0] == "found":
                found.append(m)
                stop.set()
            else:
                left -= 1
                st.merge(m[2])
                if m[3]:
                    errs.append(m[3])
                    stop.set()
        for p in ps:
            p.terminate()
        if errs and not found:
            print(errs[0])
            return 2
        if left and not found:
            print("error: %d workers gave no answer" % left)
            return 2
        found.sort(key=lambda m: m[1])
        for m in found:
            plan = Plan.from_json(m[2])
            plan.note = m[3]
            viol = (m[1], plan, [tuple(x) for x in m[4]])
            if confirm(prop, viol[1], viol[2][0][0], exe, tier):
                break
            print("not reproduced: plan %d %s" % (m[1], m[4]))
            viol = "unstable"
    search = time.time() - ts
    code = 0
    for ident in st.known:
        k = ident
        if k in listed:
            print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, listed[k], st.known[ident]), flush=True)
        elif viol is None:
            print("error: unlisted known finding %s" % k)
            return 2
    nviol = 0
    if viol == "unstable":
        print("error: a finding did not reproduce")
        code = 2
    elif viol:
        idx, plan, fnd = viol
        cls = fnd[0][0]
        orig = plan.text()
        small, f2, _ = minimise(prop, plan, cls, exe, tier, 60 if tier == "quick" else 180)
        c = confirm(prop, small, cls, exe, tier)
        if not c:
            small = plan
            c = confirm(prop, plan, cls, exe, tier)
        if not c:
            print("error: a finding did not reproduce")
            code = 2
        else:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%d-%s.json" % (prop, seed, c[0][:8]))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "index": idx, "class": cls, "what": c[1][0][1], "hash": c[0], "tier": tier,
                           "plan": small.to_json(), "original": orig}, f, indent=1)
            print("found by plan %s:%s:%s: %s: %s" % (seed, prop, idx, cls, c[1][0][1]))
            print(small.text().strip())
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            code, nviol = 1, 1
    write_evidence(prop, tier, seed, st, tb, search, time.time() - t0, nviol)
    print("%s: %d executions (%d reference executions), %.0f per s, %d distinct, exit %d, %.1f s" %
          (prop, st.c["runs"], st.c["refruns"], st.c["runs"] / max(search, .1), len(st.traces), code, time.time() - t0))
    return code


def write_evidence(prop, tier, seed, st, tb, search, wall, nviol):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = [c["level"] for c in man["checks"] if c["property"] == prop][0]
    runs = st.c["runs"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(st.traces),
            "rule": "One evaluation is one simulated execution of a plan drawn from random.Random(f'{seed}:{property}:{i}'), i = 0,1,2,...; "
                    "reference executions are not counted. Non-trivial: more than one operation or repetition, or at least one fault or "
                    "pre-emption that really happened. Distinct: by the hash of the schedule (every switch with its step), step counts, and all replies.",
            "samples": st.samples[:6],
            "reference_executions": st.c["refruns"],
            "seeds_per_hour": int(runs / max(search, 0.1) * 3600),
            "simulated_steps": st.c["events"],
            "simulated_steps_meaning": "memory accesses, allocations and synchronisation of the code under test, the only time it has",
            "distinct_interleavings": len(st.inter),
            "distinct_interleavings_measure": "hash over every context switch (thread, step, target) of executions with at least one pre-emption inside the library",
            "preemptions_inside_library": st.c["preempts"],
            "accesses_conflicting_between_threads": st.c["shared"],
            "faults_fired": {k: v for k, v in zip(FAULTS, st.fired)},
            "library_allocations": st.c["allocs"],
            "distinct_allocation_sites_failed": st.c["sites"],
            "replies": st.c["replies"],
            "outcomes": dict(st.outcomes.most_common(25)),
            "operations": dict(st.kinds), "requests_by_entry": dict(st.entries),
            "findings_that_did_not_replay": st.c["not_reproduced"],
            "executions_without_verdict": st.c["no_verdict"] + st.c["too_slow"],
            "max_threads": st.c["max_threads"],
            "fixed_probes": st.c["probes"],
            "determinism": {"plans_run_twice_in_two_processes": st.c["determinism_checked"], "differing_logs": st.c["determinism_mismatch"]},
            "known_findings_seen": dict(st.known),
            "real_components": ["all of /repo/src and /repo/include (instrumented)", "GLPK", "hpp-centroidal-dynamics, CDD, Clp", "ndcurves, Eigen", "libstdc++ exceptions"],
            "simulated_components": ["scheduler of the calling threads", "heap and leftover memory", "clocks and entropy", "user path callback", "standard output",
                                     "failures of QP core / LP solver / cone query (wrappers around the real ones)",
                                     "the file system for files the library writes (descriptors are real anonymous files)"],
            "build_s": round(tb, 1), "search_s": round(search, 1),
        },
        "assumptions": ["The compiler's access instrumentation reports every memory access of the library's own code; accesses inside GLPK, "
                        "centroidal-dynamics and libc are seen only through allocation, read-only pages and block copies.",
                        "A clean run is evidence from a seeded sample of executions, not a proof."],
        "wall_s": round(wall, 1), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except simbuild.BuildError as e:
        print("error: the tree does not build\n%s" % e)
        sys.exit(2)
    except HarnessError as e:
        print("error: %s" % e)
        sys.exit(2)
