"""Driver core: plans, the simulator server, references, replay, minimisation.

A plan is the complete description of one simulated execution: the operations
of every simulated thread, the faults armed in them, and the seed of the
scheduler (or, in a replay, the recorded schedule).  Running the same plan
twice gives the same event log.
"""
import hashlib, json, os, select, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
FAULTS = ["alloc_fail_once", "alloc_fail_from", "qp_iteration_limit", "qp_failure_status", "lp_iteration_limit",
          "lp_solver_error", "cone_query_failure", "path_throw", "path_reenter", "preemption_in_library",
          "leftover_memory_pattern", "clock_jump", "stdout_write_failure", "short_lived_caller", "unusual_host_settings",
          "disk_open_failure", "disk_short_write", "disk_interrupted_write", "disk_write_error", "disk_close_error"]
VK = {1: "OOB", 2: "BADFREE", 3: "RACE", 4: "INPUTWRITE", 5: "CRASH", 6: "DEADLOCK", 7: "STEPS", 8: "HOSTFREE",
      9: "TERMINATE", 10: "STACK"}
BUDGET = 700_000_000
BUDGET_FORCE = 6_000_000_000   # the force formulation with the dense QP core: up to 1.5e9 steps seen
FAULTKEYS = ("ak", "af", "qk", "qmax", "qst", "lk", "lit", "lfail", "ck", "poison", "pt", "pk", "pe", "enter", "npt", "npk", "npe", "nenter", "clk", "so", "tt", "do", "dk", "dt", "da", "dc")
# what a reply is allowed to depend on
REFKEYS = ("desc", "leave", "qk", "qmax", "qst", "lk", "lit", "lfail", "ck", "pt", "pk", "sp", "inv", "file", "clip", "do", "dk", "dt", "da", "dc")


class HarnessError(Exception):
    pass


class Plan:
    def __init__(self, ops=(), threads=1, policy=0, sseed=1, sw=None, budget=BUDGET, sites=False, loops=1):
        self.ops = list(ops)       # [id, thread, kind, {key: value}]
        self.threads, self.policy, self.sseed, self.sw, self.budget, self.sites = threads, policy, sseed, sw, budget, sites
        self.loops = loops
        self.host = 0              # 1: the host's settings are watched; above: also unusual
        self.note = ""

    def add(self, kind, thr=1, id=None, **kv):
        self.ops.append([len(self.ops) + 1 if id is None else id, thr, kind, {k: v for k, v in kv.items() if v is not None}])
        return self.ops[-1]

    def text(self):
        o = ["run threads=%d policy=%d sseed=%d budget=%d sites=%d replay=%d loops=%d" %
             (self.threads, self.policy, self.sseed, max(self.budget, BUDGET_FORCE if any("foq:" in str(x) for o in self.ops for x in o[3].values()) else 0), self.sites, self.sw is not None, self.loops) + (" host=%d" % self.host if self.host else "")]
        for i, t, k, kv in self.ops:
            o.append("op %d %d %s %s" % (i, t, k, " ".join("%s=%s" % (a, kv[a]) for a in sorted(kv))))
        for r in self.sw or ():
            o.append("sw %d %d %d %d %d" % tuple(r))
        return "\n".join(o) + "\nend\n"

    def to_json(self):
        return {"threads": self.threads, "policy": self.policy, "sseed": self.sseed, "budget": self.budget, "loops": self.loops, "host": self.host,
                "ops": self.ops, "schedule": self.sw}

    @staticmethod
    def from_json(j):
        p = Plan([[a, b, c, dict(d)] for a, b, c, d in j["ops"]], j["threads"], j["policy"], j["sseed"], j.get("schedule"), j["budget"],
                 loops=j.get("loops", 1))
        p.host = j.get("host", 0)
        return p

    def copy(self):
        p = Plan([[i, t, k, dict(kv)] for i, t, k, kv in self.ops], self.threads, self.policy, self.sseed,
                 None if self.sw is None else list(self.sw), self.budget, self.sites, self.loops)
        p.note = self.note
        p.host = self.host
        return p


class TooSlow(HarnessError):
    pass


class Sim:
    """One simulator process; every plan runs in a forked child of it."""

    def __init__(self, exe, want_sw=False, cpu=40):
        self.cmd = [exe, "--timeout", str(cpu)] + (["--sw"] if want_sw else [])
        self.p = None
        self.start()

    def start(self):
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "SIM_NOREEXEC")}
        env["LC_ALL"] = "C"
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        l = self.p.stdout.readline()
        if b'"ready"' not in l:
            raise HarnessError("simulator did not start: %r" % l[:200])
        self.pool = json.loads(l)["pool"]

    def run(self, plan):
        try:
            self.p.stdin.write(plan.text().encode())
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = b""
        if not l:
            self.close()
            self.start()
            raise HarnessError("simulator died on plan:\n" + plan.text())
        r = json.loads(l)
        if not r["done"] and not r["viol"]:
            st = r["st"]
            code = (st >> 8) & 0xff if st & 0x7f == 0 else -1
            if code in (6, 90, 91):
                raise HarnessError("plan rejected (%d):\n%s" % (code, plan.text()))
            if r["guard"] == 2:
                raise TooSlow("plan too slow:\n" + plan.text())
            if r["guard"]:
                r["viol"].append({"kind": 6, "t": 0, "op": 0, "aux": 0, "ev": 0, "pc": 0, "pc2": 0, "text": "the call is blocked for ever"})
            elif st & 0x7f == 9:
                raise HarnessError("simulated process was killed from outside:\n" + plan.text())
            else:
                r["viol"].append({"kind": 9, "t": 0, "op": 0, "aux": 0, "ev": 0, "pc": 0, "pc2": 0,
                                  "text": "the library ended the process (wait status %d)" % st})
        return r

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def vkey(v):
    return (v["kind"], 0 if VK[v["kind"]] == "STEPS" else v["pc"])


def loghash(r):
    """Identity of an execution: schedule, step counts, replies, violations."""
    h = hashlib.sha256()
    h.update(json.dumps([r["done"], r["th"], r["lh"], r["events"], r["preempts"], r["fired"],
                         [[v["kind"], v["t"], v["op"], v["ev"], v["pc"]] for v in r["viol"]],
                         [[o["i"], o["r"], o["d"], o["lv"], o["lb"], o["al"], o["ev"], o["hs"], o["nd"], o["nd2"]] for o in r["ops"]]]).encode())
    return h.hexdigest()[:24]


class Ref:
    __slots__ = ("d", "b", "viol", "died", "rec", "recs")


class Ctx:
    """A simulator plus the references computed with it."""

    def __init__(self, exe, pool=400, tier="quick"):
        self.sim = Sim(exe)
        self.exe = exe
        self.pool = pool
        self.tier = tier
        self.cache = {}
        self.refruns = 0
        self.siteset = set()
        self.fsim = None

    def close(self):
        self.sim.close()
        if self.fsim:
            self.fsim.close()

    def filled(self, plan):
        """The same plan where uninitialised local variables hold a pattern."""
        if not self.fsim:
            exe = os.environ.get("DST_FILLED")
            if not exe:
                import simbuild
                exe = os.environ["DST_FILLED"] = simbuild.build(filled=True)
            self.fsim = Sim(exe)
        self.refruns += 1
        return self.fsim.run(plan)

    def mini(self, ops, key=None, sites=False):
        """Runs ops alone in a fresh process; the last one is the reference."""
        key = key or (sites, json.dumps(ops))
        r = self.cache.get(key)
        if r is None:
            if len(self.cache) > 20000:
                self.cache.clear()
            p = Plan(sites=sites)
            for k, kv in ops:
                p.add(k, **kv)
            res = self.sim.run(p)
            self.refruns += 1
            r = Ref()
            r.viol = set(vkey(v) for v in res["viol"])
            r.died = not res["done"]
            last = [o for o in res["ops"] if o["i"] == len(ops)]
            r.rec = last[-1] if last else None
            r.recs = res["ops"]
            r.d = r.rec["d"] if r.rec else None
            r.b = r.rec["b"] if r.rec else None
            self.cache[key] = r
        return r

    def ref(self, op, **over):
        """What the operation answers as the first of a fresh process."""
        kv = {k: v for k, v in op[3].items() if k in REFKEYS}
        kv.update(over)
        kv = {k: v for k, v in kv.items() if v is not None}
        return self.mini([(op[2], kv)])

    def sites(self, desc):
        """Allocation numbers that reach each distinct allocation site."""
        r = self.mini([("call", {"desc": desc})], sites=True)
        return (r.rec.get("ks", []), r.rec["al"]) if r.rec else ([], 0)


# ------------------------------------------------------------- expectations
BAD_ALLOC = "exc std::bad_alloc"


class Slot:
    def __init__(self, desc=None, known=True, edits=(), shared=0, pooled=False, late=False):
        self.desc, self.known, self.edits, self.shared, self.pooled, self.late = desc, known, tuple(edits), shared, pooled, late

    def clone(self, **k):
        s = Slot(self.desc, self.known, self.edits, self.shared, self.pooled, self.late)
        for a, b in k.items():
            setattr(s, a, b)
        return s


POOLK = {"pmake", "pdef", "pfree", "pdel", "pcopy", "pmove", "passign", "pswap", "pmut", "pcall", "vpush", "verase", "vget", "vclear", "cdef"}
GK = {"gnew", "gsolve", "gedit", "gview", "gdel", "gfree", "gterm", "ghook", "gmsg", "gerr", "gmem"}


def records(res):
    d = {}
    for o in res["ops"]:
        d.setdefault(o["i"], []).append(o)
    return d


def expectations(plan, res, ctx):
    """Yields (op, record, Ref or None, strict) for every reply of the run.

    Ref is what the reply must equal; None: no verdict.  A reply of an
    operation in which an allocation failed may also be std::bad_alloc.
    """
    seen = {}
    grefs = {}
    rs = {}
    qs = {}
    files = {}
    slots, vec, grp = {}, [], [0, plan.note == "strict"]
    order = {}
    for o in res["ops"]:
        order.setdefault(o["i"], []).append(o)
    for op in plan.ops:
        oid, thr, kind, kv = op
        n = int(kv.get("rep", 1))
        take = order.get(oid, [])
        k0 = seen.get((oid, thr), 0)
        recs = take[k0:k0 + n]
        seen[(oid, thr)] = k0 + n
        if kind in ("call", "fcall"):
            for rec in recs:
                yield op, rec, ctx.ref(op)
        elif kind in GK:
            if thr not in grefs:
                seq = [(o[2], {a: b for a, b in o[3].items() if a not in FAULTKEYS}) for o in plan.ops if o[1] == thr and o[2] in GK]
                m = ctx.mini(seq)
                grefs[thr] = [m, 0]
            m, j = grefs[thr]
            for rec in recs:
                if j < len(m.recs):
                    r = Ref()
                    r.viol, r.died, r.rec = m.viol, m.died, m.recs[j]
                    r.d, r.b = r.rec["d"], r.rec["b"]
                    yield op, rec, r
                j += 1
            grefs[thr][1] = j
        elif kind in ("qnew", "qdel", "qmax"):
            s = kv.get("s", 0)
            if kind == "qnew":
                qs[s] = None
            elif kind == "qdel":
                qs.pop(s, None)
            elif s in qs:
                if int(kv.get("n", 1000)) >= 0:
                    qs[s] = kv.get("n", 1000)
        elif kind == "qsolve":
            s = kv.get("s", 0)
            fk = {k: v for k, v in kv.items() if k in REFKEYS}
            seq = [("qnew", {"s": 0})] + ([("qmax", {"s": 0, "n": qs[s]})] if qs.get(s) is not None else []) + [("qsolve", dict(fk, s=0))]
            for rec in recs:
                yield op, rec, ctx.mini(seq)
        elif kind == "qhull":
            fk = {k: v for k, v in kv.items() if k in REFKEYS}
            for rec in recs:
                f = kv.get("file", 0)
                if rec["fi"]:
                    files[f] = None           # may hold a part of it
                    continue
                yield op, rec, ctx.ref(op)
                if not any(k in kv for k in ("do", "dk", "dc")):
                    files[f] = [("qhull", fk)]
                elif files.get(f, []) is not None:
                    files[f] = files.get(f, []) + [("qhull", fk)]
        elif kind == "qread":
            for rec in recs:
                seq = files.get(kv.get("file", 0), [])
                if seq is not None:
                    yield op, rec, ctx.mini(seq + [("qread", {"file": kv.get("file", 0)})])
        elif kind in RK:
            for rec in recs:
                yield from res_step(op, rec, rs, ctx)
        elif kind in POOLK:
            for rec in recs:
                yield from pool_step(op, rec, slots, vec, grp, ctx)


RK = {"rcall", "rview", "rcopy", "rmove", "rassign", "rswap", "rbase", "redit", "rdel"}


def rebuild(tree, slot):
    """The operations that make a kept plan from scratch."""
    if tree[0] == "call":
        return [("rcall", dict(tree[1], s=slot))]
    if tree[0] == "edit":
        return rebuild(tree[1], slot) + [("redit", {"s": slot, "what": tree[2]})]
    return rebuild(tree[1], slot) + rebuild(tree[2], slot + 1) + [("rbase", {"s": slot + 1, "t": slot})]


def depth(tree):
    return 1 if tree[0] == "call" else 1 + sum(depth(x) for x in tree[1:] if isinstance(x, tuple))


def res_step(op, rec, rs, ctx):
    """Kept plans: what each slot holds, as the operations that make it."""
    oid, thr, kind, kv = op
    s, t = int(kv.get("s", 0)), int(kv.get("t", 0))
    if rec["na"]:
        return
    ok = rec["b"].startswith("ok")
    plain = Ref()
    plain.d, plain.b, plain.viol, plain.died, plain.rec = None, "ok", set(), False, None
    if kind == "rcall":
        fk = {k: v for k, v in kv.items() if k in REFKEYS}
        rs[s] = ("call", fk) if ok or rec["b"] == "fail" else None
        yield op, rec, ctx.mini([("rcall", dict(fk, s=0))])
        return
    if kind == "rview":
        if rs.get(s) and depth(rs[s]) < 8:
            yield op, rec, ctx.mini(rebuild(rs[s], 0) + [("rview", {"s": 0, "n": kv.get("n", 4)})])
        return
    yield op, rec, plain
    if kind == "rdel":
        rs[s] = None
    elif kind == "rcopy" and s != t:
        rs[t] = rs.get(s) if ok else None
    elif kind == "rmove" and s != t:
        rs[t] = rs.get(s) if ok else None
        rs[s] = None
    elif kind == "rassign" and s != t:
        rs[t] = rs.get(s) if ok else None
    elif kind == "rswap" and s != t:
        rs[s], rs[t] = (rs.get(t), rs.get(s)) if ok else (None, None)
    elif kind == "rbase":
        rs[t] = ("base", rs[t], rs[s]) if ok and rs.get(t) and rs.get(s) else None
    elif kind == "redit":
        rs[s] = ("edit", rs[s], kv.get("what", 0)) if ok and rs.get(s) else None


UNKNOWN = Slot(None, False)
WHAT = {0: ["c0"], 1: ["c1"], 2: ["acc", "accon", "rh"], 3: ["kin", "kinmat", "kinrow"], 4: ["cone", "kin", "ang"], 5: ["cost"], 7: ["dc0"]}


def one_edit(old, new, what):
    """Does new differ from old by one mutation that edit `what` carries over?"""
    pre = old + ("," if old and old.count(":") == 2 else ":")
    return bool(old) and new.startswith(pre) and "," not in new[len(pre):] and new[len(pre):].split("~")[0] in WHAT.get(what, [])


def plan_strict(grp):
    """Hold assignment to the same standard as copying (probe only: the library
    does not meet it, see known_findings.txt)."""
    return grp[1]


def pool_step(op, rec, slots, vec, grp, ctx):
    oid, thr, kind, kv = op
    s, t = int(kv.get("s", 0)), int(kv.get("t", 0))
    if rec["na"]:
        return
    ok = rec["b"].startswith("ok")
    plain = Ref()
    plain.d, plain.b, plain.viol, plain.died, plain.rec = None, "ok", set(), False, None
    if kind == "pcall":
        st = slots.get(s)
        if st and st.known and st.desc:
            if st.edits:
                yield op, rec, ctx.mini([(k, dict(d, s=0)) for k, d in st.edits] + [("pcall", dict({a: b for a, b in kv.items() if a in REFKEYS}, s=0))])
            elif kv.get("desc") == st.desc:
                yield op, rec, ctx.ref(["", 1, "call", kv])
        return
    if kind not in ("pfree",):
        yield op, rec, plain
    if kind == "pmake":
        slots.pop(s, None)
        if ok:
            slots[s] = Slot(kv["desc"], late=bool(kv.get("late")))
    elif kind == "pdef":
        slots.pop(s, None)
        if ok:
            slots[s] = Slot(None, False)
        else:
            slots[s] = Slot(None, False)       # may exist without contacts
    elif kind == "pdel":
        slots.pop(s, None)
    elif kind == "pcopy" and s != t:
        slots.pop(t, None)
        if ok:
            slots[t] = slots.get(s, UNKNOWN).clone(shared=0)
    elif kind == "pmove" and s != t:
        slots.pop(t, None)
        if ok:
            slots[t] = slots.get(s, UNKNOWN)
            slots[s] = Slot(None, False)
    elif kind == "passign":
        if ok:
            if s != t and s not in slots:
                slots[t] = Slot(None, False)
            elif s != t and plan_strict(grp):
                slots[t] = slots[s].clone(shared=0)
            elif s != t:
                grp[0] += 1
                g = slots[s].shared or grp[0]
                slots[s] = slots[s].clone(shared=g)
                slots[t] = slots[s].clone()
        else:
            slots[t] = Slot(None, False)
    elif kind == "pswap" and s != t:
        if ok:
            slots[s], slots[t] = slots.get(t, UNKNOWN), slots.get(s, UNKNOWN)
        else:
            slots[s] = slots[t] = Slot(None, False)
    elif kind == "pmut":
        st = slots.get(s)
        w = int(kv.get("what", 0))
        if st and st.known:
            if not ok:
                slots[s] = Slot(None, False)
            elif w == 8:
                if st.late and kv["desc"] != st.desc:
                    slots[s] = Slot(None, False)
                else:
                    slots[s] = st.clone(late=False, pooled=st.pooled or st.late)
            elif w == 6:
                if st.pooled or st.late:
                    slots[s] = Slot(None, False)      # may still refer to the simulator's own model
                elif st.shared:
                    for q in list(slots):
                        if slots[q].shared == st.shared:
                            slots[q] = Slot(None, False)
                else:
                    e = st.edits or (("pmake", {"desc": st.desc}),)
                    slots[s] = st.clone(edits=e + (("pmut", {"desc": kv["desc"], "what": 6}),))
            elif not one_edit(st.desc, kv["desc"], w):
                slots[s] = Slot(None, False)
            else:
                e = st.edits + (("pmut", {"desc": kv["desc"], "what": w}),) if st.edits else ()
                slots[s] = st.clone(desc=kv["desc"], edits=e, pooled=st.pooled or w == 4, late=st.late and w != 4)
    elif kind == "vpush":
        if ok:
            vec.append(slots.get(s, UNKNOWN).clone(shared=0))
    elif kind == "verase":
        if ok:
            if s < len(vec):
                del vec[s]
                for j in range(s, len(vec)):
                    vec[j] = vec[j].clone(shared=0)
        else:
            for j in range(min(s, len(vec)), len(vec)):
                vec[j] = Slot(None, False)
    elif kind == "vget":
        slots.pop(t, None)
        if ok:
            slots[t] = (vec[s] if s < len(vec) else UNKNOWN).clone(shared=0)
    elif kind == "vclear":
        vec.clear()


def mismatches(plan, res, ctx):
    """Replies that differ from their reference.  None: a reference itself
    did not finish, so the run says nothing."""
    out = []
    for op, rec, ref in expectations(plan, res, ctx):
        if ref is None:
            continue
        if ref.died:
            return None
        if rec["fi"] and rec["b"] == BAD_ALLOC:
            continue
        if ref.d is None:
            if not rec["b"].startswith(ref.b):
                out.append((op, rec, ref.b))
        elif rec["d"] != ref.d:
            out.append((op, rec, ref.b))
    return out


def ref_viols(plan, ctx):
    s, died = set(), False
    for op in plan.ops:
        if op[2] in ("call", "fcall", "pcall", "rcall", "qhull") and "desc" in op[3]:
            r = ctx.ref(["", 1, "call" if op[2] in ("pcall", "rcall") else op[2], op[3]])
            s |= r.viol
            died |= r.died
            for e in ("enter", "nenter"):
                if e in op[3]:
                    r = ctx.ref(["", 1, "call", {"desc": op[3][e]}])
                    s |= r.viol
                    died |= r.died
    return s, died


# ------------------------------------------------------------- minimisation
def shrink(plan, test, deadline, with_sw=None):
    """Smallest plan (greedy) for which test(plan) still holds."""
    best = plan

    def syncs(p):
        return sorted(o[1] for o in p.ops if o[2] == "sync")

    def attempt(p):
        nonlocal best
        if time.time() > deadline or p.threads > 1 and syncs(p) != syncs(best):   # these order the host's own accesses
            return False
        try:
            if test(p):
                best = p
                return True
        except HarnessError:
            pass
        return False

    def drop_ops():
        n = max(1, len(best.ops) // 2)
        while n >= 1:
            i, hit = 0, False
            while i < len(best.ops) and len(best.ops) > 1 and time.time() < deadline:
                p = best.copy()
                del p.ops[i:i + n]
                if p.ops and attempt(p):
                    hit = True
                else:
                    i += n
            if n == 1 and not hit:
                break
            n = n // 2 if n > 1 else 1 if hit else 0

    def threads_used(p):
        ts = sorted(set(o[1] for o in p.ops))
        if ts == list(range(1, p.threads + 1)):
            return None
        q = p.copy()
        m = {t: i + 1 for i, t in enumerate(ts)}
        for o in q.ops:
            o[1] = m[o[1]]
        q.threads = max(1, len(ts))
        return q

    drop_ops()
    q = threads_used(best)
    if q:
        attempt(q)
    if best.threads > 1:
        p = best.copy()
        p.threads = 1
        for o in p.ops:
            o[1] = 1
        attempt(p)
    for i in range(len(best.ops)):
        for k in list(best.ops[i][3]):
            if k in ("desc", "s", "t"):
                continue
            p = best.copy()
            p.ops[i][3].pop(k, None)
            if k in ("qk", "lk", "pt", "pe", "ak"):
                for kk in {"qk": ("qmax", "qst"), "lk": ("lit", "lfail"), "pt": ("pk",), "pe": ("enter", "npt", "npk", "npe", "nenter"), "ak": ("af",)}[k]:
                    p.ops[i][3].pop(kk, None)
            attempt(p)
        d = best.ops[i][3].get("desc", "")
        if d.count(":") == 2:
            base, ms = d.rsplit(":", 1)
            ms = ms.split(",")
            j = 0
            while j < len(ms) and time.time() < deadline:
                rest = ms[:j] + ms[j + 1:]
                p = best.copy()
                nd = base + (":" + ",".join(rest) if rest else "")
                for o in p.ops:
                    if o[3].get("desc") == ":".join([base, ",".join(ms)]):
                        o[3]["desc"] = nd
                if attempt(p):
                    ms = rest
                else:
                    j += 1
    drop_ops()
    if best.host > 1:
        p = best.copy()
        p.host = 1
        attempt(p)
    return best


def shrink_schedule(plan, test, deadline):
    """ddmin over the recorded pre-emptions."""
    sw = list(plan.sw)

    def ok(s):
        p = plan.copy()
        p.sw = s
        try:
            return test(p)
        except HarnessError:
            return False
    n = max(1, len(sw) // 2)
    while n >= 1 and time.time() < deadline:
        i, hit = 0, False
        while i < len(sw) and time.time() < deadline:
            s = sw[:i] + sw[i + n:]
            if ok(s):
                sw, hit = s, True
            else:
                i += n
        if n == 1 and not hit:
            break
        n = max(1, n // 2) if n > 1 or hit else 0
    p = plan.copy()
    p.sw = sw
    return p
