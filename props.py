"""Workloads, fault mixes and oracles, one pair per property.

gen(rng, ctx) draws one plan; judge(plan, res, ctx) returns the findings of its
execution as [(class, text)], or None when the run says nothing (a reference
execution itself did not finish).
"""
import re

from dst import *

TRAJ = ["ddq", "ddl", "ctq", "ctl", "fix", "foq", "fol"]
ALL_W = {"ddq": 10, "ddl": 8, "ctq": 10, "ctl": 8, "fix": 10, "foq": 1.5, "fol": 1, "z0": 8, "z0d": 6, "z0a": 6, "ee": 10,
         "sq": 6, "sl": 8, "hb": 6, "bad": 5, "qp": 2, "lsq": 1, "lsl": 0.7, "lsc": 0.4, "lsf": 0.8}
FIELDS = {
    "traj": "c0 dc0 ddc0 j0 c1 dc1 ddc1 j1 T Tswap kin kinrow kinmat cone nocone step ppp acc accon rh cost flag solver cut atight wide fine".split(),
    "zero": "c0 dc0 l0 T kin kinrow kinmat ang cone nocone step am cut acut wide".split(),
    "ee": "c0 dc0 ddc0 j0 c1 dc1 ddc1 j1 T w bump wide".split(),
    "solve": "b d g lo hi A H cross cross nobound duprow zerorow infeas rowscale".split(),
    "help": "c0 dc0 ddc0 j0 c1 dc1 ddc1 j1 T step ppp flag cone wide".split(),
    "export": "qa qb qp qrow qrow".split(),
}


def cls_of(e):
    e = e.split(":")[0]
    return ("zero" if e[0] == "z" else "ee" if e == "ee" else "solve" if e in ("sq", "sl", "qp", "big") else
            "help" if e == "hb" else "export" if e == "qh" else "traj")


def pick_entry(r, w=ALL_W):
    ks = list(w)
    return r.choices(ks, [w[k] for k in ks])[0]


def mk(r, ctx, w=ALL_W, entry=None, seeds=None):
    return "%s:%d" % (entry or pick_entry(r, w), r.randint(1, seeds or ctx.pool))


def mut(r, d, n=1, only=None):
    e = d.split(":")[0]
    fs = only or FIELDS[cls_of(e)]
    ms = ",".join("%s~%d" % (r.choice(fs), r.randint(1, 60)) for _ in range(n))
    return d + ("," if d.count(":") == 2 else ":") + ms


def family(r, ctx, n, w=ALL_W):
    """A request and near copies of it: what a wrongly keyed memory confuses."""
    base = mk(r, ctx, w)
    out = [base]
    for _ in range(n - 1):
        q = r.random()
        if q < 0.25:
            out.append(mk(r, ctx, w))
        elif q < 0.4:
            out.append(mk(r, ctx, entry=base.split(":")[0]))
        else:
            out.append(mut(r, r.choice(out[:3]) if r.random() < 0.3 else base, r.choice([1, 1, 1, 2])))
    return out


def dep_fault(r, kv, ctx=None):
    """A failure of the QP core, the LP library or the contact model."""
    q = r.random()
    if q < 0.4:
        kv["qk"] = r.choice([1, 1, 1, 2])
        if r.random() < 0.5:
            kv["qmax"] = r.choice([0, 1, 2, 3, 5, 10, 20])
        else:
            kv["qst"] = r.choice([1, 2, 3, 4])
    elif q < 0.75:
        kv["lk"] = 1
        if r.random() < 0.6:
            kv["lit"] = r.choice([0, 1, 2, 3, 5, 8])
        else:
            kv["lfail"] = 1
    else:
        kv["ck"] = r.choice([1, 1, 2, 3])
        if ctx is not None and "desc" in kv:
            n = ctx.mini([("call", {"desc": kv["desc"]})]).rec
            if n and n["dep"][6] > 0:
                kv["ck"] = r.randint(1, n["dep"][6])


ENTER_W = {k: v for k, v in ALL_W.items() if k not in ("foq", "fol")}


def evaluations(ctx, d):
    """How often the request evaluates the user's path."""
    n = ctx.mini([("call", {"desc": d, "pt": 10 ** 9})])
    return n.rec["pc"] if n.rec else 0


def enter(r, kv, ctx, at, near=None):
    """The path plans something else at its at-th evaluation; so may the path
    of that request, or it may throw."""
    q = r.random()
    d = near if near and q < 0.1 else mut(r, near, r.choice([1, 2]), ["bump", "c0", "c1", "T", "w", "dc1"]) if near and q < 0.25 else \
        mk(r, ctx, entry="ee") if q < 0.5 else mk(r, ctx, ENTER_W)
    kv["pe"], kv["enter"] = at, d
    if d.startswith("ee") and r.random() < 0.4:
        if r.random() < 0.5:
            kv["npt"], kv["npk"] = r.choice([1, 2, r.randint(1, 55)]), r.randrange(3)
        else:
            kv["npe"] = r.choice([1, 2, r.randint(1, 55)])
            kv["nenter"] = mk(r, ctx, entry="ee") if r.random() < 0.5 else mk(r, ctx, ENTER_W)


def path_fault(r, kv, ctx, throw=0.5, seeds=None):
    if r.random() < throw:
        kv["pt"] = r.choice([1, 2, 3, 5, 10, r.randint(1, 60)])
        kv["pk"] = r.randrange(len(PATH_EXC))
    else:
        enter(r, kv, ctx, r.choice([1, 2, 5, r.randint(1, 60)]), kv.get("desc"))


def alloc_fault(r, kv, ctx, desc):
    ks, n = ctx.sites(desc)
    if n <= 0:
        return
    if ks and r.random() < 0.7:
        kv["ak"] = r.choice(ks)
        ctx.siteset.add((desc.split(":")[0], kv["ak"] if False else ks.index(kv["ak"]), desc))
    else:
        kv["ak"] = r.randint(1, n)
    if r.random() < 0.2:
        kv["af"] = 1


def environ(r, kv, p=0.15):
    """The surroundings of one call: clock, leftover memory, a caller that ends with it."""
    if r.random() < max(p, 0.1):
        kv["tt"] = 1
    if r.random() < p:
        kv["clk"] = r.randint(1, 10 ** 6)
    if r.random() < p:
        kv["poison"] = "%d:%d" % (r.randint(1, 7), r.randint(1, 10 ** 6))


def sparse(r, kv, p=0.3):
    """Put the problem to the sparse interface of the solver object, or supply its factorised Hessian."""
    if "qk" not in kv and r.random() < p:
        kv["sp"] = 1
    if r.random() < p / 2:
        kv["inv"] = r.choice([1, 2])


def base_desc(d):
    return ":".join(d.split(":")[:2])


def can_path(d):
    return d.startswith("ee")


def single(plan):
    return all(o[1] == 1 for o in plan.ops)


# what a run shows that its operations do not show when they run alone
def novel(plan, res, ctx, kinds):
    out = []
    if any(VK[v["kind"]] in kinds for v in res["viol"]):
        rv, died = ref_viols(plan, ctx)
        if died:
            return None
        for v in res["viol"]:
            if VK[v["kind"]] in kinds and vkey(v) not in rv:
                out.append((VK[v["kind"]], "%s (operation %d, thread %d, step %d)" % (v["text"], v["op"], v["t"], v["ev"])))
    return out


def digest_findings(plan, res, ctx):
    m = mismatches(plan, res, ctx)
    if m is None:
        return None
    return [("REPLY", "operation %d (%s %s) answered [%s] instead of [%s]%s" % (op[0], op[2], op[3].get("desc", ""), rec["b"], exp,
                                                                               " (they differ elsewhere)" if rec["b"] == exp else ""))
            for op, rec, exp in m]


def both(plan, res, ctx, kinds):
    a = novel(plan, res, ctx, kinds)
    if a is None:
        return None
    b = digest_findings(plan, res, ctx)
    if b is None:
        return None
    return a + b


CRASHES = {"CRASH", "TERMINATE", "STEPS", "STACK", "DEADLOCK"}
MEMORY = {"OOB", "BADFREE"}


# ------------------------------------------------------------------ C01
def gen_c01(r, ctx):
    n = r.choice([2, 2, 2, 3])
    pol = r.choice([1, 1, 2, 3, 4])
    p = Plan(threads=n, policy=pol, sseed=r.randint(1, 1 << 48))
    w = dict(ALL_W, foq=0.3, fol=0.2)
    fam = family(r, ctx, r.choice([1, 2, 3, 3]), w)
    if r.random() < 0.15:     # a host LP problem on one of the threads
        p.add("gnew", r.randint(1, n), s=0, seed=r.randint(1, 50))
    for t in range(1, n + 1):
        for _ in range(r.choice([1, 1, 2, 3])):
            d = r.choice(fam) if r.random() < 0.85 else mk(r, ctx, w)
            kv = {"desc": d}
            if r.random() < 0.3:
                kv["priv"] = 1
            if can_path(d) and r.random() < 0.25:
                path_fault(r, kv, ctx)
            elif r.random() < 0.15:
                dep_fault(r, kv, ctx)
            elif r.random() < 0.1:
                alloc_fault(r, kv, ctx, d)
            environ(r, kv, 0.08)
            kv.pop("so", None)
            k = "call"
            if can_fresh(d, kv) and r.random() < 0.1:
                k, kv["leave"] = "fcall", leave_bits(r, d)
            p.add(k, t, **kv)
    r.shuffle(p.ops)
    for i, o in enumerate(p.ops):
        o[0] = i + 1
    return p


def judge_c01(plan, res, ctx):
    return both(plan, res, ctx, {"RACE"} | CRASHES | MEMORY)


# ------------------------------------------------------------------ C02
def can_fresh(d, kv):
    """May the request be put to a problem built field by field instead?"""
    return cls_of(d) != "solve" and d.split(":")[0] not in ("bad", "mnq", "mnl") and not any(f in kv for f in ("ak", "pt", "pe"))


def leave_bits(r, d):
    """Fields left at their defaults.  What the request needs stays."""
    b = 0
    for i in range(15):
        if r.random() < 0.3:
            b |= 1 << i
    e = d.split(":")[0]
    b &= ~1024 if e[:2] == "fo" else ~0
    b &= ~256 if e == "z0a" else ~0
    return b


LONG = {"z0", "z0d", "hb", "qp", "sq", "sl", "bad"}


def gen_c02(r, ctx):
    p = Plan(threads=1)
    q = r.random()
    if q < 0.12:
        return gen_pool(r, ctx, edits=True, faults=False)
    w = dict(ALL_W, foq=0.5, fol=0.3)
    if q < 0.2:      # long histories of cheap calls
        w = {"z0": 5, "z0d": 3, "z0a": 5, "sq": 5, "sl": 5, "hb": 6, "bad": 2, "qp": 2}
        n = r.randint(15, 50)
    else:
        n = r.choice([2, 3, 4, 5, 6, 8])
    fam = family(r, ctx, r.randint(2, max(2, min(6, n))), w)
    two = r.random() < 0.1
    if two:
        p.threads = 2
    if q > 0.95:     # a run of rejected requests first
        d = mk(r, ctx, entry=r.choice(["sq", "sq", "sl", "z0", "z0a", "bad"]))
        p.add("call", 1, desc=mut(r, d, 2, ["infeas"] if d[0] == "s" else ["cut"] if d[0] == "z" else ["c0"]), rep=r.choice([12, 30, 60, 150, 300]))
    for i in range(n):
        last = i == n - 1
        d = r.choice(fam)
        kv = {"desc": d}
        k = "call"
        if not last or r.random() < 0.3:
            x = r.random()
            if can_path(d) and x < 0.3:
                path_fault(r, kv, ctx)
            elif x < 0.25:
                dep_fault(r, kv, ctx)
            elif x < 0.33:
                alloc_fault(r, kv, ctx, d)
            elif x < 0.36 and not two:
                kv["so"] = r.randint(0, 4)
        if can_fresh(d, kv) and r.random() < 0.12:
            k, kv["leave"] = "fcall", leave_bits(r, d)
        if r.random() < 0.25:
            kv["rep"] = 2
        elif r.random() < 0.02 and d.split(":")[0] in LONG and len(kv) == 1:
            kv["rep"] = r.choice([40, 130, 300, 600, 1100])
        if r.random() < 0.2:
            kv["priv"] = 1
        environ(r, kv, 0.1)
        p.add(k, 1 + (i % 2 if two else 0), **kv)
    return p


def judge_c02(plan, res, ctx):
    return both(plan, res, ctx, CRASHES)


# ------------------------------------------------------------------ C03
def gen_c03(r, ctx):
    w = dict(ALL_W, foq=0.3, fol=0.3, bad=3, qp=2)
    d = mk(r, ctx, w, seeds=min(ctx.pool, 120))
    if r.random() < 0.15:
        d = mut(r, d, 1)
    two = r.random() < 0.15
    p = Plan(threads=2 if two else 1, policy=r.choice([1, 2, 3, 4]) if two else 0, sseed=r.randint(1, 1 << 48))
    if r.random() < 0.12 and not two:
        return gen_pool(r, ctx, edits=False, faults=True)
    for _ in range(r.choice([1, 3, 5, 8])):
        kv = {"desc": d}
        alloc_fault(r, kv, ctx, d)
        if r.random() < 0.1:
            dep_fault(r, kv, ctx)
        environ(r, kv, 0.05)
        p.add("call", 1, **kv)
        if two:
            p.add("call", 2, desc=d if r.random() < 0.6 else mk(r, ctx, w, seeds=120))
    p.add("call", 1, desc=d)
    p.add("call", 1, desc=mk(r, ctx, w, seeds=min(ctx.pool, 120)))
    return p


def judge_c03(plan, res, ctx):
    # a wrong reply of an operation in which nothing failed counts only after
    # one in which something did
    a = novel(plan, res, ctx, CRASHES | MEMORY | {"INPUTWRITE", "HOSTFREE"} | ({"RACE"} if plan.threads > 1 else set()))
    if a is None:
        return None
    if not any(o["fi"] for o in res["ops"]) and not (res["fired"][0] + res["fired"][1]):
        return []
    b = digest_findings(plan, res, ctx)
    return None if b is None else a + b


# ------------------------------------------------------------------ C04
CYC = 7


SESSION_W = {"z0": 5, "z0d": 4, "z0a": 4, "ddq": 4, "ddl": 3, "ctq": 4, "ctl": 2, "fix": 4, "ee": 6, "sq": 4, "sl": 4, "hb": 4, "bad": 2, "qp": 2}
SESSION = 45


def gen_session(r, ctx):
    """Many different requests, none twice: what is remembered per request adds
    up, what is remembered once does not."""
    p = Plan(threads=1)
    near = r.random() < 0.6
    e = pick_entry(r, SESSION_W)
    base = mk(r, ctx, entry=e)
    for i in range(SESSION + 15):
        if near:      # one request, all its numbers a little different
            num = {"traj": "c0 dc0 c1 T kin cost", "zero": "c0 dc0 l0 T kin", "ee": "c0 dc0 ddc0 c1 dc1 ddc1 T bump w", "solve": "b g A H lo hi",
                   "help": "c0 dc0 c1 T step"}[cls_of(base)].split()
            d = base + ":" + ",".join("%s~%d" % (f, r.randint(1, 10 ** 6)) for f in num)
        else:
            d = mk(r, ctx, SESSION_W, entry=e if r.random() < 0.7 else None, seeds=10 ** 6)
        p.add("call", desc=d)
    if r.random() < 0.3:      # every request from a thread of its own
        for o in p.ops:
            o[3]["tt"] = 1
    return p


def gen_c04(r, ctx):
    p = Plan(threads=1)
    q = r.random()
    if r.random() < 0.06:
        return gen_session(r, ctx)
    if q < 0.72:
        w = dict(ALL_W, foq=0.2, fol=0.2, bad=8, hb=3)
        d = mk(r, ctx, w)
        if r.random() < 0.3:
            d = mut(r, d, 1)
        kv = {"desc": d, "rep": CYC}
        x = r.random()
        if can_path(d) and x < 0.5:
            path_fault(r, kv, ctx)
        elif x < 0.3:
            dep_fault(r, kv, ctx)
        elif x < 0.65:
            alloc_fault(r, kv, ctx, d)
        elif x < 0.7:
            kv["so"] = 0
        k = "call"
        if can_fresh(d, kv) and r.random() < 0.2:
            k, kv["leave"] = "fcall", leave_bits(r, d)
        if r.random() < 0.25:
            kv["tt"] = 1
        if r.random() < (0.5 if d[:2] in ("sl", "ct", "dd", "fo", "bi") else 0.1):   # the host keeps the LP library alive
            p.add("gnew", s=0, seed=r.randint(1, 50))
        p.add(k, **kv)
    elif q < 0.84:    # a solver object's life
        p.loops = CYC
        d = mk(r, ctx, entry=r.choice(["qp", "sq"]))
        d2 = mk(r, ctx, entry=r.choice(["qp", "sq"]))
        kv = {"desc": d, "s": 0}
        x = r.random()
        if x < 0.3:
            kv["ak"] = r.randint(1, 40)
        elif x < 0.5:
            kv["qk"], kv["qmax"] = 1, r.choice([0, 1, 3])
        sparse(r, kv)
        p.add("qnew", id=1, s=0)
        p.add("qsolve", id=1, **kv)
        kv = {"desc": d2, "s": 0}
        sparse(r, kv)
        p.add("qsolve", id=1, **kv)
        p.add("qdel", id=1, s=0)
    else:             # descriptions made, copied, stored and discarded
        p.loops = CYC
        d = mk(r, ctx, entry=r.choice(["z0", "z0d", "z0a"]))
        p.add("pmake", id=1, s=0, desc=d)
        alive = [0]
        for _ in range(r.randint(1, 6)):
            k = r.choice(["pcopy", "pcopy", "pmove", "passign", "pswap", "vpush", "vpush", "verase", "vget", "cdef", "pcall"])
            t = r.randint(0, 4)
            kv = {"s": r.choice(alive), "t": t}
            if k == "pcall":
                kv = {"s": 0, "desc": d}
            elif k == "cdef":
                kv = {}
            elif k in ("verase", "vget"):
                kv["s"] = 0
            if k in ("pcopy", "pmove", "vget"):
                alive.append(t)
            # (an interrupted copy of a contact model leaks inside its own library)
            if k in ("pcall", "cdef") and r.random() < 0.3:
                kv["ak"] = r.randint(1, 25)
            p.add(k, id=1, **kv)
        for i in range(5):
            p.add("pdel", id=1, s=i)
        p.add("vclear", id=1)
        p.add("pfree", id=1, s=0)
    return p


def growth(recs):
    """Allocated blocks / bytes after each repetition -> steady growth per one."""
    lv = [x["lv"] for x in recs]
    lb = [x["lb"] for x in recs]
    if len(lv) < CYC:
        return None
    db = [lv[i + 1] - lv[i] for i in range(len(lv) - 1)]
    dy = [lb[i + 1] - lb[i] for i in range(len(lb) - 1)]
    if min(db[-4:]) > 0 or min(dy[-4:]) > 0:
        return db[-1], dy[-1], db[-4:], dy[-4:]
    return None


def lasting(plan, ctx, grows):
    """Working memory that is kept from one repetition to the next may take a
    few of them to reach its final size (an allocation fault at the same point
    lets each get a little further); a leak goes on for ever."""
    p = plan.copy()
    if p.loops > 1:
        p.loops *= 6
    else:
        for o in p.ops:
            o[3]["rep"] = 6 * int(o[3].get("rep", 1))
    p.budget *= 6
    try:
        res = ctx.sim.run(p)
    except TooSlow:
        return True
    return not res["done"] or bool(grows(res))


def judge_c04(plan, res, ctx):
    if not res["done"]:
        return []
    by = records(res)
    if plan.loops > 1:
        per = len(plan.ops)
        recs = by.get(1, [])
        if len(recs) != per * plan.loops or plan.loops < CYC:
            return []
        # the cycle has to end with everything discarded
        ends = set((o[2], int(o[3].get("s", 0))) for o in plan.ops)
        if any(o[2] in POOLK for o in plan.ops):
            if not all(("pdel", i) in ends for i in range(5)) or ("vclear", 0) not in ends or ("pfree", 0) not in ends:
                return []
        elif plan.ops[-1][2] != "qdel":
            return []
        g = growth(recs[per - 1::per])
        if not g or not lasting(plan, ctx, lambda r: growth(records(r).get(1, [])[per - 1::per])):
            return []
        # the known leak: every copy of a contact abandons the contact model
        # it made.  Anything that is not a whole number of contact models is new.
        if any("ak" in o[3] and o[2] not in ("pcall", "cdef", "qsolve") for o in plan.ops):
            return []
        mk_ = [o for o in plan.ops if o[2] == "pmake"]
        if mk_:
            e = ctx.mini([("eqcopy", {"desc": mk_[0][3]["desc"]})]).rec
            f, fb = e["lv"], e["lb"]
            if f > 0 and all(b % f == 0 and b // f * fb == y and 0 < b // f <= 12 * per for b, y in zip(g[2], g[3])):
                return [("KNOWN:copy-leak", "%d contact models abandoned per cycle" % (g[0] // f))]
        return [("LEAK", "every cycle [%s] leaves %d blocks, %d bytes behind" % (" ".join(o[2] for o in plan.ops), g[0], g[1]))]
    if len(plan.ops) >= SESSION and all(o[2] == "call" and set(o[3]) <= {"desc", "tt"} for o in plan.ops) and len(set(o[3]["desc"] for o in plan.ops)) == len(plan.ops):
        recs = [x for o in plan.ops for x in by.get(o[0], [])]
        if len(recs) == len(plan.ops):
            for what, unit in (("tb", "blocks"), ("ty", "bytes")):
                t = [x[what] for x in recs]
                # what never comes back: the least memory in use from request k on.
                # Working memory kept from one request to the next (as large as the
                # last or as the largest of them) does not climb for ever, a leak does.
                fut = [min(t[k:]) for k in range(len(t))]
                up = sum(1 for a, b in zip(fut[-30:], fut[-29:]) if b > a)
                if up >= 8 and min(t[-10:]) > max(t[-40:-20]):
                    return [("LEAK", "%d of the last 30 requests of a session (%s ...) leave memory behind for good, %d %s in all" %
                             (up, plan.ops[0][3]["desc"], fut[-1] - fut[-30], unit))]
    for op in plan.ops:
        recs = by.get(op[0], [])
        g = growth(recs)
        if g and (g[0] > 0 or g[1] > 0) and lasting(plan, ctx, lambda r: growth(records(r).get(op[0], []))):
            return [("LEAK", "every repetition of operation %d (%s %s: %s) leaves %d blocks, %d bytes behind" %
                     (op[0], op[2], op[3].get("desc", ""), recs[-1]["b"], g[0], g[1]))]
    return []


# ------------------------------------------------------------------ C05
def gen_c05(r, ctx):
    p = Plan(threads=1)
    w = dict(ALL_W, foq=0.5, fol=0.5, hb=8, z0a=8)
    for i in range(r.choice([1, 1, 2, 3])):
        d = mk(r, ctx, w)
        if r.random() < 0.3:
            d = mut(r, d, 1)
        kv = {"desc": d, "poison": "%d:%d" % (r.randint(1, 7), r.randint(1, 10 ** 6))}
        k = "call"
        if r.random() < 0.15:
            kv["tt"] = 1
        if r.random() < 0.15:
            dep_fault(r, kv, ctx)
        if can_fresh(d, kv) and r.random() < 0.45:
            k, kv["leave"] = "fcall", leave_bits(r, d)
        elif r.random() < 0.1:
            p.add("qnew", s=0, poison=kv["poison"])
            k, kv["s"] = "qsolve", 0
            kv["desc"] = mk(r, ctx, entry=r.choice(["qp", "sq"]))
            for f in ("ck", "lk", "lit", "lfail"):
                kv.pop(f, None)
            sparse(r, kv)
        p.add(k, **kv)
    return p


def judge_c05(plan, res, ctx):
    out = both(plan, res, ctx, CRASHES)
    if out == [] and res["done"]:
        two = ctx.filled(plan)
        if two["done"]:
            for a, b in zip(res["ops"], two["ops"]):
                if a["i"] == b["i"] and a["d"] != b["d"]:
                    return [("STACKFILL", "operation %d (%s %s) answered [%s], and [%s] with other contents of its uninitialised local variables" %
                             (a["i"], a["k"], dict((o[0], o[3].get("desc", "")) for o in plan.ops).get(a["i"], ""), a["b"], b["b"]))]
        elif two["viol"]:
            return [("STACKFILL", "%s, with other contents of its uninitialised local variables" % two["viol"][0]["text"])]
    return out


# ------------------------------------------------------------------ C06
def gen_c06(r, ctx):
    p = Plan(threads=1)
    w = dict(ALL_W, foq=1, fol=1, sq=10, sl=10, bad=0.5, hb=0, qp=6)
    for _ in range(r.choice([1, 1, 2, 3])):
        d = mk(r, ctx, w, seeds=10 ** 9)
        if r.random() < 0.25:
            d = mut(r, d, 1)
        kv = {"desc": d}
        if r.random() < 0.75:
            dep_fault(r, kv, ctx)
            e = d.split(":")[0]
            if e in ("sq", "ddq", "ctq", "fix", "ee", "qp", "z0", "z0d", "z0a") and "lk" in kv:
                kv.pop("lk"), kv.pop("lit", 0), kv.pop("lfail", 0)
                kv["qk"], kv["qmax"] = 1, r.choice([0, 1, 2, 3, 5])
            elif e in ("sl", "ddl", "ctl", "fol") and "qk" in kv:
                kv.pop("qk"), kv.pop("qmax", 0), kv.pop("qst", 0)
                kv["lk"], kv["lit"] = 1, r.choice([0, 1, 2, 3, 5])
        p.add("call", **kv)
    return p


def judge_c06(plan, res, ctx):
    out = []
    by = records(res)
    for op in plan.ops:
        for rec in by.get(op[0], []):
            qc, qb, ql, lc, lb, ll, cc, cb = rec["dep"]
            succ = rec["b"].startswith("ok")
            e = op[3]["desc"].split(":")[0]
            if succ and e != "hb":
                if qc and ql:
                    out.append(("FALSE-SUCCESS", "the QP core ended with status %d, the reply of %s says success" % (ql, op[3]["desc"])))
                elif lc and ll:
                    out.append(("FALSE-SUCCESS", "the LP solver ended with status %d, the reply of %s says success" % (ll, op[3]["desc"])))
                elif cb:
                    out.append(("FALSE-SUCCESS", "the contact model delivered no inequalities, the reply of %s says success" % op[3]["desc"]))
            if rec["v"] and (not succ or e in ("sq", "sl", "qp", "big") or "without stability" in rec["v"]):
                out.append(("FALSE-SUCCESS" if succ else "FAILURE-CONTENT", "%s: %s" % (op[3]["desc"], rec["v"])))
    return out


# ------------------------------------------------------------------ C07
def gen_c07(r, ctx):
    p = Plan(threads=1)
    ns = r.choice([1, 1, 2])
    for s in range(ns):
        p.add("qnew", s=s)
    ds = [mk(r, ctx, entry=r.choice(["qp", "qp", "sq"])) for _ in range(r.choice([2, 3, 4]))]
    for d in list(ds):
        if r.random() < 0.4:
            ds.append(mut(r, d, 1, ["b", "g", "A", "H", "d"]))
    for _ in range(r.randint(3, 14)):
        s = r.randrange(ns)
        kv = {"s": s, "desc": r.choice(ds)}
        x = r.random()
        if x < 0.15:
            kv["qk"], kv["qmax"] = 1, r.choice([0, 1, 2, 3, 5])
        elif x < 0.35:
            kv["ak"] = r.choice([r.randint(1, 12), r.randint(1, 40)])
            if r.random() < 0.2:
                kv["af"] = 1
        elif x < 0.42:
            p.add("qmax", s=s, n=r.choice([0, 1, 2, 3, 5, 10, 1000, 1000]))
        elif x < 0.45:
            p.add("qnew", s=s)
        environ(r, kv, 0.08)
        sparse(r, kv)
        p.add("qsolve", **kv)
    if r.random() < 0.3:
        p.add("qdel", s=0)
    return p


def judge_c07(plan, res, ctx):
    a = []
    rv = set()
    if any(VK[v["kind"]] in CRASHES | MEMORY for v in res["viol"]):
        for op in plan.ops:
            if op[2] == "qsolve":
                m = ctx.mini([("qnew", {"s": 0}), ("qsolve", dict({k: v for k, v in op[3].items() if k in REFKEYS}, s=0))])
                if m.died:
                    return None
                rv |= m.viol
        a = [(VK[v["kind"]], v["text"]) for v in res["viol"] if VK[v["kind"]] in CRASHES | MEMORY and vkey(v) not in rv]
    b = digest_findings(plan, res, ctx)
    if b is None:
        return None
    a += b
    by = records(res)
    for op in plan.ops:
        for rec in by.get(op[0], []) if op[2] == "qsolve" else []:
            if rec["v"]:
                a.append(("SOLVER", "the answer to %s: %s" % (op[3]["desc"], rec["v"])))
            if (int(op[3].get("sp", 0)) or int(op[3].get("inv", 0))) and not rec["fi"] and not rec["dep"][1]:
                # the two interfaces answer alike
                o = ctx.mini([("qnew", {"s": 0}), ("qsolve", {"s": 0, "desc": op[3]["desc"]})])
                if o.died:
                    return None
                if alike(o.b, rec["b"]) is False and "xt" not in rec and "xt" not in o.rec:
                    a.append(("SOLVER", "%s answered [%s] to %s, the dense one [%s]" %
                              ("a supplied inverse" if int(op[3].get("inv", 0)) else "the sparse interface", rec["b"], op[3]["desc"], o.b)))
    return a


def answer(b):
    m = re.match(r"ok cost=(\S+) x0=(\S+)", b)
    return (float(m.group(1)), float(m.group(2))) if m else None


def alike(a, b):
    """None: one of them gave no answer."""
    a, b = answer(a), answer(b)
    if not a or not b:
        return None
    return abs(a[0] - b[0]) <= 1e-6 * max(1, abs(a[0])) and abs(a[1] - b[1]) <= 1e-4 * max(1, abs(a[1]))


# ------------------------------------------------------------------ C08
TIGHT = {"traj": ["cut", "cut", "cut", "atight", "htight", "vfast", "Tswap", "wide", "fine"], "zero": ["cut", "cut", "acut", "vfast", "wide"]}


def gen_c08(r, ctx):
    n = r.choice([1, 1, 1, 2, 3])
    p = Plan(threads=n, policy=r.choice([1, 2, 3, 4]) if n > 1 else 0, sseed=r.randint(1, 1 << 48))
    w = dict(ALL_W, foq=1.5, fol=1, sq=1, sl=1, hb=0, bad=2, qp=0, lsq=4, lsl=3, lsc=2, lsf=3)
    for t in range(1, n + 1):
        for _ in range(r.choice([1, 2, 4]) if n == 1 else r.choice([1, 2])):
            d = mk(r, ctx, w, seeds=10 ** 9)
            x = r.random()
            if x < 0.25:
                d = mut(r, d, r.choice([1, 2]))
            elif x < 0.7 and cls_of(d) in TIGHT:     # limits that bind
                d = mut(r, d, r.choice([1, 1, 2, 3]), TIGHT[cls_of(d)])
            kv = {"desc": d}
            if r.random() < 0.12:
                if can_path(d):
                    path_fault(r, kv, ctx)
                elif r.random() < 0.6:
                    dep_fault(r, kv, ctx)
                else:
                    kv["ak"] = r.randint(1, 3000)
            environ(r, kv, 0.05)
            p.add("call", t, **kv)
    return p


def judge_c08(plan, res, ctx):
    out = []
    for o in res["ops"]:
        if o["v"]:
            d = [x[3].get("desc") for x in plan.ops if x[0] == o["i"]]
            out.append(("PLAN", "reply to %s: %s" % (d[0] if d else "?", o["v"])))
    return out


# ------------------------------------------------------------------ C09
def gen_c09(r, ctx):
    n = r.choice([1, 1, 2])
    p = Plan(threads=n, policy=r.choice([1, 2, 3, 4]) if n > 1 else 0, sseed=r.randint(1, 1 << 48))
    w = dict(ALL_W, foq=0.5, fol=0.5, hb=4)
    ds = [mk(r, ctx, w, seeds=10 ** 6) for _ in range(2)]
    for t in range(1, n + 1):
        for _ in range(r.choice([1, 2, 3])):
            d = r.choice(ds)
            if r.random() < 0.3:
                d = mut(r, d, 1)
            kv = {"desc": d}
            x = r.random()
            if can_path(d) and x < 0.4:
                path_fault(r, kv, ctx)
            elif x < 0.2:
                dep_fault(r, kv, ctx)
            elif x < 0.35:
                kv["ak"] = r.randint(1, 3000)
                if r.random() < 0.3:
                    kv["af"] = 1
            environ(r, kv, 0.05)
            p.add("call", t, **kv)
    return p


def judge_c09(plan, res, ctx):
    return [("INPUTWRITE", "%s (operation %d)" % (v["text"], v["op"])) for v in res["viol"] if v["kind"] == 4]


# ------------------------------------------------------------------ C10
PATH_EXC = ["exc user:path: 4711", "exc user:int: 4712", "exc St11logic_error: user path: 4713", "exc user:range: 4714", "exc user:runtime: 4715",
            "exc user:alloc: 4716", "exc user:text: 4720", "exc user:plain: 4717", "exc St13runtime_error: user path: 4718", "exc user:invalid: 4719"]


def gen_c10(r, ctx):
    two = r.random() < 0.12
    p = Plan(threads=2 if two else 1, policy=r.choice([1, 2, 3, 4]) if two else 0, sseed=r.randint(1, 1 << 48))
    for _ in range(3):
        d = mk(r, ctx, entry="ee")
        if r.random() < 0.2:
            d = mut(r, d, 1)
        if evaluations(ctx, d) > 0:
            break
    w = {k: v for k, v in ALL_W.items() if k not in ("foq", "fol")}
    for _ in range(r.choice([1, 2, 4])):
        kv = {"desc": d}
        cnt = evaluations(ctx, d)
        if r.random() < 0.45:
            kv["pt"] = r.randint(1, max(1, cnt + 1))
            kv["pk"] = r.randrange(len(PATH_EXC))
            if r.random() < 0.15:
                enter(r, kv, ctx, r.randint(1, max(1, kv["pt"])), d)
        else:
            enter(r, kv, ctx, r.randint(1, max(1, cnt)), d)
        if r.random() < 0.1:
            kv["ak"] = r.randint(1, 4000)
        if not two and "ak" not in kv and r.random() < 0.35:
            kv["rep"] = CYC
        if r.random() < 0.2:
            kv["tt"] = 1
        p.add("call", 1, **kv)
        if two:
            p.add("call", 2, desc=mk(r, ctx, w))
    p.add("call", 1, desc=d)
    p.add("call", 1, desc=mk(r, ctx, w))
    return p


def judge_c10(plan, res, ctx):
    f = both(plan, res, ctx, CRASHES | MEMORY)
    if f is None:
        return None
    by = records(res)
    for op in plan.ops:
        kv = op[3]
        recs = by.get(op[0], [])
        for rec in recs:
            if "pt" in kv and rec["pc"] >= int(kv["pt"]) and not rec["fi"]:
                want = PATH_EXC[int(kv.get("pk", 0)) % len(PATH_EXC)]
                if rec["b"] != want:
                    f.append(("PATH-EXCEPTION", "the path threw [%s], the caller of %s got [%s]" % (want, kv["desc"], rec["b"])))
            if "pe" in kv and rec["nested"] and not rec["fi"]:
                nk = {"desc": kv["enter"]}
                if "npt" in kv:
                    nk["pt"], nk["pk"] = kv["npt"], kv.get("npk", 0)
                for d, k, what, dig in ((kv["enter"], nk, rec["nested"], rec["nd"]),
                                        (kv.get("nenter"), {"desc": kv.get("nenter")}, rec["nested2"], rec["nd2"])):
                    if not what:
                        continue
                    e = ctx.ref(["", 1, "call", k])
                    if e.died:
                        return None
                    if e.d != dig:
                        f.append(("NESTED", "the nested call of %s answered [%s] instead of [%s]" % (d, what, e.b)))
        if int(kv.get("rep", 1)) >= CYC and ("pt" in kv or "pe" in kv):
            g = growth(recs)
            if g and (g[0] > 0 or g[1] > 0):
                # only what the path adds
                base = ctx.mini([("call", {"desc": kv["desc"], "rep": CYC})])
                nest = ctx.mini([("call", {"desc": kv["enter"], "rep": CYC})]) if "enter" in kv else None
                if not growth(base.recs) and not (nest and growth(nest.recs)):
                    f.append(("LEAK", "every call of %s whose path throws or re-enters leaves %d blocks, %d bytes behind" % (kv["desc"], g[0], g[1])))
    return f


# ------------------------------------------------------------------ C11
def gen_c11(r, ctx):
    n = r.choice([1, 1, 1, 2])
    p = Plan(threads=n, policy=r.choice([1, 2, 3]) if n > 1 else 0, sseed=r.randint(1, 1 << 48))
    w = {"ddl": 5, "ctl": 5, "fol": 0.3, "sl": 8, "big": 0.3, "ddq": 1, "z0": 1, "ee": 1, "bad": 1, "sq": 1}
    for t in range(1, n + 1):
        live = {}
        for _ in range(r.randint(4, 10)):
            x = r.random()
            s = r.randrange(3) + 4 * t
            if x < 0.42:
                d = mk(r, ctx, w)
                if r.random() < 0.3:
                    d = mut(r, d, 1)
                kv = {"desc": d}
                y = r.random()
                if y < 0.15:
                    dep_fault(r, kv, ctx)
                elif y < 0.3:
                    alloc_fault(r, kv, ctx, d)
                if r.random() < 0.15:
                    kv["tt"] = 1
                p.add("call", t, **kv)
            elif x < 0.55 or not live:
                if live.get(s):
                    p.add("gdel", t, s=s)
                p.add("gnew", t, s=s, seed=r.randint(1, 200))
                live[s] = True
            else:
                s = r.choice(list(live))
                k = r.choice(["gsolve", "gsolve", "gview", "gview", "gedit", "gdel", "gfree", "gterm", "ghook", "gmsg", "gmsg", "gmem", "gmem", "gerr"])
                if k == "ghook":
                    p.add("ghook", t, n=r.choice([1, 1, 3, 3, 2, 0]))
                elif k in ("gmsg", "gmem"):
                    p.add(k, t, n=r.randint(1, 9))
                elif k == "gerr":
                    if r.random() < 0.5:
                        p.add("gerr", t)
                        live = {}
                elif k == "gfree":
                    if r.random() < 0.4:
                        p.add("gfree", t)
                        live = {}
                elif k == "gdel":
                    p.add("gdel", t, s=s)
                    del live[s]
                elif k == "gedit":
                    p.add("gedit", t, s=s, n=r.randint(1, 5))
                elif k == "gterm":
                    p.add("gterm", t, n=r.randrange(2))
                else:
                    p.add(k, t, s=s)
        for s in list(live):
            p.add(r.choice(["gview", "gsolve"]), t, s=s)
            p.add("gsolve", t, s=s)
        for k in ("gmsg", "gmem", "gterm", "gerr"):
            if r.random() < 0.4:
                p.add(k, t)
    return p


def judge_c11(plan, res, ctx):
    return both(plan, res, ctx, CRASHES | {"HOSTFREE"})


# ------------------------------------------------------------------ C12
def gen_c12(r, ctx):
    p = Plan(threads=1)
    w = {"ddq": 5, "ddl": 5, "ctq": 5, "ctl": 5, "fix": 5, "foq": 0.5, "fol": 0.4, "z0": 4, "z0d": 4, "z0a": 4, "ee": 6, "sq": 10,
         "sl": 10, "hb": 6, "bad": 12, "qp": 4, "big": 0.5, "mnq": 2, "mnl": 2, "lsq": 1, "lsl": 1, "lsc": 1, "lsf": 1}
    for _ in range(r.choice([1, 1, 2, 3])):
        d = mk(r, ctx, w, seeds=10 ** 9)
        if r.random() < 0.3:
            d = mut(r, d, r.choice([1, 2, 3]))
        kv = {"desc": d}
        x = r.random()
        if can_path(d) and x < 0.3:
            path_fault(r, kv, ctx)
        elif x < 0.25:
            dep_fault(r, kv, ctx)
        elif x < 0.4:
            kv["ak"] = r.choice([r.randint(1, 60), r.randint(1, 5000)])
            if r.random() < 0.3:
                kv["af"] = 1
        elif x < 0.43:
            kv["so"] = r.randint(0, 3)
        environ(r, kv, 0.15)
        k = "call"
        e = d.split(":")[0]
        if e in ("qp", "sq") and r.random() < 0.4:
            p.add("qnew", s=0)
            sparse(r, kv)
            p.add("qsolve", s=0, **kv)
            k, kv = "qsolve", {"s": 0, "desc": mk(r, ctx, entry=r.choice(["qp", "sq"]), seeds=10 ** 6)}
        elif can_fresh(d, kv) and r.random() < 0.12:
            k, kv["leave"] = "fcall", leave_bits(r, d)
        p.add(k, **kv)
    return p


def judge_c12(plan, res, ctx):
    kinds = CRASHES | MEMORY | {"HOSTFREE"}
    out = [(VK[v["kind"]], "%s (operation %d)" % (v["text"], v["op"])) for v in res["viol"] if VK[v["kind"]] in kinds]
    for o in res["ops"]:
        if o["kind"] == 2:
            out.append(("FOREIGN-EXCEPTION", "operation %d ended in [%s]" % (o["i"], o["b"])))
    return out


# ------------------------------------------------------------------ C13
POOL_W = {"ddq": 3, "ctq": 3, "ctl": 2, "fix": 3, "z0": 4, "z0d": 3, "z0a": 5, "foq": 0.1}
EDITS = [(w, fs) for w, fs in sorted(WHAT.items())]


def gen_pool(r, ctx, edits=True, faults=True):
    p = Plan(threads=1)
    p.note = "pool"
    slots, vec = {}, []      # slot -> [desc or None, aliased, edited model]
    ds = [mk(r, ctx, POOL_W, seeds=min(ctx.pool, 200)) for _ in range(r.choice([1, 2, 2]))]
    NS = 6

    def fault(kv, hi=40):
        if faults and r.random() < 0.18:
            kv["ak"] = r.choice([r.randint(1, 8), r.randint(1, hi)])
            return True
        return False
    # the generator follows the fault-free course; the oracle follows the real one
    late = r.random() < 0.15         # contact models are handed over after copying
    p.add("pmake", s=0, desc=ds[0], **({"late": 1} if late else {}))
    slots[0] = [ds[0], False, False]
    for _ in range(r.randint(4, 16)):
        k = r.choice(["pmake", "pcopy", "pcopy", "pcopy", "passign", "passign", "pmove", "pswap", "vpush", "vpush", "vpush", "verase", "vget",
                      "vget", "pdel", "pfree", "pmut", "pmut", "pmut", "pcall", "pcall", "pcall", "cdef", "pdef"])
        live = [s for s in slots if slots[s][0]]
        if not live:
            k = "pmake"
        s = r.choice(live) if live else 0
        t = r.randrange(NS)
        kv = {}
        if k == "pmake":
            d = r.choice(ds)
            kv = {"s": t, "desc": d}
            if late:
                kv["late"] = 1
            if fault(kv, 80):
                slots.pop(t, None)
            else:
                slots[t] = [d, False, False]
        elif k == "pdef":
            kv = {"s": t}
            fault(kv)
            slots[t] = [None, True, False]
        elif k in ("pcopy", "pmove"):
            if s == t:
                continue
            kv = {"s": s, "t": t}
            if k == "pcopy" and fault(kv, 80):
                slots.pop(t, None)
            else:
                slots[t] = [slots[s][0], False if k == "pcopy" else slots[s][1], slots[s][2]]
                if k == "pmove":
                    slots[s] = [None, True, False]
        elif k == "passign":
            t = r.choice(list(slots))
            kv = {"s": s, "t": t}
            if fault(kv, 80):
                slots[t] = [None, True, False]
            else:
                slots[s][1] = True
                slots[t] = [slots[s][0], True, slots[s][2]]
        elif k == "pswap":
            t = r.choice(list(slots))
            if s == t:
                continue
            kv = {"s": s, "t": t}
            slots[s], slots[t] = slots[t], slots[s]
        elif k == "vpush":
            kv = {"s": s}
            if not fault(kv, 120):
                vec.append([slots[s][0], False, slots[s][2]])
        elif k == "verase":
            if not vec:
                continue
            i = r.randrange(len(vec))
            kv = {"s": i}
            del vec[i]
            for v in vec[i:]:
                v[1] = True
        elif k == "vget":
            if not vec:
                continue
            i = r.randrange(len(vec))
            kv = {"s": i, "t": t}
            if fault(kv, 80):
                slots.pop(t, None)
            else:
                slots[t] = [vec[i][0], False, vec[i][2]]
        elif k == "pdel":
            if len(live) < 2 and not vec:
                continue
            kv = {"s": s}
            slots.pop(s)
        elif k == "pfree":
            kv = {"s": r.randrange(NS)}
        elif k == "pmut":
            if not edits and r.random() < 0.5:
                continue
            if not slots[s][1] and not slots[s][2] and r.random() < 0.2:
                kv = {"s": s, "what": 6, "desc": mut(r, slots[s][0], 1, ["cone"])}
                slots[s][2] = True
            elif slots[s][2] and r.random() < 0.5:
                continue
            else:
                w, fs = r.choice(EDITS)
                d = mut(r, slots[s][0], 1, fs)
                kv = {"s": s, "what": w, "desc": d}
                slots[s][0] = d
                if w == 4:
                    slots[s][1], slots[s][2] = True, False
                    if r.random() < 0.5:
                        kv["what"] = 4
        elif k == "pcall":
            kv = {"s": s, "desc": slots[s][0]}
            if late:
                p.add("pmut", s=s, what=8, desc=slots[s][0])
        elif k == "cdef":
            fault(kv, 20)
        p.add(k, **kv)
    for s in list(slots):
        if slots[s][0] and r.random() < 0.8:
            if late:
                p.add("pmut", s=s, what=8, desc=slots[s][0])
            p.add("pcall", s=s, desc=slots[s][0])
    if r.random() < 0.6:
        tail = [("pdel", {"s": s}) for s in range(NS)] + [("vclear", {})] + [("pfree", {"s": s}) for s in range(NS)]
        r.shuffle(tail)
        for k, kv in tail:
            p.add(k, **kv)
    return p


def gen_c13(r, ctx):
    return gen_pool(r, ctx)


def judge_c13(plan, res, ctx):
    f = both(plan, res, ctx, CRASHES | MEMORY | {"INPUTWRITE"})
    return None if f is None else f + copies(plan, res)


def copies(plan, res):
    ops = {o[0]: o for o in plan.ops}
    return [("COPY", "operation %d (%s): %s" % (o["i"], ops[o["i"]][2], o["v"])) for o in res["ops"]
            if o["v"] and ops[o["i"]][2] in ("pmake", "pcopy", "pmove", "passign", "pswap", "vpush", "vget")]


# ------------------------------------------------------------------ C14
def gen_c14(r, ctx):
    n = r.choice([1, 1, 1, 2, 3])
    p = Plan(threads=n, policy=r.choice([1, 2, 3, 4]) if n > 1 else 0, sseed=r.randint(1, 1 << 48))
    x = r.random()
    p.host = 1 if x < 0.15 else 2 * r.randint(1, 10 ** 6) + (x < 0.5)
    w = dict(ALL_W, foq=0.2, fol=0.2, bad=12, hb=8)
    for t in range(1, n + 1):
        for _ in range(r.choice([1, 1, 2, 3])):
            d = mk(r, ctx, w, seeds=10 ** 6)
            if r.random() < 0.3:
                d = mut(r, d, r.choice([1, 2]))
            kv = {"desc": d}
            k = "call"
            x = r.random()
            if can_path(d) and x < 0.4:
                path_fault(r, kv, ctx)
            elif x < 0.3:
                dep_fault(r, kv, ctx)
            elif x < 0.55:
                if n == 1 and r.random() < 0.5:
                    alloc_fault(r, kv, ctx, d)
                else:
                    kv["ak"] = r.choice([r.randint(1, 60), r.randint(1, 3000)])
            environ(r, kv, 0.1)
            if can_fresh(d, kv) and r.random() < 0.15:
                k, kv["leave"] = "fcall", leave_bits(r, d)
            p.add(k, t, **kv)
    if n == 1 and r.random() < 0.15:
        p.add("qnew", s=0)
        for _ in range(r.choice([1, 2, 3])):
            kv = {"s": 0, "desc": mk(r, ctx, entry=r.choice(["qp", "sq"]))}
            if r.random() < 0.3:
                kv["ak"] = r.randint(1, 40)
            sparse(r, kv)
            p.add("qsolve", **kv)
    return p


def judge_c14(plan, res, ctx):
    out = [("HOSTSTATE", "operation %d (%s) changed %s" % (o["i"], o["b"], o["hs"])) for o in res["ops"] if o["hs"]]
    f = novel(plan, res, ctx, CRASHES)
    if f is None:
        return None
    if plan.host % 2 == 0 or plan.host == 1:
        m = mismatches(plan, res, ctx)
        if m is None:
            return None
        for op, rec, exp in m:
            if rec["b"].startswith("exc") and rec["b"].split(":")[:3] == exp.split(":")[:3]:
                continue      # the same exception; its text may contain formatted numbers
            f.append(("REPLY", "under the host's settings operation %d (%s) answered [%s] instead of [%s]" % (op[0], op[3].get("desc", ""), rec["b"], exp)))
    return out + f


# ------------------------------------------------------------------ C15
RES_W = {"ddq": 6, "ddl": 5, "ctq": 6, "ctl": 5, "fix": 5, "foq": 0.2, "fol": 0.2, "z0": 4, "z0d": 3, "z0a": 4, "ee": 6, "sq": 5, "sl": 5}


def gen_c15(r, ctx):
    n = r.choice([1, 1, 2, 2, 3])
    p = Plan(threads=n, policy=r.choice([1, 2, 3, 4]) if n > 1 else 0, sseed=r.randint(1, 1 << 48))
    fam = family(r, ctx, r.choice([1, 2, 3]), RES_W)

    def request():
        for _ in range(20):
            d = r.choice(fam) if r.random() < 0.7 else mk(r, ctx, RES_W)
            if cls_of(d) != "help" and d[:3] not in ("bad", "big", "qp:") and (d[:2] != "fo" or r.random() < 0.1):
                return d
        return mk(r, ctx, RES_W)

    def plan_one(t, s=None):
        kv = {"desc": request()}
        x = r.random()
        if can_path(kv["desc"]) and x < 0.2:
            path_fault(r, kv, ctx)
        elif x < 0.12:
            dep_fault(r, kv, ctx)
        elif x < 0.25:
            kv["ak"] = r.randint(1, 2000)
        environ(r, kv, 0.05)
        if s is None:
            p.add("call", t, **kv)
        else:
            p.add("rcall", t, s=s, **kv)

    def alter(t, lo, hi, src):
        """Something done to the caller's own slots lo..hi-1."""
        k = r.choice(["rcopy", "rcopy", "rcopy", "rassign", "rassign", "rassign", "rmove", "rswap", "rbase", "rbase", "redit", "redit", "rdel"])
        a, b = r.randrange(lo, hi), r.randrange(lo, hi)
        kv = {"s": a, "t": b}
        if k == "redit":
            kv = {"s": a, "what": r.randrange(9)}
        elif k == "rdel":
            kv = {"s": a}
        elif k in ("rcopy", "rassign", "rbase") and src and r.random() < 0.5:
            kv["s"] = r.choice(src)
        if k in ("rcopy", "rassign", "rbase") and r.random() < 0.12:
            kv["ak"] = r.randint(1, 9)
        p.add(k, t, **kv)
        if k in ("rassign", "rbase", "redit") and r.random() < 0.3:      # assigned over again
            if k == "redit":
                p.add("rassign", t, s=r.choice(src or [a]), t=a)
            view(t, kv.get("t", a))

    def view(t, s):
        kv = {"s": s, "n": r.choice([0, 1, 4, 9])}
        if r.random() < 0.05:
            kv["ak"] = r.randint(1, 60)
        environ(r, kv, 0.05)
        p.add("rview", t, **kv)
    own = {t: [(t - 1) * 7 + i for i in range(6)] for t in range(1, n + 1)}      # the last three stay private
    made = []
    for t in range(1, n + 1):
        for s in own[t][:r.choice([1, 2, 3])]:
            plan_one(t, s)
            made.append(s)
    if n > 1:
        for t in range(1, n + 1):
            p.add("sync", t)
    for t in range(1, n + 1):
        lo, hi = (own[t][0], own[t][-1] + 1) if n == 1 else (own[t][3], own[t][-1] + 1)
        for _ in range(r.choice([2, 4, 6]) if n > 1 else r.choice([4, 8, 12])):
            x = r.random()
            if x < 0.4:
                view(t, r.choice(made + list(range(lo, hi))))
            elif x < 0.6:
                plan_one(t, r.randrange(lo, hi) if r.random() < 0.4 else None)
            else:
                alter(t, lo, hi, made)
    if n > 1:
        for t in range(1, n + 1):
            p.add("sync", t)
    for t in range(1, n + 1):
        for s in own[t]:
            if r.random() < 0.7:
                view(t, s)
            if r.random() < 0.5:
                p.add("rdel", t, s=s)
    # the threads' lists are interleaved by the scheduler; only their order counts
    return p


def judge_c15(plan, res, ctx):
    f = both(plan, res, ctx, {"RACE"} | CRASHES | MEMORY if plan.threads > 1 else CRASHES | MEMORY)
    if f is None:
        return None
    ops = {o[0]: o for o in plan.ops}
    return f + [("REPLY", "operation %d: %s" % (o["i"], o["v"])) for o in res["ops"] if o["v"] and ops[o["i"]][2] == "rview"]


# ------------------------------------------------------------------ C16
ENOENT, EIO, EACCES, EMFILE, ENOSPC, EROFS = 2, 5, 13, 24, 28, 30


def disk_fault(r, kv):
    x = r.random()
    if x < 0.22:
        kv["do"] = r.choice([ENOENT, EACCES, EMFILE, ENOSPC, EROFS])
    elif x < 0.32:
        kv["dc"] = r.choice([EIO, ENOSPC])
    else:
        kv["dk"] = r.choice([1, 2, 3, 4, 5, 6, r.randint(1, 30)])
        kv["dt"] = r.choice([1, 1, 2, 3, 4, 4])
        kv["da"] = r.choice([0, 50, 99, r.randrange(100)]) if kv["dt"] == 1 else r.choice([EIO, ENOSPC])


def gen_c16(r, ctx):
    if r.random() < 0.12:     # over and over again
        p = Plan(threads=1)
        kv = {"desc": mk(r, ctx, entry="qh"), "file": r.randrange(5), "rep": CYC}
        if r.random() < 0.4:
            disk_fault(r, kv)
        elif r.random() < 0.3:
            kv["ak"] = r.randint(1, 8)
        p.add("qhull", **kv)
        return p
    n = r.choice([1, 1, 2, 2, 3])
    p = Plan(threads=n, policy=r.choice([1, 2, 3, 4]) if n > 1 else 0, sseed=r.randint(1, 1 << 48))
    if r.random() < 0.3:
        p.host = 2 * r.randint(1, 10 ** 6)
    fam = []
    for _ in range(r.choice([1, 2, 3])):
        d = mk(r, ctx, entry="qh")
        fam += [d, mut(r, d, r.choice([1, 2]))]
    w = dict(ALL_W, foq=0, fol=0)
    req = family(r, ctx, 2, w)
    for t in range(1, n + 1):
        names = r.sample(range(5 * t, 5 * t + 5), r.choice([1, 1, 2]))
        for _ in range(r.choice([2, 3, 5, 8])):
            x = r.random()
            f = r.choice(names)
            if x < 0.2:
                p.add("qread", t, file=f)
            elif x < 0.35:
                kv = {"desc": r.choice(req)}
                if r.random() < 0.3:
                    dep_fault(r, kv)
                p.add("call", t, **kv)
            else:
                kv = {"desc": r.choice(fam) if r.random() < 0.85 else mk(r, ctx, entry="qh"), "file": f}
                if r.random() < 0.4:
                    kv["clip"] = 1
                y = r.random()
                if y < 0.35:
                    disk_fault(r, kv)
                elif y < 0.45:
                    kv["ak"] = r.randint(1, 8)
                environ(r, kv, 0.08)
                p.add("qhull", t, **kv)
        for f in names:
            p.add("qread", t, file=f)
    return p


def judge_c16(plan, res, ctx):
    ops = {o[0]: o for o in plan.ops}
    bad = [(VK[v["kind"]], "%s (operation %d, thread %d, step %d)" % (v["text"], v["op"], v["t"], v["ev"])) for v in res["viol"]
           if VK[v["kind"]] in CRASHES | MEMORY and ops.get(v["op"], (0, 0, ""))[2] == "qhull"]
    if bad:
        return bad
    f = both(plan, res, ctx, {"RACE", "INPUTWRITE"} | CRASHES | MEMORY)
    if f is None:
        return None
    f += [("FILE", "operation %d (%s %s): %s" % (o["i"], ops[o["i"]][2], ops[o["i"]][3].get("desc", ""), o["v"]))
          for o in res["ops"] if o["v"] and (ops[o["i"]][2] == "qhull" or o["v"].endswith((" was written", " left open")))]
    if len(plan.ops) == 1 and res["done"]:
        g = growth(records(res).get(plan.ops[0][0], []))
        if g and lasting(plan, ctx, lambda r: growth(records(r).get(plan.ops[0][0], []))):
            f.append(("LEAK", "every repetition of the export leaves %d blocks, %d bytes behind" % g[:2]))
    return f


PROPS = {
    "C16": (gen_c16, judge_c16),
    "C01": (gen_c01, judge_c01), "C02": (gen_c02, judge_c02), "C03": (gen_c03, judge_c03), "C04": (gen_c04, judge_c04),
    "C05": (gen_c05, judge_c05), "C06": (gen_c06, judge_c06), "C07": (gen_c07, judge_c07), "C08": (gen_c08, judge_c08),
    "C09": (gen_c09, judge_c09), "C10": (gen_c10, judge_c10), "C11": (gen_c11, judge_c11), "C12": (gen_c12, judge_c12),
    "C13": (gen_c13, judge_c13), "C14": (gen_c14, judge_c14), "C15": (gen_c15, judge_c15),
}
