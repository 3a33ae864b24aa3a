"""Pieces shared by the property modules."""
import hashlib, json
import core, ops


def oracle(op, timeout=60.0):
    """The op alone, as the first call of a pristine process."""
    try:
        return core.in_child(ops.run, op, timeout=timeout)
    except core.Hang:
        return None


def digest(*parts):
    return hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode()).hexdigest()[:16]


def show(op):
    s = json.dumps(op, sort_keys=True)
    return s if len(s) < 260 else s[:260] + "..."


def merge_counts(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


def empty_report(why):
    return {"violations": [], "stats": {why: 1}, "faults": {}, "shape": why, "nontrivial": False, "trace": why}


def run_threads(progs, trial, schedule=None, stall=6.0, hang=60.0):
    """progs: per thread a list of callables; returns outcomes, sim, status."""
    import simsched
    outs = [[None] * len(p) for p in progs]

    def body(i):
        def go():
            for j, mk in enumerate(progs[i]):
                outs[i][j] = mk()
        return go
    rng = core.rng_for("sched", trial["sseed"])
    if trial["policy"]["kind"] == "park":
        tid = trial["policy"]["tid"] % len(progs)
        try:
            sites = core.in_child(_park_sites, body(tid), timeout=30.0)
        except (core.Hang, core.ChildError):
            sites = []
        own = [s for s in sites if s[0] >= 0.5] or sites
        s = rng.choice(own if rng.random() < 0.9 else sites) if sites else [0, 1, 1]
        trial = {**trial, "policy": {"kind": "park", "tid": tid, "at": s[1] if rng.random() < 0.7 else s[2]}}
    sim = simsched.Sim([body(i) for i in range(len(progs))], rng=rng, policy=dict(trial["policy"]), schedule=schedule)
    st = sim.run(stall=stall, hang=hang)
    return outs, sim, st


def _park_sites(body):
    """Dry run of one thread in a forked copy: the state-touching instructions it executes."""
    import simsched
    sim = simsched.Sim([body], rng=core.rng_for("dry"), policy={"kind": "serial"})
    sim.sites = {}
    sim.run(hang=25.0)
    return sorted(sim.sites.values(), key=lambda s: (s[1], s[2]))


def gen_trials(rng, n):
    return [{"policy": gen_policy(rng), "sseed": rng.randrange(1 << 40)} for _ in range(n)]


def thread_trial(plan, trial):
    """One schedule of one program, in a fork of its own."""
    ops.quiet()
    ops.share([op for t in plan["threads"] for op in t])
    for op in plan["warm"]:
        ops.run(op)
    prepared = [[ops.prepare_safe(op) for op in t] for t in plan["threads"]]
    progs = [[(lambda th: (lambda: ops.call(th)))(th) for th in t] for t in prepared]
    outs, sim, st = run_threads(progs, trial, plan.get("schedule"))
    return {"outs": outs, "status": st, "errors": [None if e is None else repr(e) for e in sim.errors],
            "slices": sim.compact_slices(), "events": sum(sim.events), "switches": sim.switches, "lock_waits": sim.lockspin}


def execute_threads(plan, judge=None, timeout=60.0):
    """All schedules of a program against the answers of a pristine process."""
    want = [[oracle(op) for op in t] for t in plan["threads"]]
    if any(w is None for t in want for w in t):
        return empty_report("oracle_did_not_finish")
    stats = {"events": 0, "switches": 0, "lock_waits": 0, "schedules": 0, "calls": 0}
    faults, shapes, traces, viol = {}, [], [], []
    nontrivial, out_plan = 0, None
    for trial in plan["trials"]:
        r = core.in_child(thread_trial, plan, trial, timeout=timeout)
        stats["schedules"] += 1
        stats["calls"] += sum(map(len, plan["threads"]))
        for k in ("events", "switches", "lock_waits"):
            stats[k] += r[k]
        stats["status_" + r["status"]] = stats.get("status_" + r["status"], 0) + 1
        faults["preemption"] = faults.get("preemption", 0) + r["switches"]
        pk = "policy_" + trial["policy"]["kind"]
        faults[pk] = faults.get(pk, 0) + 1
        if r["status"] == "hang":
            viol.append({"class": "deadlock", "msg": "threads stopped making progress: " + show(plan["threads"])})
        for i, t in enumerate(plan["threads"]):
            if r["errors"][i] is not None:
                viol.append({"class": "raise", "msg": f"thread {i}: {r['errors'][i]}"})
            for j, op in enumerate(t):
                if r["outs"][i][j] is None:
                    continue
                d = ops.differ(op, r["outs"][i][j], want[i][j])
                if d:
                    viol.append({"class": "raise" if "e" in r["outs"][i][j] and "e" not in want[i][j] else "wrong-result",
                                 "msg": f"thread {i} call {show(op)}: {d}"})
        shapes.append(digest(plan["threads"], r["slices"]))
        traces.append(digest(r["slices"], r["outs"]))
        nontrivial += r["switches"] >= 2
        if judge:
            viol += judge(plan, r, want)
        if viol:
            out_plan = {**plan, "trials": [trial], "schedule": r["slices"]}
            break
    stats["nontrivial_schedules"] = nontrivial
    rep = {"violations": viol, "stats": stats, "faults": faults, "shape": shapes, "nontrivial": nontrivial > 0, "trace": digest(plan["threads"], traces)}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def gen_policy(rng):
    u = rng.random()
    if u < 0.2:
        return {"kind": "park", "tid": rng.randrange(4)}
    if u < 0.5:      # a thread stopped at a chosen point stays stopped until the others are done
        return {"kind": "stall", "hot": rng.choice([0.02, 0.1, 0.25, 0.5]), "gap": rng.choice([None, None, None, 1000]),
                "min": rng.choice([0.0, 0.7, 0.7])}
    if u < 0.72:
        return {"kind": "random", "gap": rng.choice([3, 10, 30, 100, 400, 2000]), "hot": rng.choice([0.0, 0.1, 0.5])}
    if u < 0.85:
        return {"kind": "serial", "hot": rng.choice([0.02, 0.1, 0.3])}
    return {"kind": "pct", "d": rng.choice([1, 2, 3, 5]), "len": rng.choice([300, 1000, 5000]), "hot": 0.0}


def shrink_threads(plan, key="threads"):
    ths = plan[key]
    if plan.get("warm"):
        yield {**plan, "warm": []}
        for w in core.drop_each(plan["warm"]):
            yield {**plan, "warm": w}
    if len(ths) > 2:
        for i in range(len(ths)):
            q = {**plan, key: ths[:i] + ths[i + 1:]}
            if plan.get("schedule"):
                q["schedule"] = [[t - (t > i), k] for t, k in plan["schedule"] if t != i]
            yield q
    for i, t in enumerate(ths):
        if len(t) > 1:
            for t2 in core.drop_each(t):
                if t2:
                    yield {**plan, key: ths[:i] + [t2] + ths[i + 1:]}
    sch = plan.get("schedule")
    if sch and len(sch) > 1:
        n = len(sch)
        yield {**plan, "schedule": sch[: n // 2]}
        yield {**plan, "schedule": sch[: n - 1]}
        step = max(1, n // 12)
        for i in range(0, n, step):
            yield {**plan, "schedule": sch[:i] + sch[i + step:]}


# --------------------------------------------------------------------------
# histories
# --------------------------------------------------------------------------
def scribble(v, depth=0):
    """What a careless caller does to arrays it was handed."""
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in "fiu" and v.size:
            try:
                v[...] = -7
            except Exception:
                pass
    elif isinstance(v, dict) and depth < 4:
        for x in list(v.values()):
            scribble(x, depth + 1)
        if depth == 0:
            v["scribbled"] = True
    elif isinstance(v, (list, tuple)) and depth < 4:
        for x in v:
            scribble(x, depth + 1)


def play(op, scr=False):
    """One call of a history; returns its outcome."""
    if op.get("np_seed") is not None:
        import numpy as np
        np.random.seed(op["np_seed"])
    try:
        thunk, args = ops.prepare(op)
    except Exception as e:
        return {"e": type(e).__name__, "msg": str(e)[:200]}
    box = []

    def t():
        v = thunk()
        box.append(v)
        return v
    out = ops.call(t)
    if scr:
        for v in box:
            scribble(v)
        for a in args[:1]:
            scribble(list(a.values()) if isinstance(a, dict) else a)
    return out


def judge(op, got, want, where):
    if want is None:
        return None
    d = ops.differ(op, got, want)
    if not d:
        return None
    cls = "wrong-result"
    if "e" in got and "e" not in want:
        cls = "raise"
    elif "e" not in got and "e" in want:
        cls = "accepted"
    return {"class": cls, "msg": f"{where} {show(op)}: {d}"}


# --------------------------------------------------------------------------
# random streams
# --------------------------------------------------------------------------
def stream_hash(rs):
    """Fingerprint of a Generator / RandomState without consuming from it."""
    import numpy as np
    if isinstance(rs, np.random.Generator):
        return digest(repr(rs.bit_generator.state))
    if isinstance(rs, np.random.RandomState):
        s = rs.get_state(legacy=False)
        return hashlib.sha256(repr(s["bit_generator"]).encode() + s["state"]["key"].tobytes()
                              + repr((s["state"]["pos"], s.get("has_gauss"), s.get("gauss"))).encode()).hexdigest()[:16] \
            if s["bit_generator"] == "MT19937" else digest(repr(s))
    return repr(rs)


def global_streams(extra=()):
    """Every random stream the library could touch without being given it."""
    import numpy as np, random
    import pycircstat2.distributions as D
    out = {"numpy global": stream_hash(np.random.mtrand._rand), "python random": digest(repr(random.getstate()))}
    for d in ops.FAMS:
        out["distribution " + d] = stream_hash(getattr(D, d).random_state)
    for k, o in dict(extra).items():
        out[k] = stream_hash(o.random_state)
    return out


def stream_diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


def configure_streams(rng_seed):
    """Give some objects streams of their own, so that consumption is visible everywhere."""
    import numpy as np
    import pycircstat2.distributions as D
    r = core.rng_for("streams", rng_seed)
    np.random.seed(r.randrange(1 << 31))
    for d in ops.FAMS:
        u = r.random()
        if u < 0.4:
            getattr(D, d).random_state = np.random.default_rng(r.randrange(1 << 31))
        elif u < 0.6:
            getattr(D, d).random_state = r.randrange(1 << 31)


# ---- where to cut a call ----------------------------------------------------
def _sites(thunk, repo_only, watch=None):
    """Dry run in a forked copy: the line events of the call, compactly."""
    import simsched
    c = simsched.Crasher(None, repo_only=repo_only, record=[], watch=watch and watch())
    try:
        with c:
            ops.call(thunk)
    except BaseException:
        pass
    return c.n, c.record


def cutter(thunk, u, span, kind, repo_only=True, occ=None, watch=None):
    """A Crasher for this call: an early event (log-uniform), or a line chosen
    uniformly among those the call executes in the present state."""
    import random, simsched
    r = random.Random(repr(u))
    at = None if span is None else 1 + int(10 ** (u * span))      # None: only at watched sites
    if watch is not None or r.random() < 0.6:
        try:
            n, rec = core.in_child(_sites, thunk, repo_only, watch, timeout=20.0)
        except (core.Hang, core.ChildError):
            n, rec = 0, []
        sites = {}
        for k, s in enumerate(rec):
            if s is None:
                continue
            sites.setdefault(s, []).append(k + 1)
        if sites:
            ks = sites[r.choice(sorted(sites))]
            at = ks[min(len(ks) - 1, int(len(ks) ** r.random()) - (r.random() < 0.5))] if len(ks) > 1 else ks[0]
    return simsched.Crasher(at, kind, repo_only=repo_only)
