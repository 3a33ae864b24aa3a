"""P03: a distribution call cut short leaves no damage behind."""
import threading
import core, ops, common

ID = "P03"
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one seeded (warm-up, call, probes) program executed once per chosen crash point, each in its own forked process: "
        "an exception is raised at that execution point of the call, then the probes are compared with pristine processes; "
        "non-trivial = at least one exception was really delivered; distinct by hash of program and crash sites")
SHAPE = "distinct (program, crash site) hashes"
REAL = ["pycircstat2.distributions and everything it calls (scipy, numpy)"]
STUB = ["delivery of asynchronous exceptions and routine failures (sys.settrace raises at a chosen line event)", "threading.Lock/RLock created by the library"]
ASSUME = ["exceptions are delivered at line boundaries of pycircstat2 (and, in a third of the runs, of scipy's distribution infrastructure), not between a lock's acquisition and the try: that follows it"]
RUNS = {"quick": 420, "thorough": 20000}
TIMEOUT = 240.0
NPOINTS = 9
FITS = ["cardioid", "cartwright", "wrapcauchy", "vonmises", "vonmises_flattopped", "wrapnorm"]
KINDS = ["interrupt", "interrupt", "memory", "memory", "fp", "runtime"]


def call(rng, d, p, bad=0.0):
    u = rng.random()
    if u < 0.6:
        op = ops.gen_eval(rng, d, p)
    elif u < 0.9:
        op = ops.gen_rvs(rng, d, p)
    elif u < 0.96 or d not in FITS:
        op = ops.gen_stat(rng, d, p)
        if d in ops.SLOW or d == "inverse_batschelet":
            op["m"] = rng.choice(["support", "mean", "r"]) if d != "jonespewsey_sineskewed" else "support"
    else:
        return ops.gen_fit(rng, d, n=8)
    if op["sty"] in ("fr", "frkw") and rng.random() < 0.5:
        op["sty"] = "sh"
    return op


def gen(rng, tier, i):
    d = ops.FAMS[i % len(ops.FAMS)]
    p = ops.gen_params(rng, d, 0.15)
    q = [p] + [ops.near_params(rng, d, p) if rng.random() < 0.6 else ops.gen_params(rng, d) for _ in range(2)]
    cold = rng.random() < 0.6        # the parameters were not used before, so that the call builds whatever it needs
    warm = [call(rng, d, rng.choice(q[1:] if cold else q)) for _ in range(rng.choice([0, 0, 1, 2]))]
    victim = call(rng, d, p)
    if cold and victim["k"] == "dist" and victim["m"] in ("mean", "r", "support", "pdf", "logpdf") and rng.random() < 0.6:
        victim = ops.gen_eval(rng, d, p, methods=["cdf", "cdf", "ppf", "sf"])
    probes = [dict(victim)] if rng.random() < 0.5 and victim.get("seed") != "none" else []
    if rng.random() < (0.9 if cold else 0.4) and victim["k"] == "dist":
        probes.append(ops.gen_eval(rng, d, p))
    while len(probes) < 3:
        probes.append(call(rng, d, rng.choice(q)))
    if rng.random() < 0.15:
        d2 = rng.choice(ops.FAMS)
        probes[-1] = ops.gen_eval(rng, d2)
    rng.shuffle(probes)
    pts = [[rng.choice(["any", "line", "line", "store", "stline", "stline", "end"]), rng.random(), rng.choice(KINDS)] for _ in range(NPOINTS if tier == "quick" else 2 * NPOINTS)]
    return {"warm": warm, "victim": victim, "probes": probes, "points": pts, "deep": rng.random() < 0.33, "thread": rng.random() < 0.5}


class Counter:
    """Dry run: which line events follow a store into an object?"""

    def __init__(self, deep):
        import simsched
        self.s = simsched
        self.c = simsched.Crasher(None, repo_only=not deep, record=[])
        self.after = []
        self.prev = {}

    def run(self, thunk):
        import sys
        s, c = self.s, self.c

        def loc(frame, event, arg):
            n0 = c.n
            c._local(frame, event, arg)
            if c.n > n0:
                code = frame.f_code
                k = (id(frame))
                pl = self.prev.get(k)
                if pl is not None and (code, pl) in stores(code):
                    self.after.append(c.n)
                self.prev[k] = frame.f_lineno
            return loc

        def glob(frame, event, arg):
            if event == "call" and c.test(frame.f_code.co_filename):
                return loc
            return None
        sys.settrace(glob)
        try:
            return ops.call(thunk)
        finally:
            sys.settrace(None)


_stores = {}


def stores(code):
    r = _stores.get(code)
    if r is None:
        import dis
        import simsched
        r, line = set(), None
        for i in dis.get_instructions(code):
            if i.starts_line is not None:
                line = i.starts_line
            if i.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR") or simsched._touches_state(i):
                r.add((code, line))
        _stores[code] = r
    return r


def prelude(plan):
    ops.quiet()
    ops.share(plan["warm"] + [plan["victim"]] + plan["probes"])
    for op in plan["warm"]:
        ops.run(op)


def dry(plan):
    prelude(plan)
    try:
        thunk, _ = ops.prepare(plan["victim"])
    except Exception:
        return 0, [], [], [], None
    c = Counter(plan["deep"])
    out = c.run(thunk)
    return c.c.n, c.after, sites(c.c.record, range(1, len(c.c.record) + 1)), sites(c.c.record, c.after), out


def sites(record, events):
    """Per line, up to three of its occurrences."""
    by = {}
    for k in events:
        if k <= len(record):
            by.setdefault(record[k - 1], []).append(k)
    return [v if len(v) < 4 else [v[0], v[len(v) // 2], v[-1]] for _, v in sorted(by.items())]


def crash_run(plan, at, kind):
    import simsched
    prelude(plan)
    thunk, _ = ops.prepare(plan["victim"])
    cr = simsched.Crasher(at, kind, repo_only=not plan["deep"])
    got = None
    try:
        with cr:
            got = ops.call(thunk)
    except BaseException as e:
        if not simsched.is_injected(e):
            raise
    raised = got is None or "e" in got
    res = []

    def probe():
        for op in plan["probes"]:
            res.append(ops.run(op))
    if plan["thread"]:
        t = threading.Thread(target=probe, daemon=True)
        t.start()
        t.join(60)
        if t.is_alive():
            return {"fired": cr.fired, "raised": raised, "got": got, "probes": res, "hang": True}
    else:
        probe()
    return {"fired": cr.fired, "raised": raised, "got": got, "probes": res, "hang": False}


def resolve(points, n, after, lines=(), stlines=()):
    out = []
    for where, u, kind in points:
        if where == "at":
            k = u
        elif where == "store" and after:
            k = after[int(u * len(after))]
        elif where in ("line", "stline") and (lines if where == "line" else stlines):
            ls = lines if where == "line" else stlines
            ks = ls[int(u * len(ls))]
            k = ks[int(u * len(ls) * 997) % len(ks)]
        elif where == "end":
            k = max(1, n - int(u * u * min(n, 30)))
        else:
            k = 1 + int(u * n)
        if 1 <= k <= max(n, 1):
            out.append((k, kind))
    return sorted(set(out))


def execute(plan):
    want = [common.oracle(op) for op in plan["probes"]]
    vwant = common.oracle(plan["victim"])
    if any(w is None for w in want) or vwant is None:
        return common.empty_report("oracle_did_not_finish")
    try:
        n, after, lines, stlines, base = core.in_child(dry, plan, timeout=90.0)
    except core.Hang:
        return common.empty_report("dry_run_did_not_finish")
    viol, shapes, traces, out_plan = [], [], [], None
    stats = {"crash_points": 0, "delivered": 0, "swallowed": 0, "probes": 0, "line_events_of_victim": n}
    faults = {}
    for k, kind in resolve(plan["points"], n, after, lines, stlines):
        r = core.in_child(crash_run, plan, k, kind, timeout=90.0)
        stats["crash_points"] += 1
        if r["fired"]:
            stats["delivered"] += 1
            faults[kind] = faults.get(kind, 0) + 1
        if not r["raised"]:
            stats["swallowed"] += bool(r["fired"])
            d = differ_loose(plan["victim"], r["got"], vwant)
            if d:
                viol.append({"class": "wrong-result-of-cut-call", "msg": f"{common.show(plan['victim'])} cut at {r['fired']} returned: {d}"})
        if r["hang"]:
            viol.append({"class": "deadlock", "msg": f"a later call in another thread never returned after {common.show(plan['victim'])} was cut at {r['fired']}"})
        for op, g, w in zip(plan["probes"], r["probes"], want):
            stats["probes"] += 1
            v = common.judge(op, g, w, f"after {kind} at {r['fired']} in {common.show(plan['victim'])}:")
            if v:
                viol.append(v)
        shapes.append(common.digest(plan["victim"], plan["warm"], r["fired"], kind))
        traces.append(common.digest(k, kind, r["fired"], r["got"], r["probes"]))
        if viol:
            out_plan = {**plan, "points": [["at", k, kind]]}
            break
    rep = {"violations": viol, "stats": stats, "faults": faults, "shape": shapes or ["none"], "nontrivial": stats["delivered"] > 0,
           "trace": common.digest(plan["victim"], traces)}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def differ_loose(op, got, want):
    """A swallowed failure may cost accuracy, not correctness."""
    if "e" in want or op["k"] == "fit":
        return ops.differ(op, got, want) if "e" not in want else None
    from canon import same
    return same(got["r"], want["r"], 1e-4, 1e-6) if op["m"] != "rvs" else same(got["r"], want["r"], 1e-6, 1e-6)


def shrink(plan):
    for w in core.drop_each(plan["warm"]):
        yield {**plan, "warm": w}
    for pr in core.drop_each(plan["probes"]):
        yield {**plan, "probes": pr}
    if plan["thread"]:
        yield {**plan, "thread": False}
    if len(plan["points"]) == 1 and plan["points"][0][0] == "at":
        _, k, kind = plan["points"][0]
        for k2 in (k // 2, k - 10, k - 1):
            if k2 >= 1:
                yield {**plan, "points": [["at", k2, kind]]}
