"""P14: seeded clustering is reproducible and isolated."""
import core, ops, common

ID = "P14"
LEVEL = "exploration"
RULE = ("one evaluation = several seeded clustering objects whose construction, fits, predictions and criteria are interleaved step by step with each other, "
        "with other library calls, failures, exceptions inside other objects' fits, or run in threads, in one forked process; each object's results are "
        "compared with those of the same steps alone in a pristine process, with a fingerprint of every other random stream around each step; "
        "non-trivial = at least two steps and one other event; distinct by hash of the interleaving and results")
SHAPE = "distinct interleavings of object steps and other events"
REAL = ["pycircstat2.clustering and everything it calls"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers"]
ASSUME = ["results are compared to 1e-9 relative (likelihood-based component fits to 1e-6)"]
RUNS = {"quick": 520, "thorough": 30000}
TIMEOUT = 240.0


def gen_session(rng, small=False):
    u = rng.random()
    cls = rng.choice(["MovM", "MovM", "MoCD", "CircKMeans", "CircHAC"]) if u < (1.0 if small else 0.9) else "MoKJ"
    s = ops.gen_clus(rng, "clustering." + cls, refit=rng.random() < 0.5, n=rng.choice([9, 14]))
    if rng.random() < 0.3:
        s["init"]["random_seed"] = rng.choice([{"$ss": 5}, {"$l": [3, 4]}, 0])
    if cls == "CircHAC" and rng.random() < 0.6:
        s["init"]["n_init_clusters"] = rng.choice([4, 6])
    if small and cls in ("MovM", "MoCD"):
        s["init"]["n_iters"] = 2
    if rng.random() < 0.25:      # a rejected fit in between
        s["do"].insert(1, ["call", "fit", [{"$a": []}], {}])
    return s


def noise(rng):
    u = rng.random()
    if u < 0.3:
        return gen_session(rng, True)
    if u < 0.5:
        d = rng.choice(["vonmises", "katojones", "wrapcauchy", "cardioid", "cartwright", "wrapnorm"])
        return ops.gen_eval(rng, d)
    if u < 0.7:
        return ops.gen_rvs(rng, rng.choice(["vonmises", "wrapcauchy", "wrapnorm"]), seed="none" if rng.random() < 0.5 else "?")
    if u < 0.85:
        return ops.gen_fn(rng)
    return ops.gen_bad_fn(rng)


def gen(rng, tier, i):
    mode = rng.choice(["history", "history", "history", "threads"])
    S = [gen_session(rng, mode == "threads") for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.5:      # a twin with the same seed, and one that differs only in the seed
        S.append(S[0])
    if rng.random() < 0.3:
        S.append({**S[0], "init": {**S[0]["init"], "random_seed": 99}})
    plan = {"mode": mode, "S": S, "conf": rng.randrange(1 << 30)}
    if mode == "threads":
        while len(plan["S"]) < 2:
            plan["S"].append(gen_session(rng, True))
        plan["S"] = plan["S"][:3]
        plan["trials"] = common.gen_trials(rng, 2)
        return plan
    order = [k for k, s in enumerate(S) for _ in range(len(s["do"]) + 1)]
    rng.shuffle(order)
    ev = []
    for k in order:
        while rng.random() < 0.2:
            if rng.random() < 0.7:
                ev.append(["noise", noise(rng)])
            else:
                ev.append(["crash", gen_session(rng, True), rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp"])])
        ev.append(["step", k])
    plan["ev"] = ev
    return plan


class Session:
    """One object, driven step by step: construction, then the listed steps."""

    def __init__(self, s):
        self.s, self.k, self.o = s, 0, None
        self.init = {n: ops.dec(v) for n, v in s["init"].items()}

    def step(self):
        if self.k == 0:
            self.k = 1

            def make():
                self.o = ops.resolve(self.s["c"])(**self.init)
                return None
            return ops.call(make)
        if self.k > len(self.s["do"]) or self.o is None:
            return None
        d = self.s["do"][self.k - 1]
        self.k += 1
        if d[0] == "call":
            a, kw = [ops.dec(x) for x in d[2]], {n: ops.dec(v) for n, v in d[3].items()}
            if d[1] == "fit":
                def fit():
                    getattr(self.o, "fit")(*a, **kw)
                return ops.call(fit)
            return ops.call(lambda: getattr(self.o, d[1])(*a, **kw))
        return ops.call(lambda: getattr(self.o, d[1]))

    def all(self):
        return [self.step() for _ in range(len(self.s["do"]) + 1)]

    def hash(self):
        return common.stream_hash(getattr(self.o, "_rng", None))


def alone(s):
    ops.quiet()
    return Session(s).all()


def history(plan):
    import simsched
    ops.quiet()
    common.configure_streams(plan["conf"])
    S = [Session(s) for s in plan["S"]]
    outs = [[] for _ in S]
    viol, n = [], {"noise": 0, "steps": 0, "delivered": 0}
    for e in plan["ev"]:
        if e[0] == "noise":
            common.play(e[1])
            n["noise"] += 1
            continue
        before, others = common.global_streams(), [x.hash() for x in S]
        k = None
        if e[0] == "crash":
            victim = Session(e[1])
            cr = common.cutter(victim.all, e[2], 3.6, e[3])
            try:
                with cr:
                    victim.all()
            except BaseException as x:
                if not simsched.is_injected(x):
                    raise
            n["delivered"] += cr.fired is not None
            who = f"a cut {e[1]['c']}"
        else:
            k = e[1]
            if k >= len(S):
                continue
            o = S[k].step()
            if o is None:
                continue
            outs[k].append(o)
            n["steps"] += 1
            who = f"step {S[k].k - 1} of {common.show(plan['S'][k])}"
        d = common.stream_diff(before, common.global_streams())
        if d:
            viol.append({"class": "other-stream-touched", "msg": f"{who} changed: {', '.join(d[:4])}"})
            break
        for j, x in enumerate(S):
            if j != k and others[j] != x.hash():
                viol.append({"class": "other-stream-touched", "msg": f"{who} advanced the generator of another object"})
    return outs, viol, n


def threaded(plan, trial):
    ops.quiet()
    common.configure_streams(plan["conf"])
    S = [Session(s) for s in plan["S"]]
    before = common.global_streams()
    progs = [[x.step for _ in range(len(s["do"]) + 1)] for x, s in zip(S, plan["S"])]
    outs, sim, status = common.run_threads(progs, trial, plan.get("schedule"))
    d = common.stream_diff(before, common.global_streams())
    return outs, d, sim.compact_slices(), sim.switches, status, [None if e is None else repr(e) for e in sim.errors]


def execute(plan):
    want, viol, memo = [], [], {}
    for s in plan["S"]:
        key = common.digest(s)
        if key not in memo:
            try:
                memo[key] = core.in_child(alone, s, timeout=60)
            except core.Hang:
                return common.empty_report("oracle_did_not_finish")
        want.append(memo[key])
    stats, faults, shapes, traces, out_plan = {"objects": len(want)}, {}, [], [], None

    def compare(outs):
        for s, g, w in zip(plan["S"], outs, want):
            for j, (a, b) in enumerate(zip(g, w)):
                if a is None or b is None:
                    continue
                d = ops.differ({"k": "obj"}, a, b)
                if d:
                    name = "construction" if j == 0 else s["do"][j - 1][1]
                    viol.append({"class": "raise" if "e" in a and "e" not in b else "not-reproducible", "msg": f"{common.show(s)}: {name} (step {j}): {d}"})
                    break
    if plan["mode"] == "history":
        outs, v, n = core.in_child(history, plan, timeout=120.0)
        viol += v
        compare(outs)
        stats.update(n)
        faults["exception_in_fit"] = n["delivered"]
        shapes.append(common.digest([e[:2] for e in plan["ev"]], plan["S"]))
        traces.append(common.digest(outs))
        nt = n["steps"] >= 2 and (n["noise"] + n["delivered"] > 0 or len(plan["S"]) > 1)
    else:
        nt = False
        for trial in plan["trials"]:
            outs, d, slices, sw, status, errs = core.in_child(threaded, plan, trial, timeout=120.0)
            compare(outs)
            if d:
                viol.append({"class": "other-stream-touched", "msg": f"concurrent fits changed: {', '.join(d[:4])}"})
            if status == "hang":
                viol.append({"class": "deadlock", "msg": "concurrent fits stopped making progress"})
            viol += [{"class": "raise", "msg": e} for e in errs if e]
            stats["switches"] = stats.get("switches", 0) + sw
            faults["preemption"] = faults.get("preemption", 0) + sw
            shapes.append(common.digest(plan["S"], slices))
            traces.append(common.digest(outs, slices))
            nt = nt or sw >= 2
            if viol:
                out_plan = {**plan, "trials": [trial], "schedule": slices}
                break
    rep = {"violations": viol, "stats": stats, "faults": faults, "shape": shapes, "nontrivial": nt, "trace": common.digest(traces, plan["S"])}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan["mode"] == "history":
        for ev in core.drop_each(plan["ev"]):
            yield {**plan, "ev": ev}
    elif len(plan["S"]) > 2:
        for i in range(len(plan["S"])):
            yield {k: v for k, v in {**plan, "S": plan["S"][:i] + plan["S"][i + 1:]}.items() if k != "schedule"}
