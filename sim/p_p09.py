"""P09: Monte Carlo tests are reproducible and isolated."""
import core, ops, common

ID = "P09"
LEVEL = "exploration"
RULE = ("one evaluation = several sequences of simulation-based test calls (integer seeds, seed sequences, bit generators, generators) interleaved with "
        "other library calls, failures, exceptions inside such a call, or threads in one forked process; each sequence is compared with itself alone in a "
        "pristine process, with a fingerprint of every other random stream around each call; non-trivial = at least two calls and one other event; "
        "distinct by hash of the interleaving and results")
SHAPE = "distinct interleavings of test calls and other events"
REAL = ["pycircstat2.hypothesis and everything it calls"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers"]
ASSUME = ["results are compared to 1e-9 relative"]
RUNS = {"quick": 900, "thorough": 30000}
TIMEOUT = 240.0


def gen_session(rng):
    op = ops.gen_mc(rng)
    op["kw"].pop("seed")
    for k in ("B", "n_simulation"):
        if k in op["kw"]:
            op["kw"][k] = rng.choice([1, 2, 9, 19, 40, 99])
    s = rng.choice([0, 1, 7, 2046, rng.randrange(1 << 31)])
    src = rng.choice([s, s, s, {"$g": s}, {"$g": s}, {"$bg": s}, {"$ss": s}, {"$l": [s % 97, 3]}, "default"])
    return {"op": op, "src": src, "n": rng.choice([1, 2, 2, 3])}


def noise(rng):
    u = rng.random()
    if u < 0.3:
        return ops.gen_mc(rng)
    if u < 0.55:
        return ops.gen_fn(rng)
    if u < 0.7:
        return ops.gen_bad_fn(rng)
    d = rng.choice(["vonmises", "vonmises", "cardioid", "wrapnorm", "circularuniform"])
    if u < 0.85:
        return ops.gen_rvs(rng, d, seed="none" if rng.random() < 0.5 else "?")
    return ops.gen_eval(rng, d)


def gen(rng, tier, i):
    S = [gen_session(rng) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.4:      # the same call with another seed, or the same generator behind two callers
        S.append({**S[0], "src": rng.choice([S[0]["src"], 5])})
    mode = rng.choice(["history", "history", "history", "threads", "threads"])
    plan = {"mode": mode, "S": S, "conf": rng.randrange(1 << 30)}
    if mode == "threads":
        while len(plan["S"]) < 2:
            plan["S"].append(gen_session(rng))
        for s in plan["S"]:
            for k in ("B", "n_simulation"):
                if k in s["op"]["kw"]:
                    s["op"]["kw"][k] = min(19, s["op"]["kw"][k])
        plan["trials"] = common.gen_trials(rng, 2)
        return plan
    order = [k for k, s in enumerate(S) for _ in range(s["n"])]
    rng.shuffle(order)
    ev = []
    for k in order:
        while rng.random() < 0.55:
            if rng.random() < 0.65:
                ev.append(["noise", noise(rng)])
            else:
                ev.append(["crash", rng.randrange(len(S)), rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp"])])
        ev.append(["call", k])
    plan["ev"] = ev
    return plan


class Session:
    def __init__(self, s):
        self.s = s
        self.src = None if s["src"] == "default" else s["src"] if isinstance(s["src"], int) else ops.dec(s["src"])

    def thunk(self, src=None):
        op = self.s["op"]
        a = [ops.dec(v) for v in op["a"]]
        kw = {k: ops.dec(v) for k, v in op["kw"].items()}
        if self.s["src"] != "default":
            kw["seed"] = self.src if src is None else src
        return lambda: ops.resolve(op["n"])(*a, **kw)

    def hash(self):
        import numpy as np
        g = self.src
        if isinstance(g, np.random.Generator):
            return common.stream_hash(g)
        if isinstance(g, np.random.BitGenerator):
            return common.digest(repr(g.state))
        if isinstance(g, np.random.SeedSequence):
            return common.digest(repr(g.state))
        return repr(g)


def alone(s):
    import numpy as np
    ops.quiet()
    np.random.seed(11)
    x = Session(s)
    outs, adv = [], []
    for _ in range(s["n"]):
        h = x.hash()
        outs.append(ops.call(x.thunk()))
        adv.append(h != x.hash())
    eq = []
    if isinstance(s["src"], int):
        for e in ({"$ss": s["src"]}, {"$g": s["src"]}, {"$l": [s["src"]]}, {"$bg": s["src"]}):
            eq.append(ops.call(x.thunk(ops.dec(e))))
    return outs, adv, eq


def history(plan):
    import simsched
    ops.quiet()
    common.configure_streams(plan["conf"])
    S = [Session(s) for s in plan["S"]]
    outs = [[] for _ in S]
    left = [s["n"] for s in plan["S"]]
    viol, n = [], {"noise": 0, "crash": 0, "calls": 0, "delivered": 0}
    for e in plan["ev"]:
        if e[0] == "noise":
            common.play(e[1])
            n["noise"] += 1
            continue
        k = e[1]
        if k >= len(S):
            continue
        before = common.global_streams()
        others = [x.hash() for x in S]
        if e[0] == "crash":
            n["crash"] += 1
            victim = Session(plan["S"][k])      # its own source: a cut call may leave its generator anywhere
            t = victim.thunk()
            cr = common.cutter(t, e[2], 3.3, e[3])
            try:
                with cr:
                    ops.call(t)
            except BaseException as x:
                if not simsched.is_injected(x):
                    raise
            n["delivered"] += cr.fired is not None
            who, k = f"a call cut at {cr.fired}", None
        else:
            if not left[k]:
                continue
            left[k] -= 1
            outs[k].append(ops.call(S[k].thunk()))
            n["calls"] += 1
            who = "a call"
        d = common.stream_diff(before, common.global_streams())
        if d:
            viol.append({"class": "other-stream-touched", "msg": f"{who} {common.show(plan['S'][e[1]])} changed: {', '.join(d[:4])}"})
            break
        for j, x in enumerate(S):
            if j != k and others[j] != x.hash():
                viol.append({"class": "other-stream-touched", "msg": f"{who} {common.show(plan['S'][e[1]])} advanced another caller's generator"})
    return outs, viol, n


def threaded(plan, trial):
    ops.quiet()
    common.configure_streams(plan["conf"])
    S = [Session(s) for s in plan["S"]]
    before = common.global_streams()
    progs = [[(lambda x: (lambda: ops.call(x.thunk())))(x) for _ in range(s["n"])] for x, s in zip(S, plan["S"])]
    outs, sim, status = common.run_threads(progs, trial, plan.get("schedule"))
    d = common.stream_diff(before, common.global_streams())
    return outs, d, sim.compact_slices(), sim.switches, status, [None if e is None else repr(e) for e in sim.errors]


def execute(plan):
    want, viol = [], []
    for s in plan["S"]:
        try:
            w, adv, eq = core.in_child(alone, s, timeout=60)
        except core.Hang:
            return common.empty_report("oracle_did_not_finish")
        want.append(w)
        op = {**s["op"], "kw": {**s["op"]["kw"], "seed": s["src"]}}
        if isinstance(s["src"], dict) and ("$g" in s["src"] or "$bg" in s["src"]):
            one = 1 in (s["op"]["kw"].get("n_simulation"), s["op"]["kw"].get("B"))      # a single simulation may mean the asymptotic p-value
            if not one and any("r" in o and not a for o, a in zip(w, adv)):
                viol.append({"class": "stream-not-advanced", "msg": f"{common.show(op)}: the generator passed as seed was not advanced"})
        else:
            for o in w[1:]:
                if ops.differ(op, o, w[0]):
                    viol.append({"class": "not-reproducible", "msg": f"{common.show(op)}: repeated with the same seed: {ops.differ(op, o, w[0])}"})
        for o in eq:
            d = ops.differ(op, o, w[0])
            if d:
                viol.append({"class": "seed-forms-differ", "msg": f"{common.show(op)}: equivalent seeds disagree: {d}"})
                break
    stats, faults, shapes, traces, out_plan = {"sessions": len(want)}, {}, [], [], None

    def compare(outs):
        for s, g, w in zip(plan["S"], outs, want):
            for a, b in zip(g, w):
                if a is not None:
                    v = common.judge({**s["op"], "kw": {**s["op"]["kw"], "seed": s["src"]}}, a, b, "seeded call")
                    if v:
                        viol.append(v)
    if plan["mode"] == "history":
        outs, v, n = core.in_child(history, plan, timeout=120.0)
        viol += v
        compare(outs)
        stats.update(n)
        faults["exception_in_call"] = n["delivered"]
        shapes.append(common.digest([e[:2] for e in plan["ev"]], plan["S"]))
        traces.append(common.digest(outs))
        nt = n["calls"] >= 1 and len(plan["ev"]) > 1
    else:
        nt = False
        for trial in plan["trials"]:
            outs, d, slices, sw, status, errs = core.in_child(threaded, plan, trial, timeout=120.0)
            compare(outs)
            if d:
                viol.append({"class": "other-stream-touched", "msg": f"concurrent seeded calls changed: {', '.join(d[:4])}"})
            if status == "hang":
                viol.append({"class": "deadlock", "msg": "seeded calls stopped making progress"})
            viol += [{"class": "raise", "msg": e} for e in errs if e]
            stats["switches"] = stats.get("switches", 0) + sw
            stats["calls"] = stats.get("calls", 0) + sum(map(len, outs))
            faults["preemption"] = faults.get("preemption", 0) + sw
            shapes.append(common.digest(plan["S"], slices))
            traces.append(common.digest(outs, slices))
            nt = nt or sw >= 2
            if viol:
                out_plan = {**plan, "trials": [trial], "schedule": slices}
                break
    rep = {"violations": viol, "stats": stats, "faults": faults, "shape": shapes, "nontrivial": nt, "trace": common.digest(traces, plan["S"])}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan["mode"] == "history":
        for ev in core.drop_each(plan["ev"]):
            yield {**plan, "ev": ev}
        for i, s in enumerate(plan["S"]):
            if s["n"] > 1:
                yield {**plan, "S": plan["S"][:i] + [{**s, "n": s["n"] - 1}] + plan["S"][i + 1:]}
        if len(plan["S"]) > 1 and not any(e[0] != "noise" and e[1] == len(plan["S"]) - 1 for e in plan["ev"]):
            yield {**plan, "S": plan["S"][:-1]}
    elif len(plan["S"]) > 2:
        for i in range(len(plan["S"])):
            yield {k: v for k, v in {**plan, "S": plan["S"][:i] + plan["S"][i + 1:]}.items() if k != "schedule"}
