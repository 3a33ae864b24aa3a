"""P04: seeded draws are reproducible and isolated."""
import core, ops, common

ID = "P04"
LEVEL = "exploration"
RULE = ("one evaluation = several seeded draw streams (integer seeds, generators, RandomStates; shared and frozen objects) interleaved with "
        "other calls, failures, interruptions or threads in one forked process, each stream compared with the same stream alone in a pristine "
        "process, with a fingerprint of every other random stream around each draw; non-trivial = at least two draws and one other event; "
        "distinct by hash of the interleaving and results")
SHAPE = "distinct interleavings of draws and other events"
REAL = ["pycircstat2.distributions and everything it calls (scipy, numpy generators)"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers"]
ASSUME = ["samples are compared to 1e-9 relative"]
RUNS = {"quick": 640, "thorough": 20000}
TIMEOUT = 240.0


def gen_stream(rng, d, p):
    u = rng.random()
    s = rng.choice([0, 1, 7, 42, 2046, rng.randrange(1 << 31)])
    seed = s if u < 0.4 else {"$g": s} if u < 0.85 else {"$rs": s}
    sizes = [rng.choice([None, 1, 2, 5, [2, 2], 3, 9, 9, 0 if rng.random() < 0.2 else 4]) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.15 and d not in ops.SLOW:
        sizes.append(200)
    return {"d": d, "p": p, "seed": seed, "sizes": sizes, "sty": rng.choice(["kw", "fr", "frkw", "pos", "sh", "sh"])}


def noise(rng, fams, params):
    d = rng.choice(fams)
    p = rng.choice(params[d])
    u = rng.random()
    if u < 0.35:
        return ops.gen_eval(rng, d, p)
    if u < 0.6:
        return ops.gen_rvs(rng, d, p, seed="none")
    if u < 0.75:
        return ops.gen_rvs(rng, d, p)
    if u < 0.9:
        return ops.gen_bad(rng, d)
    if d in ("cardioid", "cartwright", "wrapcauchy", "vonmises", "wrapnorm"):
        return ops.gen_fit(rng, d, n=8)
    return ops.gen_eval(rng, d, p)


def gen(rng, tier, i):
    fams = [ops.FAMS[i % len(ops.FAMS)]]
    if rng.random() < 0.4:
        fams.append(rng.choice(ops.FAMS))
    params = {d: [ops.gen_params(rng, d, 0.15) for _ in range(2)] for d in fams}
    for d in fams:
        params[d].append(ops.near_params(rng, d, params[d][0]))
    mk = lambda: (lambda d: gen_stream(rng, d, rng.choice(params[d])))(rng.choice(fams))
    streams = [mk() for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.3:
        streams.append(dict(streams[0]))
    mode = rng.choice(["history", "history", "history", "threads", "threads"])
    plan = {"mode": mode, "streams": streams, "conf": rng.randrange(1 << 30)}
    if mode == "threads":
        while len(plan["streams"]) < 2:
            plan["streams"].append(mk())
        plan["trials"] = common.gen_trials(rng, 2)
        return plan
    order = [k for k, s in enumerate(streams) for _ in s["sizes"]]
    rng.shuffle(order)
    ev = []
    for k in order:
        while rng.random() < 0.5:
            if rng.random() < 0.75:
                ev.append(["noise", noise(rng, fams, params)])
            else:
                d = rng.choice(fams)
                ev.append(["crash", ops.gen_rvs(rng, d, rng.choice(params[d]), seed=rng.choice([s["seed"] for s in streams if isinstance(s["seed"], int)] or [3])),
                           rng.random(), rng.choice(["interrupt", "memory", "runtime"])])
        ev.append(["draw", k])
    plan["ev"] = ev
    return plan


def rop(s, size):
    return {"k": "dist", "d": s["d"], "m": "rvs", "p": s["p"], "size": size, "seed": "none", "sty": s["sty"]}


class Stream:
    def __init__(self, s):
        self.s, self.i = s, 0
        self.src = s["seed"] if isinstance(s["seed"], int) else ops.dec(s["seed"])

    def draw(self):
        size = self.s["sizes"][self.i]
        self.i += 1
        op = rop(self.s, size)

        def thunk():
            get, a, kw = ops.bound(op)
            kw = dict(kw, random_state=self.src)
            return get()(*a, **kw)
        return op, ops.call(thunk)


def alone(s):
    ops.quiet()
    ops.share([rop(s, None)])
    st = Stream(s)
    return [st.draw()[1] for _ in s["sizes"]]


def fresh_equiv(s):
    """The first draw of an integer seed, from fresh numpy streams made from it."""
    ops.quiet()
    out = []
    for seed in ({"$g": s["seed"]}, {"$rs": s["seed"]}):
        out.append(Stream({**s, "seed": seed}).draw()[1])
    return out


def is_flat(s):
    return s["d"] == "circularuniform"


def check_alone(s, want):
    """What must hold of a stream on its own."""
    v = []
    ok = [w for w in want if "r" in w]
    if isinstance(s["seed"], int):
        if ok:
            eq = core.in_child(fresh_equiv, s, timeout=60)
            op = rop(s, s["sizes"][0])
            if "r" in want[0] and all(ops.differ(op, want[0], e) for e in eq):
                v.append({"class": "integer-seed", "msg": f"{common.show(s)}: not the samples of a fresh stream made from the integer"})
    else:
        for a in range(len(want)):
            for b in range(a):
                if "r" in want[a] and want[a].get("r") == want[b].get("r") and s["sizes"][a] == s["sizes"][b] and s["sizes"][a] != 0:
                    v.append({"class": "stream-not-advanced", "msg": f"{common.show(s)}: draws {b} and {a} from one generator are identical"})
    return v


def history(plan):
    import simsched
    ops.quiet()
    common.configure_streams(plan["conf"])
    ops.share([rop(s, None) for s in plan["streams"]])
    st = [Stream(s) for s in plan["streams"]]
    outs = [[] for _ in st]
    viol, n = [], {"noise": 0, "crash": 0, "draws": 0, "delivered": 0}
    frozen = {k: v for k, v in ops._SHARED.items()}
    for e in plan["ev"]:
        if e[0] == "noise":
            common.play(e[1])
            n["noise"] += 1
            continue
        before = common.global_streams(frozen)
        others = [None if isinstance(s.src, int) else common.stream_hash(s.src) for s in st]
        who = "a draw"
        if e[0] == "crash":
            n["crash"] += 1
            try:
                thunk, _ = ops.prepare(e[1])
                cr = common.cutter(thunk, e[2], 2.6, e[3])
                try:
                    with cr:
                        ops.call(thunk)
                except BaseException as x:
                    if not simsched.is_injected(x):
                        raise
                n["delivered"] += cr.fired is not None
                who = f"a draw cut at {cr.fired}"
            except (TypeError, ValueError):
                pass
            k = None
        else:
            k = e[1]
            if st[k].i >= len(st[k].s["sizes"]):
                continue
            op, out = st[k].draw()
            outs[k].append(out)
            n["draws"] += 1
        d = common.stream_diff(before, common.global_streams(frozen))
        if d:
            viol.append({"class": "other-stream-touched", "msg": f"{who} {common.show(e[1] if k is None else plan['streams'][k])} changed: {', '.join(d[:4])}"})
            break
        for j, s in enumerate(st):
            if j != k and others[j] is not None and others[j] != common.stream_hash(s.src):
                viol.append({"class": "other-stream-touched", "msg": f"{who} advanced another caller's generator"})
    return outs, viol, n


def threaded(plan, trial):
    ops.quiet()
    common.configure_streams(plan["conf"])
    ops.share([rop(s, None) for s in plan["streams"]])
    st = [Stream(s) for s in plan["streams"]]
    before = common.global_streams(ops._SHARED)
    progs = [[(lambda x: (lambda: x.draw()[1]))(s) for _ in s.s["sizes"]] for s in st]
    outs, sim, status = common.run_threads(progs, trial, plan.get("schedule"))
    d = common.stream_diff(before, common.global_streams(ops._SHARED))
    return outs, d, sim.compact_slices(), sim.switches, status, [None if e is None else repr(e) for e in sim.errors]


def execute(plan):
    want, viol = [], []
    for s in plan["streams"]:
        try:
            w = core.in_child(alone, s, timeout=60)
        except core.Hang:
            return common.empty_report("oracle_did_not_finish")
        want.append(w)
        viol += check_alone(s, w)
    stats, faults, shapes, traces, out_plan = {"streams": len(want)}, {}, [], [], None

    def compare(outs):
        for s, g, w in zip(plan["streams"], outs, want):
            for size, a, b in zip(s["sizes"], g, w):
                if a is None:
                    continue
                v = common.judge(rop(s, size), a, b, f"seed {s['seed']}")
                if v:
                    viol.append(v)
    if plan["mode"] == "history":
        outs, v, n = core.in_child(history, plan, timeout=120.0)
        viol += v
        compare(outs)
        stats.update(n)
        faults["exception_in_draw"] = n["delivered"]
        shapes.append(common.digest([e[:2] for e in plan["ev"]], plan["streams"]))
        traces.append(common.digest(outs))
        nt = n["draws"] >= 1 and len(plan["ev"]) > 1
    else:
        nt = False
        for trial in plan["trials"]:
            outs, d, slices, sw, status, errs = core.in_child(threaded, plan, trial, timeout=120.0)
            compare(outs)
            if d:
                viol.append({"class": "other-stream-touched", "msg": f"concurrent seeded draws changed: {', '.join(d[:4])}"})
            if status == "hang":
                viol.append({"class": "deadlock", "msg": "seeded draws stopped making progress"})
            viol += [{"class": "raise", "msg": e} for e in errs if e]
            stats["switches"] = stats.get("switches", 0) + sw
            stats["draws"] = stats.get("draws", 0) + sum(map(len, outs))
            faults["preemption"] = faults.get("preemption", 0) + sw
            shapes.append(common.digest(plan["streams"], slices))
            traces.append(common.digest(outs, slices))
            nt = nt or sw >= 2
            if viol:
                out_plan = {**plan, "trials": [trial], "schedule": slices}
                break
    rep = {"violations": viol, "stats": stats, "faults": faults, "shape": shapes, "nontrivial": nt, "trace": common.digest(traces, plan["streams"])}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan["mode"] == "history":
        for ev in core.drop_each(plan["ev"]):
            yield {**plan, "ev": ev}
    elif len(plan["streams"]) > 2:
        for i in range(len(plan["streams"])):
            yield {k: v for k, v in {**plan, "streams": plan["streams"][:i] + plan["streams"][i + 1:]}.items() if k != "schedule"}
