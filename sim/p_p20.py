"""P20: analytical functions are re-entrant and history-free."""
import core, ops, common

ID = "P20"
LEVEL = "exploration"
RULE = ("one evaluation = a history of public calls (successful, failing, interrupted, with callers overwriting what they were given back) followed by probe calls to descriptive "
        "statistics, utilities, closed-form tests, correlations and regressions, or several threads making such calls under a seeded schedule, in one forked process; every probe is "
        "compared with the same call as the first one of a pristine process, repeated once, and objects returned earlier are fingerprinted again at the end; non-trivial = at least "
        "one earlier call or one preemption; distinct by hash of history, probes and schedule")
SHAPE = "distinct histories or schedules"
REAL = ["pycircstat2.descriptive, utils, hypothesis, correlation, regression, base"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers"]
ASSUME = ["answers are compared to 1e-9 relative / 1e-10 absolute"]
RUNS = {"quick": 1600, "thorough": 50000}
TIMEOUT = 200.0
NAMES = sorted(ops.FN)
BYMOD = {}
for _n in NAMES:
    BYMOD.setdefault(_n.split(".")[0], []).append(_n)


def probe(rng, name=None):
    if name is None and rng.random() < 0.12:
        return ops.gen_reg(rng)
    if name is None and rng.random() < 0.06:
        return ops.gen_circ(rng)
    return ops.gen_fn(rng, name or rng.choice(BYMOD[rng.choice(["descriptive", "descriptive", "hypothesis", "hypothesis", "utils", "correlation"])]))


def twist(rng, op):
    """A call easily mistaken for op: same shape of arguments, slightly other values or options."""
    import copy
    q = copy.deepcopy(op)
    if op["k"] != "fn":
        return probe(rng)
    u = rng.random()
    if u < 0.5:
        return nudge(rng, op)
    if u < 0.75:
        r = ops.gen_fn(rng, op["n"])
        q["kw"] = {k: (v if isinstance(v, dict) else r["kw"].get(k, v)) for k, v in q["kw"].items()}
        return q
    return ops.gen_fn(rng, op["n"])


STEPS = [1e-8, 1e-7, 1e-6, 1e-4, 0.5, 1.0]


def nudge(rng, op, scalars=True):
    """The same call with one number of one array changed."""
    import copy
    q = copy.deepcopy(op)
    done = [False]

    def walk(v):
        if isinstance(v, dict):
            for k, x in v.items():
                if k == "$a" and isinstance(x, list) and x and not done[0] and all(isinstance(y, (int, float)) for y in x):
                    j = rng.choice([0, -1, rng.randrange(len(x)), len(x) // 2])
                    x[j] = x[j] + rng.choice(STEPS)
                    done[0] = True
                elif k == "$i" and not done[0]:
                    x[rng.randrange(len(x))] += 1
                    done[0] = True
                else:
                    walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk(q["a"])
    if not done[0]:
        walk(q["kw"])
    if not done[0] and scalars:
        spots = [(q["a"], j) for j, v in enumerate(q["a"]) if isinstance(v, float)] + [(q["kw"], k) for k, v in q["kw"].items() if isinstance(v, float)]
        if spots:
            c, j = rng.choice(spots)
            c[j] *= 1 - rng.choice(STEPS[:4])
    return q


def refill(old, new):
    """Write the values of one set of arguments into the arrays of another."""
    import numpy as np
    if isinstance(old, np.ndarray) and old.flags.writeable:
        old[...] = new
    elif isinstance(old, dict):
        for k in old:
            refill(old[k], new[k])
    elif isinstance(old, (list, tuple)):
        for a, b in zip(old, new):
            refill(a, b)


def gen(rng, tier, i):
    if rng.random() < 0.3:
        name = rng.choice(NAMES)
        T = []
        for _ in range(rng.choice([2, 2, 3])):
            ops_ = []
            for _ in range(rng.choice([1, 2])):
                u = rng.random()
                ops_.append(ops.gen_fn(rng, name) if u < 0.6 else probe(rng))
            T.append(ops_)
        if rng.random() < 0.3:
            T[1][0] = T[0][0]
        elif rng.random() < 0.5:
            T[1][0] = twist(rng, T[0][0])
        return {"threads": T, "warm": [probe(rng) for _ in range(rng.choice([0, 0, 1]))], "trials": common.gen_trials(rng, 2)}
    P = [probe(rng, NAMES[i % len(NAMES)])] + [probe(rng) for _ in range(rng.choice([0, 1, 2]))]
    H = []
    for _ in range(rng.choice([1, 2, 4, 8, 14])):
        u = rng.random()
        if u < 0.45:
            H.append(["call", twist(rng, rng.choice(P)), rng.random() < 0.5])
        elif u < 0.6:
            H.append(["call", probe(rng), rng.random() < 0.3])
        elif u < 0.7:
            H.append(["call", ops.gen_bad_fn(rng), False])
        elif u < 0.78:
            H.append(["call", ops.gen_mc(rng), False])
        elif u < 0.86:
            H.append(["call", rng.choice(P), rng.random() < 0.6])
        else:
            H.append(["cut", rng.choice([twist(rng, rng.choice(P)), rng.choice(P)]), rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp", "value"])])
    rng.shuffle(H)
    plan = {"hist": H, "probes": P}
    if rng.random() < 0.5 and P[0]["k"] == "fn":
        plan["inplace"] = [P[0], nudge(rng, P[0], False)]      # the caller reuses its buffers
    return plan


class Raw(ops._Done):
    def __init__(self, v):
        self.v = v


def keep(op):
    """Outcome and the returned object itself."""
    if op.get("np_seed") is not None:
        import numpy as np
        np.random.seed(op["np_seed"])
    try:
        thunk, args = ops.prepare(op)
    except Exception as e:
        return {"e": type(e).__name__, "msg": str(e)[:200]}, None, None
    box = []

    def t():
        v = thunk()
        box.append(v)
        return v
    return ops.call(t), box, args


def history(plan):
    import simsched
    from canon import canon, same
    ops.quiet()
    viol, kept, n = [], [], {"calls": 0, "delivered": 0}
    outs = []

    def remember(op, o, box):
        if box and "r" in o:
            kept.append((op, o["r"], box[0]))
    for e in plan["hist"]:
        n["calls"] += 1
        if e[0] == "cut":
            thunk = ops.prepare_safe(e[1])
            cr = common.cutter(thunk, e[2], 2.6, e[3])
            try:
                with cr:
                    ops.call(thunk)
            except BaseException as x:
                if not simsched.is_injected(x):
                    raise
            n["delivered"] += cr.fired is not None
            continue
        o, box, args = keep(e[1])
        if e[2]:
            for v in box or []:
                common.scribble([v] if not hasattr(v, "__dict__") else list(vars(v).values()))
            common.scribble(list(args[0].values()) if args and isinstance(args[0], dict) else (args or [None])[0])
        else:
            remember(e[1], o, box)
    for op in plan["probes"]:
        o, box, _ = keep(op)
        outs.append(o)
        remember(op, o, box)
        o2, _, _ = keep(op)
        outs.append(o2)
    if plan.get("inplace"):
        try:
            (t1, a1), (_, a2) = ops.prepare(plan["inplace"][0]), ops.prepare(plan["inplace"][1])
            ops.call(t1)
            refill(a1, a2)
            outs.append(ops.call(t1))
        except Exception:
            outs.append(None)
    for op, c0, v in kept:
        d = same(canon(v), c0, 0.0, 0.0)
        if d:
            viol.append({"class": "returned-object-changed", "msg": f"{common.show(op)}: the result changed after later calls: {d}"})
    return viol, outs, n


def execute(plan):
    if "threads" in plan:
        return common.execute_threads(plan)
    want = [common.oracle(op) for op in plan["probes"]]
    if any(w is None for w in want):
        return common.empty_report("oracle_did_not_finish")
    viol, outs, n = core.in_child(history, plan, timeout=120.0)
    for j, op in enumerate(plan["probes"]):
        for k in (0, 1):
            v = common.judge(op, outs[2 * j + k], want[j], "after a history" if k == 0 else "repeated")
            if v:
                viol.append(v)
                break
    if plan.get("inplace") and outs[-1] is not None and "$C" not in str(plan["inplace"]):
        w = common.oracle(plan["inplace"][1])
        v = common.judge(plan["inplace"][1], outs[-1], w, "in the same, refilled buffers")
        if v:
            viol.append(v)
    return {"violations": viol[:4], "stats": n, "faults": {"exception_in_call": n["delivered"]}, "shape": [common.digest(plan)], "nontrivial": n["calls"] > 0,
            "trace": common.digest(outs)}


def shrink(plan):
    if "threads" in plan:
        yield from common.shrink_threads(plan)
        return
    for h in core.drop_each(plan["hist"]):
        yield {**plan, "hist": h}
    for p in core.drop_each(plan["probes"]):
        if p:
            yield {**plan, "probes": p}
