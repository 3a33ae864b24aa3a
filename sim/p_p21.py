"""P21: unseeded draws follow the object's configured random state."""
import core, ops, common

ID = "P21"
LEVEL = "exploration"
RULE = ("one evaluation = one or two distribution objects (shared or frozen) whose random state is set to a seed, generator or random state, whose unseeded draws are interleaved with "
        "evaluations, seeded draws, rejected or interrupted calls on the same object, unseeded draws and re-configurations of other objects, or run while other threads use other "
        "objects, in one forked process; the sequence of unseeded draws is compared with the same draws alone in a pristine process, then the state is set again and the sequence "
        "must repeat; non-trivial = at least two unseeded draws and one other event; distinct by hash of the event sequence and schedule")
SHAPE = "distinct interleavings"
REAL = ["pycircstat2.distributions (samplers, frozen distributions), scipy's random-state handling"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers"]
ASSUME = ["an interrupted unseeded draw may have consumed any amount of its own stream, so it ends a compared sequence"]
RUNS = {"quick": 1200, "thorough": 40000}
TIMEOUT = 200.0


def gen_obj(rng):
    d = rng.choice(ops.FAMS if rng.random() < 0.5 else ["vonmises", "wrapcauchy", "wrapnorm", "cardioid", "circularuniform", "triangular", "cartwright"])
    s = rng.choice([0, 7, rng.randrange(1 << 30)])
    return {"d": d, "p": ops.gen_params(rng, d), "frozen": rng.random() < 0.5, "seed": rng.choice([s, s, {"$g": s}, {"$rs": s}])}


def gen_draw(rng, o):
    return {"size": rng.choice([None, 1, 3, 4, [2, 2]]), "p": o["p"] if o["frozen"] or rng.random() < 0.6 else ops.gen_params(rng, o["d"])}


def noise(rng, objs, foreign_only=False):
    o = rng.choice(objs)
    u = rng.random()
    if foreign_only:
        d = rng.choice([f for f in ops.FAMS if f not in [x["d"] for x in objs]])
        return rng.choice([lambda: ops.gen_eval(rng, d), lambda: ops.gen_rvs(rng, d), lambda: ops.gen_rvs(rng, d, seed="none")])()
    if u < 0.3:
        return ops.gen_eval(rng, o["d"], o["p"])
    if u < 0.6:
        op = ops.gen_rvs(rng, o["d"], o["p"])
        return op if op["seed"] is not None else {**op, "seed": 3}
    if u < 0.75:
        op = ops.gen_bad(rng, o["d"])
        return op if op["m" if "m" in op else "k"] != "rvs" or op.get("seed") not in (None, "none") else ops.gen_eval(rng, o["d"])
    if u < 0.9:
        d = rng.choice([f for f in ops.FAMS if f not in [x["d"] for x in objs]])
        return ops.gen_rvs(rng, d, seed="none")
    return rng.choice([ops.gen_mc, ops.gen_fn])(rng)


def gen(rng, tier, i):
    objs = [gen_obj(rng)]
    if rng.random() < 0.6:
        o = gen_obj(rng)
        if rng.random() < 0.5:
            o = {**o, "d": objs[0]["d"], "p": objs[0]["p"], "frozen": True, "seed": rng.choice([o["seed"], objs[0]["seed"]])}
        if not (o["d"] == objs[0]["d"] and not o["frozen"] and not objs[0]["frozen"]):
            objs.append(o)
    k = rng.choice([2, 3, 4])
    plan = {"objs": objs, "conf": rng.randrange(1 << 30)}
    if rng.random() < 0.25:
        plan["draws"] = [[gen_draw(rng, o) for _ in range(k)] for o in objs]
        plan["threads"] = [[noise(rng, objs, True) for _ in range(2)] for _ in range(rng.choice([1, 2]))]
        plan["trials"] = common.gen_trials(rng, 2)
        return plan
    plan["draws"] = [[gen_draw(rng, o) for _ in range(k)] for o in objs]
    order = [j for j in range(len(objs)) for _ in range(k)]
    ev = []
    for rep in range(2):
        rng.shuffle(order)
        todo = [0] * len(objs)
        start = list(range(len(objs)))
        rng.shuffle(start)
        ev += [["set", j] for j in start]
        for j in order:
            while rng.random() < 0.35:
                if rng.random() < 0.72:
                    ev.append(["noise", noise(rng, objs)])
                else:
                    o = rng.choice(objs)
                    c = rng.choice([ops.gen_eval(rng, o["d"], o["p"]), {**ops.gen_rvs(rng, o["d"], o["p"], seed=rng.randrange(1000))}])
                    ev.append(["cut", c, rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp"])])
            ev.append(["draw", j, todo[j]])
            todo[j] += 1
            if rng.random() < 0.1:
                ev.append(["freeze", j])
    plan["ev"] = ev
    return plan


# --------------------------------------------------------------------------
def make(o):
    import pycircstat2.distributions as D
    d = getattr(D, o["d"])
    return d(*[ops.dec(v) for v in o["p"]]) if o["frozen"] else d


def draw(x, o, dr):
    size = tuple(dr["size"]) if isinstance(dr["size"], list) else dr["size"]
    if o["frozen"]:
        return ops.call(lambda: x.rvs(size=size))
    return ops.call(lambda: x.rvs(**dict(zip(ops.SHAPES[o["d"]], [ops.dec(v) for v in dr["p"]])), size=size))


def alone(o, draws):
    ops.quiet()
    x = make(o)
    x.random_state = ops.dec(o["seed"])
    return [draw(x, o, dr) for dr in draws]


def on_object(objs, op):
    """A call on the object itself where it is a frozen one."""
    for x, o in objs:
        if o["frozen"] and op.get("k") == "dist" and op["d"] == o["d"] and op["p"] == o["p"]:
            if op["m"] == "rvs":
                size = op.get("size")
                return lambda: x.rvs(size=tuple(size) if isinstance(size, list) else size, random_state=ops.dec(op["seed"]))
            return lambda: getattr(x, op["m"])(*([ops.shape_x(op["x"], op["form"])] if "x" in op else []))
    return None


def history(plan):
    import simsched
    ops.quiet()
    common.configure_streams(plan["conf"])
    objs = [(make(o), o) for o in plan["objs"]]
    got, n = [[] for _ in objs], {"draws": 0, "noise": 0, "delivered": 0, "sets": 0}
    rounds = []
    for e in plan["ev"]:
        if e[0] == "set":
            x, o = objs[e[1]]
            x.random_state = ops.dec(o["seed"])
            if got[e[1]]:
                rounds.append((e[1], got[e[1]]))
                got[e[1]] = []
            n["sets"] += 1
        elif e[0] == "draw":
            x, o = objs[e[1]]
            got[e[1]].append((e[2], draw(x, o, plan["draws"][e[1]][e[2]])))
            n["draws"] += 1
        elif e[0] == "freeze":
            x, o = objs[e[1]]
            if not o["frozen"]:
                y = x(*[ops.dec(v) for v in o["p"]])
                ops.call(lambda: y.rvs(size=2))
                n["noise"] += 1
        elif e[0] == "noise":
            t = on_object(objs, e[1]) if e[1].get("seed", 0) not in (None, "none") else None
            if t is not None:
                ops.call(t)
            else:
                common.play(e[1])
            n["noise"] += 1
        else:
            t = on_object(objs, e[1]) or ops.prepare_safe(e[1])
            cr = common.cutter(t, e[2], 2.4, e[3], repo_only=False)
            try:
                with cr:
                    ops.call(t)
            except BaseException as x:
                if not simsched.is_injected(x):
                    raise
            n["delivered"] += cr.fired is not None
    rounds += [(j, g) for j, g in enumerate(got)]
    return rounds, n


def threaded(plan, trial):
    ops.quiet()
    common.configure_streams(plan["conf"])
    objs = [(make(o), o) for o in plan["objs"]]
    for x, o in objs:
        x.random_state = ops.dec(o["seed"])
    progs = [[(lambda x, o, dr: (lambda: draw(x, o, dr)))(x, o, dr) for dr in plan["draws"][j]] for j, (x, o) in enumerate(objs)]
    prep = [[ops.prepare_safe(op) for op in t] for t in plan["threads"]]
    progs += [[(lambda th: (lambda: ops.call(th)))(th) for th in t] for t in prep]
    outs, sim, status = common.run_threads(progs, trial, plan.get("schedule"))
    return outs[:len(objs)], sim.compact_slices(), sim.switches, status


def execute(plan):
    want = [core.in_child(alone, o, plan["draws"][j], timeout=90.0) for j, o in enumerate(plan["objs"])]
    viol, stats, faults, shapes, traces, out_plan = [], {}, {}, [], [], None

    def compare(j, seq, when):
        o = plan["objs"][j]
        for k, g in seq:
            if g is None:
                continue
            d = ops.differ({"k": "obj"}, g, want[j][k])
            if d:
                viol.append({"class": "sequence-changed", "msg": f"{'frozen ' if o['frozen'] else ''}{o['d']}{o['p']} with random state {o['seed']}: unseeded draw {k} {when}: {d}"})
                return
    for j, w in enumerate(want):
        for a, b in zip(w, w[1:]):
            if "r" in a and "r" in b and a["r"] == b["r"] and isinstance(a["r"], list):
                viol.append({"class": "repeated-draw", "msg": f"{plan['objs'][j]}: consecutive unseeded draws are identical: {a['r']}"})
    if "threads" not in plan:
        rounds, n = core.in_child(history, plan, timeout=120.0)
        for j, seq in rounds:
            compare(j, seq, "in a history")
        stats.update(n)
        faults["exception_in_call"] = n["delivered"]
        shapes.append(common.digest(plan["objs"], plan["ev"]))
        traces.append(common.digest(rounds))
        nt = n["draws"] >= 2 and n["noise"] + n["delivered"] + len(plan["objs"]) > 1
    else:
        nt = False
        for trial in plan["trials"]:
            outs, slices, sw, status = core.in_child(threaded, plan, trial, timeout=120.0)
            for j, o in enumerate(outs):
                compare(j, list(enumerate(o)), "while other threads draw from other objects")
            if status == "hang":
                viol.append({"class": "deadlock", "msg": str(plan["objs"])})
            stats["draws"] = stats.get("draws", 0) + sum(map(len, outs))
            faults["preemption"] = faults.get("preemption", 0) + sw
            shapes.append(common.digest(plan["objs"], plan["threads"], slices))
            traces.append(common.digest(outs, slices))
            nt = nt or sw >= 2
            if viol:
                out_plan = {**plan, "trials": [trial], "schedule": slices}
                break
    rep = {"violations": viol[:4], "stats": stats, "faults": faults, "shape": shapes, "nontrivial": nt, "trace": common.digest(traces, plan["objs"])}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if "ev" in plan:
        for j in range(len(plan["ev"])):
            if plan["ev"][j][0] in ("noise", "cut", "freeze"):
                yield {**plan, "ev": plan["ev"][:j] + plan["ev"][j + 1:]}
