"""P02: answers of the shared distribution objects do not depend on history."""
import core, ops, common

ID = "P02"
LEVEL = "exploration"
RULE = ("one evaluation = one seeded call history on the shared distribution objects replayed in one forked process, followed by "
        "probe calls whose answers are compared with the same calls in pristine processes; non-trivial = at least one earlier call "
        "touched the family of a probe; distinct by hash of the history and its results")
SHAPE = "distinct histories"
REAL = ["pycircstat2.distributions and everything it calls"]
STUB = ["none (the history generator plays the callers, including callers that overwrite arrays they passed or were given)"]
ASSUME = ["answers are compared to 1e-9 relative / 1e-10 absolute; fits by their log-likelihood to 1e-4"]
RUNS = {"quick": 1100, "thorough": 30000}
TIMEOUT = 200.0
FITS = ["cardioid", "cartwright", "wrapcauchy", "vonmises", "vonmises_flattopped", "wrapnorm", "katojones"]


def call(rng, d, p):
    u = rng.random()
    if u < 0.6:
        op = ops.gen_eval(rng, d, p)
    elif u < 0.85:
        op = ops.gen_rvs(rng, d, p)
    elif u < 0.97 or d not in FITS:
        op = ops.gen_stat(rng, d, p)
        if d in ops.SLOW or d == "inverse_batschelet":
            op["m"] = rng.choice(["support", "mean", "r", "median", "trig_moment"]) if d != "jonespewsey_sineskewed" else "support"
    else:
        return ops.gen_fit(rng, d, n=8)
    if op["sty"] in ("fr", "frkw") and rng.random() < 0.4 and op["m"] != "rvs":
        op["sty"] = "sh"
    return op


def gen(rng, tier, i):
    fams = [ops.FAMS[i % len(ops.FAMS)]]
    if rng.random() < 0.35:
        fams.append(rng.choice(ops.FAMS))
    u = rng.random()
    if u < 0.06 or (tier == "thorough" and u < 0.1):
        return flood(rng, fams[0], tier)
    base = {}
    for d in fams:
        p = ops.gen_params(rng, d, 0.2)
        base[d] = [p]
        for _ in range(rng.choice([1, 2, 4])):
            base[d].append(ops.near_params(rng, d, rng.choice(base[d])))
        if rng.random() < 0.3:
            base[d].append(ops.at_limit(rng, d, p))
    def params(d):
        q = rng.choice(base[d])
        return ops.typed_params(rng, q) if rng.random() < 0.08 else q
    heavy = any(d in ops.SLOW or d == "inverse_batschelet" for d in fams)
    n = rng.choice([1, 2, 3, 5, 8, 14]) if heavy else rng.choice([1, 2, 3, 6, 12, 25, 40])
    hist = []
    for _ in range(n):
        d = rng.choice(fams)
        op = ops.gen_bad(rng, d) if rng.random() < 0.12 else call(rng, d, params(d))
        hist.append({"op": op, "scr": rng.random() < 0.3, "cmp": rng.random() < (0.15 if n > 10 else 0.3)})
    for _ in range(rng.choice([1, 2, 3])):
        d = rng.choice(fams)
        hist.append({"op": call(rng, d, params(d)), "scr": False, "cmp": True})
    return {"hist": hist}


def flood(rng, d, tier):
    """Many parameter sets on one object, then probes at early, late and new ones."""
    n = {"vonmises_flattopped": 300, "inverse_batschelet": 25, "jonespewsey": 120, "jonespewsey_sineskewed": 120, "jonespewsey_asym": 20,
         "wrapstable": 300, "katojones": 300}.get(d, 1500)
    n = rng.choice([n // 8, n // 3, n])
    m = rng.choice(["pdf", "cdf", "pdf", "ppf"])
    probes = [call(rng, d, ["@", rng.choice([0, 1, n // 2, n - 1])]) for _ in range(3)]
    return {"flood": {"d": d, "n": n, "m": m, "seed": rng.randrange(1 << 40)},
            "hist": [{"op": op, "scr": False, "cmp": True} for op in probes]}


def flood_params(f):
    rng = core.rng_for("flood", f["seed"])
    return [ops.gen_params(rng, f["d"]) for _ in range(f["n"])]


def resolve(op, ps):
    if ps and isinstance(op.get("p"), list) and op["p"][:1] == ["@"]:
        return {**op, "p": ps[op["p"][1]]}
    return op


def execute(plan):
    ps = flood_params(plan["flood"]) if plan.get("flood") else None
    hist = [{**h, "op": resolve(h["op"], ps)} for h in plan["hist"]]
    want = [common.oracle(h["op"]) if h["cmp"] else None for h in hist]
    ops.quiet()
    ops.share([h["op"] for h in hist])
    viol, outs = [], []
    nflood = 0
    if ps:
        f = plan["flood"]
        for p in ps:
            op = {"k": "dist", "d": f["d"], "m": f["m"], "p": p, "x": [0.4], "form": "s", "sty": "pos"}
            common.play(op)
            nflood += 1
    for k, h in enumerate(hist):
        got = common.play(h["op"], h["scr"])
        outs.append(got)
        if h["cmp"]:
            v = common.judge(h["op"], got, want[k], f"call {k}")
            if v:
                viol.append(v)
    return {"violations": viol,
            "stats": {"calls": len(hist) + nflood, "compared": sum(h["cmp"] for h in hist), "flood_calls": nflood,
                      "failing_calls": sum("e" in o for o in outs)},
            "faults": {"rejected_call": sum("e" in o for o in outs), "caller_overwrites_array": sum(h["scr"] for h in hist)},
            "shape": common.digest(hist), "nontrivial": len(hist) + nflood > 1, "trace": common.digest(hist, outs)}


def shrink(plan):
    if plan.get("flood"):
        f = plan["flood"]
        ps = flood_params(f)
        yield {"hist": [{**h, "op": resolve(h["op"], ps)} for h in plan["hist"]]}
        n = f["n"]
        for m in (n // 2, n - n // 4, n - 1):
            if 0 < m < n and all(not (h["op"].get("p") or [0])[:1] == ["@"] or h["op"]["p"][1] < m for h in plan["hist"]):
                yield {**plan, "flood": {**f, "n": m}}
    for h in core.drop_each(plan["hist"]):
        yield {**plan, "hist": h}
    for i, h in enumerate(plan["hist"]):
        if h["scr"]:
            yield {**plan, "hist": plan["hist"][:i] + [{**h, "scr": False}] + plan["hist"][i + 1:]}
