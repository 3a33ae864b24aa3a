"""P11: bootstrap confidence intervals for the mean."""
import math
import core, ops, common

ID = "P11"
LEVEL = "exploration"
RULE = ("one evaluation = one data set under one of: histories of bootstrap intervals, re-seedings, other calls and exceptions inside the resampling loop "
        "(against the same stream alone in a pristine process); rising levels under one stream; rotated data; grouped against repeated data; a Circular object "
        "against the function; the arc against an independent implementation of the resampling; coverage over repeated samples; non-trivial = an interval was "
        "computed; distinct by hash of data, stream and intervals")
SHAPE = "distinct (data, stream, intervals) hashes"
REAL = ["pycircstat2.descriptive.circ_mean_ci and what it calls, pycircstat2.base.Circular"]
STUB = ["numpy global random state (set by the simulator)", "exception delivery (sys.settrace)"]
ASSUME = ["the reference resampling is Fisher's (1993, 8.3.5) pivoted bootstrap written with eigendecompositions",
          "the mass of the arc is judged on reference resamples, within 0.004 + 0.11 sqrt(level (1 - level)), twice",
          "coverage suspicions (p < 1e-3) are confirmed on a larger fresh sample at 1e-6 against a rate 0.12 below nominal"]
RUNS = {"quick": 640, "thorough": 40000}
TIMEOUT = 240.0
TWO = 2 * math.pi
CI = [0.5, 0.68, 0.8, 0.9, 0.95, 0.99]


def gen_data(rng):
    n = rng.choice([5, 6, 8, 10, 15, 24, 25, 40])
    c = rng.choice([0.0, 0.0, rng.uniform(0, TWO), rng.uniform(0, TWO), math.pi])
    w = rng.choice([1e-4, 0.01, 0.1, 0.3, 0.6, 0.9])
    x = [(c + rng.gauss(0, w)) % TWO for _ in range(n)]
    u = rng.random()
    if u < 0.1:
        x = [c] * n
    elif u < 0.2:
        k = max(1, n // 4)
        x[:k] = [(v + 1.5) % TWO for v in x[:k]]
    elif u < 0.3:
        x = [round(v, 1) for v in x]
    return {"x": [ops._r(v) for v in x], "w": w}


def gen(rng, tier, i):
    mode = rng.choice(["history", "history", "levels", "rotate", "weights", "object", "mass", "mass", "cover"])
    p = {"mode": mode, "seed": rng.randrange(1 << 31), "B": rng.choice([20, 50, 150]), "ci": rng.choice(CI), **gen_data(rng)}
    if mode == "history":
        p["sets"] = [gen_data(rng)["x"] for _ in range(rng.choice([1, 2]))] + [p.pop("x")]
        ev = []
        for _ in range(rng.choice([2, 4, 6])):
            u = rng.random()
            if u < 0.4:
                ev.append(["noise", noise(rng)])
            elif u < 0.6:
                ev.append(["crash", rng.randrange(len(p["sets"])), rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp"])])
            ev.append(["seed", rng.randrange(1 << 31)])
            for _ in range(rng.choice([1, 1, 2, 3])):
                ev.append(["ci", rng.randrange(len(p["sets"])), rng.choice(CI), rng.choice([10, 30, 80])])
        p["ev"] = ev
    elif mode == "rotate":
        while len(p["x"]) < 10 or len(set(p["x"])) < len(p["x"]) or p["w"] < 0.05:      # resamples of two values have a singular covariance, decided by rounding
            p.update(gen_data(rng))
        p["by"] = rng.choice([rng.uniform(0, TWO), math.pi, TWO - p["x"][0]])
    elif mode == "weights":
        p["k"] = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in p["x"]]
        if not any(p["k"]):
            p["k"][0] = 3
    elif mode == "mass":
        p["B"] = 2000
        while len(p["x"]) < 10 or len(set(p["x"])) < len(p["x"]) or p["w"] < 0.005:      # tiny and tied samples have a few, far outlying resampled means
            p.update(gen_data(rng))
        p["ci"] = rng.choice(CI[1:])
    elif mode == "cover":
        p["kappa"] = rng.choice([2.0, 4.0, 20.0])
        p["mu"] = rng.choice([0.0, 0.0, rng.uniform(0, TWO), math.pi])
        p["n"] = rng.choice([12, 16, 24, 30])
        p["B"] = 100
        p["ci"] = rng.choice([0.68, 0.8, 0.9, 0.95])
    return p


def noise(rng):
    u = rng.random()
    if u < 0.3:
        return ops.gen_mc(rng)
    if u < 0.6:
        return ops.gen_fn(rng)
    if u < 0.75:
        return ops.gen_bad_fn(rng)
    d = rng.choice(["vonmises", "cardioid", "wrapnorm", "circularuniform"])
    return ops.gen_rvs(rng, d, seed="none" if rng.random() < 0.6 else "?") if u < 0.9 else ops.gen_eval(rng, d)


def interval(x, ci, B, seed=None, w=None):
    import numpy as np
    from pycircstat2.descriptive import circ_mean_ci
    if seed is not None:
        np.random.seed(seed)
    kw = {} if w is None else {"w": np.array(w)}
    try:
        lb, ub = circ_mean_ci(alpha=np.array(x, dtype=float), method="bootstrap", ci=ci, B=B, **kw)
    except ValueError as e:
        if "identifiable" in str(e) or "resultant" in str(e) or "uniform" in str(e):
            return None
        raise
    return [float(lb), float(ub)]


def width(t):
    a = (t[1] - t[0]) % TWO
    return 0.0 if a > TWO - 1e-9 else a


def inside(m, t, tol=0.0):
    return (m - t[0] + tol) % TWO <= width(t) + 2 * tol


def play(ev, sets, upto=None):
    import numpy as np, simsched
    out, n = [], {"intervals": 0, "delivered": 0, "noise": 0}
    for e in ev:
        if e[0] == "noise":
            common.play(e[1])
            n["noise"] += 1
        elif e[0] == "seed":
            np.random.seed(e[1])
        elif e[0] == "crash":
            cr = common.cutter(lambda: interval(sets[e[1]], 0.9, 30), e[2], 4.2, e[3])
            try:
                with cr:
                    interval(sets[e[1]], 0.9, 30)
            except BaseException as x:
                if not simsched.is_injected(x):
                    raise
            n["delivered"] += cr.fired is not None
        else:
            r = interval(sets[e[1]], e[2], e[3])
            out.append([r, common.stream_hash(np.random.mtrand._rand)])
            n["intervals"] += r is not None
    return out, n


def history(plan, clean):
    ops.quiet()
    ev = [e for e in plan["ev"] if e[0] in ("seed", "ci")] if clean else plan["ev"]
    return play(ev, plan["sets"])


def reference(x, B, g):
    """Fisher's pivoted resampled mean directions."""
    import numpy as np

    def moments(a):
        X = np.stack([np.cos(a), np.sin(a)], axis=1)
        z = X.mean(0)
        return z, (X - z).T @ (X - z) / len(a)

    def power(M, p):
        lam, Q = np.linalg.eigh(M)
        return Q @ np.diag(np.clip(lam, 1e-15, None) ** p) @ Q.T
    z0, u0 = moments(x)
    v0 = power(u0, 0.5)
    out = np.empty(B)
    for b in range(B):
        zb, ub = moments(g.choice(x, size=len(x)))
        c = z0 + v0 @ power(ub, -0.5) @ (zb - z0)
        out[b] = math.atan2(c[1], c[0])
    return out % TWO


def near(a, b, tol):
    return abs(math.remainder(a - b, TWO)) <= tol


def work(plan):
    import numpy as np
    ops.quiet()
    v, mode, seed, B, ci = [], plan["mode"], plan["seed"], plan["B"], plan["ci"]
    who = common.show({k: plan[k] for k in plan if k != "sets"})
    res, n_ci = [], 0

    def bad(c, m):
        v.append({"class": c, "msg": f"{who}: {m}"})

    def sane(t):
        if not all(0.0 <= a <= TWO for a in t):
            bad("range", f"bounds {t}")
    if mode == "cover":
        def cover(reps, s):
            g = np.random.default_rng([plan["seed"], s])
            hit = tot = 0
            for _ in range(reps):
                t = interval(g.vonmises(plan["mu"], plan["kappa"], plan["n"]) % TWO, ci, B, seed=int(g.integers(1 << 31)))
                if t is not None:
                    sane(t)
                    tot += 1
                    hit += inside(plan["mu"], t)
            return hit, tot
        from scipy.stats import binom
        lo, hi = ci - 0.12, min(0.999, ci + 0.10)

        def off(h, t, level):
            return t and (binom.cdf(h, t, lo) < level or (hi < 0.99 and binom.sf(h - 1, t, hi) < level))
        h, t = cover(40, 1)
        n_ci, res = t, [h, t]
        if off(h, t, 1e-3):
            h, t = cover(250, 2)
            if off(h, t, 1e-6):
                bad("coverage", f"{h} of {t} intervals at level {ci} cover the true mean")
    elif mode == "levels":
        last = None
        for c in CI:
            t = interval(plan["x"], c, B, seed)
            if t is None:
                break
            sane(t)
            res.append(t)
            n_ci += 1
            if last is not None and width(t) < width(last) - 1e-9:
                bad("not-monotone", f"level {c} has {t}, shorter than {last} at the lower level")
            last = t
    elif mode == "rotate":
        a = interval(plan["x"], ci, B, seed)
        b = interval([(q + plan["by"]) % TWO for q in plan["x"]], ci, B, seed)
        res = [a, b]
        n_ci = (a is not None) + (b is not None)
        if (a is None) != (b is None):
            bad("rotation", f"{a} rotated by {plan['by']}: {b}")
        elif a is not None:
            sane(a), sane(b)
            tol = 1e-6 + (0.02 if plan["w"] > 0.02 else 0.25) * width(a)
            same = near(a[0] + plan["by"], b[0], tol) and near(a[1] + plan["by"], b[1], tol)
            tied = abs(width(a) - width(b)) <= 1e-6 + 1e-3 * width(a) and (inside(b[0], [a[0] + plan["by"], a[1] + plan["by"]], 1e-6) or inside(b[1], [a[0] + plan["by"], a[1] + plan["by"]], 1e-6))
            if not (same or tied):
                bad("rotation", f"{a}, rotated by {plan['by']}: {b}")
    elif mode == "weights":
        a = interval(plan["x"], ci, B, seed, w=plan["k"])
        b = interval([q for q, k in zip(plan["x"], plan["k"]) for _ in range(k)], ci, B, seed)
        res, n_ci = [a, b], (a is not None) + (b is not None)
        if (a is None) != (b is None) or a is not None and not (near(a[0], b[0], 1e-7) and near(a[1], b[1], 1e-7)):
            bad("weights", f"grouped {a}, repeated {b}")
    elif mode == "object":
        from pycircstat2 import Circular
        for opt in (None, "bootstrap"):
            np.random.seed(seed)
            c = Circular(np.array(plan["x"]), unit="radian", **({} if opt is None else {"kwargs_mean_ci": {"method": opt}}))
            if c.method_mean_ci == "bootstrap" and math.isfinite(c.mean_lb):
                n_ci += 1
                t = interval(plan["x"], c.mean_ci_level, 2000, seed)
                res.append([c.mean_lb, c.mean_ub])
                sane(res[-1])
                if t is None or not (near(c.mean_lb, t[0], 1e-7) and near(c.mean_ub, t[1], 1e-7)):
                    bad("object", f"Circular has {c.mean_lb}, {c.mean_ub}; the function gives {t} under the same stream")
    elif mode == "mass":
        t = interval(plan["x"], ci, B, seed)
        res = [t]
        if t is not None:
            n_ci = 1
            sane(t)
            x = np.array(plan["x"])
            m = reference(x, 2000, np.random.default_rng([seed, 5]))
            frac = float(np.mean([inside(q, t, 1e-9) for q in m]))
            tol = 0.004 + 0.11 * math.sqrt(ci * (1 - ci))
            if frac < ci - tol:         # again, with another stream and more reference resamples
                t = interval(plan["x"], ci, B, seed ^ 0x5eed)
                m = reference(x, 8000, np.random.default_rng([seed, 6]))
                frac = float(np.mean([inside(q, t, 1e-9) for q in m]))
            s = np.sort(m)
            e = np.concatenate([s, s + TWO])

            def shortest(level):
                k = max(1, int(level * len(s)))
                return float(np.min(e[k - 1:k - 1 + len(s)] - s))
            short, long = shortest(ci - 0.05), shortest(min(0.5 + 0.5 * ci, ci + 0.04))
            if frac < ci - tol:
                bad("mass", f"arc {t} holds {frac:.3f} of the resampled means")
            if width(t) > 1.1 * long + 1e-6 or width(t) < 0.9 * short - 1e-6:
                bad("width", f"arc {t} has width {width(t)}, the shortest arcs holding 5% less and up to 4% more of the resampled means have {short} and {long}")
            c, q = np.cos(x).mean(), np.sin(x).mean()
            if ci >= 0.9 and len(x) >= 8 and math.hypot(c, q) > 0.6 and not inside(math.atan2(q, c) % TWO, t, 1e-7 + 0.05 * width(t)):
                bad("mean-outside", f"arc {t} does not contain the sample mean {math.atan2(q, c) % TWO}")
    return v, res, n_ci


def execute(plan):
    if plan["mode"] == "history":
        got, n = core.in_child(history, plan, False, timeout=120.0)
        want, _ = core.in_child(history, plan, True, timeout=120.0)
        viol = []
        for k, (a, b) in enumerate(zip(got, want)):
            if (a[0] is None) != (b[0] is None) or a[0] is not None and not all(near(x, y, 1e-9) for x, y in zip(a[0], b[0])):
                viol.append({"class": "not-reproducible", "msg": f"interval {k} of {common.show(plan['ev'])}: {a[0]}, alone with the same stream {b[0]}"})
            elif a[1] != b[1]:
                viol.append({"class": "stream-position", "msg": f"interval {k} of {common.show(plan['ev'])}: leaves the global stream elsewhere than alone"})
            if viol:
                break
        k, prev = -1, None
        for e in plan["ev"]:
            k += e[0] == "ci"
            if e[0] == "ci" and prev == "ci" and got[k][0] is not None and got[k - 1][0] is not None and got[k][1] == got[k - 1][1]:
                viol.append({"class": "stream-not-advanced", "msg": f"two successive intervals left the stream in the same place: {common.show(plan['ev'])}"})
                break
            prev = e[0]
        return {"violations": viol, "stats": {"mode_history": 1, **n}, "faults": {"exception_in_resampling": n["delivered"]},
                "shape": common.digest(plan), "nontrivial": n["intervals"] > 0, "trace": common.digest(got)}
    v, res, n = core.in_child(work, plan, timeout=200.0)
    return {"violations": v, "stats": {"mode_" + plan["mode"]: 1, "intervals": n}, "faults": {},
            "shape": common.digest(plan, res), "nontrivial": n > 0, "trace": common.digest(v, res)}


def shrink(plan):
    if plan["mode"] == "history":
        for ev in core.drop_each(plan["ev"]):
            yield {**plan, "ev": ev}
    elif "x" in plan and plan["mode"] in ("levels", "rotate", "object") and len(plan["x"]) > 5:
        yield {**plan, "x": plan["x"][: len(plan["x"]) // 2 + 2]}
