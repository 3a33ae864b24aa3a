"""P05: random variates follow the distribution they are drawn from."""
import math
import core, ops, common

ID = "P05"
LEVEL = "exploration"
RULE = ("one evaluation = one family at seeded parameters, drawn from in one seeded pattern (one batch, many batches of one generator, scalar draws, "
        "many seeds, matrix shapes, frozen or unseeded objects); the sample is tested against the family's own cdf (chi-square over cells), for "
        "dependence between draws (chi-square of rank pairs at several lags and across batches) and for repeated values; a rejection at 1e-3 must be confirmed "
        "on a fresh sample four times as large at 1e-6; non-trivial = at least 100 draws; distinct by hash of parameters, pattern and sample")
SHAPE = "distinct (family, parameters, draw pattern) hashes"
REAL = ["pycircstat2.distributions samplers and cdfs, numpy generators"]
STUB = ["callers; seeds are chosen by the simulator"]
ASSUME = ["numpy's bit generators are statistically sound", "differences below the resolution of the sample (about 1e-2 in probability per cell for 2e4 draws) are not seen"]
RUNS = {"quick": 1300, "thorough": 20000}
TIMEOUT = 240.0
BIG = {"katojones": 900, "jonespewsey_sineskewed": 2500, "inverse_batschelet": 10000, "jonespewsey": 10000, "jonespewsey_asym": 10000, "wrapstable": 20000}
MODES = ["one", "one", "batches", "scalars", "seeds", "matrix", "unseeded", "reused_sizes"]


def gen(rng, tier, i):
    d = ops.FAMS[i % len(ops.FAMS)]
    mode = MODES[(i // len(ops.FAMS)) % len(MODES)]
    p = ops.gen_params(rng, d, 0.25)
    if rng.random() < 0.12:
        p = ops.concentrated(rng, d, p)
    n = BIG.get(d, 30000)
    if tier == "thorough" and d not in ("katojones", "inverse_batschelet"):
        n *= 3
    if mode in ("one", "matrix"):
        n = int(n * rng.choice([0.2, 0.5, 1.0]))
    elif d in ("jonespewsey_sineskewed", "katojones"):
        n = 300
    else:
        n = 1200
    return {"d": d, "p": p, "mode": mode, "n": n, "seed": rng.randrange(1 << 40), "sty": rng.choice(["kw", "sh", "pos", "fr" if mode in ("one", "matrix") else "sh"]),
            "k": rng.choice([1, 2, 3, 5, 17])}


def rvs(plan, dist=None, size=None, **kw):
    op = {"k": "dist", "d": plan["d"], "m": "rvs", "p": plan["p"], "size": size, "seed": "none", "sty": plan["sty"]}
    get, a, kws = ops.bound(op, dist)
    kws = dict(kws)
    kws.update(kw)
    return get()(*a, **kws)


def draw(plan, n, salt):
    """n draws in the plan's pattern; (values in draw order, batch size)."""
    import numpy as np
    import pycircstat2.distributions as D
    r = core.rng_for("p05", plan["seed"], salt)
    s = r.randrange(1 << 31)
    m = plan["mode"]
    flat = lambda v: np.atleast_1d(np.asarray(v, dtype=float)).ravel()
    if m == "one":
        return flat(rvs(plan, size=n, random_state=s)), n
    if m == "matrix":
        k = plan["k"]
        return flat(rvs(plan, size=(max(1, n // k), k), random_state=np.random.default_rng(s))), k
    if m == "batches":
        g, k = np.random.default_rng(s), plan["k"]
        return np.concatenate([flat(rvs(plan, size=k, random_state=g)) for _ in range(max(1, n // k))]), k
    if m == "scalars":
        g = np.random.default_rng(s)
        return np.concatenate([flat(rvs(plan, random_state=g)) for _ in range(min(n, 600))]), 1
    if m == "seeds":
        k = min(plan["k"], 3)
        return np.concatenate([flat(rvs(plan, size=k, random_state=s + j)) for j in range(min(n, 900) // k)]), k
    if m == "unseeded":
        k = plan["k"]
        obj = getattr(D, plan["d"])
        if plan["sty"] in ("fr", "sh"):
            obj = obj(*plan["p"])
            obj.random_state = s
            return np.concatenate([flat(obj.rvs(size=k)) for _ in range(max(1, n // k))]), k
        obj.random_state = np.random.default_rng(s)
        return np.concatenate([flat(rvs(plan, size=k)) for _ in range(max(1, n // k))]), k
    g, out, tot = np.random.default_rng(s), [], 0
    while tot < n:
        k = r.choice([None, 1, 2, 7, 40, 64])
        out.append(flat(rvs(plan, size=k, random_state=g)))
        tot += out[-1].size
    return np.concatenate(out), 1


def cells(plan):
    import numpy as np
    import pycircstat2.distributions as D
    p = [ops.dec(v) for v in plan["p"]]
    edges = np.linspace(0, 2 * np.pi, 61)
    c = np.array([float(getattr(D, plan["d"]).cdf(float(e), *p)) for e in edges])
    if plan["d"] != "triangular":       # concentrated: refine where the mass is
        fine = []
        for a, b, ca, cb in zip(edges[:-1], edges[1:], c[:-1], c[1:]):
            fine.append(a)
            if cb - ca > 0.08:
                fine += list(np.linspace(a, b, 9)[1:-1])
        fine.append(edges[-1])
        edges = np.array(fine)
        c = np.array([float(getattr(D, plan["d"]).cdf(float(e), *p)) for e in edges])
    return edges, c


def chi2(obs, exp):
    """p-value after merging thin cells."""
    from scipy.stats import chi2 as X
    o, e, ao, ae = [], [], 0.0, 0.0
    for a, b in zip(obs, exp):
        ao += a
        ae += b
        if ae >= 8:
            o.append(ao); e.append(ae)
            ao = ae = 0.0
    if o:
        o[-1] += ao; e[-1] += ae
    if len(o) < 2:
        return 1.0, len(o)
    s = sum((a - b) ** 2 / b for a, b in zip(o, e))
    return float(X.sf(s, len(o) - 1)), len(o)


def tests(x, k, edges, c):
    """name -> p-value"""
    import numpy as np
    n = x.size
    out = {}
    obs = np.histogram(np.clip(x, 0, 2 * np.pi), bins=edges)[0]
    out["distribution"] = chi2(obs, np.diff(c) * n)[0]
    u = np.interp(x, edges, c)
    if k > 1 and n // k >= 60:
        for name, sel in (("first draw of a batch", u[: n // k * k].reshape(-1, k)[:, 0]), ("last draw of a batch", u[: n // k * k].reshape(-1, k)[:, -1])):
            h = np.histogram(np.clip(sel, 0, 1), bins=8, range=(0, 1))[0]
            # cells on the u scale are only as fine as the cdf cells: compare with the whole sample
            w = np.histogram(np.clip(u, 0, 1), bins=8, range=(0, 1))[0] / n
            out[name] = chi2(h, w * sel.size)[0]
    rk = np.argsort(np.argsort(x, kind="stable"), kind="stable") / n
    for lag in sorted({1, 2, 3, k, 2 * k, n // 2, n // 3}):
        if lag < 1 or n - lag < 150:
            continue
        a, b = rk[:-lag], rk[lag:]
        g = 4 if a.size < 1500 else 6
        H = np.histogram2d(a, b, bins=g, range=[[0, 1], [0, 1]])[0]
        E = np.outer(H.sum(1), H.sum(0)) / H.sum()
        from scipy.stats import chi2 as X
        s = ((H - E) ** 2 / np.maximum(E, 1e-9)).sum()
        out[f"lag {lag}"] = float(X.sf(s, (g - 1) ** 2))
    return out


def dup(x):
    import numpy as np
    s = np.sort(x)
    s = s[(s > 1e-12) & (s < 2 * np.pi - 1e-9)]
    return int((np.diff(s) == 0).sum())


def execute(plan):
    import numpy as np
    ops.quiet()
    viol = []
    try:
        edges, c = cells(plan)
        x, k = draw(plan, plan["n"], "first")
    except Exception as e:
        return {"violations": [{"class": "raise", "msg": f"{plan['d']} {plan['p']} {plan['mode']}: {type(e).__name__}: {e}"}], "stats": {}, "faults": {}, "shape": "raise", "nontrivial": True, "trace": repr(e)}
    stats = {"draws": int(x.size), "tests": 0, "confirmations": 0, "pattern_" + plan["mode"]: 1}
    t = tests(x, k, edges, c)
    stats["tests"] = len(t)
    bad = {q: v for q, v in t.items() if v < 1e-3}
    who = f"{plan['d']}{tuple(plan['p'])} {plan['mode']} style {plan['sty']}"
    dd = dup(x)
    tiny = x.size ** 2 / 2 / 4e15 * 50
    if dd > 1 and tiny < 0.01:
        viol.append({"class": "repeated-values", "msg": f"{who}: {dd} exactly repeated values in {x.size} draws"})
    if bad:
        stats["confirmations"] = 1
        y, k2 = draw(plan, 4 * plan["n"], "second") if plan["mode"] not in ("scalars", "seeds") else merge(plan)
        t2 = tests(y, k2, edges, c)
        for q in bad:
            q2 = q if q in t2 else None
            pv = t2.get(q2, 1.0) if q2 else min([v for n_, v in t2.items() if n_.startswith("lag")] or [1.0]) * 10
            if pv < 1e-6:
                cls = "wrong-distribution" if q == "distribution" or "batch" in q else "dependent-draws"
                viol.append({"class": cls, "msg": f"{who}: {q} p={pv:.2g} on {y.size} draws (first p={bad[q]:.2g})"})
    return {"violations": viol, "stats": stats, "faults": {}, "shape": common.digest(plan["d"], plan["p"], plan["mode"], plan["k"]),
            "nontrivial": x.size >= 100, "trace": common.digest(plan, [float(v) for v in x[:50]], float(x.sum()))}


def merge(plan):
    import numpy as np
    xs, k = [], 1
    for j in range(4):
        x, k = draw(plan, plan["n"], f"second{j}")
        xs.append(x)
    return np.concatenate(xs), k


def shrink(plan):
    if plan["n"] > 300:
        yield {**plan, "n": plan["n"] // 2}
    if plan["sty"] != "kw":
        yield {**plan, "sty": "kw"}
