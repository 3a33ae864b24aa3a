"""P10: Monte Carlo p-values are valid and agree with their null distribution."""
import math
import core, ops, common

ID = "P10"
LEVEL = "exploration"
RULE = ("one evaluation = one simulation-based test under one of: several data sets against one seed (order of p-values against order of statistics), one data "
        "set against an independent simulation or complete enumeration of the null distribution of its own reported statistic, or repeated null data sets "
        "(rejection rates); every p-value is also checked against the values its number of simulations can produce; non-trivial = at least two simulated "
        "p-values; distinct by hash of data, options and p-values")
SHAPE = "distinct (test, data, options, p-values) hashes"
REAL = ["pycircstat2.hypothesis and everything it calls"]
STUB = ["null data (seeded numpy generator of the simulator)"]
ASSUME = ["statistical decisions are two-stage: a suspicion at 1e-3 is only reported when a fresh sample four or more times larger rejects at 1e-6",
          "grouped Rao data are counts over equally spaced bins covering the circle"]
RUNS = {"quick": 900, "thorough": 40000}
TIMEOUT = 240.0
TESTS = ["rayleigh", "kuiper", "watson", "rao", "rao_grouped", "art"]


def gen(rng, tier, i):
    t = TESTS[i % len(TESTS)]
    mode = rng.choice(["mono", "mono", "agree", "agree", "calib"])
    if t == "rao_grouped" and mode == "agree":
        mode = "calib"
    if t == "art" and mode == "agree" and rng.random() < 0.6:
        mode = "enum"
    n = rng.choice([1, 2, 3, 5, 8, 12, 20, 30]) if mode != "calib" else rng.choice([3, 5, 10, 20, 40])
    if mode == "agree":
        n = max(n, 3)     # a statistic that is constant under the null (n = 1) is one big tie, resolved by rounding
    plan = {"t": t, "mode": mode, "n": n, "seed": rng.randrange(1 << 30), "nsim": rng.choice([2, 9, 19, 49, 99])}
    if t == "rao_grouped":
        plan["m"] = rng.choice([8, 12, 24, 36])
        plan["n"] = max(2, n)
        plan["kappa"] = rng.choice([1000.0, 1000.0, 200.0])
    if t == "art":
        plan["n2"] = rng.choice([2, 3, 5, 8]) if mode != "enum" else rng.choice([3, 4])
        plan["n"] = max(2, min(n, 10)) if mode != "enum" else rng.choice([3, 4])
        plan["grid"] = rng.choice([0, 0, 0, 6, 12])
    if mode == "mono":
        plan["sets"] = [[rng.choice([0.0, 0.0, 0.3, 1.0, 3.0, 30.0]), rng.randrange(1 << 30), rng.choice(["plain", "plain", "plain", "equal", "same", "two"])] for _ in range(4)]
    return plan


def data(plan, g, kappa=0.0, form="plain"):
    """One data set: uniform when kappa is 0."""
    import numpy as np
    n, two = plan["n"], 2 * math.pi

    def draw(k, kap, mu=1.0):
        v = g.vonmises(mu, kap, size=k) % two if kap > 0 else g.uniform(0, two, size=k)
        if plan.get("grid"):
            v = np.floor(v * plan["grid"] / two) * (two / plan["grid"])
        return v
    if plan["t"] == "rao_grouped":
        m = plan["m"]
        b = np.minimum((draw(n, kappa) * m / two).astype(int), m - 1)
        return np.arange(m) * (two / m), np.bincount(b, minlength=m)
    if plan["t"] == "art":
        k = 0.0 if kappa == 0 else kappa
        return draw(n, max(k, 0.0), 1.0), draw(plan["n2"], max(k, 0.0), 1.0 if kappa == 0 else 1.0 + min(2.0, kappa))
    if form == "equal":
        return (np.arange(n) * two / n + 0.01) % two
    if form == "same":
        return np.full(n, 2.0)
    if form == "two":
        return np.array([1.0, 1.0 + math.pi] * n)[:n]
    return draw(n, kappa)


def call(plan, d, nsim, seed):
    """(statistic, p)"""
    import pycircstat2.hypothesis as H
    t = plan["t"]
    if t == "rayleigh":
        r = H.rayleigh_test(alpha=d, B=nsim, seed=seed)
        return float(r.z), None if r.bootstrap_pval is None else float(r.bootstrap_pval)
    if t == "kuiper":
        r = H.kuiper_test(d, n_simulation=nsim, seed=seed)
        return float(r.V), float(r.pval)
    if t == "watson":
        r = H.watson_test(d, n_simulation=nsim, seed=seed)
        return float(r.U2), float(r.pval)
    if t == "rao":
        r = H.rao_spacing_test(d, n_simulation=nsim, seed=seed)
        return float(r.statistic), float(r.pval)
    if t == "rao_grouped":
        r = H.rao_spacing_test(d[0], w=d[1], kappa=plan["kappa"], n_simulation=nsim, seed=seed)
        return float(r.statistic), float(r.pval)
    r = H.angular_randomisation_test([d[0], d[1]], n_simulation=nsim, seed=seed)
    return float(r.statistic), float(r.pval)


def stat(plan, d):
    return call(plan, d, 1, 0)[0]


def binom_two(k1, n1, k2, n2):
    from scipy.stats import fisher_exact
    return float(fisher_exact([[k1, n1 - k1], [k2, n2 - k2]])[1])


class Bad:
    def __init__(self):
        self.v = []

    def grid(self, plan, p, nsim):
        if p is None:
            return
        k = p * (nsim + 1)
        if not (0 < p <= 1) or abs(k - round(k)) > 1e-6:
            self.v.append({"class": "impossible-p", "msg": f"{common.show(plan)}: p = {p!r} with {nsim} simulations"})


def work(plan):
    import numpy as np
    ops.quiet()
    g = np.random.default_rng([plan["seed"], 77])
    B = Bad()
    n_p, ps, confirm = 0, [], 0
    who = common.show(plan)
    ns = plan["nsim"]
    if plan["mode"] == "mono":
        seed = plan["seed"] % 10007
        res = []
        for kap, s, form in plan["sets"]:
            d = data(plan, np.random.default_rng(s), kap, form)
            st, p = call(plan, d, ns, seed)
            B.grid(plan, p, ns)
            res.append((st, p))
            ps.append(p)
            n_p += 1
        if plan["t"] not in ("art", "rao_grouped"):     # their null samples depend on the data
            res.sort()
            for (s1, p1), (s2, p2) in zip(res, res[1:]):
                if s2 > s1 + 1e-12 * (1 + abs(s1)) and p2 > p1 + 1e-12:
                    B.v.append({"class": "not-monotone", "msg": f"{who}: statistic {s1} has p {p1}, the more extreme {s2} has p {p2}"})
    elif plan["mode"] in ("agree", "enum"):
        kap = [0.0, 0.4, 0.8][int(g.integers(3))]
        d = data(plan, g, kap)
        obs = stat(plan, d)
        tie = 1e-9 * (1 + abs(obs))

        def sample(n1, n2, seed):
            p = call(plan, d, n1, seed)[1]
            B.grid(plan, p, n1)
            k1 = round(p * (n1 + 1)) - 1
            if plan["mode"] == "enum":
                import itertools
                pool = np.concatenate(d)
                c = tot = 0
                for idx in itertools.combinations(range(pool.size), d[0].size):
                    rest = [j for j in range(pool.size) if j not in idx]
                    tot += 1
                    c += stat(plan, (pool[list(idx)], pool[rest])) >= obs - tie
                return p, k1, n1, c, tot
            c = 0
            gg = np.random.default_rng([seed, 5])
            for _ in range(n2):
                if plan["t"] == "art":
                    pool = gg.permutation(np.concatenate(d))
                    s = stat(plan, (pool[:d[0].size], pool[d[0].size:]))
                else:
                    s = stat(plan, data(plan, gg))
                c += s >= obs - tie
            return p, k1, n1, c, n2

        def disagree(n1, n2, seed):
            from scipy.stats import binomtest
            p, k1, m1, k2, m2 = sample(n1, n2, seed)
            ps.append(p)
            if plan["mode"] == "enum":
                return float(binomtest(k1, m1, k2 / m2).pvalue), p, k2 / m2
            return binom_two(k1, m1, k2, m2), p, k2 / m2
        heavy = plan["t"] == "art"
        q, p, ref = disagree(399 if heavy else 999, 400 if heavy else 1500, plan["seed"] % 9973)
        n_p += 2
        if q < 1e-3:
            confirm += 1
            q, p, ref = disagree(4000, 4000 if heavy else 12000, plan["seed"] % 9973 + 1)
            if q < 1e-6:
                B.v.append({"class": "wrong-p", "msg": f"{who}: simulated p {p}, {'complete enumeration' if plan['mode'] == 'enum' else 'independent simulation'} of the null gives {ref} (probability of this {q:.1e})"})
    else:
        from scipy.stats import binomtest
        levels = [0.05, 0.1, 0.2, 0.5]
        nb = 19 if plan["t"] in ("art", "rao_grouped") else 39

        def rates(M, salt):
            gg = np.random.default_rng([plan["seed"], salt])
            out = []
            for j in range(M):
                p = call(plan, data(plan, gg), nb, int(gg.integers(1 << 30)))[1]
                B.grid(plan, p, nb)
                out.append(p)
            return np.array(out)

        def worst(v):
            w = (1.0, None)
            for a in levels:
                k = int(np.count_nonzero(v <= a + 1e-12))
                q = float(binomtest(k, v.size, a, alternative="greater").pvalue)
                if q < w[0]:
                    w = (q, f"rejects {k} of {v.size} null data sets at level {a}")
                if plan["t"] in ("rayleigh", "kuiper", "watson", "rao", "rao_grouped") and plan["n"] >= 3:     # continuous statistic: the level is attained
                    q = float(binomtest(k, v.size, a, alternative="less").pvalue)
                    if q < w[0]:
                        w = (q, f"rejects only {k} of {v.size} null data sets at level {a}")
            return w
        v = rates(120, 1)
        n_p += v.size
        ps = [float(x) for x in v]
        q, _ = worst(v)
        if q < 1e-3:
            confirm += 1
            q, m = worst(rates(800, 2))
            if q < 1e-6:
                B.v.append({"class": "level", "msg": f"{who}: {m} (probability of this under the null {q:.1e})"})
    return {"v": B.v, "n": n_p, "p": ps, "confirm": confirm}


def execute(plan):
    r = core.in_child(work, plan, timeout=200.0)
    return {"violations": r["v"], "stats": {"p_values": r["n"], "confirmations": r["confirm"], "mode_" + plan["mode"]: 1}, "faults": {"simulation_stream": r["n"]},
            "shape": common.digest(plan, r["p"]), "nontrivial": r["n"] >= 2, "trace": common.digest(r["p"])}


def shrink(plan):
    if plan["mode"] == "mono" and len(plan["sets"]) > 2:
        for s in core.drop_each(plan["sets"]):
            if len(s) >= 2:
                yield {**plan, "sets": s}
    for k in (2, 3, 5):
        if plan["n"] > k and plan["mode"] != "enum":
            yield {**plan, "n": k}
