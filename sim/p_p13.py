"""P13: k-means and hierarchical clustering end in a coherent partition."""
import math
import core, ops, common

ID = "P13"
LEVEL = "exploration"
RULE = ("one evaluation = a history of fits (completed, rejected, cut by an exception) of one k-means or hierarchical clustering object; after every completed "
        "fit centres, inertia, assignment, merges, predictions and silhouette are recomputed independently, and k-means objects with the same seed stopped one "
        "iteration later are compared with a reference update; non-trivial = at least one completed fit; distinct by hash of plan and labels")
SHAPE = "distinct (history, labels) hashes"
REAL = ["pycircstat2.clustering CircKMeans, CircHAC and everything they call"]
STUB = ["exception delivery (sys.settrace)"]
ASSUME = ["ties (distances equal to 1e-9) may be broken either way"]
RUNS = {"quick": 5000, "thorough": 80000}
TIMEOUT = 120.0
TWO = 2 * math.pi
METRICS = ["center", "geodesic", "angularseparation", "chord"]


def gen_data(rng, unit, cycle):
    n = rng.choice([1, 2, 3, 5, 8, 15, 30])
    u = rng.random()
    cs = [rng.choice([0.0, rng.uniform(0, TWO), rng.uniform(0, TWO)]) for _ in range(rng.choice([2, 3]))]
    if u < 0.5:
        x = [(rng.choice(cs) + rng.gauss(0, rng.choice([0.05, 0.4]))) % TWO for _ in range(n)]
    elif u < 0.7:
        x = [rng.uniform(0, TWO) for _ in range(n)]
    elif u < 0.8:
        x = [rng.choice(cs) for _ in range(n)]
    elif u < 0.9:
        m = rng.choice([4, 6, 8])
        x = [rng.randrange(m) * TWO / m for _ in range(n)]
    else:
        x = [k * TWO / n for k in range(n)]
    lo = rng.choice([0.0, 0.0, -0.5])
    return [round(v * cycle / TWO + lo * cycle, 7) for v in x]


def gen(rng, tier, i):
    cls = rng.choice(["CircKMeans", "CircHAC"])
    unit = rng.choice(["degree", "radian"])
    cycle = TWO if unit == "radian" else rng.choice([360, 24, 7])
    init = {"n_clusters": rng.choice([1, 2, 2, 3, 4]), "unit": unit, "full_cycle": cycle, "metric": rng.choice(METRICS), "random_seed": rng.randrange(1 << 20)}
    if cls == "CircKMeans":
        init["max_iter"] = rng.choice([1, 2, 5, 100])
    elif rng.random() < 0.35:
        init["n_init_clusters"] = init["n_clusters"] + rng.choice([0, 1, 3, 6])
    ev = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        u = rng.random()
        if u < 0.25:
            ev.append(["crash", gen_data(rng, unit, cycle), rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp"])])
        elif u < 0.35:
            ev.append(["bad", ["a"]])
        ev.append(["fit", gen_data(rng, unit, cycle)])
    return {"cls": cls, "init": init, "ev": ev, "q": [round(rng.uniform(-0.2, 1.2) * cycle, 5) for _ in range(6)] + [0.0]}


def build(plan, **over):
    import pycircstat2.clustering as C
    return getattr(C, plan["cls"])(**{**plan["init"], **over})


def rad(plan, x):
    import numpy as np
    x = np.asarray(x, dtype=float)
    return x if plan["init"]["unit"] == "radian" else TWO * x / plan["init"]["full_cycle"]


def dist(a, b, metric):
    import numpy as np
    d = np.abs(np.angle(np.exp(1j * (np.asarray(a) - np.asarray(b)))))
    if metric == "angularseparation":
        return 1 - np.cos(d)
    return 2 * np.sin(d / 2) if metric == "chord" else d


def mean(a):
    import numpy as np
    z = np.mean(np.exp(1j * np.asarray(a)))
    return (float(np.angle(z)) % TWO, abs(z))


def same_angle(a, b, tol=1e-7):
    return abs(math.remainder(a - b, TWO)) <= tol


def nearest(plan, a, centers, labels, bad, what):
    import numpy as np
    D = dist(np.asarray(a)[None, :], np.asarray(centers, dtype=float)[:, None], plan["init"]["metric"])
    got = D[labels, np.arange(len(a))]
    k = int(np.argmax(got - D.min(axis=0)))
    if got[k] > D.min(axis=0)[k] + 1e-6:
        bad("nearest", f"{what}: angle {a[k]} in cluster {labels[k]} (distance {got[k]}), nearest is {int(D[:, k].argmin())} ({D[:, k].min()}); centres {list(centers)}")


def check_kmeans(plan, m, x, bad):
    import numpy as np
    K, a = plan["init"]["n_clusters"], rad(plan, x)
    n = len(a)
    lab, cen = np.asarray(m.labels_), np.asarray(m.centers_, dtype=float)
    if lab.shape != (n,) or lab.dtype.kind not in "iu":
        bad("labels", f"labels {lab!r} for {n} observations")
        return
    if n < K:
        if sorted(lab.tolist()) != list(range(n)) or not all(same_angle(cen[l], v) for l, v in zip(lab, a)) or abs(m.inertia_) > 1e-9:
            bad("small", f"labels {lab}, centres {cen} for {n} observations")
    else:
        if cen.shape != (K,) or not np.all(np.isfinite(cen)) or lab.min() < 0 or lab.max() >= K:
            bad("centres", f"centres {cen}, labels {sorted(set(lab.tolist()))}")
            return
        for c in range(K):
            if np.any(lab == c):
                mu, r = mean(a[lab == c])
                if r > 1e-6 and not same_angle(mu, cen[c], 1e-6):
                    bad("centres", f"centre {c} is {cen[c]}, its {int((lab == c).sum())} members have mean {mu}")
        inertia = float(sum(dist(a[lab == c], cen[c], plan["init"]["metric"]).sum() for c in range(K)))
        if not abs(m.inertia_ - inertia) <= 1e-6 * (1 + inertia):
            bad("inertia", f"inertia_ = {m.inertia_}, from labels and centres {inertia}")
    p = np.asarray(m.predict(np.array(plan["q"])))
    if p.shape != (len(plan["q"]),) or p.min() < 0 or p.max() >= len(cen):
        bad("predict", f"predict = {p}")
    else:
        nearest(plan, rad(plan, plan["q"]), cen, p, bad, "prediction")


def steps(plan, x, bad):
    """The same seed stopped after j and j+1 iterations: one Lloyd update apart; no change means a fixed point."""
    import numpy as np
    K, a, metric = plan["init"]["n_clusters"], rad(plan, x), plan["init"]["metric"]
    if len(a) < K:
        return 0
    prev = None
    for j in (1, 2, 3, 4, 100):
        m = build(plan, max_iter=j)
        m.fit(np.array(x))
        cen, lab = np.asarray(m.centers_, dtype=float), np.asarray(m.labels_)
        if prev is not None and j < 100:
            D = dist(a[None, :], prev[:, None], metric)
            srt = np.sort(D, axis=0)
            if K > 1 and np.min(srt[1] - srt[0]) < 1e-9:
                return j     # a tie: either assignment is right
            want = D.argmin(axis=0)
            still = np.all([same_angle(u, w, 1e-5) for u, w in zip(prev, cen)])
            if not still and not np.array_equal(lab, want):
                bad("lloyd", f"labels after {j} iterations {lab.tolist()}, nearest to the centres after {j - 1}: {want.tolist()}")
            for c in range(K):
                mu, r = mean(a[lab == c]) if np.any(lab == c) else (prev[c], 1.0)
                if r > 1e-6 and not same_angle(mu, cen[c], 1e-6):
                    bad("lloyd", f"centre {c} after {j} iterations {cen[c]}, expected {mu}")
            if still:
                nearest(plan, a, cen, lab, bad, "converged assignment")
        prev = cen
    return 5


def check_hac(plan, m, x, bad):
    import numpy as np
    init = plan["init"]
    K, a, metric = init["n_clusters"], rad(plan, x), init["metric"]
    n = len(a)
    lab, cen, mg = np.asarray(m.labels_), np.asarray(m.centers_, dtype=float), np.asarray(m.merges_, dtype=float)
    want = min(n, K)
    n_init = init.get("n_init_clusters")
    from_kmeans = n_init is not None and n_init < n and n > K
    if lab.shape != (n,):
        bad("labels", f"{lab.shape} labels for {n} observations")
        return
    groups = sorted(set(lab.tolist()))
    if groups != list(range(len(cen))) or len(m.r_) != len(cen):
        bad("labels", f"labels {groups} with {len(cen)} centres and {len(m.r_)} resultants")
        return
    if (len(groups) != want and not from_kmeans) or len(groups) > want:
        bad("count", f"{len(groups)} clusters, {want} requested of {n} observations")
    for c in groups:
        mu, r = mean(a[lab == c])
        if abs(float(m.r_[c]) - r) > 1e-6 or (r > 1e-6 and not same_angle(mu, cen[c], 1e-6)):
            bad("centres", f"cluster {c}: centre {cen[c]}, resultant {m.r_[c]}; its members have {mu}, {r}")
    if mg.size and (mg.ndim != 2 or mg.shape[1] != 4):
        bad("merges", f"merge history of shape {mg.shape}")
        return
    if from_kmeans:
        if len(mg) + len(groups) > n_init:
            bad("merges", f"{len(mg)} merges and {len(groups)} clusters from at most {n_init}")
    else:
        if len(mg) != n - len(groups):
            bad("merges", f"{len(mg)} merges leave {len(groups)} of {n} clusters")
            return
        live = {i: [i] for i in range(n)}
        for s, (i, j, d, size) in enumerate(mg):
            i, j = int(i), int(j)
            if i == j or i not in live or j not in live:
                bad("merges", f"merge {s} joins {i} and {j}, live clusters {sorted(live)}")
                return
            ids = list(live)
            mu = [mean(a[live[q]]) for q in ids]
            if all(r > 1e-6 for _, r in mu):
                M = dist(np.array([q for q, _ in mu])[:, None], np.array([q for q, _ in mu])[None, :], metric)
                M[np.diag_indices(len(ids))] = np.inf
                here = M[ids.index(i), ids.index(j)]
                if abs(here - d) > 1e-6:
                    bad("merges", f"merge {s} of {i} and {j} records distance {d}, their means are {here} apart")
                if here > M.min() + 1e-6:
                    bad("merges", f"merge {s} joins {i} and {j} at {here}, the closest pair is {M.min()} apart")
            new = live.pop(i) + live.pop(j)
            if len(new) != size:
                bad("merges", f"merge {s} records size {size}, the union has {len(new)}")
            live[n + s] = new
        part = sorted(sorted(v) for v in live.values())
        got = sorted(sorted(np.nonzero(lab == c)[0].tolist()) for c in groups)
        if n > K and part != got:
            bad("merges", f"merge history gives partition {part}, labels give {got}")
    p = np.asarray(m.predict(np.array(plan["q"])))
    if p.shape != (len(plan["q"]),) or p.min() < 0 or p.max() >= len(cen):
        bad("predict", f"predict = {p}")
    elif np.all(np.isfinite(cen)):
        nearest(plan, rad(plan, plan["q"]), cen, p, bad, "prediction")
    s = float(m.silhouette_score())
    if not -1 - 1e-9 <= s <= 1 + 1e-9:
        bad("silhouette", f"silhouette {s}")
    elif len(groups) > 1 and all((lab == c).sum() > 1 for c in groups):
        D = dist(a[:, None], a[None, :], metric)
        tot = 0.0
        for i in range(n):
            own = D[i, lab == lab[i]].sum() / ((lab == lab[i]).sum() - 1)
            oth = min(D[i, lab == c].mean() for c in groups if c != lab[i])
            if max(oth, own) < 1e-9:     # coinciding clusters: 0/0 up to rounding
                return
            tot += (oth - own) / max(oth, own) if max(oth, own) > 0 else 0.0
        if abs(tot / n - s) > 1e-6:
            bad("silhouette", f"silhouette {s}, recomputed {tot / n}")


def work(plan):
    import numpy as np, simsched
    ops.quiet()
    m = build(plan)
    v, n, out = [], {"fits": 0, "delivered": 0, "rejected": 0, "steps": 0}, []

    def bad(c, msg):
        if len(v) < 5:
            v.append({"class": c, "msg": f"{plan['cls']} {common.show(plan['init'])} events {[e[0] for e in plan['ev']]}: {msg}"})
    for e in plan["ev"]:
        if e[0] == "bad":
            try:
                m.fit(np.array(e[1]))
            except Exception:
                n["rejected"] += 1
            continue
        if e[0] == "crash":
            cr = common.cutter(lambda: m.fit(np.array(e[1])), e[2], 3.2, e[3])
            done = False
            try:
                with cr:
                    m.fit(np.array(e[1]))
                    done = True
            except BaseException as x:
                if not simsched.is_injected(x):
                    raise
            n["delivered"] += cr.fired is not None
            if not done:
                continue
        else:
            m.fit(np.array(e[1]))
        n["fits"] += 1
        (check_kmeans if plan["cls"] == "CircKMeans" else check_hac)(plan, m, e[1], bad)
        out.append([np.asarray(m.labels_).tolist(), [round(float(q), 8) for q in m.centers_]])
    if plan["cls"] == "CircKMeans" and n["fits"] and not v:
        n["steps"] = steps(plan, plan["ev"][-1][1], bad)
    return v, n, out


def execute(plan):
    v, n, out = core.in_child(work, plan, timeout=100.0)
    return {"violations": v, "stats": {"class_" + plan["cls"]: 1, "fits": n["fits"], "rejected": n["rejected"], "reference_updates": n["steps"]},
            "faults": {"exception_in_fit": n["delivered"]}, "shape": common.digest(plan, out), "nontrivial": n["fits"] > 0, "trace": common.digest(out, v)}


def shrink(plan):
    for ev in core.drop_each(plan["ev"]):
        if ev:
            yield {**plan, "ev": ev}
    for i, e in enumerate(plan["ev"]):
        if e[0] != "bad" and len(e[1]) > 2:
            for sub in core.drop_each(e[1]):
                if sub:
                    yield {**plan, "ev": plan["ev"][:i] + [[e[0], sub] + e[2:]] + plan["ev"][i + 1:]}
