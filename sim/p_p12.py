"""P12: mixture models end every fit in a coherent state."""
import math
import core, ops, common

ID = "P12"
LEVEL = "exploration"
RULE = ("one evaluation = a history of fits (completed, rejected, cut by an exception, with failing component fits) of one mixture object; after every "
        "completed fit its whole state is checked against an independent reading of the stored parameters, and against objects with the same seed stopped "
        "one iteration later and a reference EM update; non-trivial = a completed fit followed another event or had more than one iteration; distinct by "
        "hash of plan and fitted parameters")
SHAPE = "distinct (history, fitted parameters) hashes"
REAL = ["pycircstat2.clustering MovM, MoKJ, MoCD and everything they call"]
STUB = ["component fit failures (wrapper on the fit method of the component distribution)", "exception delivery (sys.settrace)"]
ASSUME = ["the densities of the component distributions are those of pycircstat2.distributions (checked by P05, P06)",
          "data have at least two distinct values per component unless stated"]
RUNS = {"quick": 1200, "thorough": 40000}
TIMEOUT = 240.0
TWO = 2 * math.pi


def gen_data(rng, unit, cycle, k):
    n = rng.choice([6, 12, 25, 60])
    u = rng.random()
    cs = [rng.choice([0.0, rng.uniform(0, TWO), rng.uniform(0, TWO)]) for _ in range(max(1, k))]
    w = rng.choice([0.05, 0.2, 0.5, 1.0])
    x = [(rng.choice(cs) + rng.gauss(0, w)) % TWO for _ in range(n)]
    if u < 0.12:
        x = [rng.uniform(0, TWO) for _ in range(n)]
    elif u < 0.24:
        x = [round(v, 1) for v in x]
    elif u < 0.30:
        x = [v for v in x[: n // 3] for _ in range(3)]
    return [round(v * cycle / TWO, 6) for v in x]


def gen(rng, tier, i):
    cls = rng.choice(["MovM", "MovM", "MoCD", "MoCD", "MoKJ"])
    unit = rng.choice(["degree", "degree", "radian"])
    cycle = TWO if unit == "radian" else rng.choice([360, 360, 24, 7])
    k = rng.choice([1, 2, 2, 3, 5]) if cls != "MoKJ" else rng.choice([1, 2])
    init = {"n_clusters": k, "unit": unit, "full_cycle": cycle, "random_seed": rng.randrange(1 << 20), "burnin": rng.choice([0, 1, 3]),
            "threshold": rng.choice([1e-16, 1e-6, 1e-2, 0.3]), "n_iters": rng.choice([1, 2, 6, 30])}
    if cls == "MoKJ":
        init["n_iters"] = rng.choice([1, 2, 3])
        init["mle_maxiter"] = 15
        init["min_comp_weight"] = rng.choice([1e-6, 1e-6, 1e-3, 0.2, 0.45])
    if cls == "MoCD":
        init["distribution"] = rng.choice(["vonmises", "wrapcauchy", "cardioid", "wrapnorm", "cartwright"])
        init["n_iters"] = rng.choice([1, 2, 5, 12])
        init["fit_method"] = rng.choice(["auto", "auto", "moments", "moments", "mle"])
        if init["fit_method"] == "mle":
            init["n_iters"] = rng.choice([1, 2])
        if rng.random() < 0.15:
            init["fit_method"] = rng.choice([["moments", "mle"], ["mle", "moments"], ["moments"]])
        if rng.random() < 0.15 and init["distribution"] != "vonmises":
            init["fit_kwargs"] = {"optimizer": rng.choice(["L-BFGS-B", "L-BFGS-B", "nonsense"])}
    ev = []
    for j in range(rng.choice([1, 1, 2, 3])):
        u = rng.random()
        if u < 0.25 and cls != "MoKJ":
            ev.append(["crash", gen_data(rng, unit, cycle, k), rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp"])])
        elif u < 0.4:
            ev.append(["bad", rng.choice([[], [1.0] * max(0, k - 1), ["a"]])])
        elif u < 0.6 and cls != "MovM":
            ev.append(["failing", gen_data(rng, unit, cycle, k), sorted(rng.sample(range(12), rng.choice([1, 2, 4]))), rng.choice(["value", "runtime", "fp"])])
        ev.append(["fit", gen_data(rng, unit, cycle, k)])
    q = [round(rng.uniform(-0.3, 1.6) * cycle, 5) for _ in range(5)] + [0.0]
    return {"cls": cls, "init": init, "ev": ev, "q": q, "step": rng.random() < 0.5}


def build(plan, **over):
    import pycircstat2.clustering as C, pycircstat2.distributions as D
    kw = {**plan["init"], **over}
    if "distribution" in kw:
        kw["distribution"] = getattr(D, kw["distribution"])
    return getattr(C, plan["cls"])(**kw)


def comp(plan):
    import pycircstat2.distributions as D
    return {"MovM": D.vonmises, "MoKJ": D.katojones}.get(plan["cls"]) or getattr(D, plan["init"]["distribution"])


def rad(plan, x):
    import numpy as np
    x = np.asarray(x, dtype=float)
    return x if plan["init"]["unit"] == "radian" else TWO * x / plan["init"]["full_cycle"]


def params(plan, m):
    """List of keyword dictionaries as stored by the fitted model."""
    return [dict(p) for p in m.params_]


def logjoint(plan, p, par, a):
    import numpy as np
    d = comp(plan)
    with np.errstate(all="ignore"):
        return np.array([np.log(pk) + np.asarray(d.logpdf(a, **t), dtype=float) for pk, t in zip(p, par)])


def lse(L):
    import numpy as np
    m = L.max(axis=0)
    with np.errstate(all="ignore"):
        return m + np.log(np.exp(L - m).sum(axis=0))


def check(plan, m, x, v, where):
    """Everything that must hold after a completed fit."""
    import numpy as np
    from pycircstat2.descriptive import circ_kappa
    cls, K, init = plan["cls"], plan["init"]["n_clusters"], plan["init"]

    def bad(c, msg):
        if len(v) < 6:
            v.append({"class": c, "msg": f"{cls} {common.show(init)} {where}: {msg}"})
    a = rad(plan, x)
    n = len(a)
    p, par = np.asarray(m.p_, dtype=float), params(plan, m)
    gam = np.asarray(m.gamma_resp_ if cls == "MoKJ" else m.gamma_, dtype=float)
    if p.shape != (K,) or not np.all(p >= 0) or not abs(p.sum() - 1) < 1e-8:
        bad("weights", f"weights {p.tolist()}")
        return
    if len(par) != K:
        bad("params", f"{len(par)} parameter sets")
        return
    d = comp(plan)
    for t in par:
        if not all(math.isfinite(q) for q in t.values()) or not np.all(d._argcheck(*[t[s] for s in d.shapes.replace(" ", "").split(",")])):
            bad("params", f"inadmissible component {t}")
            return
    arrs = {"MovM": {"mu": "m_", "kappa": "kappa_"}, "MoKJ": {"mu": "mu_", "gamma": "gamma_", "rho": "rho_", "lam": "lam_"}, "MoCD": {}}[cls]
    for name, at in arrs.items():
        if not np.allclose(np.asarray(getattr(m, at), dtype=float), [t[name] for t in par], rtol=1e-12, atol=1e-12):
            bad("params", f"{at} = {getattr(m, at)} but params_ = {par}")
    if cls == "MoCD" and not np.allclose(m.param_matrix_, [[t[s] for s in m.param_names] for t in par], rtol=1e-12, atol=1e-12):
        bad("params", f"param_matrix_ {m.param_matrix_} but params_ {par}")
    if cls == "MovM" and not all(abs(max(float(circ_kappa(r=float(r))), 1e-3) - t["kappa"]) <= 1e-6 * (1 + t["kappa"]) for r, t in zip(m.r_, par)):
        bad("params", f"r_ {m.r_} does not belong to kappa_ {m.kappa_}")
    if m.n != n or not np.array_equal(np.asarray(m.data, dtype=float), np.asarray(x, dtype=float)) or not np.allclose(m.alpha, a, atol=1e-9):
        bad("data", f"n = {m.n} / stored data of another fit ({n} observations fitted)")
    if gam.shape != (K, n) or not np.all(np.isfinite(gam)) or np.any(gam < 0) or not np.allclose(gam.sum(axis=0), 1, atol=1e-8):
        bad("responsibilities", f"shape {gam.shape}, sums {gam.sum(axis=0)[:4] if gam.ndim == 2 else None}")
        return
    lab = np.asarray(m.labels_)
    if lab.shape != (n,) or np.any(gam[lab, np.arange(n)] < gam.max(axis=0) - 1e-9):
        bad("labels", "a label is not the most responsible component")
        return
    L = logjoint(plan, p, par, a)
    ll = lse(L)
    ref = np.exp(L - ll)
    okcol = np.isfinite(ll) & (ll > -60)         # below that the floor under the weights matters
    spike = any(q.get("rho", 0) > 1 - 1e-6 or q.get("kappa", 0) > 1e7 for q in par)      # log-densities move with the rounding of the angles
    if not spike and not np.allclose(gam[:, okcol], ref[:, okcol], atol=1e-6):
        bad("responsibilities", f"differ from those of the stored parameters by {np.abs(gam - ref)[:, okcol].max():.3g}")
    if np.all(okcol) and not spike:
        nll = -float(ll.sum())
        npar = {"MovM": 3 * K - 1, "MoKJ": 5 * K - 1}.get(cls) or K * len(m.param_names) + K - 1
        want = 2 * nll + math.log(n) * npar
        for f in ["compute_BIC"] + (["bic"] if cls == "MoCD" else []):
            got = float(getattr(m, f)())
            if not abs(got - want) <= 1e-6 * (1 + abs(want)):
                bad("bic", f"{f}() = {got}, stored parameters have {want}")
        if cls == "MoKJ" and not abs(float(m.nLL[-1]) - nll) <= 1e-6 * (1 + abs(nll)):
            bad("nLL", f"path ends at {m.nLL[-1]}, stored parameters have {nll}")
        if cls == "MovM" and not abs(float(m.compute_nLL(m.alpha, m.p_, m.m_, m.kappa_)) - nll) <= 1e-6 * (1 + abs(nll)):
            bad("nLL", f"compute_nLL = {m.compute_nLL(m.alpha, m.p_, m.m_, m.kappa_)}, stored parameters have {nll}")
        if cls == "MoCD":
            if not np.allclose(m.score_samples(x), ll, atol=1e-7) or not abs(float(m.score(x)) - ll.mean()) <= 1e-7 * (1 + abs(ll.mean())):
                bad("score", "score_samples / score differ from the stored parameters")
    path = np.asarray(m.nLL, dtype=float)
    if path.ndim != 1 or not 1 <= len(path) <= init["n_iters"] or not np.all(np.isfinite(path)):
        bad("nLL", f"path {path}")
        return
    if m.converged:
        if m.converged_iters != len(path) or len(path) - 1 <= init["burnin"] or abs(path[-1] - path[-2]) >= init["threshold"]:
            bad("converged", f"converged at {m.converged_iters} with path {path[-3:]} of length {len(path)}")
    else:
        early = [j for j in range(1, len(path)) if j > init["burnin"] and abs(path[j] - path[j - 1]) < init["threshold"]]
        if m.converged_iters is not None or len(path) != init["n_iters"] or early:
            bad("converged", f"not converged, converged_iters {m.converged_iters}, path length {len(path)} of {init['n_iters']}, small steps at {early[:3]}")
    if spike:
        return
    q = np.array(plan["q"])
    qa = rad(plan, q)
    Lq = logjoint(plan, p, par, qa)
    lq = lse(Lq)
    good = np.isfinite(lq) & (lq > -60)
    for name, pts, R in (("training data", x, gam), ("new data", q, np.exp(Lq - lq))):
        pp, lb = np.asarray(m.predict_proba(np.array(pts))), np.asarray(m.predict(np.array(pts)))
        cols = slice(None) if name[0] == "t" else good
        if pp.shape != R.shape or not np.allclose(pp[:, cols], R[:, cols], atol=1e-6):
            bad("predict", f"predict_proba on {name} differs from the stored parameters")
        elif lb.shape != (len(pts),) or np.any(pp[lb, np.arange(len(pts))] < pp.max(axis=0) - 1e-9):
            bad("predict", f"predict and predict_proba on {name} disagree")
    dens = sum(pk * np.asarray(comp(plan).pdf(qa, **t), dtype=float) for pk, t in zip(p, par))
    if not np.allclose(m.predict_density(q), dens, rtol=1e-7, atol=1e-9):
        bad("density", f"predict_density {np.asarray(m.predict_density(q))[:3]} at {q[:3]}, weighted components {dens[:3]}")
    if not np.allclose(m.predict_density(qa % TWO, unit="radian"), dens, rtol=1e-5, atol=1e-7):
        bad("density", "predict_density in radians differs")
    if cls != "MoCD" and not np.allclose(m.predict_proba(qa % TWO, unit="radian")[:, good], np.exp(Lq - lq)[:, good], atol=1e-5):
        bad("predict", "predict_proba in radians differs")
    g = np.asarray(m.predict_density(), dtype=float)
    grid = np.linspace(0, TWO, g.size, endpoint=False)
    want = sum(pk * np.asarray(comp(plan).pdf(grid, **t), dtype=float) for pk, t in zip(p, par))
    if not np.allclose(g, want, rtol=1e-6, atol=1e-8):
        bad("density", "predict_density() is not the density on its default grid over one cycle")
    if max(np.max(want), np.max(dens)) < 50 and all(q.get("kappa", 0) < 500 and q.get("rho", 0) < 0.98 for q in par):      # no spike narrower than the grid
        t = np.linspace(0, TWO, 4001)
        y = m.predict_density(t, unit="radian")
        mass = float(np.sum((y[1:] + y[:-1]) / 2) * (t[1] - t[0]))
        if not abs(mass - 1) < 1e-2:
            bad("density", f"density integrates to {mass}")


def reference_step(plan, m, x):
    """One EM update of the stored parameters, written independently of the fit loop."""
    import numpy as np
    from pycircstat2.descriptive import circ_kappa
    a = rad(plan, x)
    p, par = np.asarray(m.p_, dtype=float), params(plan, m)
    if any(q.get("rho", 0) > 1 - 1e-6 or q.get("kappa", 0) > 1e7 for q in par):
        return None
    L = logjoint(plan, np.maximum(p, 1e-32), par, a)
    ll = lse(L)
    R = np.exp(L - ll)
    new = []
    for k, t in enumerate(par):
        if R[k].sum() < 1e-6:
            return None
        if plan["cls"] == "MovM":
            z = np.sum(R[k] * np.exp(1j * a)) / R[k].sum()
            if abs(z) < 1e-6 or abs(z) > 1 - 1e-9:
                return None
            new.append({"mu": float(np.angle(z)) % TWO, "kappa": max(float(circ_kappa(r=abs(z))), 1e-3)})
        else:
            new.append(m._fit_component(a, R[k], current_params=t))
    return -float(ll.sum()), R.sum(axis=1) / R.sum(), new


def step(plan, x, v):
    """The fit stopped after j and after j+1 iterations: prefix of the path, and one EM update between them."""
    import numpy as np
    j = min(plan["init"]["n_iters"], 4 if plan["cls"] == "MovM" else 2)
    a, b = build(plan, n_iters=j, threshold=1e-300), build(plan, n_iters=j + 1, threshold=1e-300)
    a.fit(np.array(x)), b.fit(np.array(x))

    def bad(c, msg):
        v.append({"class": c, "msg": f"{plan['cls']} {common.show(plan['init'])} stopped after {j} and {j + 1} iterations: {msg}"})
    if a.converged or b.converged:
        return      # an exact fixed point
    if not np.allclose(a.nLL, b.nLL[:j], rtol=1e-9, atol=1e-9):
        bad("path", f"paths {a.nLL} and {b.nLL} do not agree")
        return
    ref = reference_step(plan, a, x)
    if ref is None:
        return
    nll, p, par = ref
    if abs(nll) > 40 * len(x):
        return
    if not abs(float(b.nLL[j]) - nll) <= 1e-6 * (1 + abs(nll)):
        bad("path", f"parameters after {j} iterations have {nll}, the path continues with {b.nLL[j]}")
    if not np.allclose(b.p_, p, atol=1e-6):
        bad("em-update", f"weights {b.p_}, one EM update of the previous parameters gives {p}")
    for s, t in zip(params(plan, b), par):
        for name in t:
            e = s[name] - t[name]
            if name == "mu":
                e = math.remainder(e, TWO)
            if abs(e) > 1e-5 * (1 + abs(t[name])):
                bad("em-update", f"component {s}, one EM update of the previous parameters gives {t}")
                return


class Failing:
    """Component fits that fail at chosen calls."""

    def __init__(self, dist, at, kind):
        self.d, self.at, self.kind, self.calls, self.fired = dist, set(at), kind, 0, 0

    def __enter__(self):
        import functools
        real = self.d.fit

        @functools.wraps(real)
        def fit(*a, **k):
            n = self.calls
            self.calls += 1
            if n in self.at:
                self.fired += 1
                raise {"value": ValueError, "runtime": RuntimeError, "fp": FloatingPointError}[self.kind]("injected component fit failure")
            return real(*a, **k)
        self.d.fit = fit
        return self

    def __exit__(self, *e):
        del self.d.__dict__["fit"]


def work(plan):
    import numpy as np, simsched
    ops.quiet()
    m = build(plan)
    v, n = [], {"fits": 0, "crash": 0, "delivered": 0, "rejected": 0, "component_failures": 0, "incomplete": 0}
    out = []
    for e in plan["ev"]:
        if e[0] == "bad":
            try:
                m.fit(np.array(e[1]))
            except Exception:
                n["rejected"] += 1
            continue
        if e[0] == "crash":
            n["crash"] += 1
            cr = common.cutter(lambda: m.fit(np.array(e[1])), e[2], 3.9, e[3])
            done = False
            try:
                with cr:
                    m.fit(np.array(e[1]))
                    done = True
            except BaseException as x:
                if not simsched.is_injected(x) and not isinstance(x, (ValueError, RuntimeError)):
                    raise
            n["delivered"] += cr.fired is not None
            if not done:
                continue
        elif e[0] == "failing":
            with Failing(comp(plan), e[2], e[3]) as f:
                try:
                    m.fit(np.array(e[1]))
                    done = True
                except (ValueError, RuntimeError, FloatingPointError):
                    done = False
            n["component_failures"] += f.fired
            if not done:
                continue
        else:
            try:
                m.fit(np.array(e[1]))
            except (ValueError, RuntimeError) as x:      # a fit may give up, but then it must say so
                n["incomplete"] += 1
                out.append(type(x).__name__)
                continue
        n["fits"] += 1
        check(plan, m, e[1], v, f"after {[t[0] for t in plan['ev'][:plan['ev'].index(e) + 1]]}")
        out.append([round(float(q), 9) for q in np.asarray(m.p_).reshape(-1)] + [round(float(q), 7) for q in np.asarray(m.nLL)[-2:]])
        if v:
            break
    if not v and plan["step"] and plan["cls"] != "MoKJ" and n["fits"]:
        try:
            step(plan, plan["ev"][-1][1], v)
        except (RuntimeError, ValueError):
            pass
    return v, n, out


def execute(plan):
    v, n, out = core.in_child(work, plan, timeout=200.0)
    return {"violations": v, "stats": {"class_" + plan["cls"]: 1, **{k: n[k] for k in ("fits", "rejected", "incomplete")}},
            "faults": {"exception_in_fit": n["delivered"], "component_fit_failure": n["component_failures"]},
            "shape": common.digest(plan, out), "nontrivial": n["fits"] > 0 and (len(plan["ev"]) > 1 or plan["init"]["n_iters"] > 1), "trace": common.digest(out, v)}


def shrink(plan):
    for ev in core.drop_each(plan["ev"]):
        if ev:
            yield {**plan, "ev": ev}
    if plan["step"]:
        yield {**plan, "step": False}
    for i, e in enumerate(plan["ev"]):
        if e[0] != "bad" and len(e[1]) > 6:
            yield {**plan, "ev": plan["ev"][:i] + [[e[0], e[1][: len(e[1]) // 2 + 1]] + e[2:]] + plan["ev"][i + 1:]}
