"""P08: distribution fits report the truth even when the optimiser misbehaves."""
import math
import core, ops, common

ID = "P08"
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one fit of one family to seeded data and weights while the optimiser calls it makes are answered by a seeded fault plan "
        "(raise, stop after k iterations, report failure, return a non-finite or out-of-range point with either flag), or fault-free with a comparison "
        "against weight rescaling / repetition / the method-of-moments start; non-trivial = at least one optimiser call was reached; "
        "distinct by hash of family, data, options, fault plan and outcome")
SHAPE = "distinct (family, data, options, fault plan, outcome) hashes"
REAL = ["pycircstat2.distributions fit methods", "scipy.optimize where the plan lets a call through"]
STUB = ["scipy.optimize.minimize / minimize_scalar / brentq / root_scalar wrapped by the fault plan"]
ASSUME = ["the likelihood oracle is the library's own pdf at the returned estimates (its correctness is P07)",
          "an optimiser that returns a point also returns the objective at that point"]
RUNS = {"quick": 700, "thorough": 60000}
TIMEOUT = 200.0
FITS = ["triangular", "cardioid", "cartwright", "wrapnorm", "wrapcauchy", "vonmises", "vonmises_flattopped", "jonespewsey",
        "jonespewsey_sineskewed", "jonespewsey_asym", "inverse_batschelet", "wrapstable", "katojones"]
SLOWFIT = {"jonespewsey", "jonespewsey_sineskewed", "jonespewsey_asym", "inverse_batschelet"}
KINDS = ["real", "raise", "early", "flag", "nan", "oob", "start"]
MOMENT_START = ("triangular", "cardioid", "cartwright", "wrapnorm", "wrapcauchy", "wrapstable", "katojones")   # the others start from a small-sample kappa
COMPARE = ("scale", "repeat", "permute")
METHODS = {"triangular": ["mle", "moments"], "cardioid": ["mle", "moments"], "cartwright": ["mle", "moments"], "wrapnorm": ["mle", "moments"],
           "wrapcauchy": ["mle", "moments"], "vonmises": ["mle", "moments", "analytical"], "katojones": ["moments", "mle"]}


def gen(rng, tier, i):
    d = FITS[i % len(FITS)]
    if d in SLOWFIT and rng.random() < 0.7:
        d = rng.choice([f for f in FITS if f not in SLOWFIT])
    n = rng.choice([3, 5, 8, 15, 30])
    u = rng.random()
    if u < 0.6:
        c, w = rng.uniform(0, 6.28), rng.choice([0.15, 0.5, 0.9, 1.5])
        data = [rng.gauss(c, w) % ops.TWO_PI for _ in range(n)]
    elif u < 0.75:
        data = [rng.uniform(0, ops.TWO_PI) for _ in range(n)]
    elif u < 0.85:      # balanced: no mean direction
        h = max(2, n // 2)
        a = [rng.uniform(0, math.pi) for _ in range(h)]
        data = a + [x + math.pi for x in a]
    elif u < 0.93:      # concentrated or constant
        c, w = rng.uniform(0, 6.28), rng.choice([0.0, 1e-6, 0.01])
        data = [(c + rng.uniform(-w, w)) % ops.TWO_PI for _ in range(n)]
    else:               # asymmetric two-lump
        c = rng.uniform(0, 6.28)
        data = [(c + (rng.gauss(0, 0.3) if rng.random() < 0.7 else rng.gauss(2.2, 0.5))) % ops.TWO_PI for _ in range(n)]
    data = [ops._r(x) for x in data]
    if rng.random() < 0.08:      # exactly symmetric about zero
        h = [ops._r(rng.uniform(0, 2)) for _ in range(max(2, n // 2))]
        data = h + [ops.TWO_PI - v for v in h] + [0.0] * rng.choice([0, 1])
    kw = {"return_info": True}
    if rng.random() < 0.4:
        kw["weights"] = {"$a": [float(rng.choice([0, 1, 1, 2, 3])) for _ in range(len(data) - 1)] + [rng.choice([1.0, 1.0, 2.5])]}
    if d in METHODS and rng.random() < 0.3:
        kw["method"] = rng.choice(METHODS[d])
    if d == "katojones" and rng.random() < 0.6:
        kw["method"] = "mle"
    if d == "jonespewsey_sineskewed" and rng.random() < 0.5:
        kw["refine"] = True
    if d not in ("triangular",) and rng.random() < 0.25:
        kw["optimizer"] = rng.choice(["Nelder-Mead", "Powell", "SLSQP", "TNC"])
    faults = []
    if rng.random() < 0.4:
        mode = rng.choice(["plain", "scale", "repeat", "permute"]) if d not in SLOWFIT else rng.choice(COMPARE)
        if kw.get("method", "mle") != "mle" and mode == "scale":
            mode = "repeat"
        if d == "wrapstable" and "weights" in kw:     # its truncated series can be negative at an observation of weight 0
            kw["weights"]["$a"] = [max(1.0, v) for v in kw["weights"]["$a"]]
    else:
        mode = "faults"
        slow = d in SLOWFIT
        for _ in range(rng.choice([1, 1, 2, 3])):
            faults.append(gen_fault(rng, rng.choice([k for k in KINDS if not slow or k not in ("real", "flag", "early")])))
        if slow:
            faults += [["start", rng.random() < 0.3] for _ in range(8)]
        if d == "triangular" and rng.random() < 0.5:
            faults = [["real"]] + faults
    return {"d": d, "data": data, "kw": kw, "mode": mode, "faults": faults}


def gen_fault(rng, k):
    if k == "raise":
        return ["raise", rng.choice(["runtime", "memory", "fp", "value", "linalg"])]
    if k == "early":
        return ["early", rng.choice([1, 1, 2, 4])]
    if k == "nan":
        return ["nan", rng.choice([-1, 0, 1, 2]), False, rng.choice(["nan", "inf", "-inf"])]
    if k == "oob":
        return ["oob", rng.choice([-1, 0, 1, 2, 3]), rng.random() < 0.5, rng.choice([-1, 1]), rng.choice([1e-12, 1e-6, 0.01, 1.0, 100.0])]
    if k == "start":
        return ["start", rng.random() < 0.3]
    return [k]


ORIG = None


def install(plan, log):
    """Wrap every optimiser entry point the library can reach."""
    global ORIG
    import numpy as np
    import scipy.optimize as so
    import pycircstat2.distributions as D
    names = ["minimize", "minimize_scalar", "brentq", "root_scalar", "root", "differential_evolution", "basinhopping", "brenth", "bisect"]
    todo = list(plan["faults"])

    def boom(kind):
        e = {"runtime": RuntimeError, "memory": MemoryError, "fp": FloatingPointError, "value": ValueError, "linalg": np.linalg.LinAlgError}[kind]
        raise e("injected optimiser failure")

    def point(res, x0, fun, bounds, f, args):
        """Distort the returned point; the objective is the one at that point."""
        x = np.array(res if res is not None else x0, dtype=float, copy=True).reshape(-1)
        idx = range(x.size) if f[1] < 0 else [f[1] % x.size]
        for j in idx:
            if f[0] == "nan":
                x[j] = float(f[3])
            else:
                lo, hi = (bounds[j] if bounds is not None and j < len(bounds) else (None, None))
                e = (lo if f[3] < 0 else hi)
                x[j] = (x[j] if e is None or not np.isfinite(e) else float(e)) + f[3] * f[4]
        try:
            v = float(np.asarray(fun(x, *args)).reshape(-1)[0])
        except Exception:
            v = float("nan")
        return x, v

    def probe(x0, b, fun, args):
        """Values of the objective at points that depend on the bounds only."""
        n = np.size(x0)
        got = []
        for t in (0.2, 0.45, 0.7):
            x = np.empty(n)
            for j in range(n):
                lo, hi = b[j] if b is not None else (None, None)
                lo = 0.1 if lo is None or not np.isfinite(lo) else float(lo)
                hi = lo + 2.0 if hi is None or not np.isfinite(hi) else min(float(hi), lo + 10.0)
                x[j] = lo + t * (hi - lo)
            try:
                v = float(np.asarray(fun(x, *args)).reshape(-1)[0])
            except Exception:
                v = float("nan")
            got.append(v)
        log.append(["probe", got])

    def w_minimize(real):
        def minimize(fun, x0, args=(), *a, **kw):
            f = todo.pop(0) if todo else ["real"]
            log.append(f[0])
            args = args if isinstance(args, tuple) else (args,)
            b = kw.get("bounds")
            if b is not None and hasattr(b, "lb"):
                b = list(zip(np.broadcast_to(b.lb, np.shape(x0)), np.broadcast_to(b.ub, np.shape(x0))))
            if f[0] == "raise":
                log.append("raised")
                boom(f[1])
            if f[0] == "probe":
                probe(x0, b, fun, args)
            if f[0] in ("nan", "oob"):
                x, v = point(None, x0, fun, b, f, args)
                r = so.OptimizeResult(x=x, fun=v, success=bool(f[2]), status=0 if f[2] else 2, message="injected", nit=3, nfev=5, jac=np.zeros_like(x))
            elif f[0] in ("start", "probe"):
                x = np.array(x0, dtype=float).reshape(-1)
                v = float(np.asarray(fun(x, *args)).reshape(-1)[0])
                r = so.OptimizeResult(x=x, fun=v, success=f[0] == "probe" or bool(f[1]), status=0, message="injected", nit=0, nfev=1, jac=np.zeros_like(x))
            elif f[0] == "early":
                o = dict(kw.get("options") or {})
                o["maxiter"] = f[1]
                r = real(fun, x0, args, *a, **{**kw, "options": o})
            else:
                r = real(fun, x0, args, *a, **kw)
                if f[0] == "flag":
                    r.success = False
                    r.status = 1
                    r.message = "injected: not converged"
            log.append([[float(t) for t in np.asarray(r.x).reshape(-1)], bool(r.success)])
            return r
        return minimize

    def w_scalar(real):
        def minimize_scalar(fun, bracket=None, bounds=None, args=(), *a, **kw):
            f = todo.pop(0) if todo else ["real"]
            log.append(f[0])
            if f[0] == "raise":
                log.append("raised")
                boom(f[1])
            if f[0] in ("nan", "oob", "start", "probe"):
                x0 = [0.5 * (bounds[0] + bounds[1])] if bounds is not None else [0.0]
                if f[0] == "probe":
                    probe(x0, None if bounds is None else [bounds], lambda z, *q: fun(float(np.asarray(z).reshape(-1)[0]), *q), args)
                    f = ["start", True]
                ff = f if f[0] != "start" else ["oob", 0, f[1], 1, 0.0]
                if f[0] == "start":
                    x, v = np.array(x0), float(fun(x0[0], *args))
                else:
                    x, v = point(None, x0, lambda z, *q: fun(float(np.asarray(z).reshape(-1)[0]), *q), None if bounds is None else [bounds], ff, args)
                r = so.OptimizeResult(x=float(x[0]), fun=v, success=bool(ff[2]), status=1, message="injected", nit=1, nfev=2)
            elif f[0] == "early":
                o = dict(kw.get("options") or {})
                o["maxiter"] = f[1]
                r = real(fun, bracket, bounds, args, *a, **{**kw, "options": o})
            else:
                r = real(fun, bracket, bounds, args, *a, **kw)
                if f[0] == "flag":
                    r.success = False
            log.append([[float(r.x)], bool(r.success)])
            return r
        return minimize_scalar

    def w_root(real, name):
        def root(*a, **kw):
            f = (todo.pop(0) if todo else ["real"]) if plan["d"] == "triangular" and plan["mode"] == "faults" else ["real"]
            if plan["d"] == "triangular":
                log.append(f[0])
            if f[0] in ("raise", "nan", "oob"):
                log.append("raised")
                boom(f[1] if f[0] == "raise" else "runtime")
            return real(*a, **kw)
        return root
    if ORIG is None:
        ORIG = {nm: getattr(so, nm) for nm in names}
        ORIG["where"] = [(mod, k, nm) for nm in names for mod in (D, so) for k, v in vars(mod).items() if v is ORIG[nm]]
    for nm in names:
        real = ORIG[nm]
        wr = w_minimize(real) if nm == "minimize" else w_scalar(real) if nm == "minimize_scalar" else w_root(real, nm)
        for mod, k, name in ORIG["where"]:
            if name == nm:
                setattr(mod, k, wr)


def admissible(dist, est):
    import numpy as np
    e = np.asarray(est, dtype=float).reshape(-1)
    return bool(np.all(np.isfinite(e))) and bool(np.all(dist._argcheck(*e)))


def loglik(dist, est, data, w):
    import numpy as np
    p = np.asarray(dist.pdf(data, *est), dtype=float)
    with np.errstate(all="ignore"):
        return float(np.sum(np.where(w > 0, w * np.log(p), 0.0)))


def fit(plan, data, kw, log):
    import numpy as np
    import pycircstat2.distributions as D
    ops.quiet()
    dist = getattr(D, plan["d"])
    if plan["mode"] == "faults":
        install(plan, log)
    elif plan["mode"] in COMPARE:
        install({**plan, "faults": [["probe"]] * 40}, log)
    kw = {k: (np.array(v["$a"], dtype=float) if isinstance(v, dict) and "$a" in v else v) for k, v in kw.items()}
    x = np.array(data, dtype=float)
    try:
        out = dist.fit(x, **kw)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return {"e": f"{type(e).__name__}: {e}"[:200], "log": log}
    est, info = out
    est = [float(v) for v in np.asarray(est, dtype=float).reshape(-1)]
    w = np.asarray(kw.get("weights", np.ones_like(x)), dtype=float)
    ok = admissible(dist, est)
    r = {"est": est, "ok": ok, "log": log, "ll": None, "method": str(info.get("method")),
         "conv": None if info.get("converged") is None else bool(info["converged"]), "true": None,
         "neff": None if info.get("n_effective") is None else float(info["n_effective"]), "neff_true": float(w.sum() ** 2 / (w ** 2).sum())}
    if info.get("loglik") is not None:
        r["ll"] = float(info["loglik"])
    if ok:
        r["true"] = loglik(dist, est, x, w)
    return r


def spec(plan):
    """Data and options of the comparison fit."""
    kw = dict(plan["kw"])
    x = list(plan["data"])
    w = kw["weights"]["$a"] if "weights" in kw else [1.0] * len(x)
    if plan["mode"] == "scale":
        kw["weights"] = {"$a": [v * 2.0 for v in w]}
    elif plan["mode"] == "repeat":
        kw["weights"] = {"$a": [float(round(v)) for v in w]}
    elif plan["mode"] == "permute":
        x, kw["weights"] = x[::-1], {"$a": list(w)[::-1]}
    return x, kw


def work(plan):
    out = {"a": fit(plan, plan["data"], plan["kw"], [])}
    if plan["mode"] == "faults":
        return out
    if plan["mode"] == "repeat":
        x, kw = spec(plan)
        out["a"] = fit(plan, x, kw, [])
        w = kw["weights"]["$a"]
        rep = [v for v, k in zip(x, w) for _ in range(int(k))]
        out["b"] = fit(plan, rep, {k: v for k, v in kw.items() if k != "weights"}, [])
    elif plan["mode"] in ("scale", "permute"):
        out["b"] = fit(plan, *spec(plan), [])
    else:
        import numpy as np, pycircstat2.distributions as D
        kw = {k: (np.array(v["$a"], dtype=float) if isinstance(v, dict) and "$a" in v else v) for k, v in plan["kw"].items()}
        kw.pop("return_info")
        try:
            out["bare"] = [float(v) for v in np.asarray(getattr(D, plan["d"]).fit(np.array(plan["data"]), **kw)).reshape(-1)]
        except Exception as e:
            out["bare"] = type(e).__name__
        if plan["d"] in METHODS and "optimizer" not in kw and kw.get("method", "mle") == "mle" and (plan["d"] != "katojones" or "method" in kw and len(plan["data"]) >= 15):
            out["m"] = fit(plan, plan["data"], {**plan["kw"], "method": "moments"}, [])
    return out


def compare(plan, a, b):
    """Objectives seen by the optimiser, and estimates where the optimiser only returns its start."""
    pa = [t[1] for t in a["log"] if isinstance(t, list) and t[0] == "probe"]
    pb = [t[1] for t in b["log"] if isinstance(t, list) and t[0] == "probe"]
    for u, v in zip(pa, pb):
        good = [(x, y) for x, y in zip(u, v) if math.isfinite(x) and math.isfinite(y) and abs(x) < 1e9]
        for x, y in good:
            x0, y0 = good[0]
            s = abs(x) * abs(y0) + abs(y) * abs(x0)
            if abs(x * y0 - y * x0) > 1e-6 * s + 1e-9:
                return f"objective values {u} against {v}"
            if plan["mode"] != "scale" and abs(x - y) > 1e-6 * (abs(x) + abs(y)) + 1e-9:
                return f"objective values {u} against {v}"
    if plan["mode"] != "scale" and a.get("true") is not None and b.get("true") is not None:
        if abs(a["true"] - b["true"]) > 1e-5 * (1 + abs(a["true"])) and not (a["true"] == b["true"]):
            return f"estimates {a['est']} ({a['true']}) against {b['est']} ({b['true']})"
    if plan["mode"] == "scale" and plan["d"] in MOMENT_START and "e" not in a and "e" not in b:
        if any(abs(x - y) > 1e-6 * (1 + abs(x)) and not abs(abs(x - y) - 2 * math.pi) < 1e-6 for x, y in zip(a["est"], b["est"])) and directed(plan):
            return f"start {a['est']} against {b['est']}"
    return None


def execute(plan):
    who = f"{plan['d']}.fit({len(plan['data'])} obs, {plan['kw'].get('method', '')} {plan['kw'].get('optimizer', '')} {plan['mode']} faults={plan['faults'][:3]})"
    try:
        o = core.in_child(work, plan, timeout=40.0 if plan["d"] in SLOWFIT else 100.0)
    except core.Hang:
        if plan["d"] in SLOWFIT:
            return common.empty_report("slow_fit_not_finished")
        raise
    viol = []
    r = o["a"]
    for k in ("a", "b", "m"):
        if k in o:
            judge1(plan, who, o[k], viol)
    if "bare" in o:
        if "e" in r:
            if not isinstance(o["bare"], str):
                viol.append({"class": "return-info", "msg": f"{who}: raises {r['e']} with return_info but returns {o['bare']} without"})
        elif isinstance(o["bare"], str) or any(not (a == b or abs(a - b) <= 1e-9 * (1 + abs(b))) for a, b in zip(o["bare"], r["est"])):
            viol.append({"class": "return-info", "msg": f"{who}: estimates {r['est']} with return_info, {o['bare']} without"})
    if "m" in o and r.get("true") is not None and o["m"].get("true") is not None:
        a, b = r["true"], o["m"]["true"]
        if math.isfinite(b) and not a >= b - 1e-3 * (1 + 0.01 * abs(b)):
            viol.append({"class": "worse-than-start", "msg": f"{who}: maximum likelihood estimates {r['est']} have log-likelihood {a}, the moment estimates {o['m']['est']} {b}"})
    if "b" in o:
        d = compare(plan, o["a"], o["b"])
        if d:
            viol.append({"class": plan["mode"], "msg": f"{who}: {d}"})
    calls = sum(1 for t in r["log"] if isinstance(t, str) and t != "raised")
    return {"violations": viol, "stats": {"fits": len(o), "optimiser_calls": calls, "raised": int("e" in r), "mode_" + plan["mode"]: 1},
            "faults": {t: sum(1 for u in r["log"] if u == t) for t in r["log"] if isinstance(t, str)},
            "shape": common.digest(plan, o), "nontrivial": calls > 0 or plan["mode"] != "faults", "trace": common.digest(o)}


def directed(plan):
    """Whether the data have a clear mean direction (otherwise the moment start is a saddle point of the likelihood)."""
    w = plan["kw"]["weights"]["$a"] if "weights" in plan["kw"] else [1.0] * len(plan["data"])
    c, s = sum(k * math.cos(v) for k, v in zip(w, plan["data"])), sum(k * math.sin(v) for k, v in zip(w, plan["data"]))
    return math.hypot(c, s) > 0.01 * sum(w)


def judge1(plan, who, r, viol):
    if "e" in r:
        return
    if not r["ok"]:
        viol.append({"class": "inadmissible", "msg": f"{who}: returned inadmissible estimates {r['est']} log={r['log']}"})
        return
    if r["ll"] is not None:
        a, b = r["ll"], r["true"]
        tol = 1e-4 + 1e-5 * abs(b) if math.isfinite(b) else 0
        if plan["d"] == "inverse_batschelet":
            tol += (2e-3 if abs(r["est"][3]) < 0.9 else 1e-2) * len(plan["data"])   # the density interpolates a table of the inverse
        n = len(plan["data"])
        if math.isfinite(b) and b > 5 * n:
            tol += 0.05 * abs(b)
        if not math.isfinite(b):        # density under- or overflows at the estimates: only the order of magnitude is known
            wrong = (b == -math.inf and a > -600) or (b == math.inf and not a > n)
        else:
            wrong = not abs(a - b) <= tol
        if wrong:
            viol.append({"class": "loglik", "msg": f"{who}: reports loglik {a!r}, returned estimates {r['est']} have {b!r} log={r['log']}"})
    if r["neff"] is not None and abs(r["neff"] - r["neff_true"]) > 1e-6 * r["neff_true"]:
        viol.append({"class": "n-effective", "msg": f"{who}: reports effective sample size {r['neff']}, the weights give {r['neff_true']}"})
    if r["conv"] and "log" in r:
        last = [t for t in r["log"] if isinstance(t, list) and t[0] != "probe"]
        if last and not any(t[1] for t in last):
            viol.append({"class": "converged", "msg": f"{who}: reports convergence although every optimiser call reported failure {r['log']}"})
        if r["log"] and not last and all(isinstance(t, str) for t in r["log"]) and "raised" in r["log"]:
            viol.append({"class": "converged", "msg": f"{who}: reports convergence although the optimiser raised {r['log']}"})


def shrink(plan):
    for k in range(len(plan["faults"])):
        yield {**plan, "faults": plan["faults"][:k] + plan["faults"][k + 1:]}
    if len(plan["data"]) > 3 and "weights" not in plan["kw"]:
        yield {**plan, "data": plan["data"][: len(plan["data"]) // 2 + 1]}
    for k in list(plan["kw"]):
        if k != "return_info":
            yield {**plan, "kw": {a: b for a, b in plan["kw"].items() if a != k}}
