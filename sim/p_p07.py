"""P07: density, distribution and quantile functions agree in every reached state."""
import math
import core, ops, common

ID = "P07"
LEVEL = "exploration"
RULE = ("one evaluation = one family at seeded parameters, queried for density, cdf, survival, log and quantile values (array, scalar, list and frozen "
        "calls) in a seeded state: first use, after a history of other calls, after an interrupted call, or while other threads query the same object; "
        "all identities between the answers are then checked; non-trivial = the identities were evaluated on complete answers; "
        "distinct by hash of parameters, state and answers")
SHAPE = "distinct (family, parameters, state) hashes"
REAL = ["pycircstat2.distributions and everything it calls (scipy, numpy)"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers"]
ASSUME = ["tolerances per family (TOL) reflect the documented tables and quadrature of the library: 1e-9 in probability for the closed-form families, 4e-4 for "
          "vonmises_flattopped, 3e-3 for inverse_batschelet", "integrals by 10-point Gauss-Legendre rules on at least 48 panels"]
RUNS = {"quick": 1200, "thorough": 30000}
TIMEOUT = 240.0
# (cdf against integral of pdf, total mass, cdf(ppf(q)) against q, monotonicity slack)
TOL = {"vonmises_flattopped": (4e-4, 1e-9, 1e-8, 1e-9), "inverse_batschelet": (3e-3, 5e-4, 1e-8, 1e-9), "wrapstable": (2e-7, 2e-7, 1e-8, 1e-9),
       "jonespewsey": (1e-6, 1e-6, 1e-8, 1e-9), "jonespewsey_sineskewed": (1e-6, 1e-6, 1e-8, 1e-9), "jonespewsey_asym": (5e-5, 2e-5, 1e-7, 1e-9)}
DEF = (1e-9, 1e-9, 1e-8, 1e-10)


def gen(rng, tier, i):
    d = ops.FAMS[i % len(ops.FAMS)]
    p = ops.gen_params(rng, d, 0.3)
    if rng.random() < 0.12:
        p = ops.concentrated(rng, d, p)
    u = rng.random()
    mode = "fresh" if u < 0.3 else "history" if u < 0.6 else "crash" if u < 0.8 else "threads"
    plan = {"d": d, "p": p, "mode": mode, "sty": rng.choice(["pos", "kw", "fr", "frkw", "sh"]), "x": ops.gen_x(rng, 4), "q": sorted(ops.gen_q(rng, 4)),
            "order": rng.randrange(1 << 30)}
    others = [ops.near_params(rng, d, p) for _ in range(2)] + [ops.gen_params(rng, d, 0.3)]
    slow = d in ops.SLOW or d == "inverse_batschelet"

    def call():
        q = rng.choice(others + [p])
        u = rng.random()
        if u < 0.12:
            return ops.gen_bad(rng, d)
        if u < 0.72 or slow:
            return ops.gen_eval(rng, d, q) if u < 0.8 else ops.gen_rvs(rng, d, q)
        if u < 0.95 or d not in ("cardioid", "cartwright", "wrapcauchy", "vonmises", "wrapnorm", "vonmises_flattopped"):
            return ops.gen_rvs(rng, d, q)
        return ops.gen_fit(rng, d, n=8)
    if mode in ("history", "crash"):
        plan["hist"] = [call() for _ in range(rng.choice([1, 2, 4, 8]))]
    if mode == "crash":
        plan["crashes"] = [[rng.randrange(len(plan["hist"])), rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp"])] for _ in range(rng.choice([1, 2]))]
    if mode == "threads":
        plan["p2"] = rng.choice(others)
        plan["trials"] = common.gen_trials(rng, 1)
    return plan


def edges(plan, p):
    import numpy as np
    two = 2 * math.pi
    e = list(np.linspace(0, two, 49))
    c = p[0] % two if len(p) > 1 else 0.0
    for h in (0.004, 0.012, 0.03, 0.06):
        for s in (-h, h):
            e.append((c + s) % two)
    e.append(c)
    if plan["d"] == "cartwright":       # |x - antimode| ** (2 / zeta): not smooth there
        a = (c + math.pi) % two
        e += [a] + [(a + s * 0.13 * 4.0 ** -k) % two for k in range(1, 14) for s in (-1, 1)]
    e = sorted(set(float(round(v, 12)) for v in e))
    e[0], e[-1] = 0.0, two
    return e


def nodes(e, k=10):
    import numpy as np
    t, w = np.polynomial.legendre.leggauss(k)
    x = [float(v) for a, b in zip(e[:-1], e[1:]) for v in (a + b) / 2 + (b - a) / 2 * t]
    W = [[float(v) for v in (b - a) / 2 * w] for a, b in zip(e[:-1], e[1:])]
    return x, W


def jobs(plan, p, light=False):
    """name -> op"""
    d = plan["d"]
    sty = plan["sty"]
    mk = lambda m, x, form="a", s=None: {"k": "dist", "d": d, "m": m, "p": p, "x": x, "form": form, "sty": s or sty}
    e = edges(plan, p) if not light else [float(2 * math.pi * j / 8) for j in range(9)]
    x, _ = nodes(e, 10 if not light else 4)
    J = {"cdf": mk("cdf", e), "pdf": mk("pdf", x)}
    xs = plan["x"]
    for m in ("pdf", "logpdf", "cdf", "logcdf", "sf", "logsf"):
        J["a " + m] = mk(m, xs)
    J["s pdf"] = mk("pdf", xs[:1], "s")
    J["s cdf"] = mk("cdf", xs[:1], "s")
    J["l cdf"] = mk("cdf", xs, "l")
    J["o pdf"] = mk("pdf", xs, "a", "fr" if sty in ("pos", "kw") else "pos")
    q = plan["q"]
    J["ppf"] = mk("ppf", q)
    J["s ppf"] = mk("ppf", q[-1:], "s")
    J["isf"] = mk("isf", [1 - v for v in q])
    return J


def after_ppf(plan, p, out, sty=None):
    v = vals(out.get("ppf"))
    if v is None or any(isinstance(t, str) for t in v):
        return None
    return {"k": "dist", "d": plan["d"], "m": "cdf", "p": p, "x": v, "form": "a", "sty": plan["sty"]}


def vals(o):
    if not o or "r" not in o:
        return None
    r = o["r"]
    if r[0] == "f":
        return [r[1]]
    if r[0] in ("a", "ai"):
        return r[2]
    if r[0] == "l":
        return [t[1] for t in r[1]]
    return None


def check(plan, p, out, light=False):
    d = plan["d"]
    tc, tm, tq, mono = TOL.get(d, DEF)
    if d == "vonmises_flattopped":     # trapezoidal table, 512 to 8192 panels
        tc = max(tc, 0.08 * p[1] * ((1 + abs(p[2])) * 2 * math.pi / 512) ** 2)
    if d == "inverse_batschelet":
        tc = max(tc, 0.2 * p[1] * (3 * 2 * math.pi / 512) ** 2)
    viol = []
    who = f"{d}{tuple(p)} ({plan['mode']})"

    def bad(cls, msg):
        viol.append({"class": cls, "msg": f"{who}: {msg}"})
    V = {}
    for k, o in out.items():
        v = vals(o)
        if v is None or any(isinstance(t, str) and not (k.split()[-1].startswith("log") and t == "-inf") for t in v):
            bad("raise" if o and "e" in o else "not-finite", f"{k}: {ops.brief(o) if o else None}")
            return viol, {}
        V[k] = [float(t) for t in v]
    dev = {}
    e = edges(plan, p) if not light else [float(2 * math.pi * j / 8) for j in range(9)]
    if min(V["pdf"]) < 0 or min(V["a pdf"]) < 0:
        bad("negative-density", f"pdf {min(V['pdf'])!r}")
    c = V["cdf"]
    if abs(c[0]) > 1e-9 or abs(c[-1] - 1) > 1e-9:
        bad("cdf-ends", f"cdf(0)={c[0]!r} cdf(2pi)={c[-1]!r}")
    step = min(b - a for a, b in zip(c[:-1], c[1:]))
    dev["mono"] = -min(step, 0)
    if step < -mono:
        bad("cdf-decreases", f"by {-step:.3g}")
    if min(c) < 0 or max(c) > 1:
        bad("cdf-range", f"{min(c)!r} {max(c)!r}")
    if not light:
        x, W = nodes(e)
        F, tot, k = [0.0], 0.0, 0
        for w in W:
            tot += sum(a * b for a, b in zip(w, V["pdf"][k:k + len(w)]))
            k += len(w)
            F.append(tot)
        dev["mass"] = abs(tot - 1)
        if abs(tot - 1) > tm:
            bad("mass", f"density integrates to {tot!r}")
        dd = max(abs(a - b) for a, b in zip(F, c))
        dev["cdf"] = dd
        if dd > tc:
            j = max(range(len(F)), key=lambda t: abs(F[t] - c[t]))
            bad("cdf-not-integral", f"cdf({e[j]:.4f})={c[j]!r} but the density integrates to {F[j]!r}")
    close = lambda a, b, t=1e-8: abs(a - b) <= t * max(1.0, abs(a), abs(b))
    for i in range(len(plan["x"])):
        if not close(V["a sf"][i], 1 - V["a cdf"][i], 1e-9):
            bad("sf", f"sf={V['a sf'][i]!r} cdf={V['a cdf'][i]!r}")
        for lg, m in (("logpdf", "pdf"), ("logcdf", "cdf"), ("logsf", "sf")):
            want = math.log(V["a " + m][i]) if V["a " + m][i] > 0 else -math.inf
            g = V["a " + lg][i]
            if V["a " + m][i] > 1e-12 and not close(g, want, 1e-7 if V["a " + m][i] > 1e-6 else 1e-3):
                bad("log", f"{lg}={g!r} but log({m})={want!r}")
            if V["a " + m][i] == 0 and g > -25:
                bad("log", f"{lg}={g!r} but {m}=0")
    for n, (a, b) in {"scalar pdf": ("s pdf", "a pdf"), "scalar cdf": ("s cdf", "a cdf"), "list cdf": ("l cdf", "a cdf"), "other style pdf": ("o pdf", "a pdf")}.items():
        for u, v in zip(V[a], V[b]):
            if not close(u, v, 1e-9):
                bad("styles-differ", f"{n}: {u!r} against {v!r}")
    if not close(V["s ppf"][0], V["ppf"][-1], 1e-6):
        bad("styles-differ", f"scalar ppf {V['s ppf'][0]!r} against {V['ppf'][-1]!r}")
    if any(not 0 <= v <= 2 * math.pi for v in V["ppf"]):
        bad("ppf-range", f"{V['ppf']}")
    if "cdfppf" in V:
        dq = max(abs(a - b) for a, b in zip(V["cdfppf"], plan["q"]))
        dev["ppf"] = dq
        if dq > tq:
            bad("ppf-not-inverse", f"cdf(ppf(q))={V['cdfppf']} for q={plan['q']}")
    for a, b, q in zip(V["isf"], V["ppf"], plan["q"]):
        if not close(a, b, 1e-6) and d != "inverse_batschelet" and 1e-6 < q < 1 - 1e-6:
            bad("isf", f"isf(1-q)={a!r} ppf(q)={b!r}")
    return viol, dev


def battery(plan, p, light=False):
    J = jobs(plan, p, light)
    names = list(J)
    core.rng_for("order", plan["order"]).shuffle(names)
    out = {}
    for n in names:
        out[n] = common.play(J[n])
    op = after_ppf(plan, p, out)
    if op:
        out["cdfppf"] = common.play(op)
    return out


def sequential(plan):
    import simsched
    ops.quiet()
    ops.share(list(jobs(plan, plan["p"]).values()))
    crashed = {k: (u, kind) for k, u, kind in plan.get("crashes", [])}
    delivered = 0
    for k, op in enumerate(plan.get("hist", [])):
        if k in crashed:
            u, kind = crashed[k]
            try:
                thunk, _ = ops.prepare(op)
                cr = common.cutter(thunk, u, 2.8, kind)
                try:
                    with cr:
                        ops.call(thunk)
                except BaseException as x:
                    if not simsched.is_injected(x):
                        raise
                delivered += cr.fired is not None
            except Exception:
                pass
        else:
            common.play(op)
    return battery(plan, plan["p"]), delivered


def threaded(plan, trial):
    ops.quiet()
    ps = [plan["p"], plan["p2"]]
    light = plan["d"] in ops.SLOW
    ops.share([op for p in ps for op in jobs(plan, p, light).values()])
    outs = [None, None]
    progs = []
    for i, p in enumerate(ps):
        def go(i=i, p=p):
            outs[i] = battery(plan, p, light)
        progs.append([go])
    _, sim, st = common.run_threads(progs, trial, plan.get("schedule"))
    return outs, sim.compact_slices(), sim.switches, st, [None if e is None else repr(e) for e in sim.errors], light


def execute(plan):
    stats, faults, viol, out_plan = {"mode_" + plan["mode"]: 1}, {}, [], None
    if plan["mode"] != "threads":
        out, n = core.in_child(sequential, plan, timeout=100.0)
        faults["exception_in_call"] = n
        viol, dev = check(plan, plan["p"], out)
        full = bool(dev)
        outs = [out]
        slices = []
    else:
        outs, slices, sw, st, errs, light = core.in_child(threaded, plan, plan["trials"][0], timeout=150.0)
        faults["preemption"] = sw
        full = True
        for o, p in zip(outs, [plan["p"], plan["p2"]]):
            if o is None:
                viol.append({"class": "deadlock" if st == "hang" else "raise", "msg": f"{plan['d']}: thread did not finish: {errs}"})
                continue
            v, dev = check(plan, p, o, light)
            viol += v
        if viol:
            out_plan = {**plan, "schedule": slices}
    rep = {"violations": viol, "stats": stats, "faults": faults, "shape": common.digest({k: v for k, v in plan.items() if k != "order"}, slices), "nontrivial": full,
           "trace": common.digest(plan, outs, slices)}
    if __debug__ and plan.get("measure"):
        rep["dev"] = dev
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan["mode"] in ("history", "crash") and plan.get("hist"):
        yield {k: v for k, v in {**plan, "mode": "fresh"}.items() if k not in ("hist", "crashes")}
        if not plan.get("crashes"):
            for h in core.drop_each(plan["hist"]):
                yield {**plan, "hist": h}
        else:
            for c in core.drop_each(plan["crashes"]):
                yield {**plan, "crashes": c}
    if plan["mode"] == "threads":
        yield {k: v for k, v in {**plan, "mode": "fresh"}.items() if k not in ("p2", "trials", "schedule")}
    if plan["sty"] != "pos":
        yield {**plan, "sty": "pos"}
    sch = plan.get("schedule")
    if sch and len(sch) > 1:
        yield {**plan, "schedule": sch[: len(sch) // 2]}
        step = max(1, len(sch) // 12)
        for i in range(0, len(sch), step):
            yield {**plan, "schedule": sch[:i] + sch[i + step:]}
