"""P18: Circular objects are stable; use never changes their statistics."""
import numpy as np
import core, ops, common

ID = "P18"
LEVEL = "exploration"
RULE = ("one evaluation = several Circular/Axial objects built from shared arrays and shared option dictionaries, then printed, summarised, plotted (any configuration, "
        "working or failing axes), passed to tests and other functions, cut short by exceptions, discarded, or used by threads, in one forked process; after every event each "
        "object's statistics are compared with the same object built alone in a pristine process and with functional calls on its data, and the answers of the uses themselves "
        "with the same use alone; non-trivial = at least two uses; distinct by hash of objects, events and fault points")
SHAPE = "distinct (objects, event sequence, fault points or schedule)"
REAL = ["pycircstat2.base, visualization, descriptive, hypothesis, correlation, clustering"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers, failing axes"]
ASSUME = ["plotting stores the drawn density curve (density_x, density_f) on the plotted object", "bootstrap intervals are compared under the same numpy global seed at construction"]
RUNS = {"quick": 400, "thorough": 25000}
TIMEOUT = 240.0

STATS = ops.STATS_OF_CIRC + ["full_cycle", "n_clusters_max", "kwargs_median", "kwargs_mean_ci", "alpha_lb", "alpha_ub", "alpha_double", "data_double", "median_ci_level"]
PAIR = ["hypothesis.watson_williams_test", "hypothesis.watson_u2_test", "hypothesis.wheeler_watson_test", "hypothesis.wallraff_test",
        "hypothesis.angular_randomisation_test", "correlation.circ_corrcc", "descriptive.circ_mean_and_r_of_means"]
ONE = ["hypothesis.rayleigh_test", "hypothesis.kuiper_test", "hypothesis.watson_test", "hypothesis.omnibus_test", "hypothesis.symmetry_test", "hypothesis.rao_spacing_test",
       "hypothesis.V_test", "hypothesis.change_point_test", "hypothesis.circ_range_test", "hypothesis.binomial_test",
       "descriptive.circ_mean", "descriptive.circ_r", "descriptive.circ_median", "descriptive.circ_quantile", "descriptive.circ_dispersion",
       "descriptive.circ_range", "descriptive.circ_mean_deviation", "descriptive.circ_mean_ci", "descriptive.circ_moment", "utils.angmod", "utils.rad2data",
       "clustering.MovM", "clustering.CircKMeans", "clustering.CircHAC", "fit.vonmises", "fit.wrapcauchy"]


def gen_objs(rng):
    n = rng.choice([9, 14, 20, 30])
    base = ops.angles(rng, n)
    unit = rng.choice(["degree", "radian", "hour"])
    scale = {"degree": 360 / ops.TWO_PI, "radian": 1.0, "hour": 24 / ops.TWO_PI}[unit]
    arrays = [[round(a * scale, 4) for a in base], [round(a * scale, 4) for a in ops.angles(rng, n)]]
    kci = [{"method": rng.choice(["approximate", "dispersion", "bootstrap"])} for _ in range(2)]
    kmed = [{"method": rng.choice(["count", "deviation"]), "average_method": rng.choice(["all", "unique"])}, {"method": "deviation"}]
    objs = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        o = {"c": rng.choice(["Circular", "Circular", "Axial"]), "data": rng.choice([0, 0, 1]), "unit": unit, "seed": rng.randrange(1 << 30)}
        if rng.random() < 0.7:
            o["ci"] = rng.choice([0, 0, 1])
        elif n >= 25 or rng.random() < 0.8:
            o["ci"] = None
        if rng.random() < 0.6:
            o["med"] = rng.choice([0, 0, 1])
        if o["c"] == "Circular":
            u = rng.random()
            if u < 0.15:
                o["rotate"] = round(rng.uniform(-4, 4), 3)
            elif u < 0.3:
                o["bins"] = rng.choice([8, 12])
        if rng.random() < 0.15:
            o["mix"] = 2
        objs.append(o)
    return {"arrays": arrays, "kci": kci, "kmed": kmed, "as_list": rng.random() < 0.3}, objs


def gen_use(rng, n, objs, light=False):
    j = rng.randrange(n)
    u = rng.random()
    if u < 0.18:
        return ["say", j, rng.choice(["summary", "__repr__", "__str__"])]
    if u < 0.42 and not light:
        return ["plot", j, ops.gen_plot_cfg(rng, objs[j].get("bins") is not None) if rng.random() < 0.8 else None,
                rng.choice(["polar", "polar", "polar", "cart", "bad", None]), rng.choice([1, 2, 3, 5, 8, 13, 20])]
    if u < 0.62:
        k = rng.randrange(n)
        name = rng.choice(PAIR)
        return ["fn", name, [j, k] + ([rng.randrange(n)] if rng.random() < 0.2 and name not in ("correlation.circ_corrcc", "hypothesis.watson_u2_test") else []),
                rng.choice(["", "verbose"])]
    return ["fn", rng.choice(ONE), [j], ""]


def gen(rng, tier, i):
    pool, objs = gen_objs(rng)
    mode = rng.choice(["history", "history", "history", "threads"])
    plan = {"mode": mode, "pool": pool, "objs": objs}
    if mode == "threads":
        plan["threads"] = [[gen_use(rng, len(objs), objs, True) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]
        plan["trials"] = common.gen_trials(rng, 2)
        return plan
    ev = []
    for _ in range(rng.choice([3, 5, 8])):
        u = rng.random()
        if u < 0.62:
            ev.append(gen_use(rng, len(objs), objs))
        elif u < 0.82:
            ev.append(["cut", gen_use(rng, len(objs), objs), rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp"])])
        elif u < 0.9:
            ev.append(["rebuild", rng.randrange(len(objs)), rng.random() if rng.random() < 0.5 else None, rng.random() < 0.5])
        else:
            ev.append(["noise", ops.gen_fn(rng)])
    plan["ev"] = ev
    plan["cfg"] = rng.random() < 0.5      # one configuration dictionary for all plots
    return plan


# --------------------------------------------------------------------------
class Pool:
    """The caller's arrays and option dictionaries, shared by its objects."""

    def __init__(self, p):
        self.a = [list(x) if p["as_list"] else np.array(x, dtype=float) for x in p["arrays"]]
        self.kci = [dict(x) for x in p["kci"]]
        self.kmed = [dict(x) for x in p["kmed"]]


def build(pool, o):
    import pycircstat2
    kw = {"data": pool.a[o["data"]], "unit": o["unit"]}
    if "ci" in o:
        kw["kwargs_mean_ci"] = None if o["ci"] is None else pool.kci[o["ci"]]
    if "med" in o:
        kw["kwargs_median"] = pool.kmed[o["med"]]
    for k, n in (("rotate", "rotate"), ("bins", "bins"), ("mix", "n_clusters_max")):
        if k in o:
            kw[n] = o[k]
    np.random.seed(o["seed"] % (1 << 31))
    return getattr(pycircstat2, o["c"])(**kw)


def stats(c):
    out = [ops.canon(getattr(c, a, "<absent>")) for a in STATS]
    out += [ops.canon(repr(c)), ops.canon(c.summary())]
    if getattr(c, "mixtures", None):
        out.append(ops.canon([[m.m_, m.kappa_, m.p_] for m in c.mixtures]))
    return out


def drawn(c):
    """What the default statistics of an object look like on fresh axes."""
    import matplotlib.pyplot as plt
    ax = plt.figure().add_subplot(projection="polar")
    try:
        c.plot(ax=ax, config={"density": False, "median": False, "mean": False} if c.grouped or not np.isfinite(c.mean_lb) else {"median": False})
        out = [[np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), str(l.get_color()), l.get_linestyle()] for l in ax.lines]
        out += [[np.asarray(k.get_offsets(), float), np.asarray(k.get_sizes(), float)] for k in ax.collections if hasattr(k, "get_sizes")]
        out += [[p.get_x(), p.get_height(), p.get_width(), list(p.get_facecolor())] for p in ax.patches]
        out += [[t.get_text(), list(t.get_position())] for t in ax.texts] + [list(ax.get_ylim())]
        return ops.canon(out)
    except Exception as e:
        return ["raised", type(e).__name__]
    finally:
        plt.close("all")


def use(objs, u, cfg=None):
    """One use of the objects; returns an outcome."""
    if u[0] == "say":
        return ops.call(lambda: getattr(objs[u[1]], u[2])())
    if u[0] == "plot":
        import matplotlib.pyplot as plt
        c = cfg if cfg is not None else ops.dec(u[2])
        ax = None
        if u[3] == "polar":
            ax = plt.figure().add_subplot(projection="polar")
        elif u[3] == "cart":
            ax = plt.figure().add_subplot()
        elif u[3] == "bad":
            ax = ops.BadAx(u[4])

        def go():
            try:
                objs[u[1]].plot(ax=ax, config=c)
            finally:
                plt.close("all")
        return ops.call(go)
    name, idx = u[1], u[2]
    cs = [objs[k] for k in idx]
    c = cs[0]
    if name.startswith("fit."):
        import pycircstat2.distributions as D
        return ops.call(lambda: getattr(D, name[4:]).fit(c.alpha, weights=c.w.astype(float)))
    f = ops.resolve(name)
    kw = {"verbose": True} if u[3] == "verbose" and name.startswith("hypothesis.") else {}
    if name == "correlation.circ_corrcc":
        return ops.call(lambda: f(cs[0], cs[-1], test=True))
    if name == "descriptive.circ_mean_and_r_of_means":
        return ops.call(lambda: f(circs=cs))
    if name == "hypothesis.angular_randomisation_test":
        return ops.call(lambda: f(cs, n_simulation=9, seed=3))
    if name in PAIR:
        return ops.call(lambda: f(cs, **kw))
    if name.startswith("clustering."):
        def go():
            m = f(n_clusters=2, unit="radian", full_cycle=2 * np.pi, random_seed=1, **({"n_iters": 5} if name.endswith("MovM") else {}))
            m.fit(c.alpha)
            return m.labels_
        return ops.call(go)
    last = name.rsplit(".", 1)[1]
    if last in ("kuiper_test", "watson_test", "rao_spacing_test"):
        return ops.call(lambda: f(c.alpha, n_simulation=9, seed=2))
    if last in ("rayleigh_test", "circ_mean", "circ_r", "circ_dispersion", "circ_moment"):
        return ops.call(lambda: f(alpha=c.alpha, w=c.w))
    if last == "V_test":
        return ops.call(lambda: f(c.mean, alpha=c.alpha, w=c.w))
    if last == "circ_mean_ci":
        return ops.call(lambda: f(alpha=c.alpha, w=c.w, method="dispersion"))
    if last == "circ_mean_deviation":
        return ops.call(lambda: f(c.alpha, c.alpha))
    if last == "binomial_test":
        return ops.call(lambda: f(c.alpha, c.median))
    if last == "circ_median":
        return ops.call(lambda: f(c.alpha, c.w) if c.grouped else f(c.alpha))
    if last == "rad2data":
        return ops.call(lambda: f(c.alpha, k=c.full_cycle))
    return ops.call(lambda: f(c.alpha))


def functional(c, axial):
    """Public statistics against the functional calls on the object's data."""
    from pycircstat2 import descriptive as d, hypothesis as h, utils as u
    al, w = (c.alpha_double if axial else c.alpha), c.w
    half = 2.0 if axial else 1.0
    m, r = d.circ_mean_and_r(alpha=al, w=w)
    km = c.kwargs_median
    pairs = {"mean": (c.mean * half, m), "r": (c.r, r), "n": (c.n, np.sum(w)), "R": (c.R, np.sum(w) * r),
             "kappa": (c.kappa, d.circ_kappa(r=r, n=np.sum(w))), "s": (c.s, d.angular_std(r=r, bin_size=c.bin_size)),
             "s0": (c.s0, d.circ_std(r=r, bin_size=c.bin_size)), "skewness": (c.skewness, d.circ_skewness(alpha=al, w=w)),
             "kurtosis": (c.kurtosis, d.circ_kurtosis(alpha=al, w=w)),
             "median": (c.median, d.circ_median(alpha=al, w=w, method=km["method"], return_average=km["return_average"], average_method=km["average_method"])),
             "mean test": (c.mean_test_result.pval, h.rayleigh_test(alpha=al, w=w).pval)}
    if c.method_mean_ci in ("approximate", "dispersion") and c.mean_test_result.pval < 0.05:
        lb, ub = d.circ_mean_ci(alpha=al, w=w, ci=c.mean_ci_level, method=c.method_mean_ci)
        pairs["mean_lb"], pairs["mean_ub"] = (c.mean_lb * half, lb), (c.mean_ub * half, ub)
    if not c.grouped:
        pairs["alpha"] = (c.alpha, None)
        al0 = u.data2rad(np.asarray(c.data, float), c.full_cycle)
        pairs.pop("alpha")
        if axial:
            pairs["alpha"] = (np.cos(c.alpha - al0), np.ones_like(al0))
    return {k: (ops.canon(a), ops.canon(b)) for k, (a, b) in pairs.items()}


def alone(plan, j):
    ops.quiet()
    c = build(Pool(plan["pool"]), plan["objs"][j])
    return stats(c), drawn(c)


def alone_use(plan, u):
    ops.quiet()
    objs = {}
    for j in (u[2] if u[0] == "fn" else [u[1]]):
        if j not in objs:
            objs[j] = build(Pool(plan["pool"]), plan["objs"][j])
    return use(objs, u)


def names_of(k):
    return (STATS + ["repr", "summary", "mixtures"])[k]


def compare(j, o, c, want, viol, when):
    from canon import same
    got = stats(c)
    for k, (a, b) in enumerate(zip(got, want)):
        d = same(a, b, 1e-12, 1e-13)
        if d:
            viol.append({"class": "changed", "msg": f"object {j} {o}: {names_of(k)} after {when}: {d}"})
            return


def history(plan, want):
    import simsched
    from canon import same
    ops.quiet()
    pool = Pool(plan["pool"])
    n = {"uses": 0, "delivered": 0, "raised": 0}
    viol, outs = [], []
    objs = {}
    for j, o in enumerate(plan["objs"]):
        if want[j] is not None:
            objs[j] = build(pool, o)
    shared_cfg = {"rose": {"bins": 6}, "mean": False, "median": False, "density": False} if plan.get("cfg") else None
    for e in plan["ev"]:
        when = common.show(e)[:160]
        u = e[1] if e[0] == "cut" else e
        if e[0] != "noise" and any(k not in objs for k in (u[2] if u[0] == "fn" else [u[1]])):
            continue
        if e[0] == "noise":
            common.play(e[1])
            outs.append(None)
        elif e[0] == "rebuild":
            cr = common.cutter(lambda: build(pool, plan["objs"][e[1]]), e[2], 3, "interrupt") if e[2] is not None else simsched.Crasher(None)
            try:
                with cr:
                    c = build(pool, plan["objs"][e[1]])
                if e[3]:
                    objs[e[1]] = c
                c = None
            except simsched.InjectedInterrupt:
                n["delivered"] += 1
            outs.append(None)
        elif e[0] == "cut":
            cr = common.cutter(lambda: use(objs, u, shared_cfg if u[0] == "plot" else None), e[2], 3, e[3])
            try:
                with cr:
                    use(objs, u, shared_cfg if u[0] == "plot" else None)
            except BaseException as x:
                if not simsched.is_injected(x):
                    raise
            n["delivered"] += cr.fired is not None
            outs.append(None)
        else:
            r = use(objs, e, shared_cfg if e[0] == "plot" else None)
            n["uses"] += 1
            n["raised"] += "e" in r
            outs.append(r if e[0] != "plot" else None)
        for j in objs:
            compare(j, plan["objs"][j], objs[j], want[j][0], viol, when)
        if viol:
            break
    for j in objs:
        if viol:
            break
        for k, (a, b) in functional(objs[j], plan["objs"][j]["c"] == "Axial").items():
            d = same(a, b, 1e-10, 1e-10)
            if d:
                viol.append({"class": "not-functional", "msg": f"object {j} {plan['objs'][j]}: {k} differs from the functional call: {d}"})
        d = drawn(objs[j])
        dd = same(d, want[j][1], 1e-9, 1e-9)
        if dd:
            viol.append({"class": "drawn", "msg": f"object {j} {plan['objs'][j]} is drawn differently at the end: {dd}"})
    return viol, outs, n


def threaded(plan, trial, want):
    ops.quiet()
    pool = Pool(plan["pool"])
    objs = {j: build(pool, o) for j, o in enumerate(plan["objs"]) if want[j] is not None}
    progs = [[(lambda u: (lambda: use(objs, u)))(u) for u in t if all(k in objs for k in (u[2] if u[0] == "fn" else [u[1]]))] for t in plan["threads"]]
    outs, sim, status = common.run_threads(progs, trial, plan.get("schedule"))
    viol = []
    for j in objs:
        compare(j, plan["objs"][j], objs[j], want[j][0], viol, "concurrent use")
    return viol, outs, sim.compact_slices(), sim.switches, status


def execute(plan):
    want, viol, stats_, faults, shapes, traces, out_plan = [], [], {"objects": len(plan["objs"]), "mode_" + plan["mode"]: 1}, {}, [], [], None
    for j in range(len(plan["objs"])):
        try:
            want.append(core.in_child(alone, plan, j, timeout=60.0))
        except core.ChildError as e:
            if core.library_raised(str(e)) is None:
                raise
            want.append(None)
    memo = {}

    def judge(u, got):
        if got is None or u[0] == "plot":
            return
        k = common.digest(u)
        if k not in memo:
            memo[k] = core.in_child(alone_use, plan, u, timeout=60.0)
        d = ops.differ({"k": "obj"}, got, memo[k])
        if d:
            viol.append({"class": "wrong-result", "msg": f"{common.show(u)} on {[plan['objs'][x] for x in (u[2] if u[0] == 'fn' else [u[1]])]}: {d}"})
    if plan["mode"] == "history":
        v, outs, n = core.in_child(history, plan, want, timeout=150.0)
        viol += v
        live = [e for e in plan["ev"] if e[0] == "noise" or all(want[k] is not None for k in ((e[1] if e[0] == "cut" else e)[2] if (e[1] if e[0] == "cut" else e)[0] == "fn" else [(e[1] if e[0] == "cut" else e)[1]]))]
        for e, o in zip(live, outs):
            if e[0] in ("say", "fn"):
                judge(e, o)
        stats_.update(n)
        faults["exception_in_use"] = n["delivered"]
        shapes.append(common.digest(plan))
        traces.append(common.digest(outs))
        nt = n["uses"] + n["delivered"] >= 2
    else:
        nt = False
        for trial in plan["trials"]:
            v, outs, slices, sw, status = core.in_child(threaded, plan, trial, want, timeout=150.0)
            viol += v
            for t, os_ in zip(plan["threads"], outs):
                t = [u for u in t if all(want[k] is not None for k in (u[2] if u[0] == "fn" else [u[1]]))]
                for u, o in zip(t, os_):
                    judge(u, o)
            if status == "hang":
                viol.append({"class": "deadlock", "msg": common.show(plan["threads"])})
            faults["preemption"] = faults.get("preemption", 0) + sw
            shapes.append(common.digest(plan["objs"], plan["threads"], slices))
            traces.append(common.digest(outs, slices))
            nt = nt or sw >= 1
            if viol:
                out_plan = {**plan, "trials": [trial], "schedule": slices}
                break
    rep = {"violations": viol[:4], "stats": stats_, "faults": faults, "shape": shapes, "nontrivial": nt, "trace": common.digest(traces, plan["objs"])}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan["mode"] == "history":
        for ev in core.drop_each(plan["ev"]):
            yield {**plan, "ev": ev}
