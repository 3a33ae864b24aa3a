"""P17: process-wide state is left as it was found."""
import os, sys
import core, ops, common

ID = "P17"
LEVEL = "exploration"
RULE = ("one evaluation = a sequence of public calls (returning, rejecting, warning under filters that turn warnings into errors, plotting on failing axes, cut by exceptions "
        "at chosen points, or run by several threads) in a process whose numpy error handling, print options, warning filters, plotting settings, directory, environment and "
        "random state were set to unusual values; all of it is read back after every call; non-trivial = at least two calls; distinct by hash of calls, starting state and fault points")
SHAPE = "distinct (call sequence, starting state, fault points or schedule)"
REAL = ["the whole package"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers, failing axes"]
ASSUME = ["figures created by plotting without an axis stay open by design", "unseeded draws and the bootstrap interval may consume numpy's global random state (not used here)"]
RUNS = {"quick": 1000, "thorough": 40000}
TIMEOUT = 200.0


def gen_call(rng, light=False):
    u = rng.random()
    if u < 0.34:
        return ops.gen_fn(rng)
    if u < 0.42:
        return ops.gen_mc(rng)
    if u < 0.50:
        return ops.gen_bad_fn(rng)
    if u < 0.60:
        return ops.gen_eval(rng)
    if u < 0.66:
        return ops.gen_rvs(rng, seed=ops.gen_seed(rng))
    if u < 0.70:
        return ops.gen_bad(rng)
    if u < 0.74:
        return ops.gen_stat(rng, rng.choice(["vonmises", "wrapcauchy", "cardioid", "wrapnorm", "cartwright", "triangular", "circularuniform"]))
    if u < 0.80:
        return ops.gen_fit(rng, rng.choice(["cardioid", "cartwright", "wrapcauchy", "vonmises", "wrapnorm", "vonmises_flattopped", "katojones"] if light or rng.random() < 0.9 else ["inverse_batschelet"]), n=8)
    if u < 0.85:
        op = ops.gen_clus(rng, rng.choice([c for c in ops.CLUS if not (light and "MoKJ" in c)]), n=9)
        if "n_iters" in op["init"]:
            op["init"]["n_iters"] = 2
        return op
    if u < 0.89:
        return ops.gen_reg(rng)
    if u < 0.94 or light:
        return ops.gen_circ(rng, mix=rng.random() < 0.2)
    op = ops.gen_plot(rng)
    if op["ax"] == "bad":
        op["badn"] = rng.choice([1, 2, 4, 8, 20])
    return op


def gen_state(rng):
    s = {"np": rng.randrange(1 << 31), "py": rng.randrange(1 << 31)}
    if rng.random() < 0.7:
        s["err"] = {k: rng.choice(["ignore", "warn", "raise"]) for k in ("divide", "over", "under", "invalid")}
    if rng.random() < 0.6:
        s["print"] = {"precision": rng.choice([3, 12]), "threshold": rng.choice([5, 2000]), "suppress": rng.choice([True, False]), "linewidth": rng.choice([40, 120])}
    s["warn"] = rng.choice(["ignore", "error", "always", "default"])
    if rng.random() < 0.5:
        s["rc"] = {"lines.linewidth": rng.choice([0.5, 4.0]), "font.size": rng.choice([7.0, 13.0]), "axes.grid": rng.choice([True, False])}
    if rng.random() < 0.5:
        s["cwd"] = True
    if rng.random() < 0.5:
        s["rec"] = rng.choice([900, 3000])
    return s


def gen(rng, tier, i):
    mode = rng.choice(["calls", "calls", "cut", "cut", "threads"])
    plan = {"mode": mode, "state": gen_state(rng)}
    if mode == "threads":
        plan["ops"] = [gen_call(rng, True) for _ in range(rng.choice([2, 3]))]
        plan["trials"] = common.gen_trials(rng, 2)
        return plan
    plan["ops"] = [gen_call(rng) for _ in range(rng.choice([2, 3, 5, 8]))]
    if mode == "cut" and rng.random() < 0.7:      # the families in turn
        d = ops.FAMS[i % len(ops.FAMS)]
        plan["ops"][0] = ops.gen_rvs(rng, d, seed=ops.gen_seed(rng)) if rng.random() < 0.5 else ops.gen_eval(rng, d)
    elif rng.random() < 0.7:
        plan["ops"][0] = ops.gen_fn(rng, sorted(ops.FN)[i % len(ops.FN)])
    if mode == "cut":
        plan["cuts"] = [[rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp", "value"])] if rng.random() < 0.8 else None for _ in plan["ops"]]
    return plan


# --------------------------------------------------------------------------
def configure(s, tmp):
    import random, warnings
    import numpy as np
    import matplotlib
    np.random.seed(s["np"])
    random.seed(s["py"])
    if "err" in s:
        np.seterr(**s["err"])
    if "print" in s:
        np.set_printoptions(**s["print"])
    warnings.resetwarnings()
    warnings.simplefilter(s["warn"])
    warnings.filterwarnings("ignore", message="never seen")
    if "rc" in s:
        matplotlib.rcParams.update(s["rc"])
    if "cwd" in s:
        os.chdir(tmp)
    if "rec" in s:
        sys.setrecursionlimit(s["rec"])
    os.environ["SIM_MARK"] = "1"


def plain(v, depth=0):
    if isinstance(v, dict):
        return [[repr(k), plain(x, depth + 1)] for k, x in v.items()] if depth < 8 else "..."
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v] if depth < 8 else "..."
    return repr(v)


def state():
    import gc, locale, random, signal, threading, warnings
    import numpy as np
    import matplotlib
    import pandas as pd
    import pycircstat2.visualization as V
    fds = []
    for f in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            fds.append([f, os.readlink("/proc/self/fd/" + f)])
        except OSError:
            pass
    return {
        "numpy error handling": plain(np.geterr()) + [repr(np.geterrcall()), np.getbufsize()],
        "numpy print options": plain(np.get_printoptions()),
        "numpy global random state": common.stream_hash(np.random.mtrand._rand),
        "python random state": common.digest(repr(random.getstate())),
        "warning filters": [repr(f) for f in warnings.filters] + [repr(warnings.defaultaction if hasattr(warnings, "defaultaction") else None), warnings.showwarning.__module__],
        "matplotlib settings": [[k, repr(matplotlib.rcParams[k])] for k in sorted(matplotlib.rcParams) if k != "backend"] + [matplotlib.get_backend().lower()],
        "plotting defaults": plain({k: v for k, v in sorted(vars(V).items()) if k.isupper() and isinstance(v, (dict, list, tuple))}),
        "pandas options": [pd.get_option("display.precision"), pd.get_option("display.max_rows")],
        "directory": os.getcwd(),
        "open files": fds,
        "environment": sorted(os.environ.items()),
        "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.displayhook), id(sys.excepthook)],
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)] + [signal.getitimer(signal.ITIMER_REAL)[0] > 0],
        "garbage collector": [gc.isenabled(), gc.get_threshold()],
        "threads": threading.active_count(),
        "locale": locale.setlocale(locale.LC_ALL),
        "umask": umask(),
    }


def disturbed():
    """Says, cheaply, whether process state differs from what it is now."""
    import warnings
    import numpy as np
    import matplotlib
    rc, get = matplotlib.rcParams, dict.__getitem__
    keys = [k for k in dict.keys(rc) if k != "backend"]

    def now():
        return (np.geterr(), len(warnings.filters), warnings.filters and id(warnings.filters[0]), os.getcwd(), np.get_printoptions()["precision"],
                np.random.mtrand._rand.get_state(legacy=False)["state"]["pos"], sys.getrecursionlimit())
    was, rcwas = now(), [get(rc, k) for k in keys]

    def watch():
        return now() != was or any(get(rc, k) is not v for k, v in zip(keys, rcwas))
    return watch


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def changed(a, b):
    return [f"{k}: {str(a[k])[:50]} became {str(b[k])[:50]}" if len(str(a[k])) < 200 else k for k in a if a[k] != b[k]]


def calls(plan):
    import tempfile, gc, simsched
    ops.quiet()
    viol, outs, n = [], [], {"calls": 0, "delivered": 0, "raised": 0}
    with tempfile.TemporaryDirectory() as tmp:
        home = os.getcwd()
        configure(plan["state"], tmp)
        for i, op in enumerate(plan["ops"]):
            try:
                thunk, _ = ops.prepare(op)
            except Exception:
                continue
            before = state()
            cut = (plan.get("cuts") or [None] * len(plan["ops"]))[i]
            n["calls"] += 1
            if cut is None:
                o = ops.call(thunk)
                n["raised"] += "e" in o
                how = f"raised {o['e']}" if "e" in o else "returned"
                outs.append(o.get("e"))
            else:
                cr = common.cutter(thunk, cut[0], 2.8, cut[1], watch=disturbed if cut[0] < 0.65 else None)
                try:
                    with cr:
                        ops.call(thunk)
                except BaseException as x:
                    if not simsched.is_injected(x):
                        raise
                    x = None
                n["delivered"] += cr.fired is not None
                how = f"was cut by {cut[1]} at {cr.fired}" if cr.fired else "returned"
                outs.append(cr.fired)
            after = state()
            if after != before:
                gc.collect()
                after = state()
            d = changed(before, after)
            if d:
                viol.append({"class": d[0].split(":")[0].replace(" ", "-"), "msg": f"{common.show(op)} {how} and changed {'; '.join(d[:3])}"})
                break
        os.chdir(home)
        sys.setrecursionlimit(max(1000, sys.getrecursionlimit()))
    return viol, outs, n


def threaded(plan, trial):
    import tempfile, gc
    ops.quiet()
    with tempfile.TemporaryDirectory() as tmp:
        home = os.getcwd()
        configure(plan["state"], tmp)
        thunks = [ops.prepare_safe(op) for op in plan["ops"]]
        before = state()
        progs = [[(lambda th: (lambda: ops.call(th)))(th)] for th in thunks]
        outs, sim, status = common.run_threads(progs, trial, plan.get("schedule"))
        after = state()
        if after != before:
            gc.collect()
            after = state()
        d = changed(before, after)
        os.chdir(home)
    return [o[0].get("e") if o[0] else None for o in outs], d, sim.compact_slices(), sim.switches, status


def execute(plan):
    viol, stats, faults, shapes, traces, out_plan = [], {"mode_" + plan["mode"]: 1}, {}, [], [], None
    faults["warnings_" + plan["state"]["warn"]] = 1
    if plan["mode"] != "threads":
        v, outs, n = core.in_child(calls, plan, timeout=150.0)
        viol += v
        stats.update(n)
        faults["exception_in_call"] = n["delivered"]
        faults["rejected_call"] = n["raised"]
        shapes.append(common.digest(plan))
        traces.append(common.digest(outs))
        nt = n["calls"] >= 2
    else:
        nt = False
        for trial in plan["trials"]:
            outs, d, slices, sw, status = core.in_child(threaded, plan, trial, timeout=150.0)
            if d:
                viol.append({"class": d[0].split(":")[0].replace(" ", "-"), "msg": f"concurrent calls {[common.show(o)[:120] for o in plan['ops']]} changed {'; '.join(d[:3])}"})
            if status == "hang":
                viol.append({"class": "deadlock", "msg": common.show(plan["ops"])})
            stats["calls"] = stats.get("calls", 0) + len(plan["ops"])
            faults["preemption"] = faults.get("preemption", 0) + sw
            shapes.append(common.digest(plan["ops"], plan["state"], slices))
            traces.append(common.digest(outs, slices))
            nt = nt or sw >= 1
            if viol:
                out_plan = {**plan, "trials": [trial], "schedule": slices}
                break
    rep = {"violations": viol, "stats": stats, "faults": faults, "shape": shapes, "nontrivial": nt, "trace": common.digest(traces, plan["ops"])}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan["mode"] != "threads":
        for j in range(len(plan["ops"])):
            if len(plan["ops"]) > 1:
                q = {**plan, "ops": plan["ops"][:j] + plan["ops"][j + 1:]}
                if plan.get("cuts"):
                    q["cuts"] = plan["cuts"][:j] + plan["cuts"][j + 1:]
                yield q
    for k in ("err", "print", "rc", "cwd", "rec"):
        if k in plan["state"]:
            yield {**plan, "state": {a: b for a, b in plan["state"].items() if a != k}}
