"""P19: saved and copied objects answer like the original."""
import copy, pickle
import numpy as np
import core, ops, common
import p_p14

ID = "P19"
LEVEL = "exploration"
RULE = ("one evaluation = one object (shared or frozen distribution, Circular, clustering model before, between or after fits, regression, test result) taken at a chosen point of a seeded "
        "history, pickled (every protocol) and restored in another process, copied or deep-copied - possibly while other threads use it or with the first attempt cut short; "
        "original and copy then answer the same probes in either order, each is used further, and both are compared with each other and with the same steps without the copy "
        "in a pristine process; non-trivial = at least one probe answered on both sides; distinct by hash of object, history, method and probes")
SHAPE = "distinct (object, history, copy method, probes)"
REAL = ["the whole package, pickle and copy, scipy's distribution state handling"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers"]
ASSUME = ["a shallow copy shares mutable parts (generators, arrays) with the original: only answers that draw nothing are compared for it"]
RUNS = {"quick": 900, "thorough": 40000}
TIMEOUT = 200.0
HOW = ["pickle2", "pickle4", "pickle5", "deepcopy", "deepcopy", "copy"]
LIGHT = ["vonmises", "wrapcauchy", "cardioid", "wrapnorm", "cartwright", "triangular", "circularuniform"]


def gen_dist(rng, threads=False):
    d = rng.choice(LIGHT if rng.random() < 0.4 else ops.FAMS)
    p = ops.gen_params(rng, d, 0.2)
    slow = d in ops.SLOW or d == "inverse_batschelet"

    def one(p):
        u = rng.random()
        if u < 0.75:
            return ops.gen_eval(rng, d, p)
        return ops.gen_rvs(rng, d, p, nmax=3)
    warm = []
    for _ in range(rng.choice([0, 1, 2] if slow else [0, 1, 3, 6])):
        q = rng.choice([p, ops.near_params(rng, d, p)])
        warm.append(ops.gen_bad(rng, d) if rng.random() < 0.15 else one(q))
    probes = [one(rng.choice([p, p, ops.near_params(rng, d, p)])) for _ in range(rng.choice([2, 3]))]
    return {"t": "dist", "d": d, "p": p, "frozen": rng.random() < 0.5, "warm": warm, "probes": probes,
            "stream": rng.choice([None, rng.randrange(1 << 30), {"$g": rng.randrange(1 << 30)}, {"$rs": rng.randrange(1 << 30)}]),
            "draws": 0 if d in ("katojones",) and rng.random() < 0.5 else rng.choice([0, 1, 3])}


def gen(rng, tier, i):
    u = rng.random()
    if u < 0.45:
        plan = gen_dist(rng)
        if rng.random() < 0.25:
            plan["threads"] = [rng.choice(plan["probes"]) for _ in range(rng.choice([1, 2]))]
            plan["trials"] = common.gen_trials(rng, 2)
    elif u < 0.70:
        s = p_p14.gen_session(rng, True)
        plan = {"t": "clus", "s": s, "at": rng.randrange(0, len(s["do"]) + 1)}
    elif u < 0.82:
        plan = {"t": "circ", "op": ops.gen_circ(rng, mix=rng.random() < 0.2), "plot": ops.gen_plot_cfg(rng, True) if rng.random() < 0.5 else None}
    elif u < 0.92:
        plan = {"t": "reg", "op": ops.gen_reg(rng)}
    else:
        plan = {"t": "res", "op": ops.gen_fn(rng) if rng.random() < 0.8 else ops.gen_mc(rng)}
    plan["how"] = rng.choice(HOW)
    plan["first"] = rng.choice(["copy", "original"])
    if "threads" not in plan and rng.random() < 0.25:
        plan["cut"] = [rng.random(), rng.choice(["interrupt", "memory", "runtime"])]
    return plan


# --------------------------------------------------------------------------
def transport(how, o):
    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    return pickle.dumps(o, protocol=int(how[6:]))


class Subject:
    """The object at its point in history, and the probes both sides answer."""

    def __init__(self, plan):
        self.plan, self.t = plan, plan["t"]

    def make(self):
        p = self.plan
        if self.t == "dist":
            import pycircstat2.distributions as D
            o = getattr(D, p["d"])
            for op in p["warm"]:
                common.play(op)
            if p["frozen"]:
                o = o(*[ops.dec(v) for v in p["p"]])
            if p["stream"] is not None:
                o.random_state = ops.dec(p["stream"])
                for _ in range(p["draws"]):      # mid-stream
                    draw(o, p, 2)
            return o
        if self.t == "clus":
            s = p_p14.Session(p["s"])
            for _ in range(p["at"] + 1):
                s.step()
            return s.o
        if self.t in ("circ", "reg"):
            op = p["op"]
            o = ops.resolve(op["c"])(**{n: ops.dec(v) for n, v in op["init"].items()})
            if self.t == "circ" and p.get("plot"):
                plot(o, p["plot"])
            if self.t == "reg":
                ops.script(o, op["do"][:2])
            return o
        th, _ = ops.prepare(p["op"])
        return th()

    def probe(self, o, drawing):
        p = self.plan
        if self.t == "dist":
            out = []
            for op in p["probes"]:
                out.append(ask(o, op, p))
            if drawing and p["stream"] is not None:
                out.append(ops.call(lambda: draw(o, p, 3)))
            return out
        if self.t == "clus":
            s = p_p14.Session(p["s"])
            s.o, s.k = o, p["at"] + 1
            out = [ops.call(lambda: state_of(o))]
            while s.k <= len(p["s"]["do"]):
                d = p["s"]["do"][s.k - 1]
                if d[1] == "fit" and not drawing:
                    break
                out.append(s.step())
            return out
        if self.t in ("circ", "reg"):
            return [ops.call(lambda: ops.script(o, [x for x in p["op"]["do"] if x[0] == "get" or x[1] != "__repr__"] + ([["call", "__repr__", [], {}]] if self.t == "circ" else [])))]
        return [ops.call(lambda: [o, repr(o)])]

    def disturb(self, o):
        """Use one side in ways that must not reach the other."""
        p = self.plan
        if self.t == "dist":
            for op in p["probes"]:
                ask(o, {**op, "p": ops_near(op, p)}, p)
            if p["stream"] is not None and p["how"] != "copy":
                ops.call(lambda: draw(o, p, 5))
            if not p["frozen"] and p["how"] != "copy":
                o.random_state = 99
        elif self.t == "clus":
            x = {"$a": [0.3, 1.0, 1.2, 2.0, 3.3, 4.0, 4.1, 5.0]}
            ops.call(lambda: o.fit(ops.dec(x)) and None)
            ops.call(lambda: o.predict(ops.dec(x)))
        elif self.t == "circ":
            plot(o, {"$d": {"mean": False}})
            if p["how"] != "copy":
                o.alpha[...] = 1.0
                o.kwargs_median["method"] = "count"
        elif self.t == "reg":
            ops.call(lambda: o.summary())
            if p["how"] != "copy":
                scr(o.result)
        elif p["how"] != "copy":
            scr(o)


def ops_near(op, p):
    return p["p"]


def scr(v, depth=0):
    if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fi":
        v[...] = 5
    elif isinstance(v, dict) and depth < 4:
        for x in v.values():
            scr(x, depth + 1)
    elif isinstance(v, (list, tuple)) and depth < 4:
        for x in v:
            scr(x, depth + 1)
    elif type(v).__module__.startswith("pycircstat2") and hasattr(v, "__dict__") and depth < 4:
        for x in vars(v).values():
            scr(x, depth + 1)


def plot(c, cfg):
    import matplotlib.pyplot as plt
    try:
        c.plot(ax=plt.figure().add_subplot(projection="polar"), config=ops.dec(cfg))
    except Exception:
        pass
    finally:
        plt.close("all")



def state_of(m):
    return {k: getattr(m, k) for k in ("labels_", "p_", "m_", "kappa_", "params_", "centers_", "r_", "inertia_", "nLL", "merges_", "converged", "converged_", "n_iter_") if hasattr(m, k)}


def draw(o, p, n):
    if p["frozen"]:
        return o.rvs(size=n)
    return o.rvs(**dict(zip(ops.SHAPES[p["d"]], [ops.dec(v) for v in p["p"]])), size=n)


def ask(o, op, p):
    if not p["frozen"]:
        try:
            get, a, kw = ops.bound(op, o)
        except Exception as e:
            return {"e": type(e).__name__}
        return ops.call(lambda: get()(*a, **kw))
    if op["m"] == "rvs":
        size = op.get("size")
        kw = {"size": tuple(size) if isinstance(size, list) else size}
        if op.get("seed") != "none":
            kw["random_state"] = ops.dec(op.get("seed"))
        return ops.call(lambda: o.rvs(**kw))
    return ops.call(lambda: getattr(o, op["m"])(*([ops.shape_x(op["x"], op["form"])] if "x" in op else [])))


def reference(plan):
    """The object without any copy."""
    ops.quiet()
    s = Subject(plan)
    try:
        o = s.make()
    except Exception as e:
        return None
    return s.probe(o, plan["how"] != "copy"), None


def restore(plan, data):
    """In another process: what the restored object answers."""
    ops.quiet()
    try:
        o = pickle.loads(data)
    except Exception as e:
        return {"e": f"{type(e).__name__}: {e}"}, None
    s = Subject(plan)
    return {"r": s.probe(o, True)}, bool(type(o).__module__)


def original(plan):
    import simsched
    ops.quiet()
    s = Subject(plan)
    o = s.make()
    how = plan["how"]
    n = {"delivered": 0}
    if plan.get("cut"):
        cr = common.cutter(lambda: transport(how, o), plan["cut"][0], 2.0, plan["cut"][1], repo_only=False)
        try:
            with cr:
                transport(how, o)
        except BaseException as x:
            if not simsched.is_injected(x):
                return {"e": f"{type(x).__name__}: {x}"}, None, None, None, n
        n["delivered"] += cr.fired is not None
    try:
        c = transport(how, o)
    except Exception as e:
        return {"e": f"{type(e).__name__}: {e}"}, None, None, None, n
    drawing = how != "copy"
    if isinstance(c, bytes):
        a = s.probe(o, drawing)
        d = pickle.loads(c)        # and one more in this process
        s.disturb(o)
        b = s.probe(d, drawing)
        return {"r": True}, a, b, c, n
    if plan["first"] == "copy":
        b = s.probe(c, drawing)
        s.disturb(c)
        a = s.probe(o, drawing)
    else:
        a = s.probe(o, drawing)
        s.disturb(o)
        b = s.probe(c, drawing)
    return {"r": True}, a, b, None, n


def threaded(plan, trial):
    """Copying while other threads use the object."""
    ops.quiet()
    s = Subject(plan)
    o = s.make()
    progs = [[lambda: ops.call(lambda: Box(transport(plan["how"], o)))]]
    progs += [[(lambda op: (lambda: ask(o, op, plan)))(op)] for op in plan["threads"]]
    outs, sim, status = common.run_threads(progs, trial, plan.get("schedule"))
    r = outs[0][0]
    if r is None or "e" in r:
        return r, None, None, None, sim.compact_slices(), sim.switches, status
    c = r["r"].v
    b = s.probe(pickle.loads(c) if isinstance(c, bytes) else c, plan["how"] != "copy")
    a = s.probe(o, plan["how"] != "copy")
    return {"r": True}, a, b, c if isinstance(c, bytes) else None, sim.compact_slices(), sim.switches, status


class Box(ops._Done):
    def __init__(self, v):
        self.v = v


def execute(plan):
    viol, faults, shapes, traces, out_plan = [], {}, [], [], None
    stats = {"t_" + plan["t"]: 1, "how_" + plan["how"]: 1}
    ref = core.in_child(reference, plan, timeout=90.0)
    if ref is None:
        return common.empty_report("object_rejected")
    ref = ref[0]
    name = plan.get("d") or plan.get("s", {}).get("c") or plan["op"].get("c") or plan["op"].get("n")
    who = f"{plan['how']} of {'frozen ' if plan.get('frozen') else ''}{name} ({common.show({k: v for k, v in plan.items() if k not in ('s', 'op', 'warm', 'trials', 'threads')})[:150]})"

    def compare(got, side):
        if got is None:
            return
        for k, (g, w) in enumerate(zip(got, ref)):
            if g is None or w is None:
                continue
            d = ops.differ({"k": "obj"}, g, w)
            if d:
                viol.append({"class": "copy-differs" if side != "the original" else "original-changed", "msg": f"{who}: probe {k} on {side}: {d}"})
                return
        if len(got) != len(ref):
            viol.append({"class": "copy-differs", "msg": f"{who}: {side} stopped after {len(got)} of {len(ref)} probes"})

    def foreign(data):
        if data is None:
            return
        st, _ = core.in_child(restore, plan, data, timeout=90.0)
        if "e" in st:
            viol.append({"class": "not-restorable", "msg": f"{who}: {st['e']}"})
        else:
            compare(st["r"], "the object restored in another process")
    if not plan.get("threads"):
        st, a, b, data, n = core.in_child(original, plan, timeout=120.0)
        if "e" in st:
            viol.append({"class": "not-copyable", "msg": f"{who}: {st['e']}"})
        else:
            compare(a, "the original")
            compare(b, "the copy")
            foreign(data)
        faults["exception_in_copy"] = n["delivered"]
        shapes.append(common.digest(plan))
        traces.append(common.digest(a, b))
        nt = "e" not in st and bool(ref)
    else:
        nt = False
        for trial in plan["trials"]:
            st, a, b, data, slices, sw, status = core.in_child(threaded, plan, trial, timeout=120.0)
            if status == "hang":
                viol.append({"class": "deadlock", "msg": who})
            elif st is None or "e" in st:
                viol.append({"class": "not-copyable", "msg": f"{who} while other threads use it: {st}"})
            else:
                compare(a, "the original")
                compare(b, "the copy taken during use")
                foreign(data)
            faults["preemption"] = faults.get("preemption", 0) + sw
            shapes.append(common.digest(plan, slices))
            traces.append(common.digest(a, b, slices))
            nt = nt or sw >= 1
            if viol:
                out_plan = {**plan, "trials": [trial], "schedule": slices}
                break
    rep = {"violations": viol[:4], "stats": stats, "faults": faults, "shape": shapes, "nontrivial": nt, "trace": common.digest(traces, ref)}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan.get("cut"):
        yield {k: v for k, v in plan.items() if k != "cut"}
    if plan["t"] == "dist":
        for w in core.drop_each(plan["warm"]):
            yield {**plan, "warm": w}
        for w in core.drop_each(plan["probes"]):
            if w:
                yield {**plan, "probes": w}
        if plan["stream"] is not None:
            yield {**plan, "stream": None}
