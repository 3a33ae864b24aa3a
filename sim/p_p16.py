"""P16: the library never modifies its callers' data."""
import json, math
import numpy as np
import core, ops, common

ID = "P16"
LEVEL = "exploration"
RULE = ("one evaluation = one call of the public API on argument objects that are fingerprinted bit by bit (values, types, order, flags, the buffer behind a view, "
        "the attributes of passed objects): called twice in a row, rejected, cut short by an exception at a chosen point and then repeated, given read-only buffers, "
        "called from several threads on the very same objects, or followed by the caller overwriting its own arrays; results are compared with the same call on fresh "
        "copies in a pristine process; non-trivial = the call received at least one mutable argument; distinct by hash of call, form and schedule")
SHAPE = "distinct (call, argument form, fault point or schedule)"
REAL = ["the whole package"]
STUB = ["thread scheduler and exception delivery (sys.settrace)", "callers, their buffers and failing axes"]
ASSUME = ["random generators passed in are advanced by design and not fingerprinted",
          "plotting stores the drawn density curve (density_x, density_f) on the plotted object"]
RUNS = {"quick": 2000, "thorough": 40000}
TIMEOUT = 200.0
FORMS = ["plain", "plain", "view", "ro", "list", "series", "fortran"]
CACHED = {"density_x", "density_f"}


def gen_call(rng, i):
    if i % 3:
        names = sorted(ops.FN)
        return ops.gen_fn(rng, names[(i // 3 * 2 + i % 3 - 1) % len(names)])
    u = 0.42 + 0.58 * rng.random()
    if u < 0.50:
        return ops.gen_mc(rng)
    if u < 0.58:
        return ops.gen_bad_fn(rng)
    if u < 0.66:
        op = ops.gen_eval(rng, rng.choice(["vonmises", "wrapcauchy", "cardioid", "wrapnorm", "cartwright", "triangular", "inverse_batschelet", "jonespewsey"]))
        op["form"] = rng.choice(["a", "2", "l"])
        if rng.random() < 0.3:
            op["p"] = [{"$a": [v] * len(op["x"])} for v in op["p"]]
            op["form"] = "a"
        return op
    if u < 0.71:
        return ops.gen_fit(rng, rng.choice(["cardioid", "cartwright", "wrapcauchy", "vonmises", "wrapnorm", "vonmises_flattopped", "katojones"]), n=8)
    if u < 0.75:
        op = ops.gen_clus(rng, rng.choice(ops.CLUS), n=9)
        if "n_iters" in op["init"]:
            op["init"]["n_iters"] = 2
        return op
    if u < 0.80:
        return ops.gen_clus(rng, rng.choice(["clustering.CircKMeans", "clustering.CircHAC"]), n=12)
    if u < 0.86:
        return ops.gen_reg(rng)
    if u < 0.93:
        return ops.gen_circ(rng)
    op = ops.gen_plot(rng)
    if op["ax"] == "bad":
        op["badn"] = rng.choice([1, 2, 4, 8, 20])
    return op


def gen(rng, tier, i):
    ops.TURNS[0] = 0.4
    op = gen_call(rng, i)
    mode = rng.choice(["twice", "twice", "cut", "cut", "threads", "own"])
    if op["k"] == "plot" and mode == "threads":
        mode = "cut"
    if mode == "own" and op["k"] != "obj":
        op = rng.choice([lambda: ops.gen_circ(rng), lambda: ops.gen_reg(rng), lambda: ops.gen_clus(rng, rng.choice(ops.CLUS[:1] + ops.CLUS[2:]), n=12)])()
    form = rng.choice(FORMS)
    if op["k"] == "plot":
        form = "plain"
    plan = {"op": op, "mode": mode, "form": form, "u": rng.random()}
    if mode == "cut":
        plan["cuts"] = [[rng.random(), rng.choice(["interrupt", "memory", "runtime", "fp", "value"])] for _ in range(4)]
    if mode == "threads":
        plan["n"] = rng.choice([2, 2, 3])
        plan["trials"] = common.gen_trials(rng, 2)
    return plan


# --------------------------------------------------------------------------
def vary(v, form, buf):
    """The argument in another container; buffers behind views are collected."""
    if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind in "fi":
        if form == "view":
            base = np.full((2 * v.shape[0] + 1,) + v.shape[1:], 77, dtype=v.dtype)
            base[1::2] = v
            buf.append(base)
            return base[1::2]
        if form == "ro":
            v = v.copy()
            v.flags.writeable = False
            return v
        if form == "list":
            return v.tolist()
        if form == "series" and v.ndim == 1:
            import pandas as pd
            return pd.Series(v)
        if form == "fortran":
            return np.asfortranarray(v)
        return v
    if isinstance(v, list):
        return [vary(x, form, buf) for x in v]
    if isinstance(v, tuple):
        return tuple(vary(x, form, buf) for x in v)
    if isinstance(v, dict):
        return {k: vary(x, form, buf) for k, x in v.items()}
    return v


def prepare(op, form):
    """(thunk, argument objects, mutable count); like ops.prepare, with the chosen containers."""
    buf = []
    real = ops.dec
    depth = [0]

    def dec(v):
        depth[0] += 1
        try:
            out = real(v)
        finally:
            depth[0] -= 1
        return vary(out, form, buf) if depth[0] == 0 else out
    real_shape = ops.shape_x
    ops.dec = dec
    ops.shape_x = lambda x, f: vary(real_shape(x, f), form, buf)
    try:
        thunk, args = ops.prepare(op)
    finally:
        ops.dec, ops.shape_x = real, real_shape
    return thunk, args, buf


def snap(v, seen=None, depth=0):
    """Bit-exact fingerprint of caller-visible state."""
    seen = seen if seen is not None else set()
    if isinstance(v, np.ndarray):
        b = [snap(x, seen, depth + 1) for x in v.ravel().tolist()] if v.dtype == object else v.tobytes().hex()
        return ["nd", str(v.dtype), list(v.shape), list(v.strides), bool(v.flags.writeable), b]
    if isinstance(v, (float, np.floating)):
        return [type(v).__name__, float(v).hex()]
    if v is None or isinstance(v, (bool, int, str, complex, np.generic)):
        return [type(v).__name__, repr(v)]
    if isinstance(v, (np.random.Generator, np.random.RandomState, np.random.BitGenerator, np.random.SeedSequence)):
        return type(v).__name__
    if id(v) in seen or depth > 10:
        return "..."
    tn = type(v).__module__
    if isinstance(v, dict):
        return ["dict", [[snap(k), snap(x, seen | {id(v)}, depth + 1)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [snap(x, seen | {id(v)}, depth + 1) for x in v]]
    if tn.startswith("pandas."):
        if hasattr(v, "columns"):
            return ["frame", [repr(c) for c in v.columns], [str(t) for t in v.dtypes], v.index.tolist(),
                    [snap(v.iloc[:, i].to_numpy()) for i in range(v.shape[1])], repr(v.attrs)]
        return ["series", str(v.dtype), repr(getattr(v, "name", None)), list(map(repr, v.index)), snap(v.to_numpy())]
    if tn.startswith("pycircstat2.") and hasattr(v, "__dict__") and not tn.endswith("distributions"):
        return ["obj", type(v).__name__, [[k, snap(x, seen | {id(v)}, depth + 1)] for k, x in vars(v).items() if k not in CACHED]]
    return type(v).__name__


def where(a, b, path="arg"):
    if type(a) is not type(b):
        return path
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path} (size {len(a)} became {len(b)})"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, f"{path}/{i}")
    return f"{path}: {str(a)[:60]} became {str(b)[:60]}"


def mutable(v):
    if isinstance(v, (np.ndarray, dict)) and len(v):
        return True
    if isinstance(v, (list, tuple)):
        return any(mutable(x) for x in v) or (isinstance(v, list) and bool(v))
    return hasattr(v, "iloc") or hasattr(v, "full_cycle")


def advances(op):
    s = json.dumps(op)
    return any(t in s for t in ('"$g"', '"$rs"', '"$bg"', '"$ss"', '"seed": null', '"none"'))


def fresh(op, form):
    """The call on its own copies."""
    ops.quiet()
    thunk, _, _ = prepare(op, form)
    return ops.call(thunk)


def bump(op):
    """Failing axes keep failing at the same call when the plot is repeated."""
    return op["k"] == "plot" and op["ax"] == "bad"


def twice(plan):
    ops.quiet()
    op = plan["op"]
    thunk, args, buf = prepare(op, plan["form"])
    a0 = snap([args, buf])
    o1 = ops.call(thunk)
    a1 = snap([args, buf])
    o2 = None if advances(op) or bump(op) else ops.call(thunk)
    a2 = snap([args, buf])
    diffs = [where(a0, x) if a0 != x else None for x in (a1, a2)]
    if not any(diffs) and not bump(op) and mutable(args):      # does the call change them for a while? then cut it there
        import simsched
        cr = common.cutter(thunk, plan.get("u", 0.5), None, "interrupt", watch=lambda: dirty([args, buf]))
        if cr.at is not None:
            try:
                with cr:
                    ops.call(thunk)
            except BaseException as x:
                if not simsched.is_injected(x):
                    raise
            a3 = snap([args, buf])
            if a3 != a0:
                diffs.append(f"{where(a0, a3)} (cut at {cr.fired})")
    return [o1, o2], diffs, mutable(args)


def dirty(v):
    """Says whether the arguments differ from what they are now (where a call could leave them half-restored)."""
    was, left = snap(v), [4000]

    def watch():
        left[0] -= 1
        return left[0] > 0 and snap(v) != was
    return watch


def cut(plan):
    import simsched
    ops.quiet()
    op = plan["op"]
    c = simsched.Crasher(None)
    t, _, _ = prepare(op, plan["form"])
    with c:
        ops.call(t)
    total = c.n
    thunk, args, buf = prepare(op, plan["form"])
    a0 = snap([args, buf])
    diffs, fired = [], []
    for pos, kind in plan["cuts"]:
        cr = common.cutter(thunk, pos, math.log10(max(total, 1)), kind, watch=(lambda: dirty([args, buf])) if pos < 0.5 else None)
        try:
            with cr:
                ops.call(thunk)
        except BaseException as x:
            if not simsched.is_injected(x):
                raise
        if cr.fired:
            fired.append(cr.fired)
        a1 = snap([args, buf])
        if a1 != a0:
            diffs.append(f"{where(a0, a1)} (cut by {kind} at {cr.fired})")
            break
    out = None if advances(op) or bump(op) else ops.call(thunk)
    if not diffs:
        a1 = snap([args, buf])
        if a1 != a0:
            diffs.append(where(a0, a1))
    return [out], diffs, fired, mutable(args)


def threads(plan, trial):
    ops.quiet()
    op = plan["op"]
    thunk, args, buf = prepare(op, plan["form"])
    a0 = snap([args, buf])
    progs = [[lambda: ops.call(thunk)] for _ in range(plan["n"])]
    outs, sim, status = common.run_threads(progs, trial, plan.get("schedule"))
    a1 = snap([args, buf])
    return [o[0] for o in outs], where(a0, a1) if a0 != a1 else None, sim.compact_slices(), sim.switches, status, mutable(args)


def own(plan):
    """An object is built and used; then the caller reuses its own buffers."""
    ops.quiet()
    op = plan["op"]
    dec = lambda v: vary(ops.dec(v), plan["form"], [])
    init = {n: dec(v) for n, v in op["init"].items()}
    do = [["call", s[1], [dec(x) for x in s[2]], {n: dec(v) for n, v in s[3].items()}] if s[0] == "call" else s for s in op["do"]]
    o = ops.resolve(op["c"])(**init)
    fits = [s for s in do if s[0] == "call" and s[1] == "fit"]
    reads = [s for s in do if s not in fits] if not fits else do[len(fits):]
    ops.script(o, fits)
    first = ops.script(o, reads)
    for v in init.values():
        scr(v)
    for s in fits:
        scr(s[2])
    return first, ops.script(o, reads), reads, mutable(init) or mutable(fits)


def scr(v):
    if hasattr(v, "iloc"):
        for c in range(v.shape[1] if v.ndim == 2 else 1):
            try:
                if v.ndim == 2:
                    v.iloc[:, c] = 5.0
                else:
                    v.iloc[:] = 5.0
            except Exception:
                pass
    elif isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in "fi":
            v[...] = 5
    elif isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (int, float)):
                v[i] = 5
            else:
                scr(x)
    elif isinstance(v, dict):
        for x in v.values():
            scr(x)
        v["scribbled"] = True


def execute(plan):
    op, form, mode = plan["op"], plan["form"], plan["mode"]
    viol, stats, faults, shapes, traces, out_plan = [], {"mode_" + mode: 1, "form_" + form: 1}, {}, [], [], None
    who = f"{common.show(op)} ({form} arguments)"
    if mode == "own":
        try:
            first, later, reads, nt = core.in_child(own, plan, timeout=60.0)
        except core.ChildError as e:
            if core.library_raised(str(e)) is None:
                raise
            return common.empty_report("construction_rejected")
        from canon import same
        for s, a, b in zip(reads, first, later):
            if form == "series" and s == ["get", "data"]:      # the stored input itself, not something computed from it
                continue
            d = same(a, b, 1e-9, 1e-10)
            if d:
                viol.append({"class": "aliased", "msg": f"{who}: {s[1]} changed when the caller overwrote its own data: {d}"})
        return {"violations": viol[:3], "stats": stats, "faults": {"caller_overwrites": 1}, "shape": [common.digest(plan)], "nontrivial": nt, "trace": common.digest(first)}
    try:
        want = core.in_child(fresh, op, "plain" if form in ("ro", "view", "fortran") else form, timeout=60.0)
    except core.Hang:
        return common.empty_report("oracle_did_not_finish")
    except core.ChildError as e:      # an argument (a Circular) that cannot be built at all
        if core.library_raised(str(e)) is None:
            raise
        return common.empty_report("argument_rejected")

    def check(o, what):
        if o is None:
            return
        d = ops.differ(op, o, want)
        if d:
            ro = "read-only" in o.get("msg", "") or "assignment destination" in o.get("msg", "")
            viol.append({"class": "writes-argument" if ro else "wrong-result", "msg": f"{who}, {what}: {d}"})
    if mode == "twice":
        outs, diffs, nt = core.in_child(twice, plan, timeout=90.0)
        check(outs[0], "first call")
        if not advances(op):
            check(outs[1], "second call with the same objects")
        for d in diffs[:1] if diffs[0] else diffs[1:]:
            if d:
                viol.append({"class": "argument-modified", "msg": f"{who}: {d}"})
        if "e" in want:
            faults["rejected_call"] = 1
        stats["calls"] = 2
        shapes.append(common.digest(op, form))
        traces.append(common.digest(outs))
    elif mode == "cut":
        outs, diffs, fired, nt = core.in_child(cut, plan, timeout=90.0)
        check(outs[0], "call after interrupted ones on the same objects")
        viol += [{"class": "argument-modified", "msg": f"{who}: {d}"} for d in diffs]
        faults["exception_in_call"] = len(fired)
        stats["calls"] = len(plan["cuts"]) + 2
        shapes += [common.digest(op, form, f) for f in fired] or [common.digest(op, form)]
        traces.append(common.digest(outs, fired))
    else:
        nt = False
        for trial in plan["trials"]:
            outs, d, slices, sw, status, m = core.in_child(threads, plan, trial, timeout=90.0)
            if not advances(op):
                for j, o in enumerate(outs):
                    check(o, f"thread {j} of {plan['n']} sharing the objects")
            if d:
                viol.append({"class": "argument-modified", "msg": f"{who}: {d}"})
            if status == "hang":
                viol.append({"class": "deadlock", "msg": who})
            faults["preemption"] = faults.get("preemption", 0) + sw
            stats["calls"] = stats.get("calls", 0) + plan["n"]
            shapes.append(common.digest(op, form, slices))
            traces.append(common.digest(outs, slices))
            nt = nt or (m and sw >= 1)
            if viol:
                out_plan = {**plan, "trials": [trial], "schedule": slices}
                break
    rep = {"violations": viol[:4], "stats": stats, "faults": faults, "shape": shapes, "nontrivial": bool(nt), "trace": common.digest(traces, plan["op"])}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan["form"] != "plain":
        yield {**plan, "form": "plain"}
    if plan["mode"] == "cut":
        for c in core.drop_each(plan["cuts"]):
            if c:
                yield {**plan, "cuts": c}
    if plan["op"]["k"] == "obj":
        for d in core.drop_each(plan["op"]["do"]):
            yield {**plan, "op": {**plan["op"], "do": d}}
    if plan["mode"] == "threads" and plan["n"] > 2:
        yield {k: v for k, v in {**plan, "n": 2}.items() if k != "schedule"}
