"""P06: samplers stay in support, keep shape and finish under any random stream."""
import core, ops, common

ID = "P06"
LEVEL = "fault_enumeration"
RULE = ("one evaluation = several draws of one family at seeded parameters from a stand-in generator that delivers seeded phases of faulty numbers "
        "(exact zeros, largest values below one, one value repeated, short cycles, extremes mixed with ordinary numbers) before it becomes an ordinary "
        "random source; non-trivial = at least one faulty number was delivered; distinct by hash of parameters, fault phases and samples")
SHAPE = "distinct (family, parameters, fault phases) hashes"
REAL = ["pycircstat2.distributions samplers and everything they call"]
STUB = ["numpy.random.Generator (subclass whose output the simulator decides)"]
ASSUME = ["progress bound: at most 300000 + 4000 per sample further random numbers once the source is ordinary",
          "Jones-Pewsey with kappa*|psi| > 4 for psi < 0, where the sampler's acceptance rate is legitimately tiny, is outside the explored box"]
RUNS = {"quick": 8000, "thorough": 400000}
TIMEOUT = 100.0
KINDS = ["zero", "one", "stuck", "cycle", "mixed", "half", "lowrun"]


def gen(rng, tier, i):
    d = ops.FAMS[i % len(ops.FAMS)]
    draws = []
    for _ in range(rng.choice([1, 2, 3])):
        p = ops.gen_params(rng, d, 0.3)
        if rng.random() < 0.12:
            p = ops.concentrated(rng, d, p)
        phases = [[rng.choice(KINDS), rng.choice([1, 3, 17, 100, 1000, 9000]), round(rng.random(), 6), rng.choice([1, 1, 2, 3])] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        size = rng.choice([None, 0, 1, 2, 7, [2, 3], [1, 1], [0, 2], [3], 50, 300 if d not in ops.SLOW else 20])
        draws.append({"p": p, "phases": phases, "size": size, "seed": rng.randrange(1 << 30), "sty": rng.choice(["kw", "pos", "fr", "frkw", "sh"]),
                      "via": rng.choice(["arg", "arg", "arg", "attr"]), "lead": rng.choice([0, 0, 1, 5, 40])})
    return {"d": d, "draws": draws}


class NoProgress(BaseException):
    pass


def faulty(seed, phases, lead, bound):
    import numpy as np
    eps1 = float(np.nextafter(1.0, 0.0))

    class Faulty(np.random.Generator):
        """Numbers on the unit scale come from the plan; each method maps them to its own range."""

        def __init__(self):
            super().__init__(np.random.PCG64(seed))
            self.todo = [["ok", lead, 0.0, 1]] * bool(lead) + [list(p) for p in phases]
            self.delivered = 0
            self.after = 0
            self.idle = 0

        def _fault(self, n):
            """Unit-scale overrides for the next n numbers (nan = leave alone)."""
            self.idle = 0 if n else self.idle + 1
            if self.idle > 10000:      # asks again and again for no numbers at all
                raise NoProgress()
            out = np.full(n, np.nan)
            k = 0
            while k < n and self.todo:
                kind, left, u, per = self.todo[0]
                m = min(left, n - k)
                sl = slice(k, k + m)
                if kind == "zero":
                    out[sl] = 0.0
                elif kind == "one":
                    out[sl] = eps1
                elif kind == "half":
                    out[sl] = 0.5
                elif kind == "stuck":
                    out[sl] = u
                elif kind == "lowrun":
                    out[sl] = 2.0 ** -53
                elif kind == "cycle":
                    vals = [0.0, eps1, u, 0.5][: per + 1]
                    out[sl] = [vals[(k + j) % len(vals)] for j in range(m)]
                elif kind == "mixed":
                    r = super().random(m)
                    out[sl] = np.where(r < 0.3, 0.0, np.where(r > 0.7, eps1, np.nan))
                self.delivered += int(np.isfinite(out[sl]).sum())
                k += m
                if m == left:
                    self.todo.pop(0)
                else:
                    self.todo[0][1] -= m
            if not self.todo:
                self.after += n - k
                if self.after > bound:
                    raise NoProgress()
            return out

        def _apply(self, val, fmap):
            arr = np.asarray(val, dtype=float)
            f = self._fault(arr.size)
            bad = np.isfinite(f)
            if bad.any():
                flat = arr.reshape(-1).copy()
                flat[bad] = fmap(f)[bad]
                arr = flat.reshape(arr.shape)
            return arr if isinstance(val, np.ndarray) else float(arr)

        def random(self, size=None, dtype=np.float64, out=None):
            v = self._apply(super().random(size, dtype), lambda f: f)
            if out is not None:
                out[...] = v
                return out
            return v

        def uniform(self, low=0.0, high=1.0, size=None):
            v = super().uniform(low, high, size)
            lo, hi = np.broadcast_arrays(np.asarray(low, float), np.asarray(high, float))
            if lo.ndim and lo.size > 1:
                lo = np.broadcast_to(lo, np.shape(v)).reshape(-1)
                hi = np.broadcast_to(hi, np.shape(v)).reshape(-1)
            else:
                lo, hi = float(lo.reshape(-1)[0]), float(hi.reshape(-1)[0])
            return self._apply(v, lambda f: lo + (hi - lo) * f)

        def normal(self, loc=0.0, scale=1.0, size=None):
            z = self.standard_normal(size if size is not None else np.shape(np.broadcast_arrays(loc, scale)[0]) or None)
            return loc + scale * z

        def standard_normal(self, size=None, dtype=np.float64, out=None):
            from scipy.special import ndtri
            return self._apply(super().standard_normal(size), lambda f: ndtri(np.clip(f, 1e-17, 1 - 1e-16)))

        def standard_exponential(self, size=None, dtype=np.float64, method="zig", out=None):
            return self._apply(super().standard_exponential(size), lambda f: -np.log1p(-np.clip(f, 0, eps1)))

        def exponential(self, scale=1.0, size=None):
            return self._apply(super().exponential(scale, size), lambda f: -np.mean(scale) * np.log1p(-np.clip(f, 0, eps1)))

        def standard_cauchy(self, size=None):
            return self._apply(super().standard_cauchy(size), lambda f: np.tan(np.pi * (np.clip(f, 1e-16, eps1) - 0.5)))

        def vonmises(self, mu, kappa, size=None):
            v = super().vonmises(mu, kappa, size)
            return self._apply(v, lambda f: -np.pi + 2 * np.pi * f)
    return Faulty()


def one(plan, k):
    import numpy as np
    import pycircstat2.distributions as D
    ops.quiet()
    w = plan["draws"][k]
    size = w["size"]
    shape = () if size is None else (size,) if isinstance(size, int) else tuple(size)
    n = int(np.prod(shape, dtype=int))
    g = faulty(w["seed"], w["phases"], w["lead"], 300000 + 4000 * n)
    op = {"k": "dist", "d": plan["d"], "m": "rvs", "p": w["p"], "size": size, "seed": "none", "sty": w["sty"]}
    if w["via"] == "attr" and w["sty"] in ("kw", "pos"):
        getattr(D, plan["d"]).random_state = g
    get, a, kw = ops.bound(op)
    if not (w["via"] == "attr" and w["sty"] in ("kw", "pos")):
        kw = dict(kw, random_state=g)
    who = f"{plan['d']}{tuple(w['p'])} size={size} phases={w['phases']} lead={w['lead']}"
    viol = []
    try:
        v = get()(*a, **kw)
    except NoProgress:
        return [{"class": "no-progress", "msg": f"{who}: still drawing after {g.after} ordinary random numbers{' and 10000 requests for none' if g.idle else ''}"}], g.delivered, g.after, None
    except Exception as e:
        return [{"class": "raise", "msg": f"{who}: {type(e).__name__}: {e}"}], g.delivered, g.after, None
    arr = np.asarray(v, dtype=float)
    if arr.shape != shape:
        viol.append({"class": "shape", "msg": f"{who}: shape {arr.shape} instead of {shape}"})
    if not np.all(np.isfinite(arr)):
        viol.append({"class": "not-finite", "msg": f"{who}: {arr.reshape(-1)[:5]}"})
    elif arr.size and (arr.min() < 0 or arr.max() > 2 * np.pi):
        viol.append({"class": "outside-circle", "msg": f"{who}: min {arr.min()!r} max {arr.max()!r}"})
    return viol, g.delivered, g.after, [float(x) for x in arr.reshape(-1)[:20]]


def execute(plan):
    viol, tr = [], []
    st = {"draws": 0, "faulty_numbers": 0, "ordinary_numbers_after": 0}
    faults = {}
    for k in range(len(plan["draws"])):
        v, nf, after, out = one(plan, k)
        viol += v
        st["draws"] += 1
        st["faulty_numbers"] += nf
        st["ordinary_numbers_after"] += after
        for ph in plan["draws"][k]["phases"]:
            faults["stream_" + ph[0]] = faults.get("stream_" + ph[0], 0) + 1
        tr.append(out)
    return {"violations": viol, "stats": st, "faults": faults, "shape": common.digest(plan), "nontrivial": st["faulty_numbers"] > 0,
            "trace": common.digest(plan, tr)}


def shrink(plan):
    for ds in core.drop_each(plan["draws"]):
        if ds:
            yield {**plan, "draws": ds}
    for i, w in enumerate(plan["draws"]):
        for ph in core.drop_each(w["phases"]):
            yield {**plan, "draws": plan["draws"][:i] + [{**w, "phases": ph}] + plan["draws"][i + 1:]}
        for j, ph in enumerate(w["phases"]):
            if ph[1] > 1:
                q = w["phases"][:j] + [[ph[0], ph[1] // 2] + ph[2:]] + w["phases"][j + 1:]
                yield {**plan, "draws": plan["draws"][:i] + [{**w, "phases": q}] + plan["draws"][i + 1:]}
        if w["lead"]:
            yield {**plan, "draws": plan["draws"][:i] + [{**w, "lead": 0}] + plan["draws"][i + 1:]}
