"""Operations on the library as JSON: one catalogue shared by all properties.

op = {"k": "dist", "d": family, "m": method, "p": [params], "sty": "pos|kw|fr|frkw", "x": ..., "form": "s|a|l|2"}
     {"k": "dist", "d": family, "m": "rvs", "p": [...], "sty":..., "size": ..., "seed": int|{"$g":..}|null}
     {"k": "fit",  "d": family, "data": [...], "kw": {...}}
     {"k": "fn",   "n": "module.name", "a": [...], "kw": {...}}
     {"k": "obj",  "c": "module.Class", "init": {...}, "do": [["call", name, args, kw] | ["get", attr] | ["state"]]}
     {"k": "plot", "C": {...}, "cfg": {...}, "ax": null|"polar"|"cart"|"bad"}

run(op) -> {"r": canonical result} or {"e": exception type}
"""
import io, sys, threading
import numpy as np
from canon import canon, same

TWO_PI = 2 * np.pi

SHAPES = {
    "circularuniform": [],
    "triangular": ["rho"],
    "cardioid": ["mu", "rho"],
    "cartwright": ["mu", "zeta"],
    "wrapnorm": ["mu", "rho"],
    "wrapcauchy": ["mu", "rho"],
    "vonmises": ["mu", "kappa"],
    "vonmises_flattopped": ["mu", "kappa", "nu"],
    "jonespewsey": ["mu", "kappa", "psi"],
    "jonespewsey_sineskewed": ["xi", "kappa", "psi", "lmbd"],
    "jonespewsey_asym": ["xi", "kappa", "psi", "nu"],
    "inverse_batschelet": ["xi", "kappa", "nu", "lmbd"],
    "wrapstable": ["delta", "alpha", "beta", "gamma"],
    "katojones": ["mu", "gamma", "rho", "lam"],
}
FAMS = list(SHAPES)
EVALS = ["pdf", "logpdf", "cdf", "logcdf", "sf", "logsf", "ppf", "isf"]
STATS = ["mean", "median", "var", "std", "r", "dispersion", "skewness", "kurtosis", "trig_moment", "entropy",
         "support", "stats"]
# relative cost of evaluating / drawing
SLOW = {"jonespewsey", "jonespewsey_sineskewed", "jonespewsey_asym", "katojones", "wrapstable"}


# --------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------
def _r(x, d=6):
    return round(x, d)


def gen_mu(rng):
    u = rng.random()
    if u < 0.08:
        return 0.0
    if u < 0.14:
        return _r(np.pi, 6)
    if u < 0.18:
        return 6.283
    return _r(rng.uniform(0, 6.28))


LIMITS = {"rho": [0.0], "kappa": [0.0, 1e-4, 0.0], "nu": [0.0, 1e-6], "psi": [0.0, 1e-3, 1.0, -1.0], "lmbd": [0.0],
          "alpha": [1.0, 2.0, 1.02], "beta": [0.0], "gamma": [0.05, 0.3], "zeta": [0.05], "lam": [0.0]}


def gen_params(rng, d, limits=0.12):
    p = _gen_params(rng, d)
    if rng.random() < limits and len(p) > 1:
        i = rng.randrange(1, len(p))
        q = list(p)
        q[i] = rng.choice(LIMITS[SHAPES[d][i]])
        if admissible(d, q):
            return q
    return p


def concentrated(rng, d, p):
    """p moved to a highly concentrated member of its family (or p itself)."""
    U = rng.uniform
    q = list(p)
    if d == "cartwright":
        q[1] = _r(10 ** U(-3, -1.5))
    elif d == "vonmises":
        q[1] = _r(10 ** U(1.5, 3))
    elif d == "vonmises_flattopped":
        q[1] = _r(10 ** U(1, 2.8))
    elif d == "inverse_batschelet":
        q[1] = _r(10 ** U(0.8, 2))
    elif d in ("wrapnorm", "wrapcauchy"):
        q[1] = _r(1 - 10 ** U(-2.5, -1.2))
    return q if admissible(d, q) else p


def at_limit(rng, d, p):
    """p with one parameter at a limiting value, most often the concentration."""
    for _ in range(10):
        if len(p) < 2:
            break
        i = 1 if rng.random() < 0.6 else rng.randrange(1, len(p))
        q = list(p)
        q[i] = rng.choice(LIMITS[SHAPES[d][i]])
        if q != p and admissible(d, q):
            return q
    return gen_params(rng, d)


def _gen_params(rng, d):
    U = rng.uniform
    if d == "circularuniform":
        return []
    if d == "triangular":
        return [_r(U(0.01, 0.4))]
    mu = gen_mu(rng)
    if d == "cardioid":
        return [mu, _r(U(0.02, 0.49))]
    if d == "cartwright":
        return [mu, _r(U(0.05, 3.0))]
    if d in ("wrapnorm", "wrapcauchy"):
        return [mu, _r(U(0.05, 0.93))]
    if d == "vonmises":
        return [mu, _r(10 ** U(-1.5, 1.5))]
    if d == "vonmises_flattopped":
        return [mu, _r(U(0.1, 8)), _r(U(-0.9, 0.95))]
    psi = _r(rng.choice([U(0.1, 1.5), U(-1.2, -0.1), U(0.3, 2.0)]))
    kap = _r(U(0.2, 3.0))
    if d == "jonespewsey":
        return [mu, kap, psi]
    if d == "jonespewsey_sineskewed":
        return [mu, kap, psi, _r(U(-0.9, 0.9))]
    if d == "jonespewsey_asym":
        return [mu, kap, psi, _r(U(0.0, 0.9))]
    if d == "inverse_batschelet":
        return [mu, _r(U(0.2, 6)), _r(U(-0.9, 0.9)), _r(U(-0.9, 0.9))]
    if d == "wrapstable":
        return [mu, _r(rng.choice([U(0.6, 1.95), U(0.6, 1.95), 1.0, 2.0])), _r(U(-0.9, 0.9)), _r(U(0.3, 1.5))]
    if d == "katojones":
        for _ in range(50):
            g, rho, lam = U(0.05, 0.8), U(0.0, 0.8), U(0, 6.28)
            if (rho * np.cos(lam) - g) ** 2 + (rho * np.sin(lam)) ** 2 <= (1 - g) ** 2 - 1e-3:
                return [mu, _r(g), _r(rho), _r(lam)]
        return [mu, 0.3, 0.3, 0.4]
    raise KeyError(d)


def admissible(d, p):
    import pycircstat2.distributions as D
    try:
        v = getattr(D, d)._argcheck(*[float(x) for x in p]) if p else True
        ok = bool(np.all(v))
    except Exception:
        return False
    if d.startswith("jonespewsey") and p[2] < 0 and p[1] * abs(p[2]) > 4:
        return False
    if d == "jonespewsey_sineskewed" and abs(p[3]) > 0.99:
        return False
    if d == "wrapstable" and not (-1 < p[2] < 1 and p[1] >= 0.4 and p[3] >= 0.2):    # truncated series below that
        return False
    return ok


def near_params(rng, d, p):
    """Another admissible parameter set that is easily mistaken for p."""
    if not p:
        return p
    for _ in range(20):
        q = list(p)
        u = rng.random()
        i = rng.randrange(len(p))
        if u < 0.45:
            q[i] = q[i] + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -2)
        elif u < 0.6 and len(q) > 1:
            j = rng.randrange(len(q))
            q[i], q[j] = q[j], q[i]
        elif u < 0.75:
            q[i] = -q[i]
        elif u < 0.85:
            q[i] = _gen_params(rng, d)[i]
        elif u < 0.93 and i:
            q[i] = rng.choice(LIMITS[SHAPES[d][i]])
        else:
            q[i] = float(np.nextafter(q[i], 10.0))
        if q != p and admissible(d, q):
            return q
    return gen_params(rng, d)


def typed_params(rng, p):
    """The same values in another numeric type."""
    out = []
    for v in p:
        u = rng.random()
        if float(v).is_integer() and u < 0.5:
            out.append(int(v))
        elif u < 0.6:
            out.append({"$s": v})
        elif u < 0.8:
            out.append({"$0": v})
        else:
            out.append(v)
    return out


def gen_x(rng, n=None):
    n = n or rng.choice([1, 2, 3, 5, 8])
    return [_r(rng.choice([0.0, TWO_PI, rng.uniform(0, TWO_PI), rng.uniform(0, TWO_PI), rng.uniform(0, TWO_PI),
                           rng.uniform(-7, 13)])) if rng.random() < 0.3 else _r(rng.uniform(0, TWO_PI)) for _ in range(n)]


def gen_q(rng, n=None):
    n = n or rng.choice([1, 2, 3])
    return [_r(rng.choice([0.0, 1.0, rng.random()])) if rng.random() < 0.15 else _r(rng.uniform(0.001, 0.999)) for _ in range(n)]


def gen_eval(rng, d=None, p=None, methods=EVALS):
    d = d or rng.choice(FAMS)
    p = gen_params(rng, d) if p is None else p
    m = rng.choice(methods)
    isq = m in ("ppf", "isf")
    form = rng.choice(["s", "a", "a", "l", "2"])
    x = gen_q(rng) if isq else gen_x(rng)
    if form == "s":
        x = x[:1]
    return {"k": "dist", "d": d, "m": m, "p": p, "x": x, "form": form, "sty": rng.choice(["pos", "kw", "fr", "frkw"])}


def gen_stat(rng, d=None, p=None):
    d = d or rng.choice(FAMS)
    p = gen_params(rng, d) if p is None else p
    return {"k": "dist", "d": d, "m": rng.choice(STATS), "p": p, "sty": rng.choice(["pos", "fr"])}


def gen_seed(rng):
    u = rng.random()
    s = rng.choice([0, 1, 7, 42, 2046, rng.randrange(1 << 31)])
    if u < 0.6:
        return s
    return {"$g": s} if u < 0.9 else {"$rs": s}


def gen_rvs(rng, d=None, p=None, seed="?", nmax=6):
    d = d or rng.choice(FAMS)
    p = gen_params(rng, d) if p is None else p
    size = rng.choice([None, 1, 2, nmax, [2, 2], [1], 3])
    return {"k": "dist", "d": d, "m": "rvs", "p": p, "size": size, "seed": gen_seed(rng) if seed == "?" else seed,
            "sty": rng.choice(["kw", "fr", "frkw", "pos"])}


def gen_fit(rng, d=None, n=None):
    d = d or rng.choice(["cardioid", "cartwright", "wrapnorm", "wrapcauchy", "vonmises", "vonmises_flattopped",
                         "jonespewsey", "katojones", "inverse_batschelet"])
    n = n or rng.choice([8, 15, 30])
    c, w = rng.uniform(0, 6.28), rng.uniform(0.3, 1.2)
    data = [_r(rng.gauss(c, w) % TWO_PI) for _ in range(n)]
    kw = {"return_info": True} if d not in ("triangular",) else {}
    if rng.random() < 0.4 and d not in ("triangular",):
        kw["weights"] = {"$a": [float(rng.choice([0, 1, 1, 2, 3])) for _ in range(n - 1)] + [1.0]}
    if d in ("cardioid", "cartwright", "wrapnorm", "wrapcauchy", "vonmises", "katojones", "jonespewsey") and rng.random() < 0.4:
        kw["method"] = "mle" if d == "katojones" else rng.choice(["mle", "moments"])
    return {"k": "fit", "d": d, "data": {"$a": data}, "kw": kw}


def gen_bad(rng, d=None):
    """A call the library must reject (or answer), leaving nothing behind."""
    d = d if d and SHAPES[d] else rng.choice([f for f in FAMS if SHAPES[f]])
    p = gen_params(rng, d)
    u = rng.random()
    if u < 0.35:
        q = list(p)
        q[rng.randrange(len(q))] = rng.choice([-5.0, 50.0, float("nan"), -1e-3])
        return dict(gen_eval(rng, d, q))
    if u < 0.5:
        op = gen_eval(rng, d, p)
        op["x"] = "abc"
        op["form"] = "s"
        return op
    if u < 0.65:
        op = gen_rvs(rng, d, p)
        op["size"] = rng.choice(["x", -3, [2, -1]])
        return op
    if u < 0.75:
        op = gen_rvs(rng, d, p)
        op["seed"] = rng.choice(["seed", -4, {"$l": ["a"]}])
        return op
    if u < 0.9:
        op = gen_fit(rng, rng.choice(["cardioid", "vonmises", "wrapcauchy", "katojones", "vonmises_flattopped"]), 6)
        op["data"] = rng.choice([{"$a": []}, {"$l": ["a", "b"]}, {"$a": [1.0, "nan", 2.0]}])
        op["kw"] = {"method": rng.choice(["mle", "bogus"])}
        return op
    op = gen_eval(rng, d, p)
    op["p"] = [{"$a": [v, v + 0.01]} for v in p]
    op["x"] = gen_x(rng, 2) if op["m"] not in ("ppf", "isf") else gen_q(rng, 2)
    op["form"] = "a"
    return op


# ---- non-distribution functions -------------------------------------------
TURNS = [0.1]        # share of data sets with angles of other turns


def angles(rng, n=None, spread=None):
    n = n or rng.choice([6, 9, 12, 20])
    u = rng.random()
    if u < 0.25:
        return [_r(rng.uniform(0, 6.28), 4) for _ in range(n)]
    c, w = rng.uniform(0, 6.28), spread or rng.choice([0.3, 0.8, 1.2])
    if u > 1 - TURNS[0]:
        return [_r(rng.gauss(c, w) % TWO_PI + TWO_PI * rng.choice([-1, 0, 0, 1]), 4) for _ in range(n)]
    return [_r(rng.gauss(c, w) % TWO_PI, 4) for _ in range(n)]


def grid_w(rng, k=12):
    h = TWO_PI / k
    c = rng.randrange(k)
    w = [max(0, int(6 * np.exp(-0.3 * min((i - c) % k, (c - i) % k)) + rng.randrange(0, 3))) for i in range(k)]
    w[c] += 3
    return [round(h / 2 + i * h, 6) for i in range(k)], w


def A(x):
    return {"$a": x}


def I(x):
    return {"$i": x}


def circ_spec(rng, grouped=None, mix=False, n=None):
    grouped = rng.random() < 0.3 if grouped is None else grouped
    ci = {"$d": {"method": rng.choice(["dispersion", "approximate"])}}
    if not grouped:
        n = n or rng.choice([6, 9, 14, 20, 28, 40])
        ci = {"$d": {"method": None if n < 8 else "approximate"}} if n < 25 else rng.choice([None, ci])
    if grouped:
        k = rng.choice([12, 18])
        _, w = grid_w(rng, k)
        h = 360.0 / k
        return {"data": A([h / 2 + h * i for i in range(k)]), "w": I(w), "unit": "degree", "kwargs_mean_ci": ci}
    al = angles(rng, n)
    u = rng.random()
    if u < 0.4:
        s = {"data": A([_r(np.degrees(a), 4) for a in al]), "unit": "degree"}
    elif u < 0.8:
        s = {"data": A(al), "unit": "radian"}
    else:
        s = {"data": {"$l": [_r(a / TWO_PI * 24, 4) for a in al]}, "unit": "hour"}
    s["kwargs_mean_ci"] = ci
    if rng.random() < 0.2:
        s["kwargs_median"] = {"$d": {"method": rng.choice(["count", "deviation"]), "average_method": rng.choice(["all", "unique"])}}
    if mix:
        s["n_clusters_max"] = 2
    if rng.random() < 0.15 and s["unit"] == "radian":
        s["rotate"] = 0.7
    return s


def C(rng, **k):
    return {"$C": circ_spec(rng, **k)}


def two(rng):
    return {"$l": [A(angles(rng)), A(angles(rng))]} if rng.random() < 0.7 else {"$l": [C(rng, grouped=False), C(rng, grouped=False)]}


FN = {}


def fn(name):
    def deco(f):
        FN[name] = f
        return f
    return deco


def _F(name, f):
    FN[name] = f


def _w(rng, n):
    return A([float(rng.choice([1, 1, 2, 3])) for _ in range(n)])


def _aw(rng, **extra):
    al = angles(rng)
    kw = {"alpha": A(al)}
    if rng.random() < 0.5:
        kw["w"] = _w(rng, len(al))
    kw.update(extra)
    return [[], kw]


for _n in ("circ_mean", "circ_mean_and_r", "circ_r", "circ_var", "circ_std", "angular_var", "angular_std",
           "circ_skewness", "circ_kurtosis", "circ_dispersion"):
    _F("descriptive." + _n, _aw)
_F("descriptive.circ_moment", lambda r: _aw(r, p=r.choice([1, 2, 3]), centered=r.choice([True, False])))
_F("descriptive.circ_kappa", lambda r: [[_r(r.uniform(0.02, 0.98)), r.choice([None, 10, 30])], {}])
_F("descriptive.circ_dist", lambda r: (lambda n: [[A(angles(r, n)), A(angles(r, n))], {"metric": r.choice(["center", "geodesic", "angularseparation", "chord"])}])(r.choice([4, 7])))
_F("descriptive.circ_pairdist", lambda r: [[A(angles(r, 5)), A(angles(r, 4))], {"metric": r.choice(["center", "geodesic", "angularseparation", "chord"]), "return_sum": r.choice([True, False])}])
_F("descriptive.circ_mean_deviation", lambda r: [[A(angles(r)), A(angles(r, 3))], {}])
_F("descriptive.circ_mean_deviation_chuncked", lambda r: [[A(angles(r)), A(angles(r, 3))], {"chunk_size": r.choice([1, 2, 1000])}])
_F("descriptive.circ_mean_deviation_chunked", lambda r: [[A(angles(r)), A(angles(r, 3))], {"chunk_size": r.choice([1, 2, 1000])}])
_F("descriptive.circ_mean_ci", lambda r: [[], {"alpha": A(angles(r, r.choice([12, 30, 40]), r.choice([0.3, 0.6]))), "method": r.choice(["approximate", "dispersion"]), "ci": r.choice([0.9, 0.95, 0.99])}])
_F("descriptive.circ_median", lambda r: [[A(angles(r))], {"method": r.choice(["deviation", "count"]), "return_average": r.choice([True, False]), "average_method": r.choice(["all", "unique"])}])


@fn("descriptive.circ_median#grouped")
def _(r):
    a, w = grid_w(r)
    return [[A(a), I(w)], {}]


@fn("descriptive.circ_median_ci")
def _(r):
    return [[], {"alpha": A(angles(r, r.choice([8, 12, 20]))), "ci": r.choice([0.9, 0.95])}]


_F("descriptive.circ_quantile", lambda r: [[A(angles(r))], {"probs": r.choice([0.5, A([0.1, 0.5, 0.9])]), "type": r.choice([1, 4, 7, 8])}])
_F("descriptive.circ_range", lambda r: [[A(angles(r))], {}])
_F("descriptive.compute_C_and_S", lambda r: (lambda n: [[A(angles(r, n)), _w(r, n)], {"p": r.choice([1, 2])}])(7))
_F("descriptive.compute_hdi", lambda r: [[A(angles(r, 30))], {"ci": r.choice([0.8, 0.95])}])
_F("descriptive.compute_smooth_params", lambda r: [[_r(r.uniform(0.1, 0.95)), r.choice([10, 40])], {}])
_F("descriptive.convert_moment", lambda r: [[{"$c": [_r(r.uniform(-1, 1)), _r(r.uniform(-1, 1))]}], {}])
_F("descriptive.nonparametric_density_estimation", lambda r: [[A(angles(r)), _r(r.uniform(0.5, 1.5))], {}])
_F("descriptive.circ_mean_and_r_of_means", lambda r: [[], {"ms": A(angles(r, 5)), "rs": A([_r(r.uniform(0.1, 0.9)) for _ in range(5)])} if r.random() < 0.6 else {"circs": {"$l": [C(r, grouped=False), C(r, grouped=False)]}}])
_F("utils.A1", lambda r: [[A([_r(r.uniform(0, 9)) for _ in range(4)])], {}])
_F("utils.A1inv", lambda r: [[_r(r.uniform(0, 0.97))], {}])
_F("utils.angmod", lambda r: [[r.choice([A([_r(r.uniform(-20, 20)) for _ in range(6)]), _r(r.uniform(-20, 20)), 7])], {} if r.random() < 0.7 else {"bounds": {"$l": [-3.141592653589793, 3.141592653589793]}}])
_F("utils.angular_distance", lambda r: [[r.choice([A(angles(r)), {"$l": angles(r)}]), _r(r.uniform(-7, 7))], {}])
_F("utils.data2rad", lambda r: [[A([_r(r.uniform(-400, 800)) for _ in range(5)])], {"k": r.choice([360, 24, 2 * np.pi])}])
_F("utils.rad2data", lambda r: [[A(angles(r))], {"k": r.choice([360, 24, 7])}])
_F("utils.is_within_circular_range", lambda r: [[_r(r.uniform(-7, 7)), _r(r.uniform(0, 6)), _r(r.uniform(0, 6))], {}])
_F("utils.rotate_data", lambda r: [[A([_r(r.uniform(0, 23)) for _ in range(5)]), _r(r.uniform(-50, 50))], {"unit": r.choice(["degree", "radian", "hour"])}])
_F("utils.significance_code", lambda r: [[r.choice([0.0001, 0.005, 0.03, 0.07, 0.5])], {}])
_F("utils.time2float", lambda r: [[r.choice([{"$o": ["12:30", "01:15", "23:59"]}, {"$l": ["12:30", "1:5"]}, "07:45"])], {}])
_F("utils.load_data", lambda r: [[r.choice(["B1", "B2", "B5", "B8"]), "fisher"], {"print_meta": r.random() < 0.3}])
_V = lambda r: {"verbose": True} if r.random() < 0.2 else {}
_F("hypothesis.rayleigh_test", lambda r: [[], {**_aw(r)[1], **_V(r)}])
_F("hypothesis.chisquare_test", lambda r: [[I(grid_w(r)[1])], _V(r)])
_F("hypothesis.V_test", lambda r: [[_r(r.uniform(0, 6))], {**_aw(r)[1], **_V(r)}])
_F("hypothesis.one_sample_test", lambda r: [[_r(r.uniform(0, 6))], {"alpha": A(angles(r, 30, 0.6)), **_V(r)}])
_F("hypothesis.omnibus_test", lambda r: [[A(angles(r))], {"scale": r.choice([1, 2]), **_V(r)}])
_F("hypothesis.batschelet_test", lambda r: [[_r(r.uniform(0, 6)), A(angles(r))], _V(r)])
_F("hypothesis.symmetry_test", lambda r: [[A(angles(r))], _V(r)])
_F("hypothesis.watson_williams_test", lambda r: [[two(r)], _V(r)])
_F("hypothesis.watson_u2_test", lambda r: [[two(r)], _V(r)])
_F("hypothesis.wheeler_watson_test", lambda r: [[two(r)], _V(r)])
_F("hypothesis.wallraff_test", lambda r: [[two(r)], {"angle": _r(r.uniform(0, 6)), **_V(r)}])
_F("hypothesis.circ_anova", lambda r: [[{"$l": [A(angles(r)), A(angles(r)), A(angles(r))]}], {"method": r.choice(["F-test", "LRT"]), **_V(r)}])
_F("hypothesis.binomial_test", lambda r: [[A(angles(r)), _r(r.uniform(0, 6))], _V(r)])
_F("hypothesis.concentration_test", lambda r: [[A(angles(r)), A(angles(r))], _V(r)])
_F("hypothesis.rao_homogeneity_test", lambda r: [[{"$l": [A(angles(r)), A(angles(r))]}], _V(r)])
_F("hypothesis.change_point_test", lambda r: [[A(angles(r, 12))], _V(r)])
_F("hypothesis.circ_range_test", lambda r: [[A(angles(r))], _V(r)])
_F("hypothesis.harrison_kanji_test", lambda r: [[A(angles(r, 12)), I([0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1]), I([0, 0, 0, 1, 1, 1] * 2)], {"inter": r.choice([True, False]), **_V(r)}])
_F("hypothesis.equal_kappa_test", lambda r: [[{"$l": [A(angles(r)), A(angles(r)), A(angles(r))]}], _V(r)])
_F("hypothesis.common_median_test", lambda r: [[{"$l": [A(angles(r)), A(angles(r))]}], _V(r)])
_F("correlation.circ_corrcc", lambda r: (lambda n: [[r.choice([A(angles(r, n)), {"$l": angles(r, n)}, C(r, grouped=False, n=n)]), A(angles(r, n))], {"method": r.choice(["fl", "js", "nonparametric"]), "test": r.choice([True, False])}])(r.choice([7, 10])))
_F("correlation.circ_corrcl", lambda r: (lambda n: [[A(angles(r, n)), A([_r(r.gauss(0, 1)) for _ in range(n)])], {}])(r.choice([7, 10])))

# Monte Carlo functions (seeded)
MC = {}


def _seed(r):
    return r.choice([0, 3, 2046, {"$l": [1, 2]}, {"$ss": 5}, {"$g": 9}, {"$bg": 4}, True])


MC["hypothesis.rayleigh_test"] = lambda r: [[], {**_aw(r)[1], "B": r.choice([9, 50]), "seed": _seed(r)}]
MC["hypothesis.kuiper_test"] = lambda r: [[A(angles(r))], {"n_simulation": r.choice([9, 60]), "seed": _seed(r)}]
MC["hypothesis.watson_test"] = lambda r: [[A(angles(r))], {"n_simulation": r.choice([9, 60]), "seed": _seed(r)}]


def _rao(r):
    if r.random() < 0.4:
        a, w = grid_w(r)
        return [[A(a)], {"w": I(w), "kappa": 1000.0, "n_simulation": r.choice([9, 30]), "seed": _seed(r)}]
    return [[A(angles(r))], {"n_simulation": r.choice([9, 60]), "seed": _seed(r)}]


MC["hypothesis.rao_spacing_test"] = _rao
MC["hypothesis.angular_randomisation_test"] = lambda r: [[two(r)], {"n_simulation": r.choice([9, 40]), "seed": _seed(r)}]


def gen_fn(rng, name=None):
    name = name or rng.choice(sorted(FN))
    a, kw = FN[name](rng)
    return {"k": "fn", "n": name.split("#")[0], "a": a, "kw": kw}


def gen_mc(rng, name=None):
    name = name or rng.choice(sorted(MC))
    a, kw = MC[name](rng)
    return {"k": "fn", "n": name, "a": a, "kw": kw}


def gen_bad_fn(rng):
    op = gen_fn(rng)
    u = rng.random()
    junk = rng.choice([A([]), A(["nan", 1.0]), "junk", None, A([1.0]), {"$2": [[1.0, 2.0], [3.0, 4.0]]}])
    if op["a"] and (u < 0.6 or not op["kw"]):
        op["a"][rng.randrange(len(op["a"]))] = junk
    elif op["kw"]:
        op["kw"][rng.choice(sorted(op["kw"]))] = junk
    return op


# ---- objects ---------------------------------------------------------------
CLUS = ["clustering.MovM", "clustering.MoKJ", "clustering.MoCD", "clustering.CircKMeans", "clustering.CircHAC"]


def clus_data(rng, unit, n=None):
    n = n or rng.choice([12, 20])
    k = rng.choice([1, 2, 3])
    cs = [rng.uniform(0, 6.28) for _ in range(k)]
    al = [rng.gauss(rng.choice(cs), 0.35) % TWO_PI for _ in range(n)]
    return A([_r(np.degrees(a) if unit == "degree" else a, 4) for a in al])


def gen_clus(rng, cls=None, seeded=True, refit=None, n=None):
    cls = cls or rng.choice(CLUS)
    unit = rng.choice(["degree", "radian"])
    seed = rng.choice([0, 1, 2046, rng.randrange(1 << 30)]) if seeded else None
    k = rng.choice([1, 2, 2, 3])
    init = {"n_clusters": k, "unit": unit, "random_seed": seed}
    if unit == "radian":
        init["full_cycle"] = TWO_PI
    q = clus_data(rng, unit, 5)
    if cls.endswith("MovM"):
        init.update(burnin=rng.choice([1, 3]), n_iters=rng.choice([2, 6, 30]), threshold=rng.choice([1e-16, 1e-3]))
        tail = [["get", "p_"], ["get", "m_"], ["get", "kappa_"], ["get", "nLL"], ["get", "gamma_"], ["get", "labels_"],
                ["get", "converged"], ["call", "compute_BIC", [], {}], ["call", "predict", [q], {}], ["call", "predict_proba", [q], {}],
                ["call", "predict_density", [], {}]]
    elif cls.endswith("MoKJ"):
        init.update(burnin=rng.choice([1, 2]), n_iters=rng.choice([2, 3]), mle_maxiter=20)
        tail = [["get", "p_"], ["get", "params_"], ["get", "nLL"], ["get", "labels_"], ["call", "compute_BIC", [], {}],
                ["call", "predict", [q], {}], ["call", "predict_density", [], {}]]
    elif cls.endswith("MoCD"):
        init.update(burnin=rng.choice([1, 2]), n_iters=rng.choice([2, 5]), distribution={"$dist": rng.choice(["vonmises", "wrapcauchy", "cardioid", "wrapnorm", "cartwright"])})
        tail = [["get", "p_"], ["get", "params_"], ["get", "nLL"], ["get", "labels_"], ["call", "compute_BIC", [], {}],
                ["call", "predict", [q], {}], ["call", "predict_proba", [q], {}], ["call", "score_samples", [q], {}], ["call", "predict_density_grid", [], {}]]
    elif cls.endswith("CircKMeans"):
        init.update(max_iter=rng.choice([1, 5, 50]), metric=rng.choice(["center", "geodesic", "angularseparation", "chord"]))
        tail = [["get", "labels_"], ["get", "centers_"], ["get", "inertia_"], ["call", "predict", [q], {}]]
    else:
        init.update(metric=rng.choice(["center", "geodesic", "angularseparation", "chord"]))
        if rng.random() < 0.5:
            init["n_init_clusters"] = rng.choice([5, 8])
        tail = [["get", "labels_"], ["get", "centers_"], ["get", "merges_"], ["call", "predict", [q], {}], ["call", "silhouette_score", [], {}]]
    fits = 2 if (refit if refit is not None else rng.random() < 0.3) else 1
    do = [["call", "fit", [clus_data(rng, unit, n)], {}] for _ in range(fits)]
    return {"k": "obj", "c": cls, "init": init, "do": do + tail}


def gen_reg(rng):
    n = rng.choice([15, 25])
    x = [_r(rng.gauss(0, 1)) for _ in range(n)]
    th = [_r((1.0 + 2 * np.arctan(0.6 * v) + rng.gauss(0, 0.5)) % TWO_PI) for v in x]
    form = rng.random() < 0.4
    if rng.random() < 0.6:
        init = {"model_type": rng.choice(["mean", "kappa", "mixed"]), "max_iter": rng.choice([3, 40])}
        if form:
            init.update(formula="th ~ x", data={"$df": {"th": th, "x": x}})
        else:
            init.update(theta=A(th), X=A(x) if rng.random() < 0.5 else {"$2": [[v] for v in x]})
        if rng.random() < 0.3:
            init["beta0"] = A([0.1])
        return {"k": "obj", "c": "regression.CLRegression", "init": init,
                "do": [["get", "result"], ["get", "beta"], ["get", "gamma"], ["call", "AIC", [], {}], ["call", "BIC", [], {}],
                       ["call", "predict", [{"$2": [[0.1], [0.9]]}], {}], ["call", "summary", [], {}]]}
    x = [v % TWO_PI for v in x]
    init = {"order": rng.choice([1, 2])}
    if form:
        init.update(formula="th ~ x", data={"$df": {"th": th, "x": x}})
    else:
        init.update(theta=A(th), x=A(x))
    return {"k": "obj", "c": "regression.CCRegression", "init": init, "do": [["get", "result"], ["call", "summary", [], {}]]}


STATS_OF_CIRC = ["n", "mean", "r", "R", "kappa", "mean_lb", "mean_ub", "s", "s0", "median", "median_lb", "median_ub",
                 "skewness", "kurtosis", "w", "alpha", "data", "grouped", "bin_size", "unit", "full_cycle", "mean_test_result",
                 "mean_ci_level", "method_mean_ci", "mixtures_BIC"]


def gen_circ(rng, cls=None, mix=False, grouped=None):
    spec = circ_spec(rng, mix=mix, grouped=grouped)
    cls = cls or rng.choice(["base.Circular", "base.Circular", "base.Axial"])
    if cls == "base.Axial":
        spec.pop("rotate", None)
        if "w" in spec:
            spec = circ_spec(rng, grouped=False)
            spec.pop("rotate", None)
    return {"k": "obj", "c": cls, "init": spec, "do": [["get", a] for a in STATS_OF_CIRC] + [["call", "summary", [], {}], ["call", "__repr__", [], {}]]}


def gen_plot_cfg(rng, grouped):
    cfg = {}
    if rng.random() < 0.6:
        cfg["density"] = {"$d": {"method": "nonparametric", "color": "red", "linestyle": "--"}} if rng.random() < 0.5 else False
    if grouped:
        cfg["density"] = False
        cfg["median"] = rng.choice([False, {"$d": {"ci": False}}])
    if rng.random() < 0.5:
        cfg["rose"] = {"$d": {"bins": rng.choice([6, 24]), "counts": rng.choice([True, False])}} if rng.random() < 0.7 else False
    if rng.random() < 0.4:
        cfg["mean"] = rng.choice([False, {"$d": {"ci": False}}, {"$d": {"color": "blue", "ci": False}}])
    if rng.random() < 0.4 and not grouped:
        cfg["median"] = rng.choice([False, {"$d": {"ci": False}}])
    if rng.random() < 0.3:
        cfg["radius"] = {"$d": {"ticks": {"$l": [0, 1]}, "lim_max": 2}}
    if rng.random() < 0.3:
        cfg["outward"] = rng.choice([True, False])
    if rng.random() < 0.2:
        cfg["scatter"] = {"$d": {"size": 5, "marker": "x"}}
    if rng.random() < 0.2:
        cfg["legend"] = False
    if rng.random() < 0.1:
        cfg["bogus"] = 3
    return {"$d": cfg}


def gen_plot(rng):
    grouped = rng.random() < 0.3
    return {"k": "plot", "C": circ_spec(rng, grouped=grouped), "cfg": gen_plot_cfg(rng, grouped) if rng.random() < 0.85 or grouped else None,
            "ax": rng.choice([None, "polar", "polar", "bad"])}


# --------------------------------------------------------------------------
# decoding and running
# --------------------------------------------------------------------------
def _num(v):
    if isinstance(v, str):
        return float(v)
    return v


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if not isinstance(v, dict):
        return v
    (t, b), = v.items() if len(v) == 1 else (("", None),)
    if t == "$a":
        return np.array([_num(x) for x in b], dtype=float)
    if t == "$i":
        return np.array(b, dtype=int)
    if t == "$2":
        return np.array(b, dtype=float)
    if t == "$o":
        return np.array(b)
    if t == "$l":
        return [dec(x) for x in b]
    if t == "$t":
        return tuple(dec(x) for x in b)
    if t == "$d":
        return {k: dec(x) for k, x in b.items()}
    if t == "$c":
        return complex(*b)
    if t == "$s":
        return np.float64(b)
    if t == "$0":
        return np.array(b, dtype=float)
    if t == "$g":
        return np.random.default_rng(b)
    if t == "$bg":
        return np.random.PCG64(b)
    if t == "$ss":
        return np.random.SeedSequence(b)
    if t == "$rs":
        return np.random.RandomState(b)
    if t == "$dist":
        import pycircstat2.distributions as D
        return getattr(D, b)
    if t == "$df":
        import pandas as pd
        return pd.DataFrame({k: list(x) for k, x in b.items()})
    if t == "$C":
        from pycircstat2 import Circular
        return Circular(**{k: dec(x) for k, x in b.items()})
    raise ValueError(f"bad argument {v!r}")


def resolve(name):
    import importlib
    mod, n = name.rsplit(".", 1)
    return getattr(importlib.import_module("pycircstat2." + mod), n)


def shape_x(x, form):
    if form == "s":
        return x if isinstance(x, str) else x[0]
    if form == "l":
        return list(x)
    a = np.array(x, dtype=float)
    return a.reshape(-1, 1) if form == "2" else a


def bound(op, dist=None):
    """(getter of the callable, positional args, kw args) for a distribution op.

    The getter freezes where the style says so, so freezing is part of the call."""
    import pycircstat2.distributions as D
    d = dist if dist is not None else getattr(D, op["d"])
    p = [dec(v) for v in op["p"]]
    names = SHAPES[op["d"]]
    kwp = dict(zip(names, p))
    sty = op.get("sty", "pos")
    m = op["m"]
    if m == "rvs":
        size = op.get("size")
        size = tuple(size) if isinstance(size, list) else size
        args, kw = [], {"size": size, "random_state": dec(op.get("seed"))}
        if "seed" in op and op["seed"] == "none":
            kw.pop("random_state")
    else:
        args, kw = [shape_x(op["x"], op["form"])] if "x" in op else [], {}
        if m == "trig_moment":
            args = [op.get("pm", 2)]
    if sty == "sh":
        return (lambda: getattr(shared(op), m)), args, kw
    if sty == "fr":
        return (lambda: getattr(d(*p), m)), args, kw
    if sty == "frkw":
        return (lambda: getattr(d(**kwp), m)), args, kw
    if sty == "kw" or (m == "rvs" and op["d"] == "vonmises"):
        return (lambda: getattr(d, m)), args, {**kwp, **kw}
    if m == "rvs":
        return (lambda: d.rvs), p, kw
    return (lambda: getattr(d, m)), args + p, kw


_SHARED = {}


def shared(op):
    """One frozen distribution used by every op with these parameters."""
    import json
    import pycircstat2.distributions as D
    k = json.dumps([op["d"], op["p"]])
    if k not in _SHARED:
        _SHARED[k] = getattr(D, op["d"])(*[dec(v) for v in op["p"]])
    return _SHARED[k]


def share(oplist):
    for op in oplist:
        if op.get("sty") == "sh":
            try:
                shared(op)
            except Exception:
                pass


def prepare_safe(op):
    try:
        return prepare(op)[0]
    except Exception as e:
        err = e

        def thunk():
            raise err
        return thunk


def prepare(op):
    """Decode the arguments and return (thunk, argument objects)."""
    k = op["k"]
    if k == "dist":
        get, a, kw = bound(op)

        def thunk():
            return get()(*a, **kw)
        return thunk, [a, kw]
    if k == "many":          # one method of one family at many parameter sets
        import core
        import pycircstat2.distributions as D
        f = getattr(getattr(D, op["d"]), op["m"])
        rng = core.rng_for("flood", op["seed"])
        ps = [[dec(v) for v in gen_params(rng, op["d"], 0.0)] for _ in range(op["n"])]
        return (lambda: [f(0.4, *p) for p in ps]), [ps]
    if k == "fit":
        import pycircstat2.distributions as D
        f = getattr(D, op["d"]).fit
        data, kw = dec(op["data"]), {n: dec(v) for n, v in op["kw"].items()}
        return (lambda: f(data, **kw)), [data, kw]
    if k == "fn":
        f = resolve(op["n"])
        a, kw = [dec(x) for x in op["a"]], {n: dec(v) for n, v in op["kw"].items()}
        return (lambda: f(*a, **kw)), [a, kw]
    if k == "obj":
        cls = resolve(op["c"])
        init = {n: dec(v) for n, v in op["init"].items()}
        do = []
        for s in op["do"]:
            if s[0] == "call":
                do.append(["call", s[1], [dec(x) for x in s[2]], {n: dec(v) for n, v in s[3].items()}])
            else:
                do.append(s)

        def thunk():
            o = cls(**init)
            return script(o, do)
        return thunk, [init, do]
    if k == "plot":
        from pycircstat2 import Circular
        import matplotlib.pyplot as plt
        c = Circular(**{n: dec(v) for n, v in op["C"].items()})
        cfg = dec(op["cfg"])
        ax = None
        if op["ax"] == "polar":
            ax = plt.figure().add_subplot(projection="polar")
        elif op["ax"] == "cart":
            ax = plt.figure().add_subplot()
        elif op["ax"] == "bad":
            ax = BadAx(op.get("badn", 3))

        def thunk():
            try:
                c.plot(ax=ax, config=cfg)
            finally:
                plt.close("all")
            return None
        return thunk, [c, cfg]
    raise KeyError(k)


class BadAx:
    """Axes whose n-th drawing call fails."""

    def __init__(self, n):
        import matplotlib.pyplot as plt
        self._ax = plt.figure().add_subplot(projection="polar")
        self._n = n

    def __getattr__(self, name):
        v = getattr(self._ax, name)
        if not callable(v):
            return v

        def f(*a, **k):
            self._n -= 1
            if self._n <= 0:
                raise OSError("canvas lost")
            return v(*a, **k)
        return f


def script(o, do):
    out = []
    for s in do:
        try:
            if s[0] == "get":
                out.append(canon(getattr(o, s[1], "<absent>")))
            elif s[0] == "state":
                out.append(canon(o))
            else:
                v = getattr(o, s[1])
                v = v(*s[2], **s[3]) if callable(v) else v
                out.append("self" if v is o else canon(v))
        except Exception as e:
            if s[0] == "call" and s[1] == "fit":
                out.append(["raised", type(e).__name__])
                raise
            out.append(["raised", type(e).__name__])
    return out


class ThreadOut:
    """stdout with one buffer per thread."""

    def __init__(self):
        self.loc = threading.local()

    def write(self, s):
        b = getattr(self.loc, "b", None)
        if b is not None:
            b.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def quiet():
    """Capture what the library prints (call once per run process)."""
    if not isinstance(sys.stdout, ThreadOut):
        sys.stdout = ThreadOut()


def call(thunk):
    """Outcome of a thunk: {"r":..} or {"e":..}; printed text included."""
    so = sys.stdout
    if isinstance(so, ThreadOut):
        so.loc.b = []
    try:
        v = thunk()
        out = {"r": v if isinstance(v, _Done) else canon(v)}
    except Exception as e:
        out = {"e": type(e).__name__, "msg": str(e)[:200]}
    if isinstance(so, ThreadOut):
        t = "".join(so.loc.b)
        so.loc.b = None
        if t:
            out["out"] = t
    return out


class _Done:
    pass


def run(op):
    quiet()
    if op.get("np_seed") is not None:
        np.random.seed(op["np_seed"])
    try:
        thunk, _ = prepare(op)
    except Exception as e:
        return {"e": type(e).__name__, "msg": str(e)[:200]}
    return call(thunk)


def is_fit(op):
    return op["k"] == "fit"


def tol(op):
    """(rtol, atol) that the property grants a result of this op."""
    if op["k"] == "fit":
        return 2e-3, 2e-4
    if op["k"] == "dist" and op["m"] != "rvs":
        return 1e-9, 1e-10
    return 1e-9, 1e-10


def differ(op, got, want):
    """None if the outcomes agree within what the property grants."""
    if ("e" in got) != ("e" in want):
        return f"{brief(got)} instead of {brief(want)}"
    if "e" in got:
        return None if got["e"] == want["e"] else f"raised {got['e']} instead of {want['e']}"
    rt, at = tol(op)
    g, w = got["r"], want["r"]
    if op["k"] == "fit":
        return fit_differ(g, w)
    d = same(g, w, rt, at)
    if d:
        return d
    if got.get("out") != want.get("out") and not _nearly_text(got.get("out"), want.get("out")):
        return f"printed {got.get('out')!r:.100} instead of {want.get('out')!r:.100}"
    return None


def _nearly_text(a, b):
    import re
    if a is None or b is None:
        return False
    n = re.compile(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?")
    if n.sub("#", a) != n.sub("#", b):
        return False
    return all(abs(float(x) - float(y)) <= 1e-2 + 1e-3 * abs(float(y)) for x, y in zip(n.findall(a), n.findall(b)))


def fit_differ(g, w):
    """Fits agree when log-likelihoods agree, or the estimates do."""
    lg, lw = _find(g, "loglik"), _find(w, "loglik")
    if lg is not None and lw is not None:
        if isinstance(lg, str) or isinstance(lw, str):
            return None if lg == lw else f"log-likelihood {lg} instead of {lw}"
        if abs(lg - lw) <= 1e-4 * max(1.0, abs(lw)):
            return None
        return f"log-likelihood {lg!r} instead of {lw!r}"
    return same(g, w, 2e-3, 2e-4)


def _find(v, key):
    if isinstance(v, list):
        if v and v[0] == "d":
            for k, x in v[1]:
                if k == key and isinstance(x, list) and x and x[0] == "f":
                    return x[1]
        for x in v:
            r = _find(x, key)
            if r is not None:
                return r
    return None


def brief(o):
    s = f"raised {o['e']}: {o.get('msg', '')}" if "e" in o else repr(o.get("r"))
    return s if len(s) < 160 else s[:160] + "..."
