"""P01: concurrent callers of the shared distribution objects."""
import core, ops, common

ID = "P01"
LEVEL = "exploration"
RULE = ("one evaluation = one seeded program of 2-4 threads x 1-3 distribution calls, executed under 4 seeded bytecode-level "
        "schedules, each in its own forked process; non-trivial = some schedule had at least two context switches; "
        "distinct by hash of program, executed schedules and results")
SHAPE = "distinct (program, schedule) hashes"
REAL = ["pycircstat2.distributions and everything it calls (scipy, numpy), CPython threads"]
STUB = ["thread scheduler (sys.settrace cooperative scheduler decides every preemption)", "threading.Lock/RLock created by the library"]
ASSUME = ["preemption points are the bytecodes of pycircstat2 and of scipy's distribution infrastructure; C extensions run atomically (true under the GIL except inside released regions)"]
RUNS = {"quick": 700, "thorough": 40000}
TIMEOUT = 300.0
NTRIALS = 4
FITFAMS = ["cardioid", "cartwright", "wrapcauchy", "vonmises", "vonmises_flattopped", "wrapnorm", "katojones"]


def gen_op(rng, d, base):
    u = rng.random()
    p = rng.choice(base)
    if u < 0.66:
        op = ops.gen_eval(rng, d, p, methods=ops.EVALS if d not in ops.SLOW else ["pdf", "logpdf"] + ops.EVALS)
        op["sty"] = rng.choice(["pos", "pos", "kw", "fr", "frkw", "sh"])
    elif u < 0.92:
        op = ops.gen_rvs(rng, d, p, nmax=8)
        op["sty"] = rng.choice(["pos", "kw", "fr", "sh"])
    elif u < 0.95 or d not in FITFAMS:
        op = ops.gen_stat(rng, d, p)
        if d in ops.SLOW or d == "inverse_batschelet":
            op["m"] = rng.choice(["support", "mean", "r"])
    else:
        op = ops.gen_fit(rng, d, n=8)
    return op


def duel(rng, i):
    """Two threads, one or two cheap calls each, on one family at different parameters."""
    d = ops.FAMS[i // 2 % len(ops.FAMS)]
    p = ops.gen_params(rng, d, 0.0)
    u = rng.random()
    q = ops.at_limit(rng, d, p) if u < 0.45 else ops.near_params(rng, d, p) if u < 0.65 else ops.gen_params(rng, d, 0.0)
    m = rng.choice(["pdf", "pdf", "logpdf", "cdf"] + ops.EVALS)
    threads = []
    for par in rng.sample([p, q], 2):
        t = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            if rng.random() < 0.2:
                t.append(ops.gen_rvs(rng, d, par, nmax=4))
            else:
                t.append(ops.gen_eval(rng, d, par, methods=[m] if rng.random() < 0.6 else ["pdf", "pdf", "cdf", "ppf", "sf"]))
            t[-1]["sty"] = rng.choice(["pos", "pos", "kw", "sh"])
        threads.append(t)
    warm = [] if rng.random() < 0.7 else [ops.gen_eval(rng, d, rng.choice([p, q]))]
    return {"threads": threads, "warm": warm, "trials": common.gen_trials(rng, NTRIALS)}


MANY = {"vonmises_flattopped": 30, "inverse_batschelet": 12, "jonespewsey": 80, "jonespewsey_sineskewed": 60, "jonespewsey_asym": 12}


def crowd(rng, i):
    """One thread uses a few parameter sets that are known already, another fills the object's tables with many new ones."""
    d = ops.FAMS[(i // 6) % len(ops.FAMS)]
    p = ops.gen_params(rng, d, 0.0)
    n = MANY.get(d, 140)
    m = rng.choice(["pdf", "pdf", "cdf"])
    if m == "cdf" and d.startswith("jonespewsey"):
        n = 12
    few = []
    for _ in range(rng.choice([1, 2])):
        few.append(ops.gen_eval(rng, d, p, methods=[m, m, m, "pdf", "cdf"]))
        if rng.random() < 0.5:
            few[-1].update(form="s", x=few[-1]["x"][:1])
        few[-1]["sty"] = rng.choice(["pos", "kw", "sh"])
    warm = [dict(op) for op in few[:1]] if rng.random() < 0.8 else []
    if rng.random() < 0.3:
        warm.append({"k": "many", "d": d, "m": m, "n": rng.choice([n // 4, n // 2, n]), "seed": rng.randrange(1 << 40)})
    many = {"k": "many", "d": d, "m": m, "n": rng.choice([n // 4, n, n]), "seed": rng.randrange(1 << 40)}
    trials = [{"policy": {"kind": "park", "tid": 0}, "sseed": rng.randrange(1 << 40)} for _ in range(3 * NTRIALS)]
    return {"threads": [few, [many]] if rng.random() < 0.8 else [few, [many], few], "warm": warm, "trials": trials}


def gen(rng, tier, i):
    if i % 6 == 4:
        return crowd(rng, i)
    if i % 2:
        return duel(rng, i)
    i //= 2
    nth = rng.choice([2, 2, 2, 3, 4])
    fams = [ops.FAMS[i % len(ops.FAMS)]]
    if rng.random() < 0.25:
        fams.append(rng.choice(ops.FAMS))
    base = {}
    for d in fams:
        p = ops.gen_params(rng, d)
        base[d] = [p] + ([ops.gen_params(rng, d, 1.0)] if rng.random() < 0.4 else []) + [ops.near_params(rng, d, p) if rng.random() < 0.5 else ops.gen_params(rng, d) for _ in range(rng.choice([0, 1, 2, 2]))]
    mk = lambda: (lambda d: gen_op(rng, d, base[d]))(rng.choice(fams))
    threads = [[mk() for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(nth)]
    if rng.random() < 0.25:      # the same call from every thread
        op = mk()
        threads = [[op] for _ in range(nth)]
    warm = [mk() for _ in range(rng.choice([0, 0, 1, 3]))]
    return {"threads": threads, "warm": warm, "trials": common.gen_trials(rng, NTRIALS)}


def execute(plan):
    return common.execute_threads(plan)


shrink = common.shrink_threads
