"""Runs, forks, seeds, minimisation, replay files, evidence."""
import ctypes, os, re, sys, time, json, pickle, struct, select, signal, random, hashlib, traceback, argparse, resource

import simenv

VERIF = simenv.VERIF


# --------------------------------------------------------------------------
# isolated execution: every run happens in a fork of a pristine zygote
# --------------------------------------------------------------------------
class Hang(Exception):
    pass


class ChildError(Exception):
    pass


LIBC = ctypes.CDLL(None)
PATIENCE = None      # [largest timeout of one attempt, factor]: set for quick runs, so that a hanging call is reported in time


def patient(timeout):
    return timeout if PATIENCE is None else min(timeout, PATIENCE[0]) * PATIENCE[1]


def in_child(fn, *args, timeout=120.0):
    """fn(*args) in a forked copy of this (pristine) process; returns its result."""
    timeout = patient(timeout)
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            LIBC.prctl(1, signal.SIGKILL)      # do not outlive a parent that is killed for taking too long
            if PATIENCE is not None:
                PATIENCE[0] *= 0.8
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                out = ("err", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:])
            data = pickle.dumps(out, protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(data)))
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Hang(f"no result in {timeout:.0f} s")
            rl, _, _ = select.select([r], [], [], min(left, 5.0))
            if rl:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    break
                buf += chunk
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) < 8:
        raise ChildError(f"run process died, status {st}")
    kind, val = pickle.loads(bytes(buf[8:]))
    if kind == "err":
        raise ChildError(val)
    return val


class Memo:
    """Pristine-process results, remembered per worker by the op that made them."""

    def __init__(self, fn, timeout=120.0, limit=20000):
        self.fn, self.d, self.timeout, self.limit = fn, {}, timeout, limit
        self.misses = 0

    def __call__(self, op):
        k = json.dumps(op, sort_keys=True)
        if k not in self.d:
            if len(self.d) > self.limit:
                self.d.clear()
            self.misses += 1
            self.d[k] = in_child(self.fn, op, timeout=self.timeout)
        return self.d[k]


def rng_for(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# --------------------------------------------------------------------------
# property modules implement:
#   ID, LEVEL, RULE, REAL, STUB, ASSUME, RUNS = {"quick": n, "thorough": n}
#   gen(rng, tier, i) -> plan (JSON-able dict)
#   execute(plan) -> report: {"violations":[{"class":..., "msg":...}], "stats":{...},
#                             "faults":{...}, "shape": str, "nontrivial": bool, "trace": str,
#                             "plan": plan-with-recorded-schedule (optional)}
#   shrink(plan) -> iterable of smaller plans (optional)
#   aggregate(list of per-run data) -> list of violations (optional)
# --------------------------------------------------------------------------

def find_known(mod, v, known):
    for k in known:
        if k.get("property") == mod.ID and k.get("status") == "known" and k.get("class") == v["class"] and k.get("match", "") in v["msg"]:
            return k
    return None


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def library_raised(text):
    """The exception of a run, if the code under test raised it where the run expected an answer."""
    tb = text[text.rfind("Traceback (most recent call last)"):]
    files = re.findall(r'File "([^"]+)", line', tb)
    own = [k for k, f in enumerate(files) if f.startswith(VERIF + "/")]
    tail = files[own[-1] + 1:] if own else []
    last = tb.rstrip().splitlines()[-1]
    if any("/pycircstat2/" in f for f in tail) and "MemoryError" not in last:
        return last[:300]
    return None


def is_hang(e):
    """A run that timed out, or one of whose own sub-processes did."""
    return isinstance(e, Hang) or str(e).rstrip().rsplit("\n", 1)[-1].startswith("core.Hang")


def run_one(mod, plan, timeout, confirm=True):
    """One execution in a fork.  A hang is confirmed once with more time."""
    global PATIENCE
    keep = PATIENCE
    for attempt in (0, 1):
        try:
            return in_child(mod.execute, plan, timeout=timeout)
        except (ChildError, Hang) as e:
            if is_hang(e):
                if attempt or not confirm:
                    return {"violations": [{"class": "hang", "msg": f"{json.dumps(plan)[:300]}: did not finish: {str(e).strip().splitlines()[-1][-80:]}"}],
                            "stats": {}, "faults": {}, "shape": "hang", "nontrivial": True, "trace": "hang"}
                if keep is None:
                    timeout *= 2.5
                else:
                    PATIENCE = [keep[0], keep[1] * 2.5]
                continue
            why = library_raised(str(e))
            if why is None:
                raise
            return {"violations": [{"class": "unexpected-exception", "msg": f"{json.dumps(plan)[:300]}: {why}"}],
                    "stats": {}, "faults": {}, "shape": "raised", "nontrivial": True, "trace": "raised"}
        finally:
            if attempt:
                PATIENCE = keep


def worker(mod, tier, seed, indices, deadline, wfd, timeout, stop_path):
    prep = getattr(mod, "worker_init", None)
    if prep:
        prep(tier, seed)
    out = os.fdopen(wfd, "wb")

    def send(obj):
        d = pickle.dumps(obj, protocol=4)
        out.write(struct.pack("<Q", len(d))); out.write(d); out.flush()
    bad = 0
    for i in indices:
        if time.monotonic() > deadline or os.path.exists(stop_path):
            break
        t0 = time.monotonic()
        try:
            plan = mod.gen(rng_for(mod.ID, tier, seed, i), tier, i)
            if getattr(mod, "IN_WORKER", False):
                rep = mod.execute_in_worker(plan, timeout)
            else:
                rep = run_one(mod, plan, timeout)
        except Hang as e:
            rep = {"violations": [{"class": "hang", "msg": str(e)}], "stats": {}, "faults": {}, "shape": "hang", "nontrivial": True, "trace": "hang"}
        except ChildError as e:
            send({"i": i, "error": str(e)})
            bad += 1
            if bad > 3:
                break
            continue
        except Exception as e:
            send({"i": i, "error": traceback.format_exc()[-4000:]})
            bad += 1
            if bad > 3:
                break
            continue
        rep["i"] = i
        rep["secs"] = time.monotonic() - t0
        if rep["violations"]:
            rep["plan"] = rep.get("plan") or plan
        else:
            rep.pop("plan", None)
            if i < 3:
                rep["sample"] = plan
        send(rep)
    send(None)
    out.close()


def run_many(mod, tier, seed, nworkers, runs, cap_s, timeout, progress=False, on_report=None, stop_on_first=3):
    deadline = time.monotonic() + cap_s
    stop_path = f"/tmp/simstop.{os.getpid()}.{mod.ID}"
    if os.path.exists(stop_path):
        os.unlink(stop_path)
    fds = {}
    sys.stdout.flush()
    for w in range(nworkers):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for rr in fds:
                    os.close(rr)
                worker(mod, tier, seed, range(w, runs, nworkers), deadline, wf, timeout, stop_path)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wf)
        fds[r] = [pid, bytearray(), False]
    reports, errors, nviol = [], [], 0
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 5.0)
        for r in rl:
            chunk = os.read(r, 1 << 20)
            st = fds[r]
            if not chunk:
                os.close(r)
                _, status = os.waitpid(st[0], 0)
                if not st[2]:
                    errors.append(f"worker {st[0]} ended early, status {status}")
                del fds[r]
                continue
            st[1] += chunk
            while len(st[1]) >= 8:
                n = struct.unpack("<Q", st[1][:8])[0]
                if len(st[1]) < 8 + n:
                    break
                obj = pickle.loads(bytes(st[1][8:8 + n]))
                del st[1][:8 + n]
                if obj is None:
                    st[2] = True
                elif "error" in obj:
                    errors.append(f"run {obj['i']}: {obj['error']}")
                else:
                    reports.append(obj)
                    if on_report:
                        on_report(obj)
                    if obj["violations"]:
                        nviol += stop_on_first if any(v["class"] == "hang" for v in obj["violations"]) else 1
                        if nviol >= stop_on_first:
                            open(stop_path, "w").close()
    if os.path.exists(stop_path):
        os.unlink(stop_path)
    reports.sort(key=lambda x: x["i"])
    return reports, errors


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def minimise(mod, plan, vclass, timeout, budget_s=60.0, reruns=1):
    t0 = time.monotonic()
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        try:
            rep = mod.execute_in_worker(p, timeout) if getattr(mod, "IN_WORKER", False) else run_one(mod, p, min(timeout, 45.0), confirm=False)
        except Exception:
            return None
        for v in rep["violations"]:
            if v["class"] == vclass:
                return rep
        return None
    cur = plan
    if not hasattr(mod, "shrink"):
        return cur, tried
    improved = True
    while improved and time.monotonic() - t0 < budget_s:
        improved = False
        for cand in mod.shrink(cur):
            if time.monotonic() - t0 > budget_s:
                break
            rep = fails(cand)
            if rep:
                cur = rep.get("plan") or cand
                improved = True
                break
    return cur, tried


def drop_each(lst):
    """Candidate sub-lists: halves first, then single removals."""
    n = len(lst)
    if n > 3:
        yield lst[: n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]


# --------------------------------------------------------------------------
# command line of a check
# --------------------------------------------------------------------------
def write_evidence(mod, tier, seed, reports, nviol, wall, nworkers, extra):
    faults, stats = {}, {}
    shapes = set()
    nontriv = set()
    for r in reports:
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
        for s in ([r["shape"]] if isinstance(r["shape"], str) else r["shape"]):
            shapes.add(s)
        if r.get("nontrivial"):
            nontriv.add(r.get("trace") or r["shape"])
    samples = [r["sample"] for r in reports if "sample" in r][:2]
    cov = {
        "evaluations": len(reports),
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": [json.loads(json.dumps(s))if len(json.dumps(s)) < 6000 else {"abridged": json.dumps(s)[:6000]} for s in samples] or ["none"],
        "runs_per_hour": round(len(reports) / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(len(reports) / max(wall, 1e-9) * 3600),
        "faults_injected": faults,
        "counters": stats,
        "distinct_states_or_interleavings": len(shapes),
        "distinct_measure": getattr(mod, "SHAPE", "distinct hashes of the executed event trace"),
        "simulated_time": getattr(mod, "SIMTIME", "no clock in the code under test; simulated time is counted in scheduler events / calls (see counters)"),
        "real_components": mod.REAL,
        "stub_components": mod.STUB,
        "workers": nworkers,
        "slowest_run_s": round(max([r.get("secs", 0.0) for r in reports] or [0.0]), 1),
    }
    cov.update(extra)
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUME, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", mod.ID + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(mod, path, timeout):
    with open(path) as f:
        rec = json.load(f)
    plan, vclass = rec["plan"], rec["class"]
    if rec.get("aggregate"):
        rep = mod.replay_aggregate(rec)
    else:
        prep = getattr(mod, "worker_init", None)
        if prep:
            prep(rec["tier"], rec["seed"])
        rep = mod.execute_in_worker(plan, timeout) if getattr(mod, "IN_WORKER", False) else run_one(mod, plan, timeout)
    got = [v for v in rep["violations"] if v["class"] == vclass]
    for v in rep["violations"]:
        print(f"  [{v['class']}] {v['msg']}")
    if got:
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    print("replay: the recorded violation did not occur")
    return 0


def main(mod, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", str(min(8, os.cpu_count() or 4)))))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int, help="run only this index")
    ap.add_argument("--log", help="write one line per run: index, trace hash")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    print(f"seed={a.seed} property={mod.ID} tier={tier}", flush=True)
    simenv.import_library()
    if hasattr(mod, "parent_init"):
        mod.parent_init(tier, a.seed)
    timeout = getattr(mod, "TIMEOUT", 120.0)
    if a.replay:
        return replay(mod, a.replay, timeout)
    if tier == "quick":
        global PATIENCE
        PATIENCE = [min(timeout, 110.0), 1.0]
    runs = a.runs or mod.RUNS[tier]
    cap = a.cap or (getattr(mod, "CAP", {}).get(tier) or (400.0 if tier == "quick" else 5400.0))
    if a.index is not None:
        prep = getattr(mod, "worker_init", None)
        if prep:
            prep(tier, a.seed)
        plan = mod.gen(rng_for(mod.ID, tier, a.seed, a.index), tier, a.index)
        rep = mod.execute_in_worker(plan, timeout) if getattr(mod, "IN_WORKER", False) else run_one(mod, plan, timeout)
        print(json.dumps(plan)[:3000])
        print({k: v for k, v in rep.items() if k not in ("data", "plan")})
        return 0
    reports, errors = run_many(mod, tier, a.seed, a.workers, runs, cap, timeout)
    viol = []
    for r in reports:
        for v in r["violations"]:
            viol.append((v, r.get("plan"), r["i"], None))
    extra = {}
    if hasattr(mod, "aggregate") and not errors:
        avs, extra = mod.aggregate(reports, tier, a.seed)
        for v in avs:
            viol.append((v, v.pop("plan", None), None, v.pop("agg", True)))
    if a.log:
        with open(a.log, "w") as f:
            for r in reports:
                f.write(f"{r['i']} {r.get('trace')} {[v['class'] for v in r['violations']]}\n")
    known = load_known()
    seen_known, fresh = set(), []
    for v, plan, i, agg in viol:
        k = find_known(mod, v, known)
        if k:
            seen_known.add(k["id"])
        else:
            fresh.append((v, plan, i, agg))
    for k in known:
        if k.get("property") == mod.ID and k.get("status") == "known":
            print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
    rc = 0
    done_classes = set()
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    for v, plan, i, agg in fresh:
        if v["class"] in done_classes or len(done_classes) >= 3:
            continue
        done_classes.add(v["class"])
        print(f"  run {i}: [{v['class']}] {v['msg']}", flush=True)
        tried = 0
        if plan is not None and not agg and v["class"] != "hang":
            prep = getattr(mod, "worker_init", None)
            if prep:
                prep(tier, a.seed)
            plan, tried = minimise(mod, plan, v["class"], timeout, budget_s=45.0)
        name = f"{mod.ID}-{tier}-s{a.seed}-{v['class']}.json".replace("/", "_").replace(" ", "_")
        path = os.path.join(VERIF, "evidence", "replays", name)
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "class": v["class"], "msg": v["msg"], "seed": a.seed, "tier": tier,
                       "index": i, "plan": plan, "aggregate": bool(agg), "minimiser_executions": tried}, f)
        print(f"VIOLATION property={mod.ID} replay={path}", flush=True)
        rc = 1
    wall = time.monotonic() - t0
    write_evidence(mod, tier, a.seed, reports, len(fresh), wall, a.workers, extra)
    if errors and rc == 0:
        for e in errors[:3]:
            print("HARNESS ERROR:", e, file=sys.stderr)
        rc = 2
    if not reports and rc == 0:
        print("HARNESS ERROR: nothing ran", file=sys.stderr)
        rc = 2
    print(f"{mod.ID}: {len(reports)} runs, {len(fresh)} violations, {wall:.1f} s", flush=True)
    return rc
