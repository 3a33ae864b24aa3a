"""Cooperative scheduler and crash injector built on sys.settrace.

Real threads, but exactly one runs at a time: at every traced event the running
thread asks the simulator whether to go on or to hand over.  The seeded policy
(or a recorded schedule) decides; the operating system never does.

A recorded schedule is a list of slices [thread, events]; replaying it yields
the same execution.
"""
import os, sys, threading, dis, time

_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock

REPO = os.path.realpath(os.environ.get("SIM_REPO", "/repo")) + os.sep + "pycircstat2" + os.sep
_EXTRA = ("scipy/stats/_distn_infrastructure.py",)

_HOT = {dis.opmap[n] for n in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR",
                               "DELETE_SUBSCR", "STORE_SLICE", "STORE_DEREF") if n in dis.opmap}
_NOP = dis.opmap.get("NOP", -1)

_traced_cache = {}


def traced(filename):
    r = _traced_cache.get(filename)
    if r is None:
        r = filename.startswith(REPO) or filename.endswith(_EXTRA)
        _traced_cache[filename] = r
    return r


def in_repo(filename):
    return filename.startswith(REPO)


_MUTATORS = {"append", "update", "pop", "setdefault", "clear", "extend", "get", "popitem", "insert", "remove", "discard"}


def _touches_state(i):
    """Membership tests, container methods and reads of private attributes."""
    if i.opname == "CONTAINS_OP":
        return True
    if i.opname in ("LOAD_ATTR", "LOAD_METHOD"):
        if i.argval in _MUTATORS:
            return True
        return isinstance(i.argval, str) and i.argval.startswith("_") and not (i.arg or 0) & 1
    return False


_hot_cache = {}


def hot_offsets(code):
    r = _hot_cache.get(code)
    if r is None:
        repo = in_repo(code.co_filename)
        r = {i.offset: 0.1 if not repo else 0.5 if i.opname.endswith(("_SUBSCR", "_SLICE")) else 1.0
             for i in dis.get_instructions(code) if i.opcode in _HOT or _touches_state(i)}
        if repo:      # reads by key or index: places to park a thread at, not to switch at by chance
            r.update({i.offset: -0.5 for i in dis.get_instructions(code) if i.opname == "BINARY_SUBSCR"})
        _hot_cache[code] = r
    return r


_nop_cache = {}


def nop_offsets(code):
    """Offsets whose instruction is a NOP (`try:` lines): a line event there is
    between two statements of a locking idiom, where CPython delivers nothing."""
    r = _nop_cache.get(code)
    if r is None:
        ins = list(dis.get_instructions(code))
        bad = {i.offset for i in ins if i.opcode == _NOP or i.opname in ("PUSH_EXC_INFO", "WITH_EXCEPT_START")}
        for k in range(len(ins) - 3):      # leaving a `with` block: CPython delivers nothing before __exit__ has run
            if all(ins[k + j].opname == "LOAD_CONST" and ins[k + j].argval is None for j in range(3)) and ins[k + 3].opname == "CALL" and ins[k + 3].arg == 2:
                bad.add(ins[k].offset)
        r = frozenset(bad)
        _nop_cache[code] = r
    return r


_cleanup_cache = {}


def cleanup_lines(filename):
    """Lines of `finally` bodies and of handlers that re-raise: cleaning up is not
    interrupted a second time (no Python code can survive that)."""
    r = _cleanup_cache.get(filename)
    if r is None:
        import ast
        r = set()
        try:
            with open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                    for b in n.finalbody:
                        r.update(range(b.lineno, b.end_lineno + 1))
                    for h in n.handlers:
                        if any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                            r.update(range(h.lineno, h.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _cleanup_cache[filename] = r
    return r


def _raise_opcode_flag():
    """CPython 3.12 instruments opcodes only for traces set after some frame first
    asked for them.  The frame must be one that no traced thread runs again."""
    sys._getframe().f_trace_opcodes = True


class SimDeadlock(Exception):
    pass


class SimAbort(BaseException):
    """Ends a parked thread when a run is abandoned."""


# --------------------------------------------------------------------------
# lock seam: locks created by the library become cooperative
# --------------------------------------------------------------------------
_current = None  # the active Sim of this process


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._n = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            sim = _current
            if sim is None or not sim.block_on_lock():
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock("lock never released")
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n <= 0:
            self._owner = None
            self._n = 0

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # Condition support
    def _is_owned(self):
        return self._owner == self._me()

    def __reduce__(self):
        raise TypeError(f"cannot pickle '{'_thread.RLock' if self._reentrant else '_thread.lock'}' object")


class SimRLock(SimLock):
    _reentrant = True


def _caller_in_repo():
    f = sys._getframe(2)
    return in_repo(f.f_code.co_filename)


def install_lock_seam():
    def Lock(*a, **k):
        return SimLock() if _caller_in_repo() else _REAL_LOCK(*a, **k)

    def RLock(*a, **k):
        return SimRLock() if _caller_in_repo() else _REAL_RLOCK(*a, **k)
    threading.Lock = Lock
    threading.RLock = RLock


# --------------------------------------------------------------------------
# crash injection in the current thread (single-threaded runs)
# --------------------------------------------------------------------------
class Injected(Exception):
    """A numerical routine reporting failure."""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemory(MemoryError):
    pass


class InjectedFP(FloatingPointError):
    pass


class InjectedRuntime(RuntimeError):
    pass


class InjectedValue(ValueError):
    pass


EXC = {"interrupt": InjectedInterrupt, "memory": InjectedMemory, "fp": InjectedFP,
       "runtime": InjectedRuntime, "value": InjectedValue}


def is_injected(e):
    return isinstance(e, tuple(EXC.values()))


class Crasher:
    """Counts line events in library frames; raises at the given one.

    at=None only counts."""

    def __init__(self, at=None, kind="interrupt", repo_only=True, record=None, watch=None):
        self.at = at
        self.kind = kind
        self.n = 0
        self.fired = None
        self.record = record
        self.watch = watch                 # keep only the events at which this says so
        self.test = in_repo if repo_only else traced

    def _global(self, frame, event, arg):
        if event == "call" and self.test(frame.f_code.co_filename):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event != "line":
            return self._local
        if frame.f_lasti in nop_offsets(frame.f_code) or frame.f_lineno in cleanup_lines(frame.f_code.co_filename):
            return self._local
        self.n += 1
        if self.record is not None and len(self.record) < 100000:
            s = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.record.append(s if self.watch is None or self.n < 20000 and self.watch() else None)
        if self.at is not None and self.fired is None and self.n >= self.at:
            self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            sys.settrace(None)
            raise EXC[self.kind]("injected")
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# --------------------------------------------------------------------------
# cooperative threads
# --------------------------------------------------------------------------
class Sim:
    """Runs thread bodies one at a time under a seeded or recorded schedule."""

    def __init__(self, bodies, rng=None, policy=None, schedule=None, max_events=4_000_000):
        self.bodies = bodies
        self.n = len(bodies)
        self.rng = rng
        self.policy = policy or {"kind": "random", "gap": 100}
        self.replay = [list(s) for s in schedule] if schedule is not None and self.policy["kind"] != "park" else None
        self.sites = None                  # dry run: {(code, offset): [weight, first event, last event]}
        self.max_events = max_events
        self.locks = [_REAL_LOCK() for _ in range(self.n)]
        for l in self.locks:
            l.acquire()
        self.state = ["new"] * self.n       # new, ready, done
        self.errors = [None] * self.n
        self.events = [0] * self.n
        self.cur = None
        self.slice = 0
        self.slices = []
        self.budget = 0
        self.hot_p = 0.0
        self.parked = False
        self.hold = False                  # "keep": nobody else stops while one thread is stalled
        self.hot_next = 0.0
        self.visits = {}
        self.free = False
        self.aborted = False
        self.over = False
        self.done = threading.Event()
        self.lockspin = 0
        self.crash = {}                    # tid -> Crasher-like (events, kind)
        self.crash_hits = []
        self.ident = {}
        self.switches = 0
        self.stalled = set()

    # ---- policy ------------------------------------------------------------
    def _runnable(self):
        return [i for i in range(self.n) if self.state[i] != "done"]

    def _pick(self, exclude=None):
        r = self._runnable()
        if not r:
            return None
        if self.replay is not None:
            while self.replay:
                t, k = self.replay.pop(0)
                if t in r:
                    self.budget = k
                    return t
            t = exclude if exclude in r else r[0]
            self.budget = 1 << 60
            return t
        kind = self.policy["kind"]
        if kind == "park":      # one thread runs to a chosen instruction and waits there until the others are done
            p = self.policy["tid"]
            self.budget = 1 << 60
            if not self.parked and p in r:
                self.parked = True
                self.budget = self.policy["at"]
                return p
            return next((i for i in r if i != p), p)
        if kind == "stall":
            free = [i for i in r if i not in self.stalled]
            if not free:
                t = self.rng.choice(r)
                self.stalled.discard(t)
                self.hold = False
            else:
                t = exclude if exclude in free else self.rng.choice(free)
            g = self.policy.get("gap")
            self.budget = max(1, int(self.rng.expovariate(1.0 / g))) if g else 1 << 60
            return t
        others = [i for i in r if i != exclude] or r
        if kind == "pct":
            t = max(r, key=lambda i: self.prio[i])
            self.budget = self._next_change()
        else:
            t = self.rng.choice(others if self.rng.random() < 0.9 else r)
            g = self.policy.get("gap", 100)
            self.budget = max(1, int(self.rng.expovariate(1.0 / g))) if kind == "random" else 1 << 60
        return t

    def _next_change(self):
        tot = sum(self.events)
        while self.changes and self.changes[0] <= tot:
            self.changes.pop(0)
        return (self.changes[0] - tot) if self.changes else 1 << 60

    # ---- called in the running thread -------------------------------------
    def point(self, tid, code, off, hot):
        self.slice += 1
        self.events[tid] += 1
        if self.slice >= self.budget:
            self.switch(tid)
        elif self.replay is None and not self.hold:
            w = hot.get(off, 0.0)
            if w and self.sites is not None:
                s = self.sites.setdefault((code, off), [abs(w), self.events[tid], 0])
                s[2] = self.events[tid]
            if w > self.hot_min:
                # the first visits of a place count most, so that loops do not drown the rest
                k = (tid, code, off)
                n = self.visits.get(k, 0)
                self.visits[k] = n + 1
                w = w * self.hot_p if n == 0 else w * self.hot_p * (0.3 if n < 3 else 0.03)
            else:
                w = 0.0
            was, self.hot_next = self.hot_next, w
            if (w or was) and self.rng.random() < w + was:
                self.switch(tid)
        if self.aborted:
            raise SimAbort()

    def switch(self, me):
        if self.free:
            return
        if self.replay is None:
            if self.policy["kind"] == "pct":
                self.prio[me] = -len(self.slices) - 1
            elif self.policy["kind"] == "stall":
                self.stalled.add(me)
                self.hold = bool(self.policy.get("keep"))
        nxt = self._pick(me)
        if nxt == me or nxt is None:
            self.slices.append([me, self.slice])
            self.slice = 0
            return
        self.slices.append([me, self.slice])
        self.slice = 0
        self.switches += 1
        self.cur = nxt
        self.locks[nxt].release()
        self.locks[me].acquire()
        if self.aborted:
            raise SimAbort()

    def block_on_lock(self):
        """The running thread waits for a cooperative lock: hand over."""
        tid = self.ident.get(threading.get_ident())
        if tid is None:
            return False
        others = [i for i in self._runnable() if i != tid]
        self.lockspin += 1
        if not others or self.lockspin > 20000:
            return False
        if self.free:
            time.sleep(0.001)
            return True
        self.slices.append([tid, self.slice])
        self.slice = 0
        nxt = others[self.lockspin % len(others)]
        self.budget = 50
        if self.replay is not None and self.replay and self.replay[0][0] in others:
            nxt, self.budget = self.replay.pop(0)
        self.cur = nxt
        self.switches += 1
        self.locks[nxt].release()
        self.locks[tid].acquire()
        if self.aborted:
            raise SimAbort()
        return True

    def finish(self, tid):
        self.state[tid] = "done"
        self.slices.append([tid, self.slice])
        self.slice = 0
        if not self._runnable():
            self.done.set()
            return
        if self.free:
            return
        nxt = self._pick(tid)
        self.cur = nxt
        self.locks[nxt].release()

    # ---- tracing -----------------------------------------------------------
    def _tracer(self, tid):
        sim = self

        def glob(frame, event, arg):
            if event == "call" and traced(frame.f_code.co_filename):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                code = frame.f_code
                f = cache.get(code)
                calls[code] = k = calls.get(code, 0) + 1
                if k > 60 and f is not None and (k > 400 or code not in stateful):
                    frame.f_trace_opcodes = False      # an inner loop: keep its callers' preemption points only
                    return None
                if f is None:
                    hot = hot_offsets(code)
                    if any(w >= 1.0 for w in hot.values()):
                        stateful.add(code)

                    def local(frame, event, arg):
                        if event == "opcode" and not sim.free:
                            sim.point(tid, code, frame.f_lasti, hot)
                        return local
                    f = cache[code] = local
                return f
            return None

        cache, calls, stateful = {}, {}, set()
        return glob

    def _thread(self, tid):
        self.locks[tid].acquire()
        self.ident[threading.get_ident()] = tid
        try:
            if not self.aborted:
                if self.policy["kind"] != "park" or tid == self.policy["tid"]:
                    sys.settrace(self._tracer(tid))
                try:
                    self.bodies[tid]()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:  # bodies catch their own; this is harness trouble
            self.errors[tid] = e
        finally:
            sys.settrace(None)
            self.finish(tid)

    def run(self, stall=6.0, hang=90.0):
        """Returns 'ok', 'free' (schedule abandoned, results still checked) or 'hang'."""
        global _current
        _current = self
        _raise_opcode_flag()
        if self.replay is None and self.policy["kind"] == "pct":
            order = list(range(self.n))
            self.rng.shuffle(order)
            self.prio = {t: 1000 + i for i, t in enumerate(order)}
            d = self.policy.get("d", 3)
            L = self.policy.get("len", 20000)
            self.changes = sorted(self.rng.randrange(1, L) for _ in range(d))
        self.hot_p = self.policy.get("hot", 0.0)
        self.hot_min = self.policy.get("min", 0.0)
        ths = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        first = self._pick(None)
        self.cur = first
        self.locks[first].release()
        last, t_last, t0 = -1, time.monotonic(), time.monotonic()
        out = "ok"
        while not self.done.wait(0.25):
            tot = sum(self.events) + len(self.slices)
            now = time.monotonic()
            if tot != last:
                last, t_last = tot, now
            elif now - t_last > stall and not self.free:
                # blocked outside the simulator: let everybody run freely
                if now - t_last > 10 * stall:
                    self.free = True
                    out = "free"
                    for i in range(self.n):
                        if self.state[i] != "done" and i != self.cur:
                            try:
                                self.locks[i].release()
                            except RuntimeError:
                                pass
                    t_last = now
            elif self.free and now - t_last > hang:
                out = "hang"
                break
            if tot > self.max_events and not self.free:
                self.hot_p = 0.0
                if self.replay is None:
                    self.policy = {"kind": "serial"}
                    self.budget = 1 << 60
        if out != "hang":
            for t in ths:
                t.join(5)
        _current = None
        return out

    def compact_slices(self):
        out = []
        for t, k in self.slices:
            if out and out[-1][0] == t:
                out[-1][1] += k
            else:
                out.append([t, k])
        return out
