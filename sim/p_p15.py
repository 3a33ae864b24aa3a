"""P15: data set loading is all-or-nothing under I/O faults."""
import csv, errno, glob, hashlib, io, json, os
import core, ops, common

ID = "P15"
LEVEL = "exploration"
RULE = ("one evaluation = a history (or threads) of loads of bundled data sets, each with its own placement of open / read / close errors, short and interrupted "
        "reads, premature end of file, asynchronous exceptions, directory changes and callers overwriting returned tables; every returned table is compared "
        "with an independent reading of the file; non-trivial = at least one fault or two loads; distinct by hash of the fault placement and outcomes")
SHAPE = "distinct (loads, fault placements, outcomes) hashes"
REAL = ["pycircstat2.utils.load_data, pandas and json readers, the bundled files"]
STUB = ["file objects of bundled files (io.FileIO subclass that injects faults; opening for writing is refused and reported)", "exception delivery and thread scheduler (sys.settrace)"]
ASSUME = ["an end of file injected into a csv file makes it a shorter file: the load may raise or return the rows that are there, but an empty file must raise"]
RUNS = {"quick": 1500, "thorough": 60000}
TIMEOUT = 120.0
DATA = None
BAD = [("nosuchset", "fisher"), ("B1", "nosource"), ("", "zar"), ("B1", "mardia"), (None, "fisher")]
ERR = {"noent": errno.ENOENT, "acces": errno.EACCES, "io": errno.EIO, "mfile": errno.EMFILE, "nospc": errno.ENOSPC, "stale": errno.ESTALE}


def names():
    global DATA
    if DATA is None:
        import pycircstat2
        root = os.path.join(os.path.dirname(os.path.abspath(pycircstat2.__file__)), "data")
        DATA = (root, sorted((os.path.basename(os.path.dirname(f)), os.path.basename(f)[:-4]) for f in glob.glob(root + "/*/*.csv")
                             if os.path.exists(f + "-metadata.json")))
    return DATA


def gen_load(rng, faults=True):
    _, sets = names()
    src, nm = rng.choice(sets)
    ld = {"name": nm, "source": src, "meta": rng.random() < 0.4, "faults": []}
    if faults and rng.random() < 0.7:
        for _ in range(rng.choice([1, 1, 2])):
            f = rng.choice(["csv", "csv", "json"])
            k = rng.choice(["open", "read", "read", "short", "short", "eintr", "eof", "eof", "garble", "close", "memory"])
            if k == "open":
                ld["faults"].append([f, "open", rng.choice(list(ERR))])
            elif k == "read":
                ld["faults"].append([f, "read", rng.choice([0, 0, 1, 2, 3]), rng.choice(["io", "stale"])])
                if rng.random() < 0.6:       # small files are read in one go unless the reads are short
                    ld["faults"].append([f, "short", rng.choice([7, 40, 100])])
            elif k == "short":
                ld["faults"].append([f, "short", rng.choice([1, 3, 16, 100])])
            elif k == "eintr":
                ld["faults"].append([f, "eintr", rng.choice([1, 2, 3])])
            elif k == "eof":
                ld["faults"].append([f, "eof", rng.choice([0.0, rng.random(), rng.random()])])
            elif k == "garble":
                ld["faults"].append([f, "garble", rng.random()])
            elif k == "close":
                ld["faults"].append([f, "close", rng.choice(["io", "nospc"])])
            else:
                ld["faults"].append([f, "memory", rng.choice([0, 1])])
    if faults and rng.random() < 0.15:
        ld["crash"] = [rng.random(), rng.choice(["interrupt", "memory", "runtime"])]
    return ld


def gen(rng, tier, i):
    if rng.random() < 0.15:
        T = [[gen_load(rng, rng.random() < 0.4) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]
        if rng.random() < 0.5:
            for t in T[1:]:
                t[0] = {**T[0][0], "faults": []}
        for t in T:
            for ld in t:
                ld.pop("crash", None)
        return {"mode": "threads", "T": T, "trials": common.gen_trials(rng, 2)}
    ev = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        u = rng.random()
        if u < 0.1:
            ev.append(["bad", list(rng.choice(BAD))])
        elif u < 0.2:
            ev.append(["chdir"])
        else:
            ld = gen_load(rng)
            ev.append(["load", ld, rng.random() < 0.5])
            if rng.random() < 0.6:
                ev.append(["load", {**ld, "faults": [], "meta": rng.random() < 0.4}, False])
                ev[-1][1].pop("crash", None)
    return {"mode": "history", "ev": ev}


class Seam:
    """builtins.open / io.open for the bundled files."""

    def __init__(self, root):
        import builtins, threading
        self.root, self.real, self.b = os.path.realpath(root), io.open, builtins
        self.files, self.viol, self.count, self.loc = [], [], {}, threading.local()
        seam = self

        class Raw(io.FileIO):
            def __init__(self, path, faults):
                super().__init__(path, "rb")
                self.f, self.reads, self.pos, self.eintr, self.implicit = faults, 0, 0, 0, False
                self.size = os.fstat(self.fileno()).st_size

            def limit(self, n):
                self.reads += 1
                for k in self.f:
                    if k[0] == "eintr" and self.eintr < k[1]:
                        self.eintr += 1
                        seam.tick("interrupted_read")
                        raise InterruptedError(errno.EINTR, "injected")
                    if k[0] == "read" and self.reads > k[1]:
                        seam.tick("read_error")
                        raise OSError(ERR[k[2]], "injected read error")
                    if k[0] == "memory" and self.reads > k[1]:
                        seam.tick("memory_error")
                        raise MemoryError("injected")
                    if k[0] == "eof":
                        n = min(n, max(0, int(k[1] * self.size) - self.pos))
                        seam.tick("end_of_file")
                    if k[0] == "short" and n > k[1]:
                        n = k[1]
                        seam.tick("short_read")
                return n

            def garble(self, m, got):
                for k in self.f:
                    if k[0] == "garble":
                        at = int(k[1] * self.size)
                        if self.pos <= at < self.pos + got:
                            m[at - self.pos] = 0xFF
                            seam.tick("undecodable_byte")

            def readinto(self, b):
                m = memoryview(b).cast("B")
                n = self.limit(len(m))
                got = super().readinto(m[:n]) if n else 0
                self.garble(m, got or 0)
                self.pos += got or 0
                return got

            def read(self, size=-1):
                if size is None or size < 0:
                    return self.readall()
                n = self.limit(size)
                d = bytearray(super().read(n) if n else b"")
                self.garble(d, len(d))
                d = bytes(d)
                self.pos += len(d)
                return d

            def readall(self):
                out = []
                while True:
                    try:
                        d = self.read(65536)
                    except InterruptedError:
                        continue
                    if not d:
                        return b"".join(out)
                    out.append(d)

            def close(self):
                was = self.closed
                super().close()
                if not was:
                    for k in self.f:
                        if k[0] == "close" and not self.implicit:
                            seam.tick("close_error")
                            raise OSError(ERR[k[1]], "injected close error")

            def _dealloc_warn(self, source):
                self.implicit = True
        self.Raw = Raw

        def fopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            try:
                p = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else None
            except TypeError:
                p = None
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if p is None or not p.startswith(self.root + os.sep):
                return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if set(mode) & set("wax+"):
                self.viol.append(f"bundled file {os.path.relpath(p, self.root)} opened with mode {mode!r}")
                raise PermissionError(errno.EACCES, "bundled files are read only here", p)
            kind = "json" if p.endswith("json") else "csv"
            mine = [f[1:] for f in getattr(self.loc, "faults", []) if f[0] == kind]
            for f in mine:
                if f[0] == "open":
                    self.tick("open_error")
                    raise OSError(ERR[f[1]], os.strerror(ERR[f[1]]), p)
            raw = self.Raw(p, mine)
            self.files.append(raw)
            if "b" in mode:
                return raw if buffering == 0 else io.BufferedReader(raw)
            return io.TextIOWrapper(io.BufferedReader(raw), encoding, errors, newline)
        self.fopen = fopen

    def tick(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def __enter__(self):
        self.b.open = io.open = self.fopen
        return self

    def __exit__(self, *e):
        self.b.open = io.open = self.real


def truth(src, nm):
    """Independent reading of a bundled file."""
    root, _ = names()
    with open(os.path.join(root, src, nm + ".csv"), newline="", encoding="utf-8") as f:
        rows = [r for r in csv.reader(f) if r]
    with open(os.path.join(root, src, nm + ".csv-metadata.json"), encoding="utf-8") as f:
        meta = json.load(f)
    return rows[0], rows[1:], meta


def cell(v, s):
    """Whether table value v is what the file says in s."""
    import math
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, bool):
        return s.strip().lower() == str(v).lower()
    if isinstance(v, (int, float)):
        if isinstance(v, float) and math.isnan(v):
            return s.strip() in ("", "NA", "NaN", "nan", "N/A", "null", "NULL", "None", "#N/A", "n/a")
        try:
            return float(s) == float(v) or abs(float(s) - float(v)) <= 1e-12 * abs(float(v))
        except ValueError:
            return False
    return v == s


def table_differs(df, T):
    head, rows, _ = T
    if type(df).__name__ != "DataFrame":
        return f"returned {type(df).__name__}"
    if [str(c) for c in df.columns] != head[1:] and len(df.columns) != len(set(head[1:])):
        return f"columns {list(df.columns)}, file has {head[1:]}"
    if [str(c) for c in df.columns] != head[1:] and len(set(head[1:])) == len(head[1:]) and all(head[1:]):
        return f"columns {list(df.columns)}, file has {head[1:]}"
    if len(df) != len(rows):
        return f"{len(df)} rows, file has {len(rows)}"
    for k, r in enumerate(rows):
        if not cell(df.index[k], r[0]):
            return f"row {k} is labelled {df.index[k]!r}, file has {r[0]!r}"
        for j in range(len(df.columns)):
            if not cell(df.iat[k, j], r[j + 1]):
                return f"row {k} column {df.columns[j]} is {df.iat[k, j]!r}, file has {r[j + 1]!r}"
    return None


def prefix_differs(df, ld, frac):
    """A table read from the first bytes of a csv file holds nothing but these."""
    root, _ = names()
    with open(os.path.join(root, ld["source"], ld["name"] + ".csv"), "rb") as f:
        raw = f.read()
    raw = raw[:int(frac * len(raw))]
    if not raw.strip():
        return "an empty file gave a table"
    if b"\n" not in raw:
        return None if len(df) == 0 else f"{len(df)} rows from a file cut within its header"
    head, *rows = [r for r in csv.reader(io.StringIO(raw.decode("utf-8", "replace"), newline="")) if r]
    if len(df) > len(rows) or len(df) < len(rows) - 1:
        return f"{len(df)} rows from a file cut to {len(rows)}"
    return table_differs(df.iloc[:len(rows) - 1], (head, rows[:len(rows) - 1], None)) if rows else None


def load(ld, seam, printed):
    """(outcome, table)"""
    from pycircstat2 import load_data
    seam.loc.faults = ld["faults"]
    try:
        df = load_data(ld["name"], source=ld["source"], print_meta=ld["meta"])
        return "ok", df, printed()
    except Exception as e:
        return type(e).__name__, None, printed()
    finally:
        seam.loc.faults = []


def judge(ld, o, df, text, viol, T):
    who = common.show(ld)
    kinds = {f[1] for f in ld["faults"]}
    csv_eof = any(f[0] == "csv" and f[1] == "eof" for f in ld["faults"])
    if o != "ok":
        if not kinds - {"short", "eintr"} and "crash" not in ld:
            viol.append({"class": "refused", "msg": f"{who} raised {o}"})
        return
    if "garble" in kinds and any(f[1] == "garble" and (f[0] == "csv" or ld["meta"]) for f in ld["faults"]) and "eof" not in kinds:
        viol.append({"class": "altered-table", "msg": f"{who}: loaded although the file holds a byte that is not text"})
        return
    if csv_eof:
        d = prefix_differs(df, ld, min(f[2] for f in ld["faults"] if f[0] == "csv" and f[1] == "eof"))
        if d:
            viol.append({"class": "invented-table", "msg": f"{who}: {d}"})
    else:
        d = table_differs(df, T)
        if d:
            viol.append({"class": "altered-table", "msg": f"{who}: {d}"})
    if ld["meta"]:
        for f in ld["faults"]:
            if f[0] == "json" and f[1] == "eof" and f[2] < 0.95:
                viol.append({"class": "altered-metadata", "msg": f"{who}: printed metadata from a truncated file"})
                return
        if text is not None:
            try:
                got = json.loads(text[text.index("{"):] if "{" in text else text)
            except Exception:
                got = None
            if got is None or got != T[2]:
                viol.append({"class": "altered-metadata", "msg": f"{who}: printed metadata differ from the file"})


def settle(seam, who, viol, crashed):
    """No file left open, and none left for the garbage collector to close."""
    import gc
    left = [f for f in seam.files if not f.closed]
    if left:
        gc.collect()
        left = [f for f in seam.files if not f.closed]
    if left:
        viol.append({"class": "leak", "msg": f"{who} left {len(left)} bundled files open"})
    elif not crashed and any(f.implicit for f in seam.files):
        viol.append({"class": "leak", "msg": f"{who} did not close a bundled file (closed by the garbage collector)"})
    seam.files = []


def fds(root):
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith(os.path.realpath(root)):
            out.append(t)
    return out


def image(root):
    h = {}
    for f in sorted(glob.glob(root + "/**", recursive=True)):
        if os.path.isfile(f):
            with io.FileIO(f) as g:
                h[os.path.relpath(f, root)] = hashlib.sha256(g.readall()).hexdigest()[:12]
    return h


def history(plan):
    import tempfile, contextlib, simsched
    root, _ = names()
    ops.quiet()
    before = image(root)
    viol, outs, n = [], [], {"loads": 0, "completed": 0, "delivered": 0}
    truths = {(e[1]["source"], e[1]["name"]): truth(e[1]["source"], e[1]["name"]) for e in plan["ev"] if e[0] == "load"}
    import pycircstat2
    cwd = os.getcwd()
    with Seam(root) as seam, tempfile.TemporaryDirectory() as tmp:
        for e in plan["ev"]:
            if e[0] == "chdir":
                os.chdir(tmp)
                continue
            if e[0] == "bad":
                from pycircstat2 import load_data
                try:
                    load_data(e[1][0], source=e[1][1])
                    viol.append({"class": "accepted", "msg": f"load_data{tuple(e[1])} returned a table"})
                except Exception as x:
                    outs.append(type(x).__name__)
                settle(seam, f"load_data{tuple(e[1])}", viol, False)
                continue
            ld = e[1]
            n["loads"] += 1
            buf = io.StringIO()
            crashed = False
            with contextlib.redirect_stdout(buf):
                if "crash" in ld:
                    cr = simsched.Crasher(1 + int(10 ** (ld["crash"][0] * 2.2)), ld["crash"][1])
                    o, df = "cut", None
                    try:
                        with cr:
                            o, df, _ = load(ld, seam, lambda: None)
                    except BaseException as x:
                        if not simsched.is_injected(x):
                            raise
                    seam.loc.faults = []
                    n["delivered"] += cr.fired is not None
                    crashed = cr.fired is not None
                else:
                    o, df, _ = load(ld, seam, lambda: None)
            _ = None     # a kept exception would keep the frames of the load alive
            outs.append(o)
            n["completed"] += o == "ok"
            judge(ld, o, df, buf.getvalue(), viol, truths[ld["source"], ld["name"]])
            settle(seam, common.show(ld), viol, crashed)
            if e[2] and df is not None and len(df):
                for j, t in enumerate(df.dtypes):
                    if t.kind in "if":
                        df.iloc[:, j] = t.type(7)
                df.drop(df.index[: len(df) // 2], inplace=True)
            if viol:
                break
        viol += [{"class": "write", "msg": m} for m in seam.viol]
    os.chdir(cwd)
    if fds(root):
        viol.append({"class": "leak", "msg": f"descriptors left open: {fds(root)[:3]}"})
    if image(root) != before:
        viol.append({"class": "write", "msg": "bundled files changed"})
    return viol, outs, n, seam.count


def threaded(plan, trial):
    root, _ = names()
    ops.quiet()
    res = []
    truths = {(ld["source"], ld["name"]): truth(ld["source"], ld["name"]) for t in plan["T"] for ld in t}
    with Seam(root) as seam:
        def one(ld):
            def go():
                o, df, _ = load(ld, seam, lambda: None)
                res.append((ld, o, df))
                return o
            return go
        outs, sim, status = common.run_threads([[one(ld) for ld in t] for t in plan["T"]], trial, plan.get("schedule"))
    viol = []
    for ld, o, df in res:
        judge({**ld, "meta": False}, o, df, None, viol, truths[ld["source"], ld["name"]])
    del res, df
    settle(seam, "concurrent loads", viol, False)
    if status == "hang":
        viol.append({"class": "deadlock", "msg": "concurrent loads stopped making progress"})
    viol += [{"class": "raise", "msg": repr(e)} for e in sim.errors if e is not None]
    viol += [{"class": "write", "msg": m} for m in seam.viol]
    return viol, outs, sim.compact_slices(), sim.switches, seam.count


def execute(plan):
    if plan["mode"] == "history":
        v, outs, n, c = core.in_child(history, plan, timeout=60.0)
        return {"violations": v, "stats": n, "faults": {**c, "asynchronous_exception": n["delivered"]}, "shape": common.digest(plan, outs),
                "nontrivial": bool(c) or n["loads"] > 1, "trace": common.digest(outs, v)}
    viol, shapes, sw, out_plan, faults = [], [], 0, None, {}
    for trial in plan["trials"]:
        v, outs, slices, s, c = core.in_child(threaded, plan, trial, timeout=100.0)
        viol += v
        sw += s
        faults = common.merge_counts(faults, c, {"preemption": s})
        shapes.append(common.digest(plan["T"], slices, outs))
        if viol:
            out_plan = {**plan, "trials": [trial], "schedule": slices}
            break
    rep = {"violations": viol, "stats": {"loads": sum(map(len, plan["T"]))}, "faults": faults, "shape": shapes, "nontrivial": sw >= 2, "trace": common.digest(shapes)}
    if out_plan:
        rep["plan"] = out_plan
    return rep


def shrink(plan):
    if plan["mode"] == "history":
        for ev in core.drop_each(plan["ev"]):
            if ev:
                yield {**plan, "ev": ev}
        for i, e in enumerate(plan["ev"]):
            if e[0] == "load":
                for f in core.drop_each(e[1]["faults"]):
                    yield {**plan, "ev": plan["ev"][:i] + [["load", {**e[1], "faults": f}, e[2]]] + plan["ev"][i + 1:]}
