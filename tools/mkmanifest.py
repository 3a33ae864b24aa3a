"""Writes MANIFEST.json from the property modules that exist and the list of properties."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
 "P01": ("deterministic simulation: seeded bytecode-level thread schedules against single-caller oracle", "exploration"),
 "P02": ("deterministic simulation: seeded call histories (hostile callers, failing calls) against pristine-process oracle", "exploration"),
 "P03": ("deterministic simulation with crash injection: exceptions raised at chosen execution points, later calls against pristine-process oracle", "fault_enumeration"),
 "P04": ("deterministic simulation: seeded draws under scheduled threads, histories and crashes; accounting of every random stream", "exploration"),
 "P05": ("deterministic simulation of the random source: seeded batches against the family's cdf (KS/chi2) with exact false-alarm control", "exploration"),
 "P06": ("deterministic simulation with fault injection on the random source (stuck, extreme, repeated values) and a progress bound", "fault_enumeration"),
 "P07": ("deterministic simulation: identities between pdf, cdf, ppf checked in states reached by seeded histories, crashes and thread schedules", "exploration"),
 "P08": ("deterministic simulation with fault injection on the optimiser; reported values recomputed from the estimates", "fault_enumeration"),
 "P09": ("deterministic simulation: seeded tests under histories, threads and crashes; accounting of every random stream", "exploration"),
 "P10": ("deterministic simulation of the random source: seeded p-values against independent null simulation or complete enumeration", "exploration"),
 "P11": ("deterministic simulation of the random source: bootstrap intervals across seeded streams, histories and rotations", "exploration"),
 "P12": ("deterministic simulation with fault injection: seeded fit histories, M-step failures and interruptions, stored state against recomputation", "fault_enumeration"),
 "P13": ("deterministic simulation with fault injection: seeded fit histories and interruptions, partitions against recomputation", "fault_enumeration"),
 "P14": ("deterministic simulation: seeded clustering under histories, threads and crashes; accounting of every random stream", "exploration"),
 "P15": ("deterministic simulation with I/O fault injection (missing, failing, short, torn reads, interruption) on data files", "fault_enumeration"),
 "P16": ("deterministic simulation with crash injection: callers' objects fingerprinted before and after each call", "fault_enumeration"),
 "P17": ("deterministic simulation with crash injection: process-wide state fingerprinted before and after each call", "fault_enumeration"),
 "P18": ("deterministic simulation: seeded histories over several objects, failing axes and threads; statistics against functional calls and pristine objects", "exploration"),
 "P19": ("deterministic simulation: save/restore at arbitrary history points into another process, both sides continued and compared", "exploration"),
 "P20": ("deterministic simulation: seeded histories, crashes and bytecode-level thread schedules against pristine-process oracle", "exploration"),
 "P21": ("deterministic simulation: seeded histories of configured random streams against a reference stream model", "exploration"),
}
NA = {
 "N01": "pure function of one argument tuple; no schedule, clock, I/O, randomness or fault in it for a simulator to control (its history- and thread-independence is P20)",
 "N02": "closed-form p-values are pure functions; calibration is a statement about sampled data, not about schedules, faults or the library's own randomness (simulated p-values are P10)",
 "N03": "algebraic identities of pure functions; nothing nondeterministic to simulate (history- and thread-independence is P20, object stability is P18)",
 "N04": "deterministic iteration without concurrency, time, I/O or randomness; an analytical statement (re-entrancy is P20)",
 "N05": "algebraic bounds of pure functions; nothing nondeterministic to simulate (re-entrancy is P20)",
 "N06": "pure arithmetic; nothing nondeterministic to simulate (re-entrancy is P20)",
}
sys.path.insert(0, os.path.join(root, "sim"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH and os.path.exists(os.path.join(root, "sim", f"p_{i.lower()}.py")):
        src = open(os.path.join(root, "sim", f"p_{i.lower()}.py")).read()
        note = ""
        for line in src.splitlines():
            if line.startswith("NOTE = "):
                note = eval(line[7:])
        level = [l for l in src.splitlines() if l.startswith("LEVEL")][0].split('"')[1]
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python sim/check.py {i} --tier quick",
                       "thorough_cmd": f"/opt/venv/bin/python sim/check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i][0], "level": level,
                       "level_note": note or "Seeded search, not exhaustive: it shows that no explored run violates the property. Trusts numpy, scipy, CPython and the oracle described in DESIGN.md."})
    elif i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
out = {"version": 1, "setup_cmd": "/opt/venv/bin/python sim/selftest.py",
       "hooks": {"guard": "none: no guarded hooks were needed in /repo", "enable": "the simulator installs its seams at run time (sys.settrace scheduler, lock factory, random-source stand-ins, optimiser and open() wrappers) inside the check's own process", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Deterministic simulation with fault injection. See DESIGN.md. VERIF_SEED decides every random choice; replay with: /opt/venv/bin/python sim/check.py <id> --replay FILE"}
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
