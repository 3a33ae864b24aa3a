"""Writes the fixed entries of known_findings.json from /repo's fix: commits."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {"217652c": "P01", "34d0dab": "P07", "1e45a6f": "P05", "137f1f1": "P05", "2d3627f": "P05", "2d7a35d": "P06", "ab1e7e6": "P16",
     "5dc8b3d": "P11", "a56327c": "P11", "f346b0b": "P16", "9a12b97": "P12", "5da1738": "P12", "8404249": "P16", "3475c85": "P10",
     "f882b20": "P10", "1376a2c": "N02", "82e0f0b": "P07", "2582e6a": "P07", "9579e62": "P07", "c0a2b31": "P07", "73f94dd": "N03",
     "071c921": "N01", "a228670": "P04", "358f66c": "P06", "63fc062": "P07", "2d6c9c3": "P02"}
extra = json.load(open(os.path.join(root, "tools", "fixprops.json"))) if os.path.exists(os.path.join(root, "tools", "fixprops.json")) else {}
P.update(extra)
p = os.path.join(root, "known_findings.json")
old = json.load(open(p)) if os.path.exists(p) else {"findings": []}
keep = [k for k in old["findings"] if k.get("status") == "known"]
fixed = []
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        if h[:7] not in P:
            print("no property for", h, s)
        fixed.append(f"fixed: property={P.get(h[:7], '?')} {h} {s[5:]}")
json.dump({"findings": keep, "fixed": fixed}, open(p, "w"), indent=1)
print(len(keep), "known", len(fixed), "fixed")
