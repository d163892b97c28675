#!/usr/bin/env python3
"""Writes MANIFEST.json from the parts the explorer registers and the notes below."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = [l.split()[0] for l in subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    if "URKEL_VERIFY" in l]
TECH = {}
NOTE = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
src = "".join(open(os.path.join(HERE, "mc", "checks", f)).read()
              for f in sorted(os.listdir(os.path.join(HERE, "mc", "checks"))) if f.endswith(".c"))
have = sorted(set(re.findall(r'PART\(\w+, "(C\d\d)"', src)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in have:
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "python3 check.py %s --thorough" % p,
        "technique": TECH[p],
        "level": "model_checking",
        "level_note": NOTE[p] + " Exhaustive within the bounds stated per part in the evidence; trusts the in-memory"
                      " file system and scheduler of mc/ and the independent reference of mc/ref.c, which are"
                      " compared with the real ones on every run.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "hooks": {"guard": "URKEL_VERIFY", "enable": "check.py compiles /repo's sources with -DURKEL_VERIFY",
              "source_commits": HOOK_COMMITS},
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "no check has been built yet"} for p in props if p not in have],
    "notes": "All checks rebuild /repo's working tree into a temporary directory; see DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
