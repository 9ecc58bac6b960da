#!/usr/bin/env python3
"""Writes MANIFEST.json: properties which have a harness are claimed"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
with open(os.path.join(V, "tools", "notes.json")) as f:
    NOTES = json.load(f)
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    f = os.path.join(V, "props", pid.lower() + ".cc")
    if os.path.exists(f):
        n = NOTES.get(pid, {})
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": n.get("technique", "property-based testing and fuzzing: generated cases against a reference model; random + libFuzzer campaigns, shrinking"),
            "level": n.get("level", "exploration"),
            "level_note": n.get("note", "Holds on every generated case of this run; sampling, not proof. Trusts the reference model in props/%s.cc, the sanitizers and GLib." % pid.lower()),
        })
    else:
        na.append({"property": pid, "reason": "check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
