#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
impl = [l.split()[0] for l in subprocess.check_output([os.path.join(root, "target/release/dst"), "list"], text=True).splitlines()]
NA = {
    "C30": "field laws are pure functions of their arguments: no schedule, clock or fault can influence them, so a simulator has nothing to vary",
    "C31": "sharing and reconstruction are pure functions of secrets and random values: nothing for a schedule or fault to influence",
    "C32": "packing and cleartext evaluation of a circuit are pure functions of the circuit: nothing for a schedule or fault to influence",
    "C33": "the helper scripts run outside the process and are not reached by an in-process simulator",
    "C34": "wall-clock performance on real hardware is not visible in simulated time",
}
NOTES = {}
checks = []
for p in props:
    if p["id"] in impl:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "deterministic simulation with fault injection, seeded search",
            "level": "exploration",
            "level_note": NOTES.get(p["id"], "seeded search over scenarios, schedules and faults in simulated worlds running the real code; a pass says no violation was found in the runs counted in the evidence file"),
        })
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in impl],
    "notes": "No hooks in /repo: every seam is a patched dependency (tokio, rayon-core, argh, getrandom) or a libc symbol defined by the harness binary.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
