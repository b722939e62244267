#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Which properties have a check is listed here."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TRACE = "offline trace-specification checker over event logs of seeded deterministic (virtual time) and multi-threaded executions"
T = {p["id"]: TRACE for p in props}
T.update(json.load(open(os.path.join(HERE, "tools", "techniques.json"))))
NOT_YET = set(json.load(open(os.path.join(HERE, "tools", "pending.json"))))
NOTE = ("Judges what it observed: {n} No execution is enumerated exhaustively. Trusts tokio, the standard library and the harness's own oracle, "
        "which was tested by planted bugs (DESIGN.md).")
N = {}
N.update(json.load(open(os.path.join(HERE, "tools", "notes.json"))))
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "The checks use the public API of /repo only; no hooks were added.", "source_commits": []},
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "technique": T[p["id"]],
            "level": "exploration",
            "level_note": NOTE.format(n=N.get(p["id"], "tens of thousands of distinct executions of the real crate, per run, with random programs, pauses, timeouts, panics and kills.")),
        }
        for p in props if p["id"] not in NOT_YET
    ],
    "not_applicable": [{"property": p["id"], "reason": "its check is still being built"} for p in props if p["id"] in NOT_YET],
    "notes": "check.py <id> builds the harness crates of /verif against /repo's working tree, runs them with seeds derived from VERIF_SEED, and judges the logs. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
