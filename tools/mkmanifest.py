#!/usr/bin/env python3
# Writes MANIFEST.json. Usage: tools/mkmanifest.py
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, history judged against a reference model"
BASE = ("Seeded exploration, not proof: every run executes the real code of /repo under the simulator and the whole recorded history is judged. "
        "Trusts the simulator, the reference model, crypto/sha256 and the stand-in for continusec/objecthash (not available offline). ")
claims = {
 "P01": "Heads, entries and proofs of all logs under concurrency, crashes, message faults, both mutators, memory/bolt/kv storages.",
 "P02": "Duplicated messages, retries, equal entries by several clients, crashes in between.",
 "P03": "bbolt's real engine on a simulated disk that loses and tears unsynced writes; process kills and power loss at any seam; assumes fsync is honest.",
 "P04": "Simulated time; batch size, buffer, timeout and target mix drawn per run; storage errors may stop the server, then no progress is claimed.",
 "P05": "Holding time measured in simulated time from the moment the batch writer takes the first mutation.",
 "P06": "All log types, in-range and out-of-range requests while writers run.",
 "P09": "Values, roots and proofs at every size against a replay; keys mined for long common hash prefixes.",
 "P10": "Racing conditional updates over direct and REST transports, retries and duplicates.",
 "P11": "Every committed storage state is checked by the harness, and every API answer.",
 "P12": "Errors injected at begin, get, set, commit (before and after it took effect) and in bbolt's disk calls.",
 "P13": "Look-alike account and object names, logs and maps of equal name.",
 "P14": "Interval (monotone-size) linearizability over the stamped history; synchronous mutator, and batch for reads.",
 "P18": "Real REST client and real handler; HTTP exchange simulated with loss, duplication, truncation, garbling and error bodies.",
 "P20": "Audits of honest servers while writers run; callbacks recorded.",
 "P21": "Followers over several lagging or restarting servers.",
 "P22": "Bounded simulated time and steps after the last fault; deadlocks detected by quiescence.",
}
extra = json.load(open(os.path.join(here, "tools/claims.json"))) if os.path.exists(os.path.join(here, "tools/claims.json")) else {}
claims.update(extra)
NA = {
 "P25": "Pure arithmetic on byte strings: no concurrency, time, I/O or multi-party behaviour for a simulator to control (its effects on maps are exercised under P09).",
 "P26": "Pure function of its input that lives mostly in the external module continusec/objecthash, which is not available offline; no schedule, fault or history to explore (redaction through the service is P17).",
}
PENDING = "not claimed yet: its simulated world is still being built"
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in claims:
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "technique": TECH, "level": "exploration", "level_note": BASE + claims[i]})
m = {"version": 1,
 "setup_cmd": "./setup.sh",
 "checks": checks,
 "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in claims],
 "notes": "No hooks in /repo: seams are put in by rewriting generated copies at build time (go build -overlay), see DESIGN.md. Replay a reported file with .build/<program> -replay FILE [-show]."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
