#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
claimed = open(root + '/tools/claimed.txt').read().split()
pure = ("A pure function of its argument: no scheduling, time, I/O, randomness or second party takes part, "
        "so a simulated schedule or fault has nothing to vary; seeded input generation alone would be another technique. "
        "What of it reaches the wire is covered by H06 and H07.")
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "hooks": {"guard": "none", "enable": "No hook is compiled into /repo: the checks rewrite a copy of the working tree (cmd/simxform) so that every goroutine, channel, lock, timer, socket and random source goes through the simulator.", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "Every check rebuilds the simulator from /repo's working tree. './check replay FILE' replays a recorded violation. Findings and repaired defects are in known_findings.json.",
}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({
            "property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and workloads)",
            "level": "exploration",
            "level_note": "Seeded simulation of the real code (rebuilt from the tree with all nondeterminism behind the simulator) against executable oracles; every run is repeatable from its seed. Assurance is that of the explored runs: interleavings at statement granularity, simulated TCP and clock; weak-memory effects and the real kernel network stack are trusted."})
    else:
        m["not_applicable"].append({"property": i, "reason": pure if i[0] == 'N' else "No check has been built for it yet."})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
