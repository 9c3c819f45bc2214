#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties whose checks exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import rules  # noqa: E402

TECH = {
    "C01": "runtime monitoring: differential round trips through chunked readers, panic monitor",
    "C02": "runtime monitoring: independent codec as oracle on frames of both sides",
    "C03": "runtime monitoring: hostile inputs, allocation monitor, panic monitor, bystander oracle",
    "C04": "runtime monitoring: id uniqueness over all recorded frames and threads",
    "C05": "runtime monitoring: differential round trips against independent serde users, allocation monitor",
    "C06": "runtime monitoring: independent layout and acceptance oracle, allocation monitor",
    "C07": "runtime monitoring: handler run log against sent frames, simulated transport",
    "C08": "runtime monitoring: wire trace against handler scripts",
    "C09": "runtime monitoring: token-tagged request/reply histories under virtual time",
    "C10": "runtime monitoring: streamed items against sent replies, in order",
    "C11": "runtime monitoring: injected handler failures and panics with bystanders",
    "C12": "runtime monitoring: exact timing oracle under virtual time",
    "C13": "runtime monitoring: recorded byte streams parsed independently, concurrent emitters",
    "C14": "runtime monitoring: fault injection at every byte offset, differential outcome oracle",
    "C15": "runtime monitoring: stop injected at random points, handler log and EOF oracle",
    "C16": "runtime monitoring: pool histories against a counting model",
    "C17": "runtime monitoring: conservation of concurrent updates",
    "C18": "runtime monitoring: counting allocator, heap slope per operation",
    "C19": "runtime monitoring: cancellation at every poll, wire and result oracle",
    "C20": "runtime monitoring: byte stream conservation oracle over hostile transports",
    "C21": "runtime monitoring: keystream reuse and plaintext search over recorded traffic",
    "C22": "runtime monitoring: man-in-the-middle fault injection, prefix oracle",
    "C23": "runtime monitoring: handshake matrix with model of who may connect",
    "C24": "runtime monitoring: real sockets and threads, exactly-once oracle, socket options",
    "C25": "runtime monitoring: misbehaving clients with well-behaved bystanders",
    "C26": "runtime monitoring: builder call sequences against a model",
}
NOTE = {
    "C14": "Every byte offset of the session in both directions with every kind of break, on plain and encrypted connections; the session itself is fixed per scenario. Trusts the simulated transport.",
}
DEFAULT = "Held on the executions counted in the evidence file: seeded scenarios against the real code, judged by an oracle outside of it. Nothing is claimed about executions not produced. Trusts the harness, tokio and the dependencies."

done = sys.argv[1:] or sorted(rules.RULES)
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 run.py check %s" % p,
            "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH[p],
            "level": rules.RULES[p]["level"],
            "level_note": NOTE.get(p, DEFAULT),
        }
        for p in done
    ],
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(rules.RULES) if p not in done],
    "notes": "No hooks in /repo are needed: the monitors observe the crate at its public boundaries (transport traits, handlers, results, allocator, panics). known_findings.json lists the recorded and the fixed defects.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
