#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
tech = {
 "C03": "with I/O faults placed at drawn operations; fault oracle and reference model",
 "C04": "with I/O faults and stale sources; prefix invariant checked at every write",
 "C08": "with stream failures at drawn bytes; sender's description as oracle",
 "C09": "with streams cut at drawn bytes; sender's section map as oracle",
 "C11": "with a seeded scheduler pre-empting tasks between library statements; refinement against solo executions",
 "C12": "over histories of failed, abandoned and aborted operations; refinement against fresh executions",
 "C13": "over call sequences with failing closes; state machine model",
 "C14": "with outages and single read failures and a retrying client; progress after faults stop",
 "C16": "with a corrupting transport; panics and work bounds",
 "C18": "over relay chains with failures, cuts and retransmission; end-to-end oracle",
 "C20": "of senders, mail relays, failing streams and receivers in several time zones under a seeded scheduler; the commit as oracle",
 "C21": "with damage to stored and transmitted hunks; independent recount and applier model",
 "C22": "with damage in transit that makes one line impossible; sender's description as oracle",
 "C23": "with damage, cuts and any number of lines in front; the place of the damage as oracle",
 "C19": "with host time zones and zone changes between library statements; independent calendar",
}
notes = {
 "C11": "Interleavings are explored at the granularity of library statements and I/O operations under a seeded scheduler; the synchronisation package is simulated. Tearing of single loads and stores is not modelled. Samples, does not enumerate.",
 "C15": "Memory is measured with the runtime's allocation counters and judged against generous multiples of the declared sizes. Samples, does not enumerate.",
 "C16": "Work is measured in executed library statements and allocated bytes per input byte; limits are calibrated with a margin of more than ten over the largest ratio ever seen. Samples, does not enumerate.",
}
na = {
 "N03": "A relation between two pure functions of the patch bytes (this parser and git's); deciding it needs git as an oracle and input generation, not a simulated environment. The well-formed sub-space is claimed under delivery faults in C07.",
 "N04": "A pure function of one in-memory value compared with text; no schedule, fault or history. What formatting must preserve end to end is claimed in C18.",
}
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in na:
        nas.append({"property": i, "reason": na[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation, seeded search " + tech.get(i, "over simulated streams, sources and destinations; reference model as oracle"),
        "level": "exploration",
        "level_note": notes.get(i, "Seeded search over simulated executions of the real library code, rebuilt from /repo and compared with an independent model. It samples the space of inputs, legal environment behaviours, schedules and faults and does not enumerate it; trusted: the model, the seams and the Go standard library."),
    })
m = {"version": 1, "setup_cmd": "./check.sh warm",
     "hooks": {"guard": "none in /repo: the library is instrumented mechanically at build time (sim/cmd/instrument, go build -overlay)",
               "enable": "check.sh builds an instrumented copy of /repo's working tree in a scratch directory", "source_commits": []},
     "checks": checks, "not_applicable": nas,
     "notes": "One binary (sim/cmd/simcheck) decides all properties. './check.sh replay FILE' reproduces a reported violation exactly."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
