#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl") if l.strip()]
S = "deterministic simulation: "
technique = {
 "C01": S + "seeded command histories on a scripted die source, reports checked for conservation against the source's log",
 "C02": S + "die-source fault injection at seeded draws, later answers checked against the reference model",
 "C03": S + "seeded die outcomes against an executable reference model of the rules",
 "C04": S + "seeded lucky streaks and outcomes against an executable reference model, progress bounds in steps and draws",
 "C05": S + "seeded histories, every answer compared with a fresh session's and with the model",
 "C06": S + "seeded thread interleavings at statement granularity with race detection, answers compared with sequential runs",
 "C07": S + "simulated clock with skew and jumps, interleaved sources compared with replays from their seeds",
 "C08": S + "seeded random sources and histories, range invariants and exact frequency bounds over the recorded history",
 "C09": S + "seeded operation histories with aliasing against a reference queue",
 "C10": S + "real REPL on a simulated terminal and clock, refinement of a sequential reference",
 "C11": S + "real REPL on a simulated terminal, seeded ends of input, bounded progress after every delivery",
 "C12": S + "real REPL with input chunking, delays, history-file and output fault injection, refinement of a sequential reference",
 "C13": S + "seeded histories in the library and the REPL, twin executions with and without the mark",
 "C14": S + "seeded selection and command histories against a routing model, with simulated game systems",
 "C15": S + "real HTTP server on a simulated network and thread scheduler with connection faults and race detection",
 "C16": S + "real server and log on a simulated clock and disk with crash, restart and write faults",
 "C17": S + "seeded files on a simulated disk with read faults and truncation, checked against a reference reader",
 "C18": S + "real test runner on seeded case files and die faults, verdicts checked against a reference",
 "C23": S + "seeded iteration orders of the registry, thread interleavings and callers that change what they received, answers checked against the registered set",
 "C24": S + "real server process with seeded environments on a simulated network whose listener fails temporarily or for good, bounded end checked on the simulated clock",
 "C19": S + "seeded adversarial texts and die-source faults under step, draw and memory budgets",
}
note = {}
D = "Seeded search, not exhaustive: it shows the property on the runs explored and each violation as a replayable, minimised run. "
for k in technique:
    note[k] = D + "Trusted: the simulator's seams, the oracle in /verif/sim, the Go toolchain and runtime."
note["C06"] += " Data races inside the standard library's own synchronisation are out of view."
note["C15"] += " The echo framework is real; only sockets, clock and scheduling are simulated."
na = {
 "C20": "Parsing is a pure, sequential function of the text: no schedule, clock, I/O, randomness or fault takes part in it, so a simulator controls nothing that decides it. (The forms that the other checks execute are compared with a model on the way, but that is input generation, not simulation.)",
 "C21": "Infix notation is a pure function of the tree: no schedule, clock, I/O, randomness or fault for a simulation to decide.",
 "C22": "Calculation commands draw no dice and do no I/O: a pure function of the text that no simulated event can influence.",
}
pending = os.environ.get("PENDING", "").split()
checks, out_na = [], []
for p in props:
    i = p["id"]
    if i in technique and i not in pending:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": technique[i],
            "level": "exploration",
            "level_note": note[i],
        })
    else:
        out_na.append({"property": i, "reason": na.get(i, "check under construction")})
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "none: /repo carries no hooks; yield points, clock, file and lock seams are put in by a go build overlay generated from the working tree",
           "enable": "sim/cmd/instr writes instrumented copies of /repo's sources to .build/src and .build/overlay.json; the workers are built with go test -c -overlay", "source_commits": []},
 "checks": checks,
 "not_applicable": out_na,
 "notes": "Replays are written to replays/<id>.json; ./check.sh replay FILE reproduces one. ./check.sh selftest N compares repeated executions.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
