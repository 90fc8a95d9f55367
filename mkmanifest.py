#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "C20": "A pure function of its input: no schedule, clock, I/O, fault or second party can influence it, so simulation has nothing to decide. (That real exchanges carry every payload unchanged in both directions, including escape bytes, is decided by C02.)",
}
lib = "seeded deterministic simulation of concurrent library callers and simulated units on faulty lines; "
srv = "seeded deterministic simulation of the whole program with concurrent API clients, a simulated unit, faults, crashes and a simulated clock; "
TECH = {
    "C01": lib + "every successful result matched against a reference deframer over the bytes delivered while it was outstanding",
    "C02": lib + "healthy lines with arbitrary payloads and chunking, results and unit effects compared with the unit model",
    "C03": lib + "acknowledgements and complete writes matched against each reported success",
    "C04": lib + "deadline measured on the simulated clock, hang and crash detection",
    "C05": lib + "grammar check over the recorded bytes the host puts on the line",
    "C06": lib + "bounded-progress check after faults stop, outstanding-read counter",
    "C07": lib + "linearizability of profile operations against a sequential model",
    "C08": srv + "each read matched to one answer of the unit, monotonic per kind",
    "C09": srv + "age of every served value measured on the simulated clock",
    "C10": srv + "flush outcomes compared with the unit's answers in the flush's interval",
    "C11": srv + "linearizability of fan speed requests, confirmation by the unit's later answers",
    "C12": srv + "linearizability of fan profile requests, visibility of changes",
    "C13": srv + "linearizability of comfort temperature requests, visibility of changes",
    "C14": srv + "refused requests leave no trace in the unit's executions or in the sequential models",
    "C15": srv + "deadlock, crash, idleness and bounded-response checks, probe requests after faults stop",
    "C16": srv + "startup under hostile environments: population order, exit status, bounded time",
    "C17": srv + "matching between the unit's executed commands and the requests, across kills and restarts",
    "C18": lib + "several units and connections, per-connection oracle",
    "C21": srv + "differential: the same seed, schedule and faults once per encoding, all responses and unit effects compared",
    "C22": "seeded deterministic simulation of program starts under generated configurations with faults and restarts; connections, listen addresses and exit status compared with a reference model",
    "C19": "seeded deterministic simulation of the Python client on a simulated event loop, executor, network and API server; per-call outcome oracle",
}
CLAIM = [c for c in os.environ.get("CLAIM", "").split()] or [p["id"] for p in props if p["id"] not in NA]
note = "Seeded search over schedules and fault sequences of the real code: a sample of the space, not all of it. "
checks = [{
    "property": p, "quick_cmd": f"bash bin/check {p}", "thorough_cmd": f"bash bin/check {p} thorough", "technique": TECH[p], "level": "exploration",
    "level_note": note + ("Each violation comes with a minimised replay file that reproduces the identical execution (bash bin/replay FILE)."),
} for p in CLAIM]
na = [{"property": k, "reason": v} for k, v in NA.items()]
na += [{"property": p["id"], "reason": "not built yet"} for p in props if p["id"] not in CLAIM and p["id"] not in NA]
json.dump({"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
