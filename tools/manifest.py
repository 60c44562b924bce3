#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
SIMT = "deterministic simulation: seeded schedule and fault search over real derived code"
NOTE = {}
base = ("Seeded search, not a proof: every run is one exactly repeatable execution of the real crates and macro output, judged against a "
        "reference model of the documented format. Trusts the zoo generator/model and the scheduler runtime (sim/rt/rt.c). ")
NOTE.update({
 "C01": base + "Injects stream failures (rejected, torn, short, interrupted, zero-length, sticky or healing writes; sink errors and panics) at every byte offset over time.",
 "C02": base + "Injects errors and panics in field formatters and custom formats, after 0..7 bytes, first or n-th time.",
 "C03": base + "The allocator refuses every request made while a value is being written to a stream that needs none.",
 "C04": base + "2-6 threads race on the first use of 1-3 types; switches at instrumented edges, loads, stores, allocations and callbacks; spurious wake-ups and EINTR.",
 "C05": base + "Pattern providers panic or yield invalid patterns during the first build, with racing and later users.",
 "C06": base + "User callbacks stall for ever (until everything else has finished) or re-enter the library; deadlock, livelock and undue blocking are violations.",
 "C07": base + "Conversions, constructors and defaults fail or panic at any site, first or n-th time.",
 "C08": base + "Random histories with all fault kinds in 1-3 phases, including operations in thread-local destructors; every result must equal the result in a fresh process.",
 "C09": base + "Several instantiations of one generic declaration are used in one process in any order and concurrently.",
 "C10": base + "Values are sent between simulated peers over streams that fail, lose, delay and repeat transmissions.",
 "C11": base + "Lists with every delimiter/format combination, with conversion and formatting faults at the n-th item.",
 "C16": base + "Sequences of operations, faults among them, are repeated 24 to 300 times with the same or varied texts, or on 32 threads one after the other; held bytes, steps and bytes requested are compared between repetitions.",
 "C12": base + "Published patterns are compared across processes, hash seeds and histories, and checked against the model on generated probes.",
})
LEVEL = {}
TECH = {}
extra = os.path.join(H, "tools/manifest_extra.json")
E = json.load(open(extra)) if os.path.exists(extra) else {"checks": {}, "na": {}}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py " + i, "technique": SIMT, "level": "exploration", "level_note": NOTE[i]})
    elif i in E["checks"]:
        checks.append(dict({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py " + i}, **E["checks"][i]))
    else:
        na.append({"property": i, "reason": E["na"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./check.py setup", "checks": checks, "not_applicable": na}
if "hooks" in E: m["hooks"] = E["hooks"]
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
