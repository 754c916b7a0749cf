"""Writes MANIFEST.json from the list of checks below."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B"
TECH = {
    "C01": "runtime monitoring: executing generated scripts on instrumented simulated servers, catalogue oracle",
    "C02": "runtime monitoring: dialect-accurate tokenising monitor at the driver boundary",
    "C03": "runtime monitoring: synchronisation histories on simulated servers, catalogue-equivalence oracle",
    "C04": "runtime monitoring: mutation-event monitor over repeated synchronisation",
    "C05": "runtime monitoring: row-conservation oracle over synchronisation histories",
    "C06": "runtime monitoring: object and row conservation monitor under drop restrictions and refusals",
    "C07": "runtime monitoring: row-multiset oracle over stress workloads at the driver boundary",
    "C08": "runtime monitoring: executable key-value model compared after every upsert",
    "C09": "runtime monitoring: row-set oracle over deletion workloads",
    "C10": "runtime monitoring: lookup-table history monitor (stability, uniqueness, resolution)",
    "C11": "runtime monitoring: bound-value and stored-value decoding oracle",
    "C12": "runtime monitoring: pull/delivery trace checker on instrumented sources",
    "C13": "runtime monitoring: round-trip oracle with hostile file content and corruption",
    "C14": "runtime monitoring: driver row versus returned object oracle",
    "C15": "runtime monitoring: connect-argument and output-text monitors",
    "C16": "runtime monitoring: transport monitors on loopback protocol servers and driver calls",
    "C17": "runtime monitoring with fault injection at every driver call",
    "C18": "runtime monitoring: class/schema equivalence oracle on executed generated source",
    "C19": "runtime monitoring: conformance oracle on generated objects",
    "C20": "runtime monitoring: before/after state monitors on model operations",
    "C21": "runtime monitoring: value-range oracle on joined types",
    "C22": "runtime monitoring: call/return trace checker with injected delays and threads",
    "C23": "runtime monitoring: catalogue before/after monitor over histories of session operations",
}
checks = []
for k, v in sorted(TECH.items()):
    f = f"checks/{k.lower()}.py"
    if os.path.exists(os.path.join(ROOT, f)):
        checks.append(
            {
                "property": k,
                "quick_cmd": f"{PY} {f} --tier quick",
                "thorough_cmd": f"{PY} {f} --tier thorough",
                "evidence_file": f"evidence/{k}.json",
                "technique": v,
                "level": "exploration",
                "level_note": "seeded random and systematic workloads against the real code; an oracle judges every observed execution; see DESIGN.md",
            }
        )
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/setup.py", "checks": checks, "not_applicable": []}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
