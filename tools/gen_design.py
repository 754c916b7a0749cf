"""Assembles DESIGN.md from its written parts, the known findings and the planted bugs."""
import json
import os
from collections import defaultdict

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)

# planted bugs that a check missed at first, and what was added
MISSED = {
    "c17-query-cause": "C17 now checks that the cause is attached for queries as well",
    "c17-execute-all-timeout": "C17 fails calls with more kinds of exceptions (OSError, TimeoutError, …)",
    "c08-merge-unique-update": "C08 tables have nullable unique columns that an upsert updates",
    "c20-merge-enum-order": "C20 merges enumerations whose values are permuted",
    "c10-lookup-detect": "C10 creates lookup tables with their columns in either order",
}
try:
    with open(os.path.join(here, "missed.json")) as f:
        MISSED.update(json.load(f))
except FileNotFoundError:
    pass

out = [open(os.path.join(here, "design_body.md")).read()]

rows = []
for name in sorted(os.listdir(os.path.join(root, "seeded"))):
    with open(os.path.join(root, "seeded", name, "meta.json")) as f:
        meta = json.load(f)
    caught = meta.get("caught_by") or [meta["property"]]
    rows.append((name, meta["needs"], ", ".join(caught), MISSED.get(name, "")))
out.append("## 4. Planted bugs\n\nAll pass the existing tests and fail their own demonstration. \"Caught by\" names the check run against it.\n\n")
out.append("| planted bug | needs | caught by | first missed; added |\n|---|---|---|---|\n")
out += [f"| {n} | {needs} | {by} | {miss} |\n" for n, needs, by, miss in rows]

with open(os.path.join(root, "known_findings.json")) as f:
    findings = json.load(f)["findings"]
out.append("\n## 5. Genuine defects\n\nEvery entry has a deterministic probe in the check named. *Fixed* entries are `fix:` commits in `/repo`;\n*open* ones need a change that is not small or not clearly what a maintainer wants.\n")
for status, title in (("open", "Open (reported as KNOWN-FINDING)"), ("fixed", "Fixed")):
    out.append(f"\n### {title}\n\n")
    groups = defaultdict(list)
    for item in findings:
        if item["status"] == status:
            groups[item["property"]].append(item)
    for prop in sorted(groups):
        out.append(f"* **{prop}**\n")
        if status == "open":
            out += [f"  * `{i['id']}` {i['what']}\n" for i in groups[prop]]
        else:
            commits = defaultdict(list)
            for i in groups[prop]:
                commits[i.get("commit", "?")].append(i["id"])
            out += [f"  * {commit}: {', '.join(ids)}\n" for commit, ids in commits.items()]
out.append("\n")
out.append(open(os.path.join(here, "design_tail.md")).read())
with open(os.path.join(root, "DESIGN.md"), "w") as f:
    f.write("".join(out))
