#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from contracts/*.json and not_applicable.json."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
props, checks = [], []
TECH = "contract-based deductive verification: VCs generated from the repository's own source by pyvc, discharged by z3/cvc5"
for p in sorted(glob.glob("contracts/C*.json")):
    d = json.load(open(p))
    i = os.path.basename(p)[:-5]
    props.append({"id": i, **d["property"]})
    if not os.path.exists(f"contracts/{i}.py"):
        continue
    checks.append({
        "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "technique": d.get("technique", TECH), "level": d.get("level", "proof"), "level_note": d["level_note"],
    })
na = json.load(open("not_applicable.json")) if os.path.exists("not_applicable.json") else []
props += [{"id": d["property"], **d["definition"]} for d in na]
with open("properties.jsonl", "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
with open("MANIFEST.json", "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": [{"property": d["property"], "reason": d["reason"]} for d in na],
        "notes": "One driver (./check ID): contracts/ID.py are the sidecar contracts verified against /repo's source by /verif/pyvc; harness/ID.py replays the same post-conditions on the running code to find a failing input. No hooks are needed in /repo.",
    }, f, indent=1)
def design():
    """Assemble DESIGN.md."""
    out = [open("tools/DESIGN.head.md").read().rstrip(), "", "## 5. Properties", ""]
    for p in sorted(glob.glob("contracts/C*.json")):
        d = json.load(open(p))
        i = os.path.basename(p)[:-5]
        q = d["property"]
        out += [f"### {i}: {q['title']}", "", q["statement"], ""]
        out += [f"*For all* ({', '.join(q['quantifier']['over'])}): {q['quantifier']['text']} *Why tests can't settle it:* {q['why_tests_cant']}", ""]
        out += [f"*How it is decided:* {d['explanation']}", "", f"*Reach and bounds:* {d['level_note']}", ""]
        if d.get("assumptions"):
            out += ["*Assumed:* " + "; ".join(d["assumptions"]) + ".", ""]
        out += ["*Anchors:* " + ", ".join(f"`{f}`" for f in q["anchors"]["files"]) + ".", ""]
    for d in na:
        out += [f"### {d['property']}: {d['definition']['title']} (not applicable)", "", d["definition"]["statement"], "", "*Why this family can't decide it here:* " + d["reason"], ""]
    out += ["## 6. Genuine defects", "", "Found by the checks or while writing contracts, shown on the real code. Repaired ones are `fix:` commits in /repo.", ""]
    for line in open("known_findings.jsonl"):
        d = json.loads(line)
        out.append(f"* {d['property']}, {d['kind']}: {d['what'].split(':', 1)[1].strip() if d['kind'] == 'fixed' else d['what']}")
    out += ["", "## 7. Planted bugs", "", "Each is in `seeded/` with its demonstration, and passes the existing tests. \"obligation only\": a failed obligation, without a failing input. Missed ones are kept on purpose.", "", "| planted bug | needs | result |", "|---|---|---|"]
    res = json.load(open("tools/seed_results.json")) if os.path.exists("tools/seed_results.json") else {}
    for i in sorted(os.listdir("seeded")):
        m = json.load(open(f"seeded/{i}/meta.json"))
        out.append(f"| {i} | {m['needs']} | {res.get(i, '?')} |")
    open("DESIGN.md", "w").write("\n".join(out) + "\n")


if os.path.isdir("seeded"):
    design()
print(len(props), "properties,", len(checks), "checks")
if len(sys.argv) > 1:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in props:
        jsonschema.validate(x, s)
    jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
