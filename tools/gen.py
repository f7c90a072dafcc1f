#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from the tables and texts in tools/."""
import json, os, sys, glob, importlib.util
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, notes = [], ""
for f in sorted(glob.glob(os.path.join(root, "tools", "props_*.py"))):
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    props += m.PROPS
props.sort(key=lambda p: p["id"])
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as out:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        st = p["statement"]
        assert st.count(". ") <= 2, (p["id"], st)
        line = {
            "id": p["id"], "title": p["title"], "statement": st,
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p.get("observe", []),
                "hook_needed": p.get("hook"),
            },
        }
        if "state" in p:
            line["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        out.write(json.dumps(line, ensure_ascii=False) + "\n")
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
                "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": p.get("level", "exploration"),
                "level_note": p["level_note"],
            })
man = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks run the real sources of /repo (compiled in place through manifests under /verif) under generated workloads with runtime monitors and reference-model oracles; arithmetic overflow checks and debug assertions are on. See DESIGN.md.",
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(props), "properties,", len(checks), "checks")

# DESIGN.md
here = os.path.join(root, "tools")
costs = json.load(open(os.path.join(here, "costs.json")))
seeded = []
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    seeded.append((os.path.basename(os.path.dirname(d)), json.load(open(d))))
caught = json.load(open(os.path.join(here, "caught.json")))
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    out.append(f"### {p['id']} {p['title']}")
    out.append("")
    out.append(p["statement"])
    out.append("")
    if "na" in p:
        out.append(f"Not applicable: {p['na']}")
        out.append("")
        continue
    out.append(f"- Monitored: {'; '.join(p.get('observe', []))}, for {p['q']}.")
    out.append(f"- How it is decided: {p['technique'].removeprefix('runtime monitoring: ')}.")
    out.append(f"- Bounds: {p['level_note']}.")
    out.append(f"- Beyond tests: {p['why']}")
    c = costs.get(p["id"])
    if c:
        out.append(f"- Cost: quick {c[0]} s, thorough {c[1]} s (after building).")
    mine = [i for i, m in seeded if m["property"] == p["id"]]
    if mine:
        out.append(f"- Seeded bugs: {', '.join(mine)}.")
    out.append("")
out += ["## Seeded bugs", "", "| bug | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
for i, m in seeded:
    cell = lambda t: t.replace("|", "/").replace("\n", " ")
    out.append(f"| {i} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {caught.get(i, '?')} |")
out.append("")
out.append(open(os.path.join(here, "design_tail.md")).read().strip())
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
