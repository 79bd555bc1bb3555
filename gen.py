#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, subprocess
from meta import META
from props import PROPS
try:
    from meta import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for k, m in sorted(META.items()):
        f.write(json.dumps({"id": k, **{a: b for a, b in m.items() if not a.startswith("_")}}) + "\n")
checks = []
for k in sorted(META):
    if k in NOT_APPLICABLE:
        continue
    p = PROPS[k]
    note = META[k]["_note"] or "holds for all values within the bounds; no claim beyond them"
    checks.append({
        "property": k,
        "quick_cmd": f"python3 check.py {k} quick",
        "thorough_cmd": f"python3 check.py {k} thorough",
        "technique": p.get("technique") or "symbolic execution of the rustc LLVM IR of the real code, assertions decided by z3 over all inputs and schedules within bounds",
        "level": "model_checking",
        "level_note": (note + ". Bounds: " + "; ".join(f"{e['entry']}: {e['bounds']}" for e in p["entries"]))[:1500],
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
     "notes": "check.py PROPERTY TIER; known findings and repaired defects are in known_findings.txt"}
try:
    from meta import HOOKS
    m["hooks"] = HOOKS
except ImportError:
    pass
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

# The section of DESIGN.md on the single properties.
from meta import HOW
sec = ""
for p in sorted(META):
    s = PROPS[p]
    sec += f"### {p} {META[p]['title']}\n\n{HOW[p]}\n\n| entry | explored |\n|---|---|\n"
    for tier, es in (("", s["entries"]), (" (thorough)", s.get("thorough", []))):
        for e in es:
            sec += f"| `{e['entry']}`{tier} | {e['bounds']} |\n"
    if s.get("assumptions"):
        sec += "\nAssumes: " + "; ".join(s["assumptions"]) + ".\n"
    if s.get("outside"):
        sec += f"\nOutside: {s['outside']}.\n"
    sec += "\n"
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
a, b = "<!-- properties: generated by gen.py -->\n", "<!-- end of properties -->\n"
if a in text:
    text = text[:text.index(a) + len(a)] + "\n" + sec + text[text.index(b):]
    open(path, "w").write(text)
if os.path.isdir(os.path.join(here, "seeded")) and "<!-- seeded:" in text:
    from caught import CAUGHT
    t = "| change | property | needs | caught by |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(os.path.join(here, "seeded"))):
        j = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
        t += f"| `{d}` | {j['property']} | {j['needs']} | {CAUGHT.get(d, '?')} |\n"
    a, b = "<!-- seeded: generated by gen.py -->\n", "<!-- end of seeded -->\n"
    text = open(path).read()
    open(path, "w").write(text[:text.index(a) + len(a)] + "\n" + t + text[text.index(b):])
