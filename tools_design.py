"""Development helper: rewrites the generated part of DESIGN.md (everything below the marker) from properties.jsonl,
   MANIFEST.json, evidence/, known_findings.txt, seeded/ and design_notes.txt."""
import glob
import json
import os
import re

MARK = "<!-- generated by tools_design.py: everything below -->"
here = os.path.dirname(os.path.abspath(__file__))
os.chdir(here)
head = open("DESIGN.md").read().split(MARK)[0].rstrip("\n")
props = [json.loads(l) for l in open("properties.jsonl")]
checks = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
notes, key = {}, None
for l in open("design_notes.txt"):
    m = re.match(r"^\[(\w[\w ]*)\]\s*$", l)
    if m:
        key = m.group(1)
        notes[key] = []
    elif key:
        notes[key].append(l.rstrip("\n"))
find, fixed = {}, {}
for l in open("known_findings.txt"):
    m = re.match(r"finding: property=(\w+) case=(\S+) kind=(\S+) :: (.*)", l)
    if m:
        find.setdefault(m.group(1), {}).setdefault(m.group(4).strip(), []).append(m.group(2))
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
seeds = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob("seeded/*/meta.json"))]
out = [head, "", MARK, "", "## The properties and their checks", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["*Specified.* " + p["statement"], ""]
    if i not in checks:
        out += ["Not claimed, see `not_applicable` in MANIFEST.json.", ""]
        continue
    try:
        e = json.load(open("evidence/%s.json" % i))
    except FileNotFoundError:
        e = None
    rule = e["coverage"].get("rule", "") if e else ""
    out += ["*Enumerated and decided by.* %s. %s" % (checks[i]["technique"].rstrip("."), ("Space: " + rule.rstrip(".") + ".") if rule else ""), ""]
    out += ["*Bounds.* " + p["quantifier"]["text"].rstrip(".") + ".", ""]
    if e:
        out += ["*Cost.* %s of one run of the quick tier on 8 cores: %s evaluations, %s distinct behaviours." % (
            "%.0f s" % e["wall_s"], e["coverage"].get("evaluations"), e["coverage"].get("distinct_nontrivial")), ""]
    out += ["*Beyond the tests.* " + p["why_tests_cant"], ""]
    if i in notes:
        out += ["*Notes.* " + " ".join(x for x in notes[i] if x), ""]
    if i in fixed:
        out += ["*Repaired.*", ""] + ["- `%s` %s" % f for f in fixed[i]] + [""]
    if i in find:
        out += ["*Known findings* (recorded, not repaired):", ""] + ["- %s (%d cases, e.g. `%s`)" % (w, len(c), c[0]) for w, c in find[i].items()] + [""]
    s = [(n, m) for n, m in seeds if m["property"] == i]
    if s:
        out += ["*Planted bugs.*", ""] + ["- `%s`: %s (needs: %s)" % (n, m["what_it_breaks"], m["needs"]) for n, m in s] + [""]
for k in ("Seeded", "False alarms", "Documented", "Limits"):
    if k in notes:
        out += ["## " + {"Seeded": "Planted bugs and what catches them", "False alarms": "False alarms that were corrected",
                         "Documented": "Behaviour that looks wrong but is documented or intended", "Limits": "Limits"}[k], ""] + notes[k] + [""]
open("DESIGN.md", "w").write("\n".join(out).rstrip("\n") + "\n")
print(len(out))
