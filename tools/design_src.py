"""Writes DESIGN.md from the parts below, properties.jsonl, the manifest's notes and known_findings.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
man = json.load(open(os.path.join(V, "MANIFEST.json")))
props = {p["id"]: p for p in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
checks = {c["property"]: c for c in man["checks"]}
WHY = json.load(open(os.path.join(V, "tools", "design_why.json")))
out = [HEAD.rstrip(), "", "## 4. Per property", ""]
for i, p in props.items():
    if i not in checks:
        continue
    c = checks[i]
    w = WHY.get(i, {})
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["*Decided by* %s (`%s`)." % (c["technique"], w.get("mod", "sa/props/%s.py" % i.lower())), ""]
    if w.get("spec"):
        out += ["*Rule and oracle.* " + w["spec"], ""]
    out += ["*Bounds.* " + c["level_note"].replace("decided from rustc's MIR of the current tree; ", "") + "." + ((" " + w["bound"]) if w.get("bound") else ""), ""]
    if w.get("why"):
        out += ["*Beyond tests.* " + w["why"], ""]
out += ["## 5. Not applicable", ""]
for n in man["not_applicable"]:
    out.append("- **%s %s**: %s." % (n["property"], props[n["property"]]["title"], n["reason"]))
out += ["", "## 6. Genuine defects found", "",
        "Repaired, each in a commit `fix:` of its own in /repo (the test suite passes unedited after each one):", "", "| property | commit | what failed |", "|---|---|---|"]
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("| %s | %s | %s |" % (m.group(1), m.group(2)[:8], m.group(3)))
out += ["", "Recorded as known findings (the repair is not small, or existing tests pin the behaviour); each check prints KNOWN-FINDING for them and",
        "still reports any other violation:", ""]
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"finding: property=(\S+) (.*?) :: (.*)", l)
    if m:
        out.append("- **%s** `%s`: %s" % (m.group(1), m.group(2), m.group(3).strip()))
out += ["", "## 7. Planted bugs", "", "| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], WHY.get("_caught", {}).get(i, m["property"])))
out += ["", TAIL.rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
