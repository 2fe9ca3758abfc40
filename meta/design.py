"""Writes DESIGN.md from design_head.md, design_props.py, properties.jsonl, known_findings.json and seeded/*/meta.json."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from design_props import SEC, MUT

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
nas = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## 2. Properties and how each is decided", ""]
for p in props:
    if p["id"] in nas:
        continue
    how, oracle, lim = SEC[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "", how, "", "*Why tests cannot settle it:* " + p["why_tests_cant"], ""]
    if oracle.strip("- "):
        out += ["*Oracle:* " + oracle + ".", ""]
    if lim:
        out += ["*Limits:* " + lim, ""]
out += ["## 3. Not applicable to static analysis", ""]
for p in props:
    if p["id"] in nas:
        out.append("* **%s %s**: %s" % (p["id"], p["title"], nas[p["id"]]))
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
out += ["", "## 4. Defects found", "", "Repaired in /repo (each reverted once to confirm that the check reports it again):", ""]
out += ["* " + x[len("fixed: property="):] for x in kf["fixed"]]
out += ["", "Recorded, not repaired:", ""]
out += ["* %s `%s`: %s" % (x["property"], x["key"], x["what"]) for x in kf["findings"]]
out += ["", open(os.path.join(HERE, "design_tail.md")).read().rstrip(), "", "## 6. Planted changes", "",
        "Each is in `seeded/<id>/` with a demonstration. All of them compile, keep the 90 stable tests passing, and were run against the checks with `git apply` / `git checkout`.", "",
        "| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
out += ["", "Beyond these, every check was run against batches of source mutations (scripted edits that break the property and still compile). What was missed led to the rules named here:", ""]
out += ["* **%s**: %s" % kv for kv in sorted(MUT.items())]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
