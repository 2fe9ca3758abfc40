"""Single source of properties.jsonl and MANIFEST.json: run `python3 meta/props.py` after editing."""
import json, os, sys
sys.modules.setdefault("props", sys.modules[__name__])
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PROPS, NA = [], []


def prop(pid, title, statement, over, quant, why, files, mech, technique, note, state=None):
    assert len(title) <= 80, (pid, len(title))
    p = {"id": pid, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over.split(), "text": " ".join(quant.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files.split(), "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        p["anchors"]["state"] = state
    PROPS.append((p, technique, " ".join(note.split())))


def na(pid, title, statement, over, quant, why, files, mech, reason):
    prop(pid, title, statement, over, quant, why, files, mech, None, "")
    NA.append((pid, " ".join(reason.split())))


def write():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p, _, _ in PROPS:
            fh.write(json.dumps(p) + "\n")
    nas = {x for x, _ in NA}
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "All checks share one fact extractor (tool/facts.cpp, libTooling) and one program model; the facts of each translation unit are cached by content hash, so a change in any source or header re-extracts what it affects."}
    for p, t, n in PROPS:
        if p["id"] in nas:
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"],
                            "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"], "technique": t, "level": "other", "level_note": n})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, HERE)
    import plist  # noqa: F401
    write()
    print(len(PROPS), "properties,", len(NA), "not applicable")
