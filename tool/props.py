"""The property table: writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, state=state or [], observe=observe or []))


exec(open(os.path.join(HERE, "tool", "props_table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "state": p["state"],
                                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                                "technique": p["technique"], "level": "other", "level_note": p["note"]})
    m["notes"] = "static analysis only; no hooks in /repo. See DESIGN.md."
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
