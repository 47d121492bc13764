"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=None, claimed=True, na=None,
      level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=observe or [], na=na, level=level))


exec(open(os.path.join(VERIF, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python check.py {p['id']}",
            "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in PROPS if p["na"] is None],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"] is not None],
        "notes": "All checks run the real code from /repo/src (no hooks in the product are needed: monitors attach to the public "
                 "API, to scipy's solver entry point and to the produced files). See DESIGN.md.",
    }
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties")


main()
