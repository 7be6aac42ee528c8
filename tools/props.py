"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step.   python3 tools/props.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


from props_data import define  # noqa

define(prop)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(
            json.dumps(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]},
                    "why_tests_cant": p["why"],
                    "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
                }
            )
            + "\n"
        )
        assert len(p["title"]) <= 80, p["id"]
man = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick ./run.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        }
        for p in P
        if not p["na"]
    ],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "No hooks in /repo: every check drives the real code from /verif (mc/), with `ray` replaced by mc/fakeray.py. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
