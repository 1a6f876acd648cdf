#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (both are committed)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, tech, note, **kw):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    for k in ("state", "observe_at"):
        if k in kw:
            anchors[k] = kw[k]
    P.append(
        dict(
            p=dict(
                id=pid, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext),
                why_tests_cant=why, anchors=anchors,
            ),
            tech=tech, note=note,
        )
    )


exec((V / "tools" / "props_data.py").read_text())

claimed = [q for q in P if (V / "checks" / (q["p"]["id"].lower() + ".py")).exists()]
unclaimed = [q for q in P if q not in claimed]
with open(V / "properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps(q["p"]) + "\n")
m = dict(
    version=1,
    setup_cmd="bash tools/setup.sh",
    checks=[
        dict(
            property=q["p"]["id"],
            quick_cmd="/opt/venv/bin/python checks/%s.py --tier quick" % q["p"]["id"].lower(),
            thorough_cmd="/opt/venv/bin/python checks/%s.py --tier thorough" % q["p"]["id"].lower(),
            technique=q["tech"],
            level="model_checking",
            level_note=q["note"],
        )
        for q in claimed
    ],
    not_applicable=[
        dict(property=q["p"]["id"], reason="no check registered yet") for q in unclaimed
    ],
    notes="All checks run the real code of /repo/src (VERIF_REPO overrides). No hooks in /repo are needed.",
)
with open(V / "MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(claimed), "claimed")
