#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 meta.py rewrites both."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, check=None, technique="",
         note="", observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, check=check, technique=technique, note=note, observe=observe,
                  na=na))


exec(open(os.path.join(HERE, "properties.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                         observe_at=list(p["observe"]), hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    if p["check"]:
        cmd = f"python3 checks/{p['check']}"
        checks.append(dict(property=p["id"], quick_cmd=cmd,
                           thorough_cmd="VERIF_TIER=thorough " + cmd,
                           technique=p["technique"], level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
