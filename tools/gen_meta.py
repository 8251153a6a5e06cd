#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing tools/props_meta.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props_meta import NOT_APPLICABLE, PROPS  # noqa: E402

PY = "/opt/venv/bin/python"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + [n["prop"] for n in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["tests"],
                                anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p.get("observe", ["public API results"])))) + "\n")
checks = []
for p in PROPS:
    checks.append(dict(property=p["id"], quick_cmd="%s check.py %s --tier quick" % (PY, p["id"]),
                       thorough_cmd="%s check.py %s --tier thorough" % (PY, p["id"]),
                       technique=p["tech"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="%s -c \"import sys; sys.path.insert(0, '.'); import lib.runner\"" % PY, checks=checks,
         not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NOT_APPLICABLE],
         notes="Every check runs the real code of /repo's working tree in worker processes (C library rebuilt out of tree into a scratch "
               "directory), watched by the monitors in props/. No hooks are added to /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for name, fn, many in (("PROPERTIES", "properties.jsonl", True), ("MANIFEST", "MANIFEST.json", False)):
    try:
        import jsonschema
    except ImportError:
        break
    sc = json.load(open("/root/.vp/%s.schema.json" % name))
    docs = [json.loads(l) for l in open(os.path.join(V, fn))] if many else [json.load(open(os.path.join(V, fn)))]
    for d in docs:
        jsonschema.validate(d, sc)
print(len(PROPS), "claimed,", len(NOT_APPLICABLE), "not applicable")
