"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (run: python3 tools/gen.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from meta import PROPS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
               evidence_file=f"evidence/{p['id']}.json",
               technique="explicit enumeration of a bounded space on the real code, against a reference model",
               level="model_checking", level_note=p["note"])
          for p in PROPS if not p["na"] and os.path.exists(os.path.join(HERE, "mc/props", p["id"].lower() + ".py"))]
na = [dict(property=p["id"], reason=p["na"]) for p in PROPS if p["na"]]
json.dump(dict(version=1, setup_cmd="bash build.sh", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks")
