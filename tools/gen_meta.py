"""Write properties.jsonl and MANIFEST.json from tools/props.py (run by hand when the table changes)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools import props

claimed = [p for p in props.P if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"],
                                             mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]]))) + "\n")
NA = getattr(props, "NA", {})
man = dict(version=1, setup_cmd="true",
           checks=[dict(property=p["id"], quick_cmd="python3-vt checks/run.py %s --tier quick" % p["id"],
                        thorough_cmd="python3-vt checks/run.py %s --tier thorough" % p["id"],
                        technique=p["technique"], level=p["level"], level_note=p["note"]) for p in claimed],
           hooks=dict(guard="none", enable="no hooks: the checks import the unmodified modules of /repo", source_commits=[]),
           not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check not built")) for p in props.P if p not in claimed],
           notes="see DESIGN.md")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed")
