"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
G = "src/acetone_nnet/"


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, level="other", observe=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [G + f for f in files], "mechanism": [{"name": n, "where": G + w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, level, na))


exec(open(os.path.join(ROOT, "tools", "props_list.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 10)'", "checks": [], "not_applicable": [],
       "notes": "All checks are static: they read /repo's current source (Python syntax trees and mustache templates) and never import or run it."}
for d, t, note, level, na in P:
    if na:
        man["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        man["checks"].append({"property": d["id"], "quick_cmd": f"python3 check.py {d['id']}", "thorough_cmd": f"python3 check.py {d['id']} --thorough", "technique": t, "level": level, "level_note": note})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")
