#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, sys, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.modules.setdefault("gen", sys.modules[__name__])
entries = []
def P(id, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, (id, len(title))
    entries.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, technique=technique, note=note))
if __name__ == "__main__":
    for f in sorted(os.listdir(here)):
        if f.startswith("props") and f.endswith(".py"):
            importlib.import_module(f[:-3])
    entries.sort(key=lambda e: e["id"])
    root = os.path.dirname(here)
    with open(root + "/properties.jsonl", "w") as o:
        for e in entries:
            for f in e["files"]:
                assert os.path.exists("/repo/" + f), (e["id"], f)
            o.write(json.dumps({"id": e["id"], "title": e["title"], "statement": e["statement"],
                "quantifier": {"over": e["over"], "text": e["text"]}, "why_tests_cant": e["why"],
                "anchors": {"files": e["files"], "mechanism": [{"name": a, "where": b} for a, b in e["mechanism"]], "hook_needed": None}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": e["id"], "quick_cmd": f"bash check.sh {e['id']} quick", "thorough_cmd": f"bash check.sh {e['id']} thorough",
                     "technique": e["technique"], "level": "exploration", "level_note": e["note"]} for e in entries],
         "not_applicable": [],
         "notes": "No hooks in /repo: every check drives the exported API. Replay a reported case with: bash check.sh -replay FILE"}
    json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(root + "/MANIFEST.json", "a").write("\n")
    print(len(entries), "properties")
