"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
from pathlib import Path

from catalog import P

root = Path(__file__).resolve().parent.parent
with open(root / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p["observe"], "hook_needed": None,
            },
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        assert (root / "kpstatic/rules" / f"{p['id'].lower()}.py").exists() == (p["na"] is None), p["id"]
checks = [
    {
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": "other", "level_note": p["note"],
    }
    for p in P if p["na"] is None
]
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 10)\"",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"] is not None],
    "notes": "Static analysis of /repo's source only: nothing of kikuchipy is imported or run. "
             "Python standard library only.",
}
(root / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(P), "properties,", len(checks), "claimed")
